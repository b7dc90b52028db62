"""C14 (fee cache), C15 (rate cache), C16 (amount conversion)."""
import decimal, re
from .. import env, btc, world
from ..core import limbs
from .services import records

T0 = 1700000000
DOWN = {'refused': ('refused',), 'timeout': ('timeout',), 's503': ('status', 503), 's429': ('status', 429), 's404': ('status', 404)}


def one_fee(hist):
    import bit
    from bit.network import get_fee, get_fee_cached
    w = world.World()
    w.fees = {'fastestFee': 100, 'halfHourFee': 150, 'hourFee': 200, 'economyFee': 3, 'minimumFee': 1}
    env.Net.handler, env.Net.count = w.handle, 0
    env.Clock.now = T0
    out = []
    for e in hist:
        e = dict(e)
        if e['e'] == 'tick':
            env.Clock.now += e['d']
        elif e['e'] == 'ct':
            bit.set_fee_cache_time(e['t'])
        elif e['e'] == 'srv':
            w.fault = {} if e['up'] else {'fees': DOWN[e['how']]}
            w.fees = {'fastestFee': e['fast'], 'halfHourFee': 150, 'hourFee': e['hour'], 'economyFee': 3, 'minimumFee': 1}
        elif e['e'] in ('call', 'fresh'):
            n = len(w.log)
            v, x = env.call(get_fee_cached if e['e'] == 'call' else get_fee, e['speed'] == 'fast')
            e['raised'] = x is not None
            e['ret'] = v if isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 2 ** 31 else -1
            e['fetches'] = len(w.log) - n
        out.append(e)
    return {'hist': out}


def fee_cfg(n, deltas, times, downs):
    return 'CONSTANTS Deltas = {%s}\nCacheTimes = {%s}\nMaxCalls = %d\nDowns = {%s}\n' % (
        ', '.join(map(str, deltas)), ', '.join(map(str, times)), n, ', '.join('"%s"' % d for d in downs))


def run_c14(ctx):
    ctx.model_check('FeeCache', fee_cfg(7 if ctx.quick else 8, [1, 600, 601], [60, 600], ['refused']) +
                    'INIT Init\nNEXT Next\nINVARIANTS NotOlder Freshest FetchedIfUp\nCONSTRAINT Bound\nVIEW View\n')
    scns = ctx.generate('FeeCache', fee_cfg(4 if ctx.quick else 5, [1, 600], [60], ['refused']) + 'INIT Init\nNEXT GenNext\n')
    scns = [s for s in scns if s[-1]['e'] == 'end' or True]
    sim = ctx.generate('FeeCache', fee_cfg(14, [1, 59, 60, 61, 599, 600, 601, 100000], [0, 1, 60, 600, 3600], list(DOWN)) + 'INIT Init\nNEXT GenNext\n',
                       num=4000 if ctx.quick else 60000, depth=16)
    scns = [s for s in scns + sim if any(e['e'] == 'call' for e in s)]
    recs = records(scns, env.run_many(one_fee, scns, fresh=True), ctx)
    ctx.judge('FeeCacheTrace', recs)
    run_overlap(ctx, True)


# ------------------------------------------------------------------ overlapping callers (C14, C15)
def one_overlap(s):
    import bit, requests, threading
    from bit.network import get_fee_cached, rates
    w = world.World()
    env.Clock.now = T0
    fee = s['fee']
    (bit.set_fee_cache_time if fee else bit.set_rate_cache_time)(s['ct'])
    keys = ('fast', 'hour') if fee else tuple(s['curs'])
    f = (lambda k: get_fee_cached(k == 'fast')) if fee else (lambda k: rates.currency_to_satoshi_cached(1, k))
    r = {'ct': s['ct'], 'fee': fee, 'answers': [], 'calls': []}
    events = list(s['hist'])
    who = {}                # thread -> the call it makes
    outcome = {}            # call -> whether the service answers it
    waiting = []
    clock = lambda: env.Clock.now - T0

    def begin(key):
        c = {'key': key, 'start': clock(), 'end': 0, 'ret': -1, 'exc': [], 'asked': False, 'answered': False, 'hang': True}
        r['calls'].append(c)

        def go():
            who[threading.get_ident()] = c
            try:
                v = f(key)
                c['ret'] = v if isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 2 ** 31 else -1
            except BaseException as e:      # noqa: B902
                c['exc'] = env.exc_kinds(e)
            c['end'], c['hang'] = clock(), False
        t = threading.Thread(target=go, daemon=True)
        t.start()
        waiting.append(t)
        return t

    def handle(req):
        c = who.get(threading.get_ident()) or [x for x in r['calls'] if x['hang']][-1]
        c['asked'] = True
        n = id(c)
        while n not in outcome:
            e = events.pop(0) if events else {'e': 'reply', 'up': True}
            if e['e'] == 'tick':
                env.Clock.now += e['d']
            elif e['e'] == 'ask':
                begin(e['key']).join(.15)       # one that waits for this request is left waiting
            elif e['e'] == 'reply':
                outcome[n] = e['up']
        if not outcome[n]:
            raise requests.exceptions.ConnectionError('down')
        v = len(r['answers']) + 1
        w.fees = {'fastestFee': 1000 + 2 * v, 'halfHourFee': 1, 'hourFee': 1001 + 2 * v, 'economyFee': 3, 'minimumFee': 1}
        val = lambda k, p: 100000 * (FIAT.index(k) + 1) + 100 * v + 13 * p
        if not fee:
            for k in keys:
                w.rates[('bitpay', k.upper())] = float('%.7f' % (10 ** 8 / (val(k, 0) + 0.5)))
                w.rates[('blockchain', k.upper())] = '%.8f' % (decimal.Decimal(val(k, 1)) / 10 ** 8)
        got = w.handle(req)
        svc = w.log[-1]['svc']
        vals = {'fast': 1000 + 2 * v, 'hour': 1001 + 2 * v} if fee else {k: val(k, svc != 'bitpay') for k in keys}
        r['answers'].append({'t': clock(), 'vals': vals})
        c['answered'] = True
        return got
    env.Net.handler, env.Net.count = handle, 0
    while events:
        e = events.pop(0)
        if e['e'] == 'tick':
            env.Clock.now += e['d']
        elif e['e'] == 'ask':
            begin(e['key']).join(20)
            for t in waiting:
                t.join(10)
            del waiting[:]
    return r


def run_overlap(ctx, fee):
    q = lambda xs: ', '.join('"%s"' % x for x in xs)
    cfg = 'CONSTANTS Keys = {%s}\nDeltas = {%s}\nCacheTime = %d\nMaxLen = %d\nMaxDepth = %d\nMaxDown = %d\nINIT Init\n'
    inv = 'NEXT Next\nINVARIANTS NeverStale NeverMissing\nCONSTRAINT Bound\nVIEW View\n'
    keys = ['fast', 'hour'] if fee else ['usd', 'jpy']
    ctx.model_check('Overlap', cfg % (q(keys), '30, 60, 61', 60, 8 if ctx.quick else 10, 3, 2) + inv)
    scns = ctx.generate('Overlap', cfg % (q(keys[:1]), '30, 61', 60, 6 if ctx.quick else 7, 2, 1) + 'NEXT GenNext\n')
    scns += ctx.generate('Overlap', cfg % (q(keys), '1, 59, 60, 61, 700', 60, 13, 3, 3) + 'NEXT GenNext\n', num=700 if ctx.quick else 12000, depth=16)
    scns = [{'fee': fee, 'ct': 60, 'curs': keys, 'hist': [e for e in h if e['e'] != 'end']} for h in scns if sum(e['e'] == 'ask' for e in h) > 1]
    recs = records(scns, env.run_many(one_overlap, scns, fresh=True), ctx)
    ctx.judge('OverlapTrace', recs)
    ctx.notes['overlapping'] = {'histories': len(recs), 'calls': sum(len(r['rec']['calls']) for r in recs)}


# ------------------------------------------------------------------ C15
FIAT = ['usd', 'eur', 'gbp', 'jpy', 'cny', 'cad', 'aud', 'nzd', 'rub', 'brl', 'chf', 'sek', 'dkk', 'isk', 'pln', 'hkd', 'krw', 'sgd', 'thb', 'twd', 'clp']
PLACES = dict({c: 2 for c in FIAT}, jpy=0, krw=0, clp=0, satoshi=0, ubtc=2, mbtc=5, btc=8)
RSEED = 0


def value_of(cur, provider, v):
    """Satoshi value quoted for a currency: distinct per currency, provider and version."""
    return 1000 + 97 * (v * 7 % 9) + (0 if provider == 'bitpay' else 13) + 1000 * (FIAT.index(cur) + 1)


def set_quotes(w, v):
    for c in FIAT:
        b = value_of(c, 'bitpay', v)
        # a rate whose inverse is in [b, b+1) satoshi
        w.rates[('bitpay', c.upper())] = float('%.6f' % (10 ** 8 / (b + 0.5)))
        w.rates[('blockchain', c.upper())] = '%.8f' % (decimal.Decimal(value_of(c, 'blockchainrates', v)) / 10 ** 8)


def scaled(text, places):
    """A plain decimal string -> integer number of 10^-places, or None."""
    if not isinstance(text, str) or not re.fullmatch(r'\d+(\.\d+)?', text):
        return None
    i, _, f = text.partition('.')
    if len(f) > places:
        return None
    return int(i + f.ljust(places, '0'))


def one_rate(hist):
    import bit
    from bit.network import rates
    from bit.network.rates import set_rate_cache_time
    w = world.World()
    set_quotes(w, 0)
    env.Net.handler, env.Net.count = w.handle, 0
    env.Clock.now = T0
    ver = 0
    up = {'bitpay': True, 'blockchainrates': True}
    out = []
    for j, e in enumerate(hist):
        e = dict(e)
        if e['e'] == 'tick':
            env.Clock.now += e['d']
        elif e['e'] == 'ct':
            set_rate_cache_time(e['t'])
        elif e['e'] == 'quote':
            ver = e['v']
            set_quotes(w, ver)
        elif e['e'] == 'up':
            up[e['p']] = e['how'] == 'up'
            if up[e['p']]:
                w.fault.pop(e['p'], None)
            else:
                w.fault[e['p']] = DOWN[e['how']]
        elif e['e'] == 'call':
            n = len(w.log)
            cur, kind = e['cur'], e['kind']
            amt = (1, 7, 100, 12345, 999, 2)[j % 6] if kind in ('to', 'toc') else (10 ** 8, 123456789, 999999, 1, 2 * 10 ** 15 + 7)[j % 5]
            if kind == 'to':
                v, x = env.call(rates.currency_to_satoshi, amt, cur)
            elif kind == 'toc':
                v, x = env.call(rates.currency_to_satoshi_cached, amt, cur)
            elif kind == 'from':
                v, x = env.call(rates.satoshi_to_currency, amt, cur)
            elif kind == 'fromc':
                v, x = env.call(rates.satoshi_to_currency_cached, amt, cur)
            else:
                k = bit.PrivateKey.from_int(5)
                k.balance = amt
                v, x = env.call(k.balance_as, cur)
            if kind in ('to', 'toc'):
                res, fmt = (v, True) if isinstance(v, int) and v >= 0 else (0, False)
            else:
                res = scaled(v, PLACES[cur])
                fmt = res is not None
                res = res or 0
            e.update(log=[y['svc'] for y in w.log[n:]], up=dict(up), amt=limbs(amt), res=limbs(res), fmt=fmt, exc=env.exc_kinds(x),
                     quotes={p: limbs(value_of(cur, p, ver)) for p in up})
        out.append(e)
    return {'hist': out}


def rate_cfg(curs, deltas, times, n, downs, kinds):
    q = lambda xs: ', '.join('"%s"' % x for x in xs)
    return ('CONSTANTS Deltas = {%s}\nCacheTimes = {%s}\nMaxLen = %d\nDowns = {%s}\nKinds = {%s}\nCurs <- MyCurs\n' % (
        ', '.join(map(str, deltas)), ', '.join(map(str, times)), n, q(downs), q(kinds)), 'MyCurs == <<%s>>' % q(curs))


def run_c15(ctx):
    cfg, defs = rate_cfg(['usd', 'jpy'], [60, 61], [10, 60], 4 if ctx.quick else 5, ['refused'], ['toc', 'to'])
    ctx.model_check('RateCache', cfg + 'INIT Init\nNEXT Next\nINVARIANTS CachedIsFresh OwnCurrency ErrorOnlyIfDown\nCONSTRAINT Bound\nVIEW View\n', defs=defs)
    scns = []
    # every currency: fresh fetch from each provider, cached reuse, expiry, outage, foreign currency in between
    for i, c in enumerate(FIAT):
        o = FIAT[(i + 1) % len(FIAT)]
        call = lambda kind, cur=c: {'e': 'call', 'kind': kind, 'cur': cur}
        dn = lambda p: {'e': 'up', 'p': p, 'how': 'refused'}
        upp = lambda p: {'e': 'up', 'p': p, 'how': 'up'}
        for kind in ('toc', 'fromc', 'to', 'from', 'balance'):
            scns.append([call(kind), {'e': 'quote', 'v': 1}, call(kind), {'e': 'tick', 'd': 60}, call(kind), {'e': 'tick', 'd': 1}, call(kind)])
            scns.append([dn('bitpay'), call(kind), upp('bitpay'), {'e': 'quote', 'v': 2}, {'e': 'tick', 'd': 61}, dn('blockchainrates'), call(kind), dn('bitpay'), {'e': 'tick', 'd': 61}, call(kind), upp('blockchainrates'), call(kind)])
            scns.append([call(kind, o), {'e': 'tick', 'd': 30}, call(kind), {'e': 'tick', 'd': 31}, {'e': 'quote', 'v': 3}, call(kind), call(kind, o)])
    cfg, defs = rate_cfg(['usd', 'jpy', 'eur'], [1, 10, 59, 60, 61, 5000], [0, 10, 60, 3600], 14, list(DOWN), ['toc', 'fromc', 'to', 'from', 'balance'])
    sim = ctx.generate('RateCache', cfg + 'INIT Init\nNEXT GenNext\n', defs=defs, num=2500 if ctx.quick else 40000, depth=16)
    strip = lambda h: [{k: v for k, v in e.items() if k != 'out'} for e in h]
    scns += [strip(s) for s in sim if any(e['e'] == 'call' for e in s)]
    recs = records(scns, env.run_many(one_rate, scns, fresh=True), ctx)
    ctx.judge('RateCacheTrace', recs)
    run_overlap(ctx, False)


# ------------------------------------------------------------------ C16
def denote(text):
    """Decimal text -> (n, d): n / 10^d."""
    s = decimal.Decimal(text)
    sign, dg, ex = s.as_tuple()
    assert sign == 0
    n = int(''.join(map(str, dg)))
    return (n, -ex) if ex < 0 else (n * 10 ** ex, 0)


def prelude(p):
    import bit
    from bit.network import NetworkAPI, rates
    from bit.network.meta import Unspent
    w = world.World()
    if p == 'rpc':
        w.nodes['node:1'] = lambda m, a: ('result', 'RAWJSON12.34567891') if m == 'getreceivedbyaddress' else ('result', [])
        env.Net.handler = w.handle
        from bit.network.services import RPCHost
        h = RPCHost('u', 'p', 'node', 1, False, '')
        env.call(h.get_balance, '1BoatSLRHtKNngkdXEeobR76b53LETtpyT')
    elif p == 'pay':
        k = bit.PrivateKeyTestnet.from_int(9)
        us = [Unspent(10 ** 6, 1, btc.p2pkh(btc.h160(btc.pub(9))).hex(), btc.txid(5), 0)]
        env.call(k.create_transaction, [(k.address, '0.5', 'mbtc')], fee=2, unspents=us)
    elif p == 'quote':
        env.call(rates.satoshi_to_currency_cached, 10 ** 15 + 1, 'btc')
        env.call(rates.satoshi_to_currency, 17, 'mbtc')
    elif p == 'fiat':
        set_quotes(w, 1)
        env.Net.handler = w.handle
        env.call(rates.currency_to_satoshi_cached, '1.5', 'usd')
        env.call(rates.satoshi_to_currency_cached, 12345, 'jpy')
    elif p == 'bad':
        env.call(rates.currency_to_satoshi, 'nonsense', 'btc')
        env.call(rates.currency_to_satoshi_cached, '1', 'xyz')
    elif p == 'multi':
        env.call(bit.PrivateKey().balance_as, 'btc')


def one_unit(s):
    import bit
    from bit.network import rates
    env.Clock.now = (env.Clock.now or T0) + 100000
    for p in s['pre']:
        prelude(p)
    w = world.World()
    env.Net.handler, env.Net.count = w.handle, 0
    rate = 0
    if s['cur'] in FIAT:
        # both providers quote the same number of satoshi for one unit
        rate = s.get('rate', 0)
        w.rates[('bitpay', s['cur'].upper())] = float('%.10g' % (10 ** 8 / (rate + 0.5)))
        w.rates[('blockchain', s['cur'].upper())] = '%.8f' % (decimal.Decimal(rate) / 10 ** 8)
        if 'price' in s:
            w.rates[('bitpay', s['cur'].upper())] = s['price']
            w.rates[('blockchain', s['cur'].upper())] = '%.12f' % (1 / decimal.Decimal(s['price']))
        env.Clock.now += 100000
    ds, dec = s['digits'], s['dec']
    form = s['form']
    text = ''.join(map(str, ds))
    if s['dir'] == 'from':
        n = min(int(text), 2100000000000000)
        if s['api'] == 'wallet':
            k = bit.PrivateKey.from_int(3)
            k.balance = n
            v, x = env.call(k.balance_as, s['cur'])
        else:
            v, x = env.call(rates.satoshi_to_currency if s['api'] == 'plain' else rates.satoshi_to_currency_cached, n, s['cur'])
        res = scaled(v, PLACES[s['cur']])
        fmt = res is not None
        d = 0
    else:
        if form == 'int':
            amt = int(text)
            t = str(amt)
        else:
            t = text.rjust(dec + 1, '0')
            if dec:
                t = t[:-dec] + '.' + t[-dec:]
            if form == 'exp':
                t = '%se-%d' % (text, dec)
            if form == 'pad':
                t = '00' + t + ('000' if '.' in t else '.000')
            amt = t
            if form == 'dec':
                amt = decimal.Decimal(t)
            if form == 'float':
                amt = float(t)
                t = repr(amt)
        n, d = denote(t)
        v, x = env.call(rates.currency_to_satoshi if s['api'] == 'plain' else rates.currency_to_satoshi_cached, amt, s['cur'])
        res, fmt = (v, True) if isinstance(v, int) and v >= 0 else (0, False)
    return {'dir': s['dir'], 'cur': s['cur'], 'n': limbs(n), 'd': d, 'res': limbs(res or 0), 'fmt': fmt, 'rate': limbs(10 ** 8 if 'price' in s else rate), 'per': limbs(s.get('price', 1)), 'raised': x is not None}


def run_c16(ctx):
    pre = ['rpc', 'pay', 'quote', 'fiat', 'bad', 'multi']
    cfg = 'CONSTANTS NDigits = %d\nPreludes = {%s}\nINIT Init\nNEXT Next\n'
    q = ', '.join('"%s"' % p for p in pre)
    # exhaustive over short amounts
    scns = ctx.generate('UnitsGen', cfg % (2, '') if ctx.quick else cfg % (3, ''))
    sim = ctx.generate('UnitsGen', cfg % (26, q), num=6000 if ctx.quick else 60000, depth=40)
    big = []
    for cur in ('satoshi', 'ubtc', 'mbtc', 'btc'):
        for api in ('plain', 'cached'):
            for pr in pre + [None]:
                for n in (2099999999999999, 2100000000000000, 1, 0, 10 ** 8 - 1, 10 ** 8, 10 ** 8 + 1, 123456789, 999999999999999, 1000000000000001):
                    big.append({'digits': list(map(int, str(n))), 'dec': 0, 'cur': cur, 'dir': 'from', 'form': 'int', 'pre': [pr] if pr else [], 'api': api})
                    for dec in (0, 8, 9):
                        big.append({'digits': list(map(int, str(n))), 'dec': dec, 'cur': cur, 'dir': 'to', 'form': ('str', 'float', 'dec')[n % 3], 'pre': [pr] if pr else [], 'api': api})
            for nd in (20, 27, 28, 29, 30, 36, 45):
                for first in (9, 1):
                    big.append({'digits': [first] + [9] * (nd - 1), 'dec': nd, 'cur': cur, 'dir': 'to', 'form': 'str', 'pre': [], 'api': api})
                    big.append({'digits': [2] + [9] * (nd - 1), 'dec': nd - 2, 'cur': cur, 'dir': 'to', 'form': 'str', 'pre': [], 'api': api})
    # every currency, at rates from one satoshi a unit up
    fiat = []
    for i, cur in enumerate(FIAT):
        for j, rate in enumerate((1, 2, 3, 7, 64, 97, 999, 1001, 6543, 12345, 99991, 1000003, 66666667)):
            for m, n in enumerate((0, 1, 2, 5, rate - 1, rate, rate + 1, 199 * rate // 100, 3 * rate // 2, 995 * rate // 1000, 5 * rate // 2, 123456789, 10 ** 8, 2100000000000000, 2099999999999999)):
                if ctx.quick and (i + j + m + ctx.seed) % 3:
                    continue
                api = ('plain', 'cached', 'wallet')[(i + j + m) // 3 % 3]
                fiat.append({'digits': list(map(int, str(n))), 'dec': 0, 'cur': cur, 'dir': 'from', 'form': 'int', 'pre': [], 'api': api, 'rate': rate})
                fiat.append({'digits': list(map(int, str(n % 10 ** 9 + 1))), 'dec': m % 4, 'cur': cur, 'dir': 'to', 'form': ('str', 'float', 'dec', 'int')[(j + m) % 4], 'pre': [],
                             'api': ('plain', 'cached')[(i + j + m) // 3 % 2], 'rate': rate})
    scns = scns + sim + big + fiat
    recs = records(scns, env.run_many(one_unit, scns, fresh=False), ctx)
    # history independence needs clean processes for the scenarios with a past
    past = [s for s in scns if s['pre']][:1500 if ctx.quick else 20000]
    recs += records(past, env.run_many(one_unit, past, fresh=True), ctx)
    # a unit worth two thirds of a satoshi: see known_findings.txt
    kf = [{'digits': [1, 0, 0, 0, 0, 0], 'dec': 0, 'cur': 'krw', 'dir': 'from', 'form': 'int', 'pre': [], 'api': api, 'price': 150000000, 'kf': 'krw-below-one-satoshi'}
          for api in ('plain', 'cached', 'wallet')]
    recs += records(kf, env.run_many(one_unit, kf, fresh=True), ctx)
    ctx.judge('UnitsTrace', recs, known=lambda r, bad: ctx.listed(r['scn']['kf']) if bad == {'raised'} and 'kf' in r['scn'] else None)
