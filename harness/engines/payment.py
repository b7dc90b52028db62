"""Payments: C01-C04, C17, C19, C20, C24."""
import decimal, json, random
from .. import env, btc, world
from ..core import limbs
from .services import records

# multisig policies: (m, n, compression of each key)
POLICIES = [(1, 1, 'c'), (1, 2, 'c'), (2, 2, 'c'), (2, 3, 'c'), (3, 3, 'c'), (3, 5, 'c'), (1, 2, 'u'), (2, 3, 'm'), (15, 15, 'c'), (7, 7, 'u'), (2, 15, 'c'), (4, 7, 'm')]
SEQ = {'max': 0xffffffff, 'max1': 0xfffffffe, 'max2': 0xfffffffd, 'zero': 0, 'five': 5}
FEE = 30     # what the simulated fee service advises
# satoshi one unit of a currency buys at the simulated providers, and its decimals
FIAT = {'usd': (2531, 2), 'eur': (2779, 2), 'jpy': (17, 0)}
UNIT = {'satoshi': 0, 'ubtc': 2, 'mbtc': 5, 'btc': 8}


def policies(idx):
    return 'Policies <- MyPol\n', 'MyPol == <<%s>>' % ', '.join(
        '[m |-> %d, n |-> %d, comp |-> %s]' % (m, n, 'TRUE' if c == 'c' else 'FALSE') for m, n, c in (POLICIES[i] for i in idx))


class Wallet:
    """A wallet of the code under test and what the harness knows about it."""
    def __init__(self, w, base=1, polset=None):
        import bit
        self.net, self.multi = w['net'], w['cls'] == 'multi'
        self.K = bit.PrivateKey if self.net == 'main' else bit.PrivateKeyTestnet
        self.M = bit.MultiSig if self.net == 'main' else bit.MultiSigTestnet
        if self.multi:
            m, n, c = w['policy']
            comps = [c == 'c' or (c == 'm' and i % 2 == 0) for i in range(n)]
        else:
            m, n, comps = 1, 1, [w['comp']]
        self.m, self.n = m, n
        self.secrets = [btc.secret(base + i) for i in range(n)]
        self.comps = comps
        self.pubs = [btc.pub(s, c) for s, c in zip(self.secrets, comps)]
        self.redeem = btc.redeem(self.pubs, m)
        self.allcomp = all(comps)
        if self.multi:
            self.spk = {'legacy': btc.p2sh(btc.h160(self.redeem)), 'segwit': btc.p2sh(btc.h160(b'\x00\x20' + btc.sha(self.redeem)))}
            self.addr = {'legacy': btc.sh_addr(btc.h160(self.redeem), self.net), 'segwit': btc.sh_addr(btc.h160(b'\x00\x20' + btc.sha(self.redeem)), self.net)}
        else:
            wp = b'\x00\x14' + btc.h160(self.pubs[0])
            self.spk = {'legacy': btc.p2pkh(btc.h160(self.pubs[0])), 'segwit': btc.p2sh(btc.h160(wp))}
            self.addr = {'legacy': btc.pkh_addr(self.pubs[0], self.net), 'segwit': btc.sh_addr(btc.h160(wp), self.net)}

    def key(self, i=0):
        return self.K(btc.wif(self.secrets[i], self.comps[i], self.net))

    def open(self, i=0):
        k = self.key(i)
        return self.M(k, list(self.pubs), self.m) if self.multi else k

    def cls(self):
        return self.M if self.multi else self.K

    def type(self, kind):
        if self.multi:
            return 'p2sh' if kind == 'legacy' else 'np2wsh'
        return 'np2wkh' if kind == 'segwit' else 'p2pkh' if self.comps[0] else 'p2pkh-uncompressed'

    def rec(self):
        return {'multi': self.multi, 'net': self.net, 'pubs': [p.hex() for p in self.pubs], 'm': self.m}


def dest(kind, w, i):
    """An address of the given kind on the wallet's network."""
    net = w.net
    h = btc.h160(b'dest%d' % i)
    hrp = 'bc' if net == 'main' else 'tb'
    if kind == 'self':
        return w.addr['legacy']
    if kind == 'selfsw':
        return w.addr['segwit']
    if kind == 'p2pkh':
        return btc.b58check((b'\x00' if net == 'main' else b'\x6f') + h)
    if kind == 'p2sh':
        return btc.sh_addr(h, net)
    if kind == 'p2wpkh':
        return btc.bech32(hrp, 0, h)
    if kind == 'BECH':
        return btc.bech32(hrp, 0, h).upper()
    if kind == 'p2wsh':
        return btc.bech32(hrp, 0, btc.sha(b'dest%d' % i))
    if kind == 'v1':
        return btc.bech32(hrp, 1, btc.sha(b'dest%d' % i))
    if kind == 'v16':
        return btc.bech32(hrp, 16, h[:(2, 5, 20)[i % 3]])
    raise KeyError(kind)


def script_len(a, w):
    if a in (w.addr['legacy'],):
        return len(w.spk['legacy'])
    if a[:3].lower() in ('bc1', 'tb1'):
        return (len(a) - 3 - 1 - 6) * 5 // 8 + 2
    return 23 if a[0] in '32' else 25


def express(sat, unit, form):
    """sat satoshi written in a unit and a numeric form, exactly."""
    p = UNIT[unit]
    d = decimal.Decimal(sat).scaleb(-p, decimal.Context(prec=60))
    text = format(d, 'f')
    if form == 'int' and sat % 10 ** p == 0:
        return sat // 10 ** p
    if form == 'dec':
        return decimal.Decimal(text)
    if form == 'float':
        f = float(text)
        if 'e' not in repr(f) and decimal.Decimal(repr(f)) == d:
            return f
    return text


def texts(spk, c):
    # hex digits of a coin's script and id may be written either way
    return (spk.hex().upper(), c['txid'].upper()) if c['amt'] % 5 == 3 else (spk.hex(), c['txid'])


def message(m):
    n = m['len']
    if m['form'] == 'none':
        return None, False, b''
    if m['form'] == 'ascii':
        t = ''.join(chr(33 + (7 * i + n) % 90) for i in range(n))
        return t, False, t.encode()
    if m['form'] == 'utf8':
        t, i = '', 0
        while len(t.encode()) < n:
            left = n - len(t.encode())
            c = ('é', '€', '😀', 'x', 'ß')[i % 5]
            t += c if len(c.encode()) <= left else 'z'
            i += 1
        return t, False, t.encode()
    if m['form'] == 'blank':        # blanks and control characters, at both ends too
        t = ''.join('\n \t\x00x\r\u00a0\x7f\x00'[(i * 5 + n) % 9] for i in range(n))
        t = ' \n'[n % 2] + t[1:-1] + ' \x00'[n % 2] if n > 2 else t
        return t, False, t.encode()
    if m['form'] == 'zeros':        # data with zero bytes wherever a piece may begin or end
        b = bytes(0 if i % 80 in (0, 1, 78, 79) or n - i < 4 or n % 3 == 0 else (i * 37 + n) % 256 for i in range(n))
        return b, True, b
    b = bytes((i * 37 + n) % 256 for i in range(n))
    return b, True, b


def vsizes(W, w, coins):
    """Sizes the wallet records for its coins on refresh (observed on a second instance)."""
    env.Net.handler = w.handle
    k = W.open()
    us, e = env.call(k.get_unspents)
    return us, e


def build(s):
    """Concretise a scenario."""
    rnd = random.Random(json.dumps(s, sort_keys=True))
    wd = dict(s['w'])
    if wd['cls'] == 'multi':
        wd['policy'] = s['policy'] if 'policy' in s else POLICIES[s['pols'][wd['pol'] - 1]]
    W = Wallet(wd)
    coins = []
    base = {'dust': 300, 'small': 9000, 'mid': 150000, 'big': 100000000, 'huge': 600000000000000}
    for i, c in enumerate(s['coins']):
        v = c['val']
        if v == 'dup' and coins:
            amt = coins[-1]['amt']
        elif isinstance(v, int):
            amt = v
        elif v in ('nil', 'unit'):      # coins of no worth are coins all the same
            amt = int(v == 'unit')
        elif v == 'cap':
            amt = 2100000000000000 - i % 2
        else:
            b = base.get(v, 150000)
            amt = b + rnd.randrange(b)
        coins.append({'kind': c['kind'], 'amt': amt, 'txid': btc.txid(rnd.randrange(10 ** 9)), 'n': rnd.choice((0, 1, 2, 255, 256, 65536, 70000)),
                      'seq': SEQ[c['seq']] if not isinstance(c['seq'], int) else c['seq'], 'vs': c['vs'], 'conf': rnd.randrange(5)})
    return W, coins, rnd


def before(W, k, coins, sizes, outs, kw, r2):
    """Another payment, or attempt at one, made earlier: of the same coins, or coins of other worth at the same place, to others."""
    from bit.network.meta import Unspent
    if r2.random() < .6:
        return
    how = r2.randrange(5)
    cs = [Unspent(c['amt'] + (how == 1) * (1 + r2.randrange(99)), c['conf'], *texts(W.spk[c['kind']], c), c['n'], W.type(c['kind']), vsize=z, sequence=(c['seq'] ^ 1) if how == 2 else c['seq'])
          for c, z in zip(coins, sizes)]
    to = list(outs)
    if how == 0 or not to:
        to = [(dest(r2.choice(('p2pkh', 'p2sh', 'p2wpkh')), W, 300 + r2.randrange(9)), 1 + r2.randrange(600), 'satoshi')]
    elif how == 3:
        to = [(a, 1 + r2.randrange(600), 'satoshi') for a, _, _ in to]
    opts = dict(kw, replace_by_fee=not kw['replace_by_fee']) if how == 4 else dict(kw)
    env.call((k if r2.random() < .5 else W.open()).create_transaction, to, unspents=cs, **opts)


def one_pay(s):
    import bit
    from bit.network.meta import Unspent
    W, coins, rnd = build(s)
    fetched = s['src'] == 'fetched'
    mode = s['mode']
    w = world.World()
    w.fees = {'fastestFee': FEE, 'halfHourFee': 25, 'hourFee': 11, 'economyFee': 2, 'minimumFee': 1}
    for c, (per, _) in FIAT.items():
        w.rates[('bitpay', c.upper())] = float('%.10g' % (10 ** 8 / (per + .5)))
        w.rates[('blockchain', c.upper())] = '%.8f' % (decimal.Decimal(per) / 10 ** 8)
    book = world.Book()
    other = world.Book()
    for kind in ('legacy', 'segwit'):
        mine = [c for c in coins if c['kind'] == kind]
        for bk, mul in ((book, 1), (other, 3)):
            bk.addr[W.addr[kind]] = {'chain': [], 'mempool': [], 'balance': None, 'script': W.spk[kind].hex(),
                                     'utxo': [world.coin(c['txid'], c['n'], c['amt'] * mul, W.spk[kind].hex(), 700000 - c['conf']) for c in mine]}
    w.books[('*', W.net)] = book
    # the other network knows "the same" coins with other values
    for a in list(other.addr):
        pass
    w.books[('*', 'test' if W.net == 'main' else 'main')] = other
    env.Net.handler, env.Net.count = w.handle, 0
    env.Clock.now = 1700000000
    prep = ''
    pkind = 'legacy'
    if mode == 'prepare':
        pkind = 'segwit' if W.allcomp and any(c['kind'] == 'segwit' for c in coins) and rnd.random() < .6 else 'legacy'
        prep = W.addr[pkind]
        if fetched:
            coins = [c for c in coins if c['kind'] == pkind]
    # the coins as offered
    std = True
    if fetched:
        if mode == 'prepare':
            # in the order the network interface lists them
            from .services import api
            us, e = env.call(api('unspents', W.net), prep)
            for u in us or []:
                u.set_type(W.type(pkind))
            us = us or []
        else:
            us, e = env.call(W.open().get_unspents)
            if e is not None:
                us = []
        w.log.clear()
        by = {(c['txid'], c['n']): c for c in coins}
        offered = []
        for u in us:
            c = by.get((u.txid, u.txindex))
            if c:
                offered.append((c, u.vsize, 0xffffffff))
        coins = [c for c, _, _ in offered]
        sizes = [v for _, v, _ in offered]
        for c in coins:
            c['seq'] = 0xffffffff
        supplied = lambda: None
    else:
        sizes = []
        for i, c in enumerate(coins):
            if c['vs'] == 'custom':
                sizes.append((61, 107.25, 140.5, 233.75, 512, 1000)[i % 6] + (len(coins) % 3))
                std = False
            elif isinstance(c['vs'], (int, float)):
                sizes.append(c['vs'])
                std = False
            else:
                sizes.append(None)
                if W.multi:
                    std = False

        def supplied():
            return [Unspent(c['amt'], c['conf'], *texts(W.spk[c['kind']], c), c['n'], W.type(c['kind']), vsize=v, sequence=c['seq'])
                    for c, v in zip(coins, sizes)]
        us = supplied()
        sizes = [u.vsize for u in us]
    # outputs
    leftover = '' if s['leftover'] in ('none', 'first') else dest(s['leftover'], W, 99)
    msg, ishex, raw = message(s['msg'])
    dests = []
    for i, o in enumerate(s['outs']):
        dests.append(dests[-1] if o['kind'] == 'again' and dests else dest('p2pkh' if o['kind'] == 'again' else o['kind'], W, i))
    if s['leftover'] == 'first':
        leftover = dests[0] if dests else ''
    total = sum(c['amt'] for c in coins)
    outsz = sum(script_len(a, W) + 9 for a in dests) + 92 * ((len(raw) + 79) // 80)
    chg = leftover or prep or (W.addr['segwit'] if any(c['kind'] == 'segwit' for c in coins) else W.addr['legacy'])
    rate = FEE if s['fee']['mode'] == 'default' else s['fee']['v']
    amts = []
    for i, o in enumerate(s['outs']):
        if i and o['kind'] == 'again' and o['val'] == 'same':      # the very same request once more
            o['unit'], o['form'] = s['outs'][i - 1]['unit'], s['outs'][i - 1]['form']
        v = o['val']
        a = {'one': 1, 'dust': 546, 'mid': 40000 + i, 'frac': max(1, total // (3 * len(dests))), 'odd': 12345 + rnd.randrange(5000), 'same': 7777}.get(v, v)
        amts.append(a)
    def settle(i):
        # an amount asked for in a national currency is a whole number of cents
        o, d = s['outs'][i], 0
        if o['val'] == 'same' and i and (i < len(amts) - 1 or s['edge'] == 'none'):
            amts[i] = amts[i - 1]
        n = amts[i]
        if s['edge'] != 'none' and i == len(amts) - 1 and o['unit'] in FIAT:
            o['unit'] = 'satoshi'     # the edge is exact
        per = 1
        if o['unit'] in FIAT:
            per, d = FIAT[o['unit']]
            n = max(1, amts[i] * 10 ** d // per)
            while n * per // 10 ** d == 0:
                n += 1
            amts[i] = n * per // 10 ** d
            v = decimal.Decimal(n).scaleb(-d, decimal.Context(prec=60))
            v = int(v) if o['form'] == 'int' and v == int(v) else v if o['form'] == 'dec' else float(v) if o['form'] == 'float' and decimal.Decimal(repr(float(v))) == v and 'e' not in repr(float(v)) else format(v, 'f')
        else:
            v = express(amts[i], o['unit'], o['form'])
        return {'n': limbs(n), 'd': d, 'per': limbs(per)}, v
    asked = [settle(i) for i in range(len(amts) - 1)]
    import math
    hint = []
    if not amts:
        pass
    elif s['edge'].startswith('fund') and coins:
        est = s['fee']['v'] if s['fee']['mode'] == 'abs' else rate * math.ceil(
            sum(sizes) + len(coins).bit_length() // 9 + 1 + outsz + script_len(chg, W) + 9 + 1 + 8 + (.5 if any(c['kind'] == 'segwit' for c in coins) else 0))
        amts[-1] = total - est - sum(amts[:-1]) - {'fund': 0, 'fund-1': -1, 'fund+1': 1, 'fund+600': 600}[s['edge']]
    elif s['edge'] != 'none' and coins:
        S = [i for i in range(len(coins)) if (s['mask'] >> i) & 1] or [0]
        d = {'-1': -1, '0': 0, '1': 1, 'half': 91 * rate, 'w-1': 182 * rate - 1, 'w': 182 * rate, 'w+1': 182 * rate + 1}[s['edge']]
        hint = [i + 1 for i in S]
        amts[-1] = math.floor(sum(coins[i]['amt'] for i in S) - rate * sum(sizes[i] for i in S) - rate * (9 + outsz) - sum(amts[:-1]) - d)
    if amts and (amts[-1] <= 0 and s['outs'][-1]['val'] != 0 or amts[-1] > 2100000000000000):
        amts[-1] = 1000
    if amts:
        asked.append(settle(len(amts) - 1))
    outs = [(a, q[1], o['unit']) for a, q, o in zip(dests, asked, s['outs'])]
    kw = {'combine': s['combine'], 'replace_by_fee': s['rbf'], 'absolute_fee': s['fee']['mode'] == 'abs'}
    if s['fee']['mode'] != 'default':
        kw['fee'] = s['fee']['v']
    if leftover:
        kw['leftover'] = leftover
    if msg is not None:
        kw['message'], kw['message_is_hex'] = msg, ishex
    r = {'w': W.rec(), 'outs': [dict(q[0], addr=a, amt=limbs(v)) for a, v, q in zip(dests, amts, asked)], 'leftover': leftover, 'prep': prep,
         'coins': [{'out': (bytes.fromhex(c['txid'])[::-1] + c['n'].to_bytes(4, 'little')).hex(), 'amt': limbs(c['amt']), 'amt8': c['amt'].to_bytes(8, 'little').hex(),
                    'q': int(z * 4), 'seg': c['kind'] == 'segwit', 'seq': c['seq'].to_bytes(4, 'little').hex(), 'spk': W.spk[c['kind']].hex()}
                   for c, z in zip(coins, sizes)],
         'absolute': s['fee']['mode'] == 'abs', 'fee': limbs(s['fee']['v']), 'rate': rate, 'combine': s['combine'], 'msg': raw.hex(), 'rbf': s['rbf'], 'hint': hint,
         'std': std, 'mode': mode, 'tx': '', 'final': '', 'exc': [], 'fexc': [], 'id': '', 'sent': [], 'same': '', 'leak': False}
    k = W.open()
    seed = rnd.randrange(2 ** 31)
    if coins and len(coins) < 60:
        before(W, k, coins, sizes, outs, kw, random.Random('before %d' % seed))
    random.seed(seed)
    args = list(outs)
    if mode == 'create':
        v, e = env.call(k.create_transaction, args, unspents=supplied(), **kw)
    elif mode == 'send':
        v, e = env.call(k.send, args, unspents=supplied(), **kw)
        r['sent'] = [h for _, _, h in w.broadcasts]
        r['id'] = v if isinstance(v, str) else repr(v)
        if e is None:
            v = r['sent'][0] if r['sent'] else ''
    else:
        extra = {} if W.multi else {'compressed': W.comps[0]}
        text, e = env.call(W.cls().prepare_transaction, prep, args, unspents=supplied(), **extra, **kw)
        v = None
        if e is None:
            r['leak'] = any(x in str(text) for sec in W.secrets for x in (sec.hex(), str(int.from_bytes(sec, 'big')))) or any(
                btc.wif(sec, c, W.net) in str(text) for sec in W.secrets for c in (True, False))
            v, e = env.call(k.sign_transaction, text)
        # direct creation with the same coins and options
        random.seed(seed)
        kw2 = dict(kw, leftover=leftover or prep)
        from_dicts = [Unspent(c['amt'], c['conf'], *texts(W.spk[c['kind']], c), c['n'], W.type(c['kind']), vsize=z, sequence=c['seq']) for c, z in zip(coins, sizes)]
        v2, e2 = env.call(W.open().create_transaction, list(outs), unspents=from_dicts, **kw2) if coins else (None, ValueError())
        det = s['combine'] or len(coins) <= 1
        if (e is None) != (e2 is None):
            r['same'] = 'no' if det else 'skip'
        elif e is not None:
            r['same'] = 'both-failed'
        elif v == v2:
            r['same'] = 'yes'
        else:
            # a different random selection is not a difference
            r['same'] = 'no' if det or prevouts(v) == prevouts(v2) else 'skip'
    r['exc'] = env.exc_kinds(e)
    if e is None:
        r['tx'] = v if isinstance(v, str) else ''
        r['final'] = r['tx']
        if W.multi and W.m > 1:
            order = list(range(1, W.n))
            rnd.shuffle(order)
            cs = [Unspent(c['amt'], c['conf'], *texts(W.spk[c['kind']], c), c['n'], W.type(c['kind']), sequence=c['seq']) for c in coins]
            cur = r['tx']
            for j in order[:W.m - 1]:
                cur, e = env.call(W.open(j).sign_transaction, cur, unspents=list(cs))
                if e is not None:
                    r['fexc'] = env.exc_kinds(e)
                    break
            if e is None:
                r['final'] = cur if isinstance(cur, str) else ''
    return r


def prevouts(h):
    """Outpoints of a serialised transaction (None when unreadable)."""
    try:
        b = bytes.fromhex(h)
        p = 6 if b[4:6] == b'\x00\x01' else 4
        def vi(p):
            n = b[p]
            if n < 253:
                return n, p + 1
            w = 2 ** (n - 252)
            return int.from_bytes(b[p + 1:p + 1 + w], 'little'), p + 1 + w
        n, p = vi(p)
        out = []
        for _ in range(n):
            out.append(b[p:p + 36])
            ln, p = vi(p + 36)
            p += ln + 4
        return out
    except Exception:
        return None


CLAUSES = {
    'C01': ['payment-missing', 'payment-wrong', 'extra-output', 'change-script', 'change-empty', 'message-position', 'malformed', 'unexpected-error'],
    'C02': ['overspent', 'fee-absolute', 'fee-rate', 'malformed', 'unexpected-error'],
    'C03': ['coin-foreign', 'no-coins', 'coin-twice', 'combine-order', 'missed-match', 'over-selected', 'false-shortage', 'overspent', 'malformed', 'unexpected-error'],
    'C04': ['input-invalid', 'cosign-error', 'cosign-changed', 'malformed', 'malformed-final', 'coin-foreign', 'unexpected-error'],
    'C17': ['sequence', 'input-invalid', 'malformed', 'unexpected-error'],
    'C19': ['prepared-differs', 'secret-leak', 'input-invalid', 'malformed', 'unexpected-error'],
    'C20': ['message-position', 'message-value', 'message-push', 'message-text', 'payment-wrong', 'extra-output', 'malformed', 'unexpected-error'],
    'C24': ['rate-low', 'rate-high', 'malformed', 'unexpected-error'],
}


def gen_cfg(idx, coins, outs, rates=(0, 1, 2, 7, 50, 1000), lens=(0, 1, 75, 76, 79, 80, 81, 160, 161, 200, 400), modes=('create', 'send', 'prepare')):
    p, d = policies(idx)
    q = lambda xs: ', '.join('"%s"' % x for x in xs)
    return ('CONSTANTS MaxCoins = %d\nMaxOuts = %d\nRates = {%s}\nMsgLens = {%s}\nModes = {%s}\n' % (
        coins, outs, ', '.join(map(str, rates)), ', '.join(map(str, lens)), q(modes)) + p, d)


SEL_CFG = '''CONSTANTS Amounts = {%s}
Costs = {%s}
Targets = {%s}
MaxN = %d
Overhead = 1
ChangeCost = 1
Window = 1
SPECIFICATION Spec
INVARIANTS OnceEach SelectionFunds UsesMatch StopsInTime AllWhenCombining HonestShortage ShortageReported
PROPERTY Terminates
'''


def base_scn(**k):
    s = {'w': {'cls': 'key', 'net': 'test', 'pol': 0, 'comp': True}, 'coins': [], 'outs': [{'kind': 'p2pkh', 'unit': 'satoshi', 'form': 'int', 'val': 'odd'}],
         'fee': {'mode': 'rate', 'v': 3}, 'combine': True, 'rbf': False, 'leftover': 'none', 'msg': {'form': 'none', 'len': 0},
         'mode': 'create', 'src': 'supplied', 'edge': 'none', 'mask': 0, 'salt': 0}
    s.update(k)
    return s


def coin(kind='legacy', val='mid', seq='max', vs='type'):
    return {'kind': kind, 'val': val, 'seq': seq, 'vs': vs}


def boundary(ctx, prop):
    """Counts and lengths across every length-prefix boundary (directed)."""
    out = []
    key = lambda net, comp=True: {'cls': 'key', 'net': net, 'pol': 0, 'comp': comp}
    if prop in ('C01', 'C02', 'C04'):
        for n, kind in ((252, 'segwit'), (253, 'segwit'), (256, 'segwit'), (253, 'legacy')):
            for net in ('main', 'test') if not ctx.quick or n == 253 else ('main',):
                out.append(base_scn(w=key(net), coins=[coin(kind, 'big') for _ in range(n)]))
        for n, at in ((257, (0, 256)), (300, (255, 256, 299)), (520, (3,))):
            out.append(base_scn(w=key('test' if n == 300 else 'main'), coins=[coin('legacy' if i in at else 'segwit', 'big') for i in range(n)]))
        for n in (250, 251, 252, 253, 254, 255, 256):
            out.append(base_scn(w=key('main' if n % 2 else 'test'), coins=[coin('segwit', 'big'), coin('legacy', 'big')],
                                outs=[{'kind': ('p2pkh', 'p2sh', 'p2wpkh')[i % 3], 'unit': 'satoshi', 'form': 'int', 'val': 'odd'} for i in range(n)]))
    if prop == 'C01':
        # the same payment asked for more than once, next to each other or not
        for kind in ('self', 'selfsw'):
            for unit, form in (('satoshi', 'int'), ('btc', 'str'), ('mbtc', 'dec'), ('ubtc', 'int'), ('usd', 'str'), ('jpy', 'int')):
                x = lambda: {'kind': kind, 'unit': unit, 'form': form, 'val': 50000}
                y = {'kind': 'p2wpkh', 'unit': 'satoshi', 'form': 'int', 'val': 50000}
                for outs in ([x(), x()], [x(), dict(y), x()], [dict(y), x(), x(), x()]):
                    for mode in ('create', 'prepare'):
                        out.append(base_scn(w=key('main' if unit == 'btc' else 'test'), coins=[coin('legacy', 'big'), coin('segwit', 'big')], outs=outs, mode=mode,
                                            combine=len(outs) == 2, leftover='first' if len(outs) == 3 else 'none'))
        # nothing asked for: refused, or an output of exactly nothing
        z = lambda u, f: {'kind': 'p2pkh', 'unit': u, 'form': f, 'val': 0}
        o = {'kind': 'p2wpkh', 'unit': 'satoshi', 'form': 'int', 'val': 'odd'}
        for mode in ('create', 'send', 'prepare'):
            for w in (key('main'), key('test', False), {'cls': 'multi', 'net': 'main', 'pol': 1, 'comp': True}):
                if w['cls'] == 'multi' and mode == 'send':
                    continue
                for outs in ([z('satoshi', 'int')], [z('btc', 'str'), o], [o, z('mbtc', 'dec')], [o, z('satoshi', 'int'), o]):
                    for msg in ({'form': 'none', 'len': 0}, {'form': 'utf8', 'len': 90}):
                        out.append(base_scn(w=w, pols=[3], coins=[coin('legacy', 'big')], outs=[dict(x) for x in outs], mode=mode, msg=msg))
    if prop == 'C03':
        for n in (40, 300, 990, 1100, 2500):
            for c, fee in ((True, 'rate'), (False, 'rate'), (False, 'abs')):
                if c and n > 300:
                    continue
                out.append(base_scn(w=key('main'), coins=[coin('segwit', 'small') for _ in range(n)], combine=c, fee={'mode': fee, 'v': 3 if fee == 'rate' else 4000},
                                    outs=[{'kind': 'p2pkh', 'unit': 'satoshi', 'form': 'int', 'val': 200000}]))
    if prop == 'C03':
        # an exact match hidden among more coins than the verdict enumerates: found by searching completely
        for n in (9, 10, 11, 12, 13, 14, 15, 16, 17):
            for k in range(1 if ctx.quick else 4):
                rnd = random.Random('hidden %d %d %d' % (n, k, ctx.seed))
                out.append(base_scn(w=key('main' if n % 2 else 'test'), coins=[coin(rnd.choice(('legacy', 'segwit')), rnd.randrange(10 ** 8, 10 ** 9)) for _ in range(n)], combine=False,
                                    edge=rnd.choice(('0', '1', 'half', 'w')), mask=rnd.randrange(2 ** (n - 1)) | 1 << (n - 1) | 6))
    if prop in ('C03', 'C02'):
        # coins worth less than they cost, alone and among others
        for vals in ([300, 400], [300, 300, 300, 100000], [200000, 300], [5000, 5000, 5000, 5000, 5000], [150000] * 6):
            for combine in (True, False):
                for rate in (1, 3, 50):
                    for mask in (1, 3, 2 ** len(vals) - 1):
                        for d in ('-1', '0', 'w', 'w+1', 'fund', 'fund-1'):
                            out.append(base_scn(coins=[coin('legacy' if i % 2 else 'segwit', v) for i, v in enumerate(vals)], combine=combine,
                                                fee={'mode': 'rate', 'v': rate}, edge=d, mask=mask))
    if prop == 'C20':
        for n in list(range(0, 90)) + [159, 160, 161, 239, 240, 241, 252, 253, 255, 256, 257, 320, 400, 640, 5000, 30000]:
            for f in ('ascii', 'utf8', 'bytes', 'blank', 'zeros'):
                if ctx.quick and n % 5 != ('ascii', 'utf8', 'bytes', 'blank', 'zeros').index(f) and n not in (1, 75, 76, 77, 80, 81, 160, 256):
                    continue
                for mode in ('create', 'prepare'):
                    out.append(base_scn(w=key('main' if n % 2 else 'test'), coins=[coin('segwit', 'big')], msg={'form': f, 'len': n}, mode=mode))
    if prop == 'C24':
        for m, n, c in POLICIES + [(m, n, 'c') for m in range(1, 16) for n in range(m, 16) if not ctx.quick or (m + n) % 4 == 0]:
            for kinds in (('legacy',), ('segwit',), ('legacy', 'segwit', 'segwit')):
                if c != 'c' and 'segwit' in kinds:
                    continue
                for k in (1, 3) if not ctx.quick else (2,):
                    out.append(base_scn(w={'cls': 'multi', 'net': 'main' if (m + n) % 2 else 'test', 'pol': 1, 'comp': c == 'c'}, policy=(m, n, c), src='fetched',
                                        coins=[coin(x, 'big') for x in kinds * k]))
        for comp in (True, False):
            for kind in ('legacy', 'segwit') if comp else ('legacy',):
                for n in (1, 2, 5, 20, 60):
                    for ml in (0, 1, 80, 81, 320, 1000):
                        for mode in ('create', 'prepare'):
                            out.append(base_scn(w=key('test', comp), coins=[coin(kind, 'big') for _ in range(n)], src='fetched', mode=mode,
                                                msg={'form': 'bytes' if ml else 'none', 'len': ml}))
    if prop in ('C17', 'C19'):
        # many coins, each with its own sequence number
        for n in (5, 9, 13, 17, 21, 33, 51, 65, 101, 130, 260):
            for rbf in (True, False):
                w = key('main' if n % 4 == 1 else 'test', n % 3 > 0) if n % 2 else {'cls': 'multi', 'net': 'main', 'pol': 1, 'comp': True}
                for mode, combine in (('prepare' if n % 4 == 1 or prop == 'C19' else 'create', True), ('create' if prop == 'C17' else 'prepare', n > 60)):
                    sq = lambda i: (0xffffffff, 0xfffffffe, 0xffffffff, 5, 0xfffffffd)[i * i % 5]
                    out.append(base_scn(w=w, pols=[0, 3], coins=[coin('segwit' if w['comp'] and i % 3 else 'legacy', 'mid', sq(i)) for i in range(n)], rbf=rbf, combine=combine, mode=mode,
                                        outs=[{'kind': 'p2pkh', 'unit': 'satoshi', 'form': 'int', 'val': 100000 * n}]))
    if prop == 'C17':
        for net in ('main', 'test'):
            for w in (key(net), key(net, False)) + tuple({'cls': 'multi', 'net': net, 'pol': p, 'comp': True} for p in (1, 2)):
                for sq in (0xffffffff, 0xfffffffe, 0xfffffffd, 0xfffffffc, 0x80000000, 0x7fffffff, 65536, 255, 1, 0):
                    for rbf in (True, False):
                        for combine in (True, False):
                            for mode in ('create', 'prepare'):
                                out.append(base_scn(w=w, pols=[0, 3], coins=[coin('legacy', 'mid', sq), coin('segwit' if w['comp'] else 'legacy', 'mid', 'max' if sq % 2 else 'zero')],
                                                    rbf=rbf, combine=combine, mode=mode))
    return out


def run(ctx):
    prop = ctx.prop
    if prop in ('C02', 'C03'):
        ctx.model_check('Selection', SEL_CFG % (('1, 2, 3, 5', '1, 2', '1, 2, 3, 4, 5, 6', 3) if ctx.quick else ('1, 2, 3, 4, 6', '1, 2', '1, 2, 3, 4, 5, 6, 7', 4)))
    lat = [0, 3, 7] if ctx.quick else [0, 3, 7, 9]
    modes = ['prepare'] if prop == 'C19' else ['create', 'send', 'prepare']
    cfg, defs = gen_cfg(lat, 3, 3, modes=modes)
    lattice = ctx.generate('PayGen', cfg + 'INIT LatticeInit\nNEXT Emit\n', defs=defs)
    for s in lattice:
        s['pols'] = lat
    if ctx.quick:
        keep = {'C01': 3, 'C02': 3, 'C03': 4, 'C04': 3, 'C17': 3, 'C19': 2, 'C20': 4, 'C24': 3}[prop]
        lattice = [s for i, s in enumerate(lattice) if (i + ctx.seed) % keep == 0]
    idx = list(range(len(POLICIES)))
    sim = []
    n = 1200 if ctx.quick else 12000
    for mc, mo in ((4, 3), (8, 2)):
        cfg, defs = gen_cfg(idx, mc, mo, modes=modes, **({'lens': (1, 40, 75, 76, 77, 79, 80, 81, 160, 161, 240, 255, 256, 300)} if prop == 'C20' else {}))
        g = ctx.generate('PayGen', cfg + 'INIT Init\nNEXT Next\n', defs=defs, num=n, depth=40)
        for s in g:
            s['pols'] = idx
        sim += g
    scns = lattice + sim + boundary(ctx, prop)
    recs = records(scns, env.run_many(one_pay, scns), ctx)
    big = [r for r in recs if len(r['rec']['tx']) > 20000]
    recs = [r for r in recs if len(r['rec']['tx']) <= 20000]
    ctx.judge('PaymentTrace', recs, clauses=CLAUSES[prop])
    if big:
        ctx.judge('PaymentTrace', big, clauses=CLAUSES[prop])
    if prop == 'C04':
        from . import signing
        signing.run_whole(ctx)
    ctx.notes['payments'] = {'made': sum(1 for r in recs + big if not r['rec']['exc']), 'insufficient': sum(1 for r in recs if 'InsufficientFunds' in r['rec']['exc'])}
