"""C10 (network separation), C18 (refresh), C22 (connected node)."""
import base64, decimal, json, random, urllib.parse
from .. import env, btc, world
from ..core import limbs
from .services import records, api, canon, small_book, ADDR, SCRIPT, TXID, TX, truth, short
from .payment import Wallet, dest, POLICIES
import requests

OTHER = {'main': 'test', 'test': 'main'}


# ------------------------------------------------------------------ C18
def listing(W, a, kind, version, salt):
    """Version `version` of what the network lists for one of the wallet's addresses."""
    rnd = random.Random('%s %s %s %s' % (a, kind, version, salt))
    n = rnd.choice((0, 1, 1, 2, 3, 5))
    # one transaction may touch both addresses, and pay one of them several times
    near = [btc.txid(salt * 1000 + i) for i in range(4)]
    if kind == 'transactions':
        ts = rnd.sample(near, rnd.randrange(4)) if rnd.randrange(2) else []
        return ts + [btc.txid(rnd.randrange(10 ** 9)) for _ in range(max(0, n - len(ts)))]
    spk = W.spk['legacy' if a == 'l' else 'segwit'].hex()
    at = []
    while len(at) < n:
        o = (rnd.choice(near) if rnd.randrange(2) else btc.txid(rnd.randrange(10 ** 9)), rnd.choice((0, 1, 2, 3, 300)))
        if o not in at:
            at.append(o)
    return [world.coin(*o, rnd.choice((1, 546, rnd.randrange(10 ** 10), 2099999999999999, 100000000)), spk,
                       rnd.choice((None, 699000, 700000))) for o in at]


def plain(cs):
    return [{'id': '%s:%d' % (c['txid'], c['vout']), 'amt': limbs(c['value'])} for c in cs]


def look(k):
    coins = []
    for u in k.unspents:
        coins.append({'id': '%s:%d' % (u.txid, u.txindex), 'amt': limbs(u.amount), 'seg': bool(u.segwit), 'q': int(u.vsize * 4)})
    return {'coins': coins, 'balance': limbs(k.balance), 'txs': list(k.transactions)}


def one_refresh(s):
    wd = dict(s['w'])
    W = Wallet(wd, base=40 + s['salt'] % 3)
    w = world.World()
    book = world.Book()
    w.books[('*', W.net)] = book
    decoy = world.Book()
    w.books[('*', OTHER[W.net])] = decoy
    ver = {k: {'l': 1, 's': 1} for k in ('unspents', 'transactions')}
    block = set()
    how = ('refused', 'timeout', 's503', 'nonsense')[s['salt'] % 4]
    text = {'l': W.addr['legacy'], 's': W.addr['segwit']}

    def publish():
        for a in 'ls':
            book.addr[text[a]] = {'chain': listing(W, a, 'transactions', ver['transactions'][a], s['salt']), 'mempool': [], 'balance': None,
                                  'script': W.spk['legacy' if a == 'l' else 'segwit'].hex(), 'utxo': listing(W, a, 'unspents', ver['unspents'][a], s['salt'])}

    def handle(req):
        body = req.body.decode() if isinstance(req.body, bytes) else req.body or ''
        for a in block:
            if text[a] in req.url or text[a] in body:
                if how == 'refused':
                    raise requests.exceptions.ConnectionError('refused')
                if how == 'timeout':
                    raise requests.exceptions.ReadTimeout('timeout')
                return (200, '[[]]') if how == 'nonsense' else (503, 'error')
        return w.handle(req)
    publish()
    env.Net.handler, env.Net.count = handle, 0
    k = W.open()
    r = {'w': {'multi': W.multi, 'm': W.m, 'publens': [len(p) for p in W.pubs], 'hasseg': W.allcomp, 'net': W.net}, 'before': look(k), 'steps': []}
    for h in s['hist']:
        if h['act'] in ('change', 'end'):
            if h['act'] == 'change':
                ver[h['k']][h['a']] += 1
                publish()
            continue
        out = h['out']
        block.clear()
        if out in ('first-fails', 'both-fail'):
            block.add('l')
        if out in ('second-fails', 'both-fail'):
            block.add('s')
        leg, seg = (book.addr[text[a]] for a in 'ls')
        if not W.allcomp:
            seg = {'utxo': [], 'chain': []}
        if h['act'] == 'balance':
            cur = ('satoshi', 'btc', 'mbtc')[s['salt'] % 3]
            v, e = env.call(k.get_balance, cur)
            ret = str(v)
            tot = sum(c['value'] for c in leg['utxo'] + seg['utxo'])
            want = str(tot) if cur == 'satoshi' else None
            if want is None:
                p = {'btc': 8, 'mbtc': 5}[cur]
                d = decimal.Decimal(tot).scaleb(-p, decimal.Context(prec=50))
                want = ret if e is None and decimal.Decimal(ret) == d and 'e' not in ret.lower() else format(d, 'f')
        elif h['k'] == 'unspents':
            v, e = env.call(k.get_unspents)
            ret = json.dumps([[u.txid, u.txindex, u.amount] for u in v]) if e is None else ''
            want = json.dumps([[u.txid, u.txindex, u.amount] for u in k.unspents])
        else:
            v, e = env.call(k.get_transactions)
            ret = json.dumps(list(v)) if e is None else ''
            want = json.dumps(list(k.transactions))
        r['steps'].append({'k': h['k'], 'out': out, 'exc': env.exc_kinds(e), 'legacy': plain(leg['utxo']), 'segwit': plain(seg['utxo']),
                           'ltx': leg['chain'], 'stx': seg['chain'], 'got': look(k), 'ret': ret if e is None else '', 'want': want if e is None else ''})
    return r


def run_c18(ctx):
    b = lambda x: 'TRUE' if x else 'FALSE'
    for seg in (True, False):
        ctx.model_check('Refresh', 'CONSTANTS MaxSteps = %d\nHasSegwit = %s\nSPECIFICATION Spec\nINVARIANT Consistent\nPROPERTIES AllOrNothing OthersKept\n' % (5 if ctx.quick else 7, b(seg)))
    scns = []
    n = 0
    pols = [(1, 1, 'c'), (2, 3, 'c'), (1, 2, 'u'), (2, 3, 'm'), (15, 15, 'c'), (3, 5, 'c'), (1, 15, 'c'), (7, 7, 'u'), (2, 2, 'c')]
    for seg in (True, False):
        cfg = 'CONSTANTS MaxSteps = %d\nHasSegwit = ' + b(seg) + '\nINIT Init\nNEXT GenNext\n'
        hists = [(h, False) for h in ctx.generate('Refresh', cfg % 3) if any(x['act'] not in ('change', 'end') for x in h['hist'])]
        hists += [(h, True) for h in ctx.generate('Refresh', cfg % 12, num=400 if ctx.quick else 4000, depth=40)]
        for h, long in hists:
            for net in ('main', 'test'):
                for cls in ('key', 'multi'):
                    n += 1
                    if ctx.quick and not long and n % 3:
                        continue
                    if not seg:
                        pol = [p for p in pols if p[2] != 'c'][n % 3]
                    else:
                        pol = [p for p in pols if p[2] == 'c'][n % 6]
                    scns.append({'w': {'cls': cls, 'net': net, 'comp': seg, 'policy': pol}, 'hist': h['hist'], 'salt': ctx.seed * 100000 + n})
    recs = [r for r in records(scns, env.run_many(one_refresh, scns), ctx) if r['rec']['steps']]
    ctx.judge('RefreshTrace', recs)
    ctx.notes['histories'] = len(recs)


# ------------------------------------------------------------------ C22
def json_amount(sat, form):
    """An amount of BTC as nodes and proxies write it in JSON."""
    s = '%d.%08d' % divmod(sat, 10 ** 8)
    if form == 'core':
        return s
    d = decimal.Decimal(s)
    if form == 'short':
        t = format(d.normalize(), 'f')
        return t
    if form == 'float':
        return json.dumps(float(s))
    if form == 'exp':
        return '%de-8' % sat
    if form == 'int' and sat % 10 ** 8 == 0:
        return str(sat // 10 ** 8)
    return s


AMTS = [1, 10, 99, 546, 1000, 12345, 99999999, 100000000, 100000001, 123456789, 29000000, 57000000, 1015000000, 110000000000, 2099999997690000, 2100000000000000, 1999999999999999,
        900719925474099, 0, 5000000000, 2099999999999999, 870000000000001, 30000000, 7]
FORMS = ['core', 'short', 'float', 'exp', 'int']


CALLS = {'import': ('importaddress', ['addr', 'optional-label', False], None), 'count': ('getblockcount', [], 700001), 'echo': ('echojson', [1, {'a': [None, 'é']}, 'x'], [1, {'a': [None, 'é']}, 'x']),
         'dotted': ('wallet.info', ['w'], {'walletname': 'w', 'balance': 3}), 'unload': ('unloadwallet', [''], False)}


def make_node(name, net, i, salt, sent, mood):
    rnd = random.Random('%s %s %s' % (name, net, salt))
    form = FORMS[salt % len(FORMS)]
    k = rnd.choice((0, 1, 2, 4))
    coins = [(btc.txid(rnd.randrange(10 ** 9)), rnd.choice((0, 1, 77)), AMTS[rnd.randrange(len(AMTS))], rnd.choice((0, 1, 6, 654321))) for _ in range(k)]
    if k == 4:      # two outputs of one transaction, alike but for their index
        coins[3] = (coins[1][0], coins[1][1] + 2, coins[1][2], coins[1][3])
    bal = AMTS[(salt + i) % len(AMTS)]
    txs = [btc.txid(rnd.randrange(10 ** 9)) for _ in range(rnd.choice((0, 1, 3)))]
    raw = btc.h256(name.encode()).hex() * 3

    def answer(method, params):
        if mood[0] == 'refused':
            raise requests.exceptions.ConnectionError('refused')
        if mood[0] == 'timeout':
            raise requests.exceptions.ReadTimeout('slow')
        if method == 'sendrawtransaction':
            sent.append(params[0] if params else '')
        elif method in [c[0] for c in CALLS.values()]:
            sent.append(json.dumps([method, params]))
        if mood[0] == 'rpc-error':
            return ('error', 500, {'code': -26 if salt % 2 else -5, 'message': 'rejected'})
        if mood[0] == 'rpc-error200':
            return ('error', 200, {'code': -8, 'message': 'bad'})
        if mood[0] == 'status':
            return ('error', (401, 403, 404, 503, 400, 405, 429, 502, 504)[salt % 9], None)
        arg = lambda j, default: params[j] if len(params) > j else default
        if method == 'getreceivedbyaddress':
            # part of what was received has no confirmation yet
            return ('result', 'RAWJSON' + json_amount(bal if arg(1, 1) == 0 else bal // 2, form))
        if method == 'listreceivedbyaddress':
            # the address was imported to watch; nothing confirmed yet
            seen = txs if arg(0, 1) == 0 else []
            return ('result', [{'address': arg(3, ADDR[net]), 'amount': 1, 'confirmations': 0, 'txids': seen}] if arg(2, False) and (seen or arg(1, False)) and (txs or salt % 2) else [])
        if method == 'getrawtransaction':
            return ('result', raw)
        if method == 'listunspent':
            return ('result', 'RAWJSON[' + ', '.join('{"txid": "%s", "vout": %d, "address": "%s", "scriptPubKey": "%s", "amount": %s, "confirmations": %d, "spendable": true}' % (
                t, n, params[2][0], SCRIPT, json_amount(v, form), c) for t, n, v, c in coins if arg(0, 1) <= c <= arg(1, 9999999)) + ']')
        if method == 'sendrawtransaction':
            return ('result', btc.txid(5))
        for c, (name_, _, res) in CALLS.items():
            if method == name_:
                return ('result', res)
        return ('error', 404, {'code': -32601, 'message': 'Method not found'})
    want = {'balance': json.dumps(bal), 'transactions': json.dumps(sorted(txs)), 'txbyid': json.dumps(raw), 'broadcast': 'null',
            'unspents': json.dumps(sorted([t, n, v, c, SCRIPT] for t, n, v, c in coins))}
    amts = {'balance': [limbs(bal)], 'unspents': [limbs(x[2]) for x in sorted([t, n, v, c, SCRIPT] for t, n, v, c in coins)]}
    return answer, want, amts


PEM = '/etc/ssl/node.pem'   # never opened: the transport is simulated


def one_node(s):
    from bit.network import NetworkAPI
    w = world.World()
    for i, svc in enumerate(world.MAIN_SERVICES):
        for net in ('main', 'test'):
            w.books[(svc, net)] = small_book(i + (10 if net == 'test' else 0))
    doors, door, own = [], {}, {}

    def handle(req):
        u = urllib.parse.urlsplit(req.url)
        if u.hostname and u.hostname.endswith('.local'):
            a = req.headers.get('Authorization', '')
            who = base64.b64decode(a[6:]).decode() if a.startswith('Basic ') else '%s:%s' % (u.username, u.password)
            seal = '-' if u.scheme != 'https' else 'unchecked' if env.Net.verify is False else env.Net.verify if env.Net.verify == PEM else 'checked'
            doors.append('%s %s %s %s' % (u.scheme, u.path.strip('/'), who, seal))
        return w.handle(req)
    env.Net.handler, env.Net.count = handle, 0
    sent, mood = [], ['ok']
    made = {}
    objs = {}
    steps = []
    for i, h in enumerate(s['hist']):
        if h['act'] == 'end':
            continue
        salt = s['salt'] + i
        st = {'act': h['act'], 'net': h['net'], 'node': h['node'], 'op': h['op'], 'mood': h['mood'], 'contacted': [], 'exc': [], 'val': '', 'want': '', 'amts': [], 'wantamts': [],
              'sent': [], 'hex': '', 'doors': [], 'door': ''}
        if h['act'] == 'connect':
            idx = int(h['node'][1:])
            host, port = 'node%d.local' % idx, 8000 + idx
            name = '%s:%d' % (host, port)
            made[h['node']] = name
            if name not in w.nodes:
                ans, want, amts = make_node(name, h['net'], idx, s['salt'] + idx, sent, mood)
                w.nodes[name] = ans
                made[name] = (want, amts)
            word = ('p%d', 'Zm9v/%d+8=', 'p@ss:%d', 'w#rd?%d', '%%4%d%%', 'a b%d')[(salt + idx) // 2 % 6] % idx
            safe, path = (False, True, PEM)[salt % 3], ('', 'wallet/w')[salt // 3 % 2]
            objs[h['node']], e = env.call(NetworkAPI.connect_to_node, user='u%d' % salt, password=word, host=host, port=port, use_https=safe, testnet=h['net'] == 'test', path=path)
            door[h['net']] = own[h['node']] = '%s %s u%d:%s %s' % ('https' if safe else 'http', path, salt, word, '-' if not safe else 'checked' if safe is True else safe)
            st['exc'] = env.exc_kinds(e)
            steps.append(st)
            continue
        w.log.clear()
        w.broadcasts.clear()
        sent.clear()
        doors.clear()
        mood[0] = h['mood']
        target = h['node']
        if target == 'web':
            st['mood'] = 'ok'
        arg = {'txbyid': TXID, 'broadcast': TX}.get(h['op'], ADDR[h['net']])
        if h['act'] == 'direct':
            name, params, res = CALLS[h['op']]

            def direct():
                f = objs[target]
                for part in name.split('.'):
                    f = getattr(f, part)
                return f(*params)
            v, e = env.call(direct)
        else:
            v, e = env.call(api(h['op'], h['net']), arg)
        back = {x: k for k, x in made.items() if isinstance(x, str)}
        st['contacted'] = [back.get(x['svc'][5:], '?') if x['svc'].startswith('node:') else 'web' for x in w.log]
        st['exc'] = env.exc_kinds(e)
        st['doors'], st['door'] = list(doors), (own.get(target, '') if h['act'] == 'direct' else door.get(h['net'], ''))
        st['hex'] = TX if h['act'] == 'use' else json.dumps([name, params])
        st['sent'] = list(sent) if target != 'web' else [x for _, _, x in w.broadcasts]
        if h['act'] == 'direct':
            if e is None:
                st['val'], st['want'] = json.dumps(v), json.dumps(res)
        elif e is None:
            st['val'] = short(canon(h['op'], v))
            if target == 'web':
                svc = w.log[0]['svc'] if w.log else ''
                st['want'] = 'null' if h['op'] == 'broadcast' else truth(h['op'], w.books[(svc, h['net'])], ADDR[h['net']]) if svc in world.MAIN_SERVICES else ''
            else:
                want, amts = made[made[target]]
                st['want'] = short(want[h['op']])
                st['wantamts'] = amts.get(h['op'], [])
                try:
                    if h['op'] == 'balance':
                        st['amts'] = [limbs(v)]
                    elif h['op'] == 'unspents':
                        st['amts'] = [limbs(x[2]) for x in sorted([u.txid, u.txindex, u.amount, u.confirmations, u.script] for u in v)]
                except Exception:
                    st['amts'] = [[7]]
        steps.append(st)
    return {'steps': steps}


def run_c22(ctx):
    ops = ['balance', 'transactions', 'txbyid', 'unspents', 'broadcast']
    q = lambda xs: ', '.join('"%s"' % x for x in xs)
    cfg = 'CONSTANTS MaxSteps = %d\nNodeIds = {%s}\nOps = {%s}\nMoods = {%s}\nCalls = {%s}\n'
    ctx.model_check('Node', cfg % (4 if ctx.quick else 5, q(['n1', 'n2']), q(['a']), q(['ok', 'refused']), q(['a'])) + 'SPECIFICATION Spec\nINVARIANTS OnlyOwnNodes Unaffected\nPROPERTY NoReturn\n')
    moods = ['ok', 'rpc-error', 'rpc-error200', 'status', 'refused', 'timeout']
    scns = []
    short_ = ctx.generate('Node', cfg % (2, q(['n1']), q(ops), q(moods), q(CALLS)) + 'INIT Init\nNEXT GenNext\n')
    for i, s in enumerate(short_):
        scns.append({'hist': s['hist'], 'salt': i + ctx.seed})
    # every operation after connecting, for every amount and form
    for net in ('main', 'test'):
        for salt in range(len(AMTS) * len(FORMS) if not ctx.quick else 40):
            hist = [{'act': 'connect', 'net': net, 'node': 'n1', 'op': '', 'mood': ''}]
            hist += [{'act': 'use', 'net': n2, 'node': 'n1' if n2 == net else 'web', 'op': o, 'mood': 'ok'} for o in ops for n2 in (net, OTHER[net])]
            scns.append({'hist': hist, 'salt': salt * (1 if not ctx.quick else 3) + ctx.seed})
    for i, s in enumerate(ctx.generate('Node', cfg % (9, q(['n1', 'n2', 'n3']), q(ops), q(moods), q(CALLS)) + 'INIT Init\nNEXT GenNext\n', num=500 if ctx.quick else 4000, depth=20)):
        scns.append({'hist': s['hist'], 'salt': i * 7 + ctx.seed})
    recs = records(scns, env.run_many(one_node, scns, fresh=True), ctx)
    ctx.judge('NodeTrace', recs)


# ------------------------------------------------------------------ C10
def one_pay(s):
    from bit.network.meta import Unspent
    pol = POLICIES[s['salt'] % 6]
    W = Wallet({'cls': s['cls'], 'net': s['net'], 'comp': s['comp'], 'policy': pol if s['comp'] else (1, 2, 'u')}, base=60)
    F = Wallet({'cls': 'key', 'net': OTHER[s['net']], 'comp': True}, base=70)
    w = world.World()
    book, decoy = world.Book(), world.Book()
    w.books[('*', W.net)], w.books[('*', OTHER[W.net])] = book, decoy
    kinds = ('legacy', 'segwit') if W.allcomp and s['salt'] % 3 else ('legacy',)
    cs = []
    for i in range(3):
        kind = kinds[i % len(kinds)]
        cs.append((kind, btc.txid(s['salt'] * 10 + i), i, 1000000))
    for kind in ('legacy', 'segwit'):
        for bk in (book, decoy):
            bk.addr[W.addr[kind]] = {'chain': [], 'mempool': [], 'balance': None, 'script': W.spk[kind].hex(),
                                     'utxo': [world.coin(t, n, v, W.spk[kind].hex(), 699990) for k2, t, n, v in cs if k2 == kind]}
    # earlier services fail so that every endpoint is reached
    for i, svc in enumerate(world.MAIN_SERVICES):
        if (s['salt'] * 2654435761 >> (i + 7)) & 1 and i != (1, 3)[s['salt'] % 2]:
            w.fault[svc] = ('status', 503)
    env.Net.handler, env.Net.count = w.handle, 0
    env.Clock.now = 1700000000 + s['salt']
    src = {W.net: W, F.net: F}
    outs = [dest(o['kind'], src[o['net']], 7 * i + s['salt'] % 5) for i, o in enumerate(s['outs'])]
    fee = 2000
    if s['op'] == 'prepare':
        mine = [c for c in cs if c[0] == 'legacy'] if s['src'] == 'fetched' else cs
    else:
        mine = cs
    total = sum(c[3] for c in mine)
    # nothing left over: payment plus fee is everything there is
    sizes = random.Random('sizes %d' % s['salt'])
    rate = bool(s['surplus']) and random.Random('opts %d' % s['salt']).random() < .6
    left = 0 if not s['surplus'] else 300000 if rate else sizes.choice((300000, 1, 100, 546, 20000))
    each = (total - fee - left) // len(outs)
    amts = [each] * len(outs)
    amts[-1] = total - fee - left - each * (len(outs) - 1)
    if sizes.random() < .5:
        # one of them is for next to nothing
        j, tiny = sizes.randrange(len(outs)), sizes.choice((1, 100, 546, 1000, 10000))
        if len(outs) > 1:
            amts[j - 1] += amts[j] - tiny
            amts[j] = tiny
        elif s['surplus']:
            amts[0] = tiny
    pays = [(a, v, 'satoshi') for a, v in zip(outs, amts)]
    kw = {'fee': fee, 'absolute_fee': True, 'combine': s['combine'] or not s['surplus']}
    rnd = random.Random('opts %d' % s['salt'])
    if s['surplus'] and rnd.random() < .6:
        # a rate, given or advised, instead of an amount
        kw = {'combine': s['combine']}
        if rnd.random() < .5:
            kw['fee'] = rnd.choice((1, 5, 20))
    if rnd.random() < .5:
        kw['replace_by_fee'] = True
    if rnd.random() < .3:
        kw['message'] = rnd.choice(('m', 'message ' * 12))
    change = ''
    if s['change']['net'] != 'none':
        change = dest(s['change']['kind'], src[s['change']['net']], 99)
        kw['leftover'] = change
    if s['src'] == 'supplied':
        kw['unspents'] = [Unspent(v, 5, W.spk[k].hex(), t, n, W.type(k)) for k, t, n, v in mine]
    k = W.open()
    if s['op'] == 'create':
        v, e = env.call(k.create_transaction, pays, **kw)
        tx = v
    elif s['op'] == 'send':
        v, e = env.call(k.send, pays, **kw)
        tx = w.broadcasts[0][2] if w.broadcasts else None
    else:
        if not W.multi:
            kw['compressed'] = W.comps[0]
        source = W.addr['legacy']
        if change and s['salt'] % 2 and s['src'] == 'supplied':
            # the change address given as the source address instead
            source = change
            del kw['leftover']
        v, e = env.call(W.cls().prepare_transaction, source, pays, **kw)
        tx = None
        change = change or source
        if e is None:
            try:
                tx = None
                nouts = len(json.loads(v)['outputs'])
            except Exception:
                nouts = len(outs)
    if s['op'] != 'prepare':
        nouts = count_outs(tx) if e is None else 0
    elif e is not None:
        nouts = 0
    own = [x for x in (k.address, k.segwit_address) if x]
    return {'pay': True, 'net': W.net, 'outs': outs, 'change': change, 'exc': env.exc_kinds(e), 'nouts': nouts, 'sent': len(w.broadcasts),
            'nmsg': -(-len(kw.get('message', '')) // 80), 'contacted': [x['net'] for x in w.log if x['net'] != '-'], 'own': own, 'foreignkey': False, 'surplus': s['surplus']}


def count_outs(h):
    try:
        b = bytes.fromhex(h)
        p = 6 if b[4:6] == b'\x00\x01' else 4

        def vi(p):
            n = b[p]
            if n < 253:
                return n, p + 1
            return int.from_bytes(b[p + 1:p + 3], 'little'), p + 3
        n, p = vi(p)
        for _ in range(n):
            ln, p = vi(p + 36)
            p += ln + 4
        return vi(p)[0]
    except Exception:
        return 99


def one_op(s):
    """Anything that is not a payment: queries, broadcasting, foreign keys, own addresses."""
    import bit
    net = s['net']
    w = world.World()
    for i, svc in enumerate(world.MAIN_SERVICES):
        for n2 in ('main', 'test'):
            w.books[(svc, n2)] = small_book(i)
        if i in s['down']:
            w.fault[svc] = ('refused',) if s['salt'] % 2 else ('status', 503)
    env.Net.handler, env.Net.count = w.handle, 0
    env.Clock.now = 1700000000
    r = {'pay': False, 'net': net, 'outs': [], 'change': '', 'exc': [], 'nouts': 0, 'nmsg': 0, 'sent': 0, 'contacted': [], 'own': [], 'foreignkey': False}
    e = None
    if s['op'] == 'foreignkey':
        W = Wallet({'cls': 'key', 'net': OTHER[net], 'comp': s['salt'] % 2 == 0}, base=60 + s['salt'])
        V = Wallet({'cls': 'multi', 'net': net, 'policy': (1, 2, 'c')}, base=60 + s['salt'])
        pubs = [W.pubs[0], V.pubs[1]]
        if s['salt'] % 3 == 0:
            pubs = set(pubs)
        v, e = env.call(V.M, W.key(), pubs, 1)
        r['foreignkey'] = e is None
        r['exc'] = []
        return r
    W = Wallet({'cls': s['cls'], 'net': net, 'comp': s['comp'], 'policy': POLICIES[s['salt'] % 6] if s['comp'] else (1, 2, 'u')}, base=60 + s['salt'])
    k = W.open()
    r['own'] = [x for x in (k.address, k.segwit_address) if x]
    if s['op'] == 'own':
        if s['cls'] == 'key':
            K = W.K
            sec = W.secrets[0]
            made = [K(), K.from_int(int.from_bytes(sec, 'big')), K.from_hex(sec.hex()), K.from_bytes(sec), K.from_der(k.to_der()), K.from_pem(k.to_pem()), bit.wif_to_key(k.to_wif())]
            r['own'] += [x for y in made for x in (y.address, y.segwit_address) if x]
        return r
    if s['op'] in ('get_balance', 'get_unspents', 'get_transactions'):
        _, e = env.call(getattr(k, s['op']))
    else:
        _, e = env.call(api(s['op'], net), {'txbyid': TXID, 'broadcast': TX}.get(s['op'], ADDR[net]))
    r['exc'] = env.exc_kinds(e)
    r['contacted'] = [x['net'] for x in w.log if x['net'] != '-']
    return r


# how many ordinary outputs a payment has besides
CROWDS = (9, 10, 15, 16, 31, 40, 64, 101, 129, 150, 205, 252, 260)


def run_c10(ctx):
    ctx.model_check('NetSep', 'CONSTANT MaxOuts = %d\nINIT Init\nNEXT Next\nINVARIANTS NeverForeign OwnEndpoints\n' % (1 if ctx.quick else 2))
    gen = 'CONSTANT MaxOuts = %d\nINIT Init\nNEXT GenNext\n'
    one = ctx.generate('NetSep', gen % 1)
    if ctx.quick:
        one = [s for i, s in enumerate(one) if (i + ctx.seed) % 4 == 0]
    scns = [dict(s, salt=i) for i, s in enumerate(one)]
    for s in ctx.generate('NetSep', gen % 3, num=600 if ctx.quick else 8000, depth=20):
        scns.append(dict(s, salt=len(scns)))
        many = len(scns) // 4 % len(CROWDS)
        if len(scns) % 4 == 0:
            # the same behind many others, or among them
            own = [{'net': s['net'], 'kind': ('p2pkh', 'p2sh', 'p2wpkh', 'v1')[i % 4]} for i in range(CROWDS[many])]
            cut = (len(own), len(own) - 1, len(own) // 2 + len(scns) // 4 % 7, 1)[len(scns) // 16 % 4]
            scns.append(dict(s, salt=len(scns), outs=own[:cut] + s['outs'] + own[cut:]))
    recs = records(scns, env.run_many(one_pay, scns), ctx)
    ops = []
    salt = 0
    for net in ('main', 'test'):
        n = 5 if net == 'main' else 4
        downs = [list(range(i)) for i in range(n)]
        for op in ('balance', 'transactions', 'txbyid', 'unspents', 'broadcast', 'get_balance', 'get_unspents', 'get_transactions'):
            # leave exactly one service up, so that each answers once
            for up in range(n):
                if op in ('transactions', 'txbyid', 'get_transactions') and world.MAIN_SERVICES[up] == 'Bitcore':
                    continue
                for cls in ('key', 'multi') if op.startswith('get_') else ('key',):
                    for comp in (True, False):
                        salt += 1
                        ops.append({'net': net, 'op': op, 'down': [i for i in range(n) if i != up], 'cls': cls, 'comp': comp, 'salt': salt})
        for i in range(24):
            ops.append({'net': net, 'op': 'foreignkey', 'down': [], 'cls': 'multi', 'comp': True, 'salt': i})
        for i in range(24):
            ops.append({'net': net, 'op': 'own', 'down': [], 'cls': ('key', 'multi')[i % 2], 'comp': i % 3 > 0, 'salt': i})
    recs += records(ops, env.run_many(one_op, ops), ctx)
    ctx.judge('NetSepTrace', recs)
    ctx.notes['payments'] = {'made': sum(1 for r in recs if r['rec']['pay'] and not r['rec']['exc']), 'refused': sum(1 for r in recs if r['rec']['pay'] and r['rec']['exc'])}
