"""C25: payments one after another on the same wallet object and with the same coins."""
import json, random
from .. import env, btc, world
from ..core import limbs
from .services import records
from .payment import Wallet, dest, POLICIES, FEE, SEQ
import requests

CLAUSES = None


def describe(us):
    return json.dumps([[u.txid, u.txindex, u.amount, u.confirmations, u.script, u.type, float(u.vsize), u.segwit, u.sequence] for u in us])


def one_history(s):
    import bit
    from bit.network.meta import Unspent
    rnd = random.Random(json.dumps(s, sort_keys=True))
    W = Wallet(dict(s['w']), base=900 + s['salt'] % 5)
    other = 'test' if W.net == 'main' else 'main'
    F = Wallet({'cls': 'key', 'net': other, 'comp': True}, base=990)
    w = world.World()
    w.fees = {'fastestFee': FEE, 'halfHourFee': 25, 'hourFee': 11, 'economyFee': 2, 'minimumFee': 1}
    book = world.Book()
    w.books[('*', W.net)] = book
    w.books[('*', other)] = world.Book()
    down = [False]

    def handle(req):
        if down[0] and 'fees/recommended' not in req.url:
            raise requests.exceptions.ConnectionError('down')
        return w.handle(req)
    env.Net.handler, env.Net.count = handle, 0
    env.Clock.now = (env.Clock.now or 1700000000) + 10000
    kinds = ('legacy', 'segwit') if W.allcomp else ('legacy',)
    ver = [1]

    def listed():
        out = []
        for kind in kinds:
            r2 = random.Random('%d %s %d' % (s['salt'], kind, ver[0]))
            out.append((kind, [(btc.txid(r2.randrange(10 ** 9)), r2.randrange(3), 50000 + r2.randrange(400000)) for _ in range(r2.choice((1, 2, 3)))]))
        return out

    def publish():
        for kind in ('legacy', 'segwit'):
            book.addr[W.addr[kind]] = {'chain': [], 'mempool': [], 'balance': None, 'script': W.spk[kind].hex(), 'utxo': []}
        for kind, cs in listed():
            book.addr[W.addr[kind]]['utxo'] = [world.coin(t, n, v, W.spk[kind].hex(), 699990) for t, n, v in cs]
    publish()
    # the caller's own coins, kept and offered again and again
    mine = []
    for i in range(rnd.choice((1, 2, 3, 5))):
        kind = rnd.choice(kinds)
        mine.append({'kind': kind, 'txid': btc.txid(5000 + s['salt'] * 10 + i), 'n': i, 'amt': 100000 + rnd.randrange(300000), 'seq': rnd.choice((0xffffffff, 0xffffffff, 0xfffffffe, 7))})
        if kind == 'legacy' and rnd.random() < .2:
            mine[-1]['type'] = 'unknown'      # a coin the caller does not know the kind of
    make = lambda: [Unspent(c['amt'], 3, W.spk[c['kind']].hex(), c['txid'], c['n'], c.get('type', W.type(c['kind'])), sequence=c['seq']) for c in mine]
    theirs = make()
    again = s['salt'] % 2           # the caller keeps the coins, or describes them anew each time
    k = W.open()
    idt = lambda us: [{'id': '%s:%d' % (u.txid, u.txindex), 'amt': limbs(u.amount)} for u in us]
    r = {'caller': describe(theirs), 'wallet': idt(k.unspents), 'steps': []}
    recorded = []            # what the wallet must have on record, as plain coins
    for h in s['hist']:
        if h['act'] == 'grow':
            ver[0] += 1
            publish()
            continue
        if h['act'] == 'end':
            continue
        listing = [{'kind': kind, 'txid': t, 'n': n, 'amt': v, 'seq': 0xffffffff} for kind, cs in listed() for t, n, v in cs]
        # the order in which the services list them is the network's business
        st = {'pay': False, 'want': '', 'key': '', 'fetched': True, 'outs': '', 'outs0': '', 'rec': {}}
        if h['act'] == 'refresh':
            env.call(k.get_unspents)
        else:
            if again:
                theirs = make()
            pay(s, h, st, W, F, k, w, theirs, mine, recorded, listing, rnd, down)
        st.update(caller=describe(theirs), wallet=idt(k.unspents), balance=limbs(k.balance))
        by = {'%s:%d' % (c['txid'], c['n']): c for c in listing}
        if st['fetched']:
            # listing in the order observed when it is a permutation within each address; otherwise as published
            got = [x['id'] for x in st['wallet']]
            ok = sorted(got) == sorted(by) and [by[i]['kind'] for i in got] == sorted((by[i]['kind'] for i in got), key=('legacy', 'segwit').index)
            order = got if ok else list(by)
            st['listing'] = [{'id': i, 'amt': limbs(by[i]['amt'])} for i in order]
            recorded[:] = [by[i] for i in order]
        else:
            st['listing'] = []
        r['steps'].append(st)
    return r


REQ = {1: [('p2pkh', 20000, 'satoshi')], 2: [('p2sh', '0.0003', 'btc'), ('p2wpkh', 11111, 'satoshi')], 3: [('self', 40000, 'satoshi')]}


def pay(s, h, st, W, F, k, w, theirs, mine, recorded, listing, rnd, down):
    from bit.network.meta import Unspent
    o = h['opts']
    src, mode = h['src'], h['mode']
    coins = {'caller': mine, 'own': recorded, 'fetched': listing, 'down': []}[src]
    prep = ''
    req = REQ[o['req']]
    wif = F if h['want'] == 'foreign' else W
    outs, amts = [], []
    for i, (kind, a, u) in enumerate(req):
        sat = a if u == 'satoshi' else int(round(float(a) * 10 ** 8))
        if h['want'] == 'short' and i == 0:
            sat = a = sum(c['amt'] for c in coins) + 1
            u = 'satoshi'
        outs.append((dest(kind, wif if i == 0 else W, 10 * o['req'] + i), a, u))
        amts.append(sat)
    kw = {'combine': o['combine'], 'replace_by_fee': o['rbf']}
    if o['fee'] == 'abs':
        kw.update(fee=1500, absolute_fee=True)
    elif o['fee'] == 'rate':
        kw.update(fee=2)
    leftover = dest('p2wpkh', W, 77) if o['leftover'] else ''
    if leftover:
        kw['leftover'] = leftover
    msg = b'memo %d' % o['req'] if o['msg'] else b''
    if msg:
        kw['message'] = msg.decode()
    outs0 = json.dumps(outs)
    n0 = len(w.broadcasts)
    arg = theirs if src == 'caller' else k.unspents if src == 'own' else None
    rec = {'w': W.rec(), 'outs': [{'addr': a[0], 'amt': limbs(v), 'n': limbs(v), 'd': 0, 'per': limbs(1)} for a, v in zip(outs, amts)], 'leftover': leftover, 'prep': '', 'coins': [],
           'absolute': o['fee'] == 'abs', 'fee': limbs(1500 if o['fee'] == 'abs' else 0), 'rate': {'rate': 2, 'default': FEE, 'abs': 1}[o['fee']], 'combine': o['combine'], 'msg': msg.hex(), 'rbf': o['rbf'], 'hint': [],
           'std': False, 'mode': mode, 'tx': '', 'final': '', 'exc': [], 'fexc': [], 'id': '', 'sent': [], 'same': '', 'leak': False}
    fetched = src == 'fetched'
    down[0] = src == 'down'
    if mode == 'prepare':
        prep = W.addr['legacy']
        rec['prep'] = prep
        extra = {} if W.multi else {'compressed': W.comps[0]}
        v, e = env.call(W.cls().prepare_transaction, prep, outs, unspents=arg, **extra, **kw)
        if e is None:
            v, e = env.call(k.sign_transaction, v)
    elif mode == 'send':
        v, e = env.call(k.send, outs, unspents=arg, **kw)
        rec['sent'] = [x[2] for x in w.broadcasts[n0:]]
        rec['id'] = v if isinstance(v, str) else repr(v)
        if e is None:
            v = rec['sent'][0] if rec['sent'] else ''
    else:
        v, e = env.call(k.create_transaction, outs, unspents=arg, **kw)
    down[0] = False
    # coins as offered, with the sizes the wallet or the caller gave them
    if fetched:
        us = {(u.txid, u.txindex): u for u in k.unspents}
        order = [c for u in k.unspents for c in coins if (c['txid'], c['n']) == (u.txid, u.txindex)]
        if len(order) == len(coins):
            coins = order
        q = lambda c: size_of(W, c)
    elif src == 'own':
        q = lambda c: size_of(W, c)
    else:
        q = lambda c: int(SIZES[c.get('type', W.type(c['kind']))] * 4)
    rec['coins'] = [{'out': (bytes.fromhex(c['txid'])[::-1] + c['n'].to_bytes(4, 'little')).hex(), 'amt': limbs(c['amt']), 'amt8': c['amt'].to_bytes(8, 'little').hex(),
                     'q': q(c), 'seg': c['kind'] == 'segwit', 'seq': c['seq'].to_bytes(4, 'little').hex(), 'spk': W.spk[c['kind']].hex()} for c in coins]
    rec['exc'] = env.exc_kinds(e)
    if e is None:
        rec['tx'] = rec['final'] = v if isinstance(v, str) else ''
        if W.multi and W.m > 1:
            cs = [Unspent(c['amt'], 1, W.spk[c['kind']].hex(), c['txid'], c['n'], c.get('type', W.type(c['kind'])), sequence=c['seq']) for c in coins]
            cur = rec['tx']
            for j in range(1, W.m):
                cur, e = env.call(W.open(j).sign_transaction, cur, unspents=list(cs))
                if e is not None:
                    rec['fexc'] = env.exc_kinds(e)
                    break
            if e is None:
                rec['final'] = cur if isinstance(cur, str) else ''
    st.update(pay=True, want='down' if src == 'down' else 'foreign' if h['want'] == 'foreign' else 'ok', fetched=fetched, outs0=outs0, outs=json.dumps(outs), rec=rec)
    if o['combine'] and rec['tx'] and mode != 'prepare':
        st['key'] = json.dumps([outs0, o, [c['out'] for c in rec['coins']]])


_sizes = {}


def size_of(W, c):
    """Quarter-bytes the wallet records for a coin on refresh, observed on a wallet of its own."""
    key = (W.net, W.multi, tuple(W.pubs), W.m, c['kind'])
    if key not in _sizes:
        w = world.World()
        book = world.Book()
        w.books[('*', W.net)] = book
        for kind in ('legacy', 'segwit'):
            book.addr[W.addr[kind]] = {'chain': [], 'mempool': [], 'balance': None, 'script': W.spk[kind].hex(),
                                       'utxo': [world.coin(btc.txid(1), 0, 1000, W.spk[kind].hex(), 699990)] if kind == c['kind'] else []}
        keep = env.Net.handler
        env.Net.handler = w.handle
        us, e = env.call(W.open().get_unspents)
        env.Net.handler = keep
        _sizes[key] = int(us[0].vsize * 4) if e is None and us else 1
    return _sizes[key]


SIZES = {}


def run_c25(ctx):
    # the sizes of coins described by hand, before anything happened
    env.load()
    from bit.network.meta import Unspent
    for t in ('unknown', 'p2pkh-uncompressed', 'p2pkh', 'p2sh', 'np2wkh', 'np2wsh'):
        SIZES[t] = Unspent(1, 1, '', '', 0, t).vsize
    b = lambda x: 'TRUE' if x else 'FALSE'
    for multi in (False, True):
        ctx.model_check('History', 'CONSTANTS MaxLen = %d\nMulti = %s\nSPECIFICATION Spec\nINVARIANTS CallerKept RecordIsAListing\nPROPERTY OnlyFetchingUpdates\nVIEW View\nCONSTRAINT Bound\n' % (3, b(multi)))
    scns = []
    pols = [POLICIES[i] for i in (0, 1, 3, 6, 7, 5)]
    for multi in (False, True):
        g = ctx.generate('History', 'CONSTANTS MaxLen = %d\nMulti = %s\nINIT Init\nNEXT GenNext\n' % (7, b(multi)), num=450 if ctx.quick else 5000, depth=12)
        for i, h in enumerate(g):
            wd = {'cls': 'multi' if multi else 'key', 'net': ('main', 'test')[i % 2], 'comp': i % 3 > 0, 'policy': pols[i % len(pols)]}
            scns.append({'w': wd, 'hist': h['hist'], 'salt': ctx.seed * 10000 + i})
    # one payment twice over, every pair of selection and replace-by-fee options
    base = {'rbf': False, 'combine': True, 'msg': False, 'fee': 'rate', 'req': 1, 'leftover': False}
    n = 0
    for multi in (False, True):
        for net in ('main', 'test'):
            for src in ('caller', 'own', 'fetched'):
                for mode in ('create', 'prepare') if src == 'caller' else ('create',):
                    for a in range(4):
                        for c in range(4):
                            n += 1
                            p = lambda x: {'act': 'pay', 'opts': dict(base, rbf=bool(x & 1), combine=bool(x & 2)), 'want': 'ok', 'mode': mode, 'src': src}
                            scns.append({'w': {'cls': 'multi' if multi else 'key', 'net': net, 'comp': n % 3 > 0, 'policy': pols[n % len(pols)]},
                                         'hist': [{'act': 'refresh'}, p(a), p(c), p(3)], 'salt': n})
    recs = [r for r in records(scns, env.run_many(one_history, scns), ctx) if r['rec']['steps']]
    ctx.judge('HistoryTrace', recs, cfg='INIT TInit\nNEXT HNext\n')
    ctx.notes['histories'] = {'histories': len(recs), 'payments': sum(st['pay'] for r in recs for st in r['rec']['steps']),
                              'made': sum(st['pay'] and not st['rec']['exc'] for r in recs for st in r['rec']['steps'])}
