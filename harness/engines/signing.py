"""Signing sessions: C05 (multisig co-signing), C06 (batching)."""
import json, random
from .. import env, btc, world
from .payment import Wallet, POLICIES
from .services import records

FOREIGN = ('empty', 'sig', 'garbage', 'wit', 'nested', 'bigwit', 'longsig', 'emptyitems', 'manyitems')


def foreign(st, rnd):
    """(scriptSig, witness items) of a stranger's input in some state."""
    rb = lambda n: bytes(rnd.randrange(256) for _ in range(n))
    if st == 'sig':
        return b'\x47' + rb(71) + b'\x21' + rb(33), []
    if st == 'garbage':
        return rb(rnd.choice((1, 3, 107))), []
    if st == 'wit':
        return b'', [rb(71), rb(33)]
    if st == 'nested':
        return b'\x16\x00\x14' + rb(20), [rb(72), rb(33)]
    if st == 'bigwit':
        return b'', [rb(n) for n in (252, 253, 254, 255, 600)]
    if st == 'longsig':
        return rb(rnd.choice((252, 253, 300, 1000))), []
    if st == 'emptyitems':
        return b'', [b'', b'', rb(1)]
    if st == 'manyitems':
        return b'', [rb(1)] * rnd.choice((252, 253, 260))
    return b'', []


def raw_tx(version, lock, ins, outs):
    """ins: (txid, n, script, seq, witness items); outs: (amount, script)."""
    v = btc.varint
    body_in = v(len(ins)) + b''.join(bytes.fromhex(t)[::-1] + n.to_bytes(4, 'little') + v(len(s)) + s + q.to_bytes(4, 'little') for t, n, s, q, _ in ins)
    body_out = v(len(outs)) + b''.join(a.to_bytes(8, 'little') + v(len(s)) + s for a, s in outs)
    wit = b''
    mark = b''
    if any(w for *_, w in ins):
        mark = b'\x00\x01'
        wit = b''.join(v(len(w)) + b''.join(v(len(x)) + x for x in w) for *_, w in ins)
    return (version.to_bytes(4, 'little') + mark + body_in + body_out + wit + lock.to_bytes(4, 'little')).hex()


def one_session(s):
    from bit.network.meta import Unspent
    rnd = random.Random(json.dumps(s, sort_keys=True))
    rnd2 = random.Random(rnd.random())
    env.Clock.now = 1700000000
    net = s['net']
    W = []
    for i, w in enumerate(s['wals']):
        d = {'cls': 'multi', 'net': net, 'policy': tuple(w['policy'])} if w['multi'] else {'cls': 'key', 'net': net, 'comp': w['comp']}
        W.append(Wallet(d, base=1000 + 40 * i))
    ins, rec = [], []
    for i, x in enumerate(s['ins']):
        amt = rnd.choice((546 if s['start'] == 'raw' else 200000, 100000, 2 ** 32 + 5, 2100000000000000, rnd.randrange(10000, 10 ** 9)))
        c = {'txid': btc.txid(rnd.randrange(10 ** 9)), 'n': rnd.choice((0, 1, 255, 65536, 0xffffffff if not x['owner'] else 3)), 'amt': amt,
             'seq': rnd.choice((0xffffffff, 0xfffffffe, 0xfffffffd, 0, 1, 0x80000000)), 'kind': x['kind'], 'owner': x['owner']}
        if x['owner']:
            w = W[x['owner'] - 1]
            c['spk'], c['type'] = w.spk[x['kind']], w.type(x['kind'])
            c['script'], c['wit'] = b'', []
        else:
            c['spk'], c['type'] = btc.p2pkh(btc.h160(b'x%d' % i)), 'p2pkh'
            c['script'], c['wit'] = foreign(x['state'], rnd)
        ins.append(c)
        rec.append({'spk': c['spk'].hex(), 'amt8': amt.to_bytes(8, 'little').hex(), 'owner': x['owner'], 'seg': bool(x['owner']) and x['kind'] == 'segwit'})
    outs = [(rnd.choice((0, 1, 546, 10 ** 8, 2100000000000000)), bytes(rnd.randrange(256) for _ in range(rnd.choice((0, 1, 22, 23, 25, 34, 83, 252, 253)))))
            for _ in range(rnd.choice((1, 1, 2, 3)))]
    loud = lambda c, t: t.upper() if c['n'] == 255 else t
    unsp = lambda c: Unspent(c['amt'], 3, loud(c, c['spk'].hex()), loud(c, c['txid']), c['n'], c['type'], sequence=c['seq'])
    r = {'ins': rec, 'wals': [{'multi': w.multi, 'm': w.m, 'pubs': [p.hex() for p in w.pubs]} for w in W], 'versions': [], 'steps': [], 'order': s['order']}
    steps = list(s['hist'])
    if s['start'] == 'create' and len(W) == 1 and W[0].multi:
        # the first co-signer makes the transaction
        st = steps[0]
        tot = sum(c['amt'] for c in ins)
        v, e = env.call(W[0].open(st['key'] - 1).create_transaction, [(btc.pkh_addr(b'dest', net), 546, 'satoshi')], fee=1000 if tot > 2000 else 1,
                        absolute_fee=True, combine=True, unspents=[unsp(c) for c in ins])
        start = raw_tx(1, 0, [(c['txid'], c['n'], b'', c['seq'], []) for c in ins], [])
        if e is None and isinstance(v, str):
            # the unsigned version of what was created
            start = unsigned(v) or start
        r['versions'].append(start)
        r['versions'].append(v if e is None else start)
        r['steps'].append({'base': 1, 'w': 1, 'key': st['key'], 'given': list(range(1, len(ins) + 1)), 'exc': env.exc_kinds(e), 'after': v if e is None else ''})
        steps = steps[1:]
    else:
        r['versions'].append(raw_tx(rnd.choice((1, 1, 2, 0, 0xffffffff)), rnd.choice((0, 0, 1, 500000000, 0xffffffff)),
                                    [(c['txid'], c['n'], c['script'], c['seq'], c['wit']) for c in ins], outs))
    for st in steps:
        w = W[st['w'] - 1]
        k = w.open(st['key'] - 1)
        base = min(st['base'], len(r['versions']))
        given = st['given']
        mode = rnd.choice(s['coins'])
        if mode == 'fetch':
            wd = world.World()
            book = world.Book()
            own = [j for j in range(len(ins)) if ins[j]['owner'] == st['w']]
            for kind in ('legacy', 'segwit'):
                book.addr[w.addr[kind]] = {'chain': [], 'mempool': [], 'balance': None, 'script': w.spk[kind].hex(),
                                           'utxo': [world.coin(ins[j]['txid'], ins[j]['n'], ins[j]['amt'], w.spk[kind].hex(), 699999) for j in own if ins[j]['kind'] == kind]}
            wd.books[('*', net)] = book
            env.Net.handler, env.Net.count = wd.handle, 0
            given = [j + 1 for j in own]
            if not given:
                mode = 'all'
                given = st['given']
        if mode == 'own':
            given = [j for j in given if ins[j - 1]['owner'] == st['w']]
        cs = [unsp(ins[j - 1]) for j in given]
        rnd.shuffle(cs)
        if mode == 'extra' or not cs:
            cs.append(Unspent(5, 1, w.spk['legacy'].hex(), btc.txid(5), 0, w.type('legacy')))
        text = r['versions'][base - 1]
        if len(ins) < 60 and rnd2.random() < .3:
            # the same signer signed something else of the same coins before
            sib = raw_tx(1, rnd2.choice((0, 7)), [(c['txid'], c['n'], b'', c['seq'], []) for c in ins], [(rnd2.choice((1, 999)), b'\x51')] + outs[1:])
            env.call(k.sign_transaction, sib, unspents=[unsp(ins[j - 1]) for j in given] or [unsp(ins[0])])
        v, e = env.call(k.sign_transaction, text.upper() if rnd.random() < .1 else text, **({} if mode == 'fetch' else {'unspents': cs}))
        after = v if isinstance(v, str) else ''
        r['steps'].append({'base': base, 'w': st['w'], 'key': st['key'], 'given': given, 'exc': env.exc_kinds(e), 'after': after})
        r['versions'].append(after if e is None and after else r['versions'][base - 1])
    return r


def unsigned(h):
    """A created transaction with all unlocking data removed (legacy form)."""
    try:
        b = bytes.fromhex(h)
        p = [6 if b[4:6] == b'\x00\x01' else 4]

        def take(n):
            p[0] += n
            return b[p[0] - n:p[0]]

        def vi():
            n = take(1)[0]
            return n if n < 253 else int.from_bytes(take(2 ** (n - 252)), 'little')
        ins = []
        for _ in range(vi()):
            o = take(36)
            take(vi())
            ins.append(o + b'\x00' + take(4))
        st = p[0]
        for _ in range(vi()):
            take(8)
            take(vi())
        return (b[:4] + btc.varint(len(ins)) + b''.join(ins) + b[st:p[0]] + b[-4:]).hex()
    except Exception:
        return None


def cfg(wals, owners, steps, subsets=False, forks=False):
    d = 'MyW == <<%s>>\nMyO == <<%s>>' % (', '.join('[m |-> %d, n |-> %d, multi |-> %s]' % (m, n, 'TRUE' if u else 'FALSE') for m, n, u in wals),
                                          ', '.join(map(str, owners)))
    c = 'CONSTANTS Wallets <- MyW Owners <- MyO MaxSteps = %d Subsets = %s Forks = %s\n' % (steps, 'TRUE' if subsets else 'FALSE', 'TRUE' if forks else 'FALSE')
    return c, d


def model(ctx, wals, owners, steps, **k):
    c, d = cfg(wals, owners, steps, **k)
    ctx.model_check('Signing', c + 'INIT Init\nNEXT Next\nINVARIANT Safe\n', defs=d)


def histories(ctx, wals, owners, steps, num=None, **k):
    c, d = cfg(wals, owners, steps, **k)
    return [h['hist'] for h in ctx.generate('Signing', c + 'INIT Init\nNEXT GenNext\n', defs=d, num=num, depth=steps + 3)]


COSIGN = {'sign-error', 'refusal-kind', 'complete-not-refused', 'malformed', 'structure', 'signature-lost', 'signature-extra', 'signature-missing', 'not-valid',
          'valid-early', 'unreadable', 'order-dependent'}
BATCH = {'sign-error', 'malformed', 'structure', 'foreign-touched', 'single-invalid', 'not-valid', 'signature-lost', 'signature-missing'}


def run_c05(ctx):
    model(ctx, [(2, 3, True)], [1, 1], 4 if ctx.quick else 5, forks=True)
    model(ctx, [(3, 4, True)], [1], 5)
    model(ctx, [(1, 2, True), (2, 2, True)], [1, 2, 0], 3 if ctx.quick else 4, subsets=True)
    scns = []
    kinds = [('legacy', 'segwit'), ('legacy', 'legacy'), ('segwit', 'segwit'), ('segwit', 'legacy')]
    rnd = random.Random(ctx.seed)

    def add(h, policy, ks, net, start='raw', coins=('all',), order=True):
        if policy[2] != 'c':
            ks = ['legacy'] * len(ks)
        scns.append({'net': net, 'wals': [{'multi': True, 'policy': policy}], 'ins': [{'owner': 1, 'kind': k} for k in ks], 'hist': h,
                     'start': start, 'coins': list(coins), 'order': order})
    # every signing sequence of small contracts
    for m, n, c in [(1, 1, 'c'), (1, 2, 'c'), (2, 2, 'c'), (1, 2, 'u'), (2, 3, 'c'), (2, 3, 'm'), (3, 3, 'c')] + ([] if ctx.quick else [(2, 4, 'c'), (3, 4, 'c'), (2, 3, 'u')]):
        hs = histories(ctx, [(m, n, True)], [1, 1], m + 2)
        for i, h in enumerate(hs):
            sel = kinds if not ctx.quick else [kinds[i % 4]]
            for ks in sel:
                for start in ('raw', 'create') if not ctx.quick else (('raw', 'create')[i // 4 % 2],):
                    add(h, (m, n, c), ks, ('main', 'test')[(i // 8 + i) % 2], start, coins=(('all',), ('fetch',), ('own', 'extra'))[i % 3])
    # order independence needs sessions reaching the same signer set in different orders: forked copies
    for m, n, c in [(2, 2, 'c'), (2, 3, 'c'), (3, 3, 'c'), (2, 3, 'm')]:
        for h in histories(ctx, [(m, n, True)], [1, 1], 2 * m + 1, num=150 if ctx.quick else 800, forks=True):
            add(h, (m, n, c), rnd.choice(kinds), rnd.choice(('main', 'test')))
        # all orders of every full signer set, from the same start
        import itertools
        for S in itertools.combinations(range(1, n + 1), m):
            h = []
            for perm in itertools.permutations(S):
                for j, key in enumerate(perm):
                    h.append({'base': 1 if j == 0 else len(h) + 1, 'w': 1, 'key': key, 'given': [1, 2]})
            for ks in kinds:
                add(h, (m, n, c), ks, rnd.choice(('main', 'test')))
    # larger contracts
    for m, n, c in [(3, 5, 'c'), (4, 7, 'm'), (7, 7, 'u'), (2, 15, 'c'), (15, 15, 'c'), (5, 8, 'c'), (1, 15, 'c'), (1, 3, 'm')]:
        for h in histories(ctx, [(m, n, True)], [1], m + 5, num=4 if ctx.quick and n > 8 else 25 if ctx.quick else 150):
            add(h, (m, n, c), [rnd.choice(('legacy', 'segwit'))], rnd.choice(('main', 'test')), rnd.choice(('raw', 'create')), order=False)
        # and one session that reaches completion exactly
        for _ in range(2 if ctx.quick else 6):
            perm = rnd.sample(range(1, n + 1), m)
            h = [{'base': j + 1, 'w': 1, 'key': key, 'given': [1]} for j, key in enumerate(perm)]
            for kd in ('legacy', 'segwit'):
                add(h, (m, n, c), [kd], rnd.choice(('main', 'test')), rnd.choice(('raw', 'create')), order=False)
    # many inputs of one contract
    for n, (m, k) in ((20, (2, 2)), (60, (2, 3)), (33, (3, 3))):
        perm = rnd.sample(range(1, k + 1), m)
        for net in ('main', 'test'):
            add([{'base': j + 1, 'w': 1, 'key': key, 'given': list(range(1, n + 1))} for j, key in enumerate(perm)], (m, k, 'c'),
                [('legacy', 'segwit')[(i * i + n) % 3 > 0] for i in range(n)], net, ('raw', 'create')[n % 2], order=False)
    recs = records(scns, env.run_many(one_session, scns), ctx)
    ctx.judge('SigningTrace', recs, clauses=COSIGN)
    ctx.notes['sessions'] = {'sessions': len(recs), 'steps': sum(len(r['rec']['steps']) for r in recs),
                             'refused': sum(1 for r in recs for x in r['rec']['steps'] if x['exc'])}


def run_c06(ctx):
    model(ctx, [(1, 1, False), (2, 2, True)], [1, 2, 0], 4, subsets=True)
    model(ctx, [(1, 1, False), (1, 1, False), (1, 2, True)], [1, 2, 3, 0], 4 if ctx.quick else 5)
    rnd = random.Random(ctx.seed)
    scns = []
    setups = [([(1, 1, False), (1, 1, False), (2, 3, True)], [1, 2, 3, 0, 1, 0], 5),
              ([(1, 1, False), (1, 1, False)], [0, 1, 2, 0], 4),
              ([(1, 1, False)], [1, 0], 2),
              ([(2, 2, True), (1, 1, False), (1, 2, True), (1, 1, False)], [1, 0, 2, 3, 4, 4, 1], 6),
              ([(2, 2, True), (3, 3, True)], [2, 1, 0], 6)]
    for wals, owners, steps in setups:
        for subsets in (False, True):
            for h in histories(ctx, wals, owners, steps, num=140 if ctx.quick else 900, subsets=subsets, forks=rnd.random() < .3):
                scns.append(batch(rnd, wals, owners, h))
    # every state of a stranger's input, first or last, with every kind of signer
    for st in FOREIGN:
        for first in (True, False):
            for w, kind, comp in (((1, 1, False), 'legacy', True), ((1, 1, False), 'segwit', True), ((1, 1, False), 'legacy', False), ((2, 2, True), 'legacy', True), ((2, 2, True), 'segwit', True)):
                for net in ('main', 'test'):
                    ins = [{'owner': 0, 'kind': 'legacy', 'state': st}, {'owner': 1, 'kind': kind}]
                    if first:
                        ins.reverse()
                    wd = {'multi': True, 'policy': (2, 2, 'c')} if w[2] else {'multi': False, 'comp': comp}
                    g = [1 + [bool(x['owner']) for x in ins].index(True)]
                    scns.append({'net': net, 'wals': [wd], 'ins': ins, 'start': 'raw', 'coins': ['own'], 'order': False,
                                 'hist': [{'base': j + 1, 'w': 1, 'key': (j % 2 + 1) if w[2] else 1, 'given': g} for j in range(2)]})
    # many inputs and outputs
    for n in (252, 253, 254):
        for st in ('empty', 'wit'):
            ins = [{'owner': 0, 'kind': 'legacy', 'state': 'empty'} for _ in range(n)]
            ins[0]['state'] = st
            ins[n // 2] = {'owner': 1, 'kind': 'segwit'}
            ins[n - 1] = {'owner': 1, 'kind': 'legacy'}
            scns.append({'net': 'main', 'wals': [{'multi': False, 'comp': True}], 'ins': ins, 'start': 'raw', 'coins': ['own'], 'order': False,
                         'hist': [{'base': 1, 'w': 1, 'key': 1, 'given': [n // 2 + 1, n]}]})
    # many inputs of one signer
    for n, wd in ((12, {'multi': False, 'comp': True}), (40, {'multi': False, 'comp': False}), (70, {'multi': False, 'comp': True}), (24, {'multi': True, 'policy': (2, 3, 'c')}), (130, {'multi': False, 'comp': True}), (55, {'multi': True, 'policy': (2, 2, 'c')})):
        ins = [{'owner': 1, 'kind': ('segwit', 'legacy')[i % 2 if wd.get('comp', True) else 1]} for i in range(n)]
        ins.insert(n // 3, {'owner': 0, 'kind': 'legacy', 'state': 'wit'})
        scns.append({'net': 'test', 'wals': [wd], 'ins': ins, 'start': 'raw', 'coins': ['all'], 'order': False,
                     'hist': [{'base': j + 1, 'w': 1, 'key': j + 1, 'given': list(range(1, n + 2))} for j in range(2 if wd['multi'] else 1)]})
    recs = records(scns, env.run_many(one_session, scns), ctx)
    ctx.judge('SigningTrace', recs, clauses=BATCH)
    ctx.notes['sessions'] = {'sessions': len(recs), 'steps': sum(len(r['rec']['steps']) for r in recs)}


def run_whole(ctx):
    """C04 for transactions the library did not make: every input belongs to one wallet, which signs until it is complete."""
    rnd = random.Random(ctx.seed)
    scns = []
    for wals, n, steps in (((1, 1, False), 1, 2), ((1, 1, False), 3, 3), ((1, 1, False), 6, 2), ((1, 2, True), 2, 2), ((2, 2, True), 2, 4), ((2, 3, True), 3, 4)):
        for h in histories(ctx, [wals], [1] * n, steps, num=60 if ctx.quick else 500, subsets=True):
            scns.append(batch(rnd, [wals], [1] * n, h))
    recs = records(scns, env.run_many(one_session, scns), ctx)
    ctx.judge('SigningTrace', recs, clauses={'single-invalid', 'not-valid', 'malformed'})
    ctx.notes['signed'] = {'sessions': len(recs), 'steps': sum(len(r['rec']['steps']) for r in recs)}


def batch(rnd, wals, owners, h):
    ws, ins = [], []
    for m, n, multi in wals:
        ws.append({'multi': True, 'policy': (m, n, rnd.choice('ccm'))} if multi else {'multi': False, 'comp': rnd.random() < .75})
    for o in owners:
        if not o:
            ins.append({'owner': 0, 'kind': 'legacy', 'state': rnd.choice(FOREIGN)})
        else:
            w = ws[o - 1]
            comp = w['policy'][2] == 'c' or w['policy'][1] == 1 if w['multi'] else w['comp']
            ins.append({'owner': o, 'kind': rnd.choice(('legacy', 'segwit')) if comp else 'legacy'})
    return {'net': rnd.choice(('main', 'test')), 'wals': ws, 'ins': ins, 'hist': h, 'start': 'raw', 'order': False,
            'coins': list(rnd.choice((('all',), ('own',), ('all', 'own', 'extra'), ('fetch', 'all'))))}
