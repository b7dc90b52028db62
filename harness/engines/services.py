"""C11 (failover), C12 (broadcast), C13 (paging), C28 (timeouts)."""
import json
from .. import env, btc, world
from ..core import limbs

ADDR = {'main': btc.pkh_addr(btc.pub(btc.secret(1)), 'main'), 'test': btc.pkh_addr(btc.pub(btc.secret(1)), 'test')}
SCRIPT = btc.p2pkh(btc.h160(btc.pub(btc.secret(1)))).hex()
TXID = btc.txid(77)
SVCS = world.MAIN_SERVICES
FAULT = {'refused': ('refused',), 'timeout': ('timeout',), 'ctimeout': ('ctimeout',),
         's403': ('status', 403), 's429': ('status', 429), 's500': ('status', 500), 's502': ('status', 502), 's503': ('status', 503)}


def fault(b):
    return FAULT[b] if b in FAULT else ('status', int(b[1:]))


def api(op, net):
    from bit.network import NetworkAPI
    name = {'balance': 'get_balance', 'transactions': 'get_transactions', 'txbyid': 'get_transaction_by_id',
            'unspents': 'get_unspent', 'broadcast': 'broadcast_tx'}[op]
    return getattr(NetworkAPI, name + ('_testnet' if net == 'test' else ''))


def canon(op, v):
    """Canonical text of an answer (listings as sorted bags)."""
    try:
        if op == 'unspents':
            return json.dumps(sorted([u.txid, u.txindex, int(u.amount), u.confirmations, u.script] for u in v))
        if op == 'transactions':
            return json.dumps(sorted(v))
        return json.dumps(v)
    except Exception as e:
        return 'unintelligible %r' % type(e).__name__


def short(t):
    return t if len(t) < 300 else 'sha256:' + btc.sha(t.encode()).hex()


def truth(op, book, a):
    return short(_truth(op, book, a))


def _truth(op, book, a):
    d = book.get(a)
    if op == 'unspents':
        return json.dumps(sorted([c['txid'], c['vout'], c['value'], world.conf(book, c), c['script']] for c in d['utxo']))
    if op == 'transactions':
        return json.dumps(sorted(d['chain'] + d['mempool']))
    if op == 'balance':
        return json.dumps(book.balance(a))
    return json.dumps(book.raw.get(TXID))


def small_book(i, excess=False, svc=''):
    b = world.Book(height=700000 + i)
    t = lambda j: btc.txid(10000 * (i + 1) + j)
    nu = 3
    nm = 2
    if excess and svc == 'Blockchain':
        nu = 1001
    if excess and svc == 'Blockstream':
        nu, nm = 520, 53
    d = {'chain': [t(j) for j in range(4)], 'mempool': [t(100 + j) for j in range(nm)], 'balance': None, 'script': SCRIPT,
         'utxo': [world.coin(t(1000 + j), j, 5000 + 10 * i + j, SCRIPT, None if j == 1 else 699000 + j) for j in range(nu)]}
    for n in ('main', 'test'):
        b.addr[ADDR[n]] = d
    b.raw[TXID] = 'ab%02x' % i
    return b


def collapse(log):
    out = []
    for e in log:
        if not out or out[-1] != e['svc']:
            out.append(e['svc'])
    return out


def one_failover(s):
    op, net = s['op'], s['net']
    w = world.World()
    excess = []
    for i, svc in enumerate(SVCS):
        b = s['behav'].get(svc, 'refused')
        w.books[(svc, net)] = small_book(i, b == 'excess', svc)
        other = 'test' if net == 'main' else 'main'
        w.books[(svc, other)] = small_book(i + 10)
        if b == 'excess':
            excess.append(svc)
        elif b == 'late':
            w.fault[svc] = {1: ('status', 503)}
        elif b.startswith('late-'):
            w.fault[svc] = {1: fault(b[5:])}
        elif b == 'empty':
            w.books[(svc, net)] = world.Book(height=700000 + i)
            w.not_found[svc] = '404' if op != 'balance' and sum(map(len, s['behav'].values())) % 2 else ''
        elif b != 'ok':
            w.fault[svc] = fault(b)
    env.Net.handler, env.Net.count = w.handle, 0
    arg = TXID if op == 'txbyid' else ADDR[net]
    v, e = env.call(api(op, net), arg)
    failed = sorted({x['svc'] for x in w.log if x['fault']} | {x['svc'] for x in w.log if x['svc'] in excess})
    return {'op': op, 'net': net, 'behav': s['behav'], 'log': collapse(w.log), 'failed': failed, 'excess': excess,
            'nets': [x['net'] for x in w.log],
            'truth': {svc: truth(op, w.books[(svc, net)], ADDR[net]) for svc in SVCS},
            'answer': '' if e else short(canon(op, v)), 'exc': env.exc_kinds(e)}


def records(scns, out, ctx):
    recs = []
    for s, r in zip(scns, out):
        if r is None:
            ctx.violate(['process-died'], {'scn': s})
        elif isinstance(r, env.Broken):
            ctx.violate(['unusable-result'], {'scn': s, 'traceback': r.tb})
        else:
            recs.append({'scn': s, 'rec': r})
    return recs


def failover_cfg(faults, emit, answers=('ok',)):
    q = lambda xs: ', '.join('"%s"' % x for x in xs)
    return '''CONSTANTS Faults = {%s}
Answers = {%s}
Emit = %s
''' % (q(faults), q(answers), 'TRUE' if emit else 'FALSE')


INVS = 'INVARIANTS AnswerIsGood AnsweredIfPossible NoneAfterAnswer EachOnce OnlyConfigured\nPROPERTY Terminates\n'


def run_c11(ctx):
    ctx.model_check('Failover', failover_cfg(['refused'], False, ('ok', 'empty')) + 'SPECIFICATION Spec\n' + INVS)
    faults = ['refused', 'timeout', 's503'] if ctx.quick else ['refused', 'timeout', 'ctimeout', 's429', 's503']
    scns = ctx.generate('Failover', failover_cfg(faults, True) + 'INIT Init\nNEXT GenNext\n')
    scns += ctx.generate('Failover', failover_cfg(['refused'] if ctx.quick else ['refused', 's503'], True, ('ok', 'empty')) + 'INIT Init\nNEXT GenNext\n')
    # every remaining failure of every single service, with all others failing or working
    extra = ctx.generate('Failover', failover_cfg(['refused'], True) + 'INIT StatusInit\nNEXT GenNext\n')
    for op, net, svcs in targets(scns):
        for s in svcs:
            for f in ['timeout', 'ctimeout'] + (['late-refused', 'late-timeout'] if op in ('transactions', 'unspents') else []):
                for others in ('refused', 'ok'):
                    extra.append({'op': op, 'net': net, 'behav': {x: (f if x == s else others) for x in svcs}})
    recs = records(scns + extra, env.run_many(one_failover, scns + extra), ctx)
    ctx.judge('FailoverTrace', recs)
    ctx.notes['exhaustive'] = 'every assignment of {ok, %s, late page, excess} to the configured services of every query on both networks' % ', '.join(faults)


def targets(scns):
    seen = {}
    for s in scns:
        seen[(s['op'], s['net'])] = sorted(s['behav'])
    return [(o, n, v) for (o, n), v in sorted(seen.items())]


# ------------------------------------------------------------------ C12
TX = ('0100000001' + '11' * 32 + '00000000' + '00' + 'ffffffff' + '01' + 'e803000000000000' + '19' + SCRIPT + '00000000')
# with a witness, with other versions and lock times, unsigned, large
GIVEN = [TX, '02000000' + '0001' + TX[8:-8] + '0201aa0102' + '00000000', '02' + TX[2:-8] + 'ffffffff', 'ffffffff' + TX[8:-8] + '20a10700',
         '01000000' + '02' + ('00' * 32 + '01000000' + '00' + '00000000') * 2 + TX[92:], '01000000' + 'fd4d01' + ('ab' * 32 + '07000000' + '6b' + 'cd' * 107 + 'fdffffff') * 333 + TX[92:]]


def wallet(net, i=1):
    import bit
    return (bit.PrivateKey if net == 'main' else bit.PrivateKeyTestnet).from_bytes(btc.secret(i))


def one_broadcast(s):
    net = s['net']
    w = world.World()
    for svc, b in s['behav'].items():
        if b == 'accept':
            w.accept[svc] = True
        elif b == 'reject':
            w.accept[svc] = 400
        elif b[1:].isdigit():
            w.accept[svc] = int(b[1:])
        else:
            w.fault[svc] = fault(b)
    env.Net.handler, env.Net.count = w.handle, 0
    given, ident = '', ''
    if s.get('mode') == 'send':
        from bit.network.meta import Unspent
        k = wallet(net)
        us = [Unspent(100000 + s['i'], 1, SCRIPT, btc.txid(s['i']), s['i'], 'p2pkh')]
        if s['i'] % 2:
            sw = btc.p2sh(btc.h160(b'\x00\x14' + btc.h160(btc.pub(btc.secret(1))))).hex()
            us.append(Unspent(50000, 1, sw, btc.txid(s['i'] + 1), 1, 'np2wkh'))
        v, e = env.call(k.send, [(ADDR[net], 30000, 'satoshi')], fee=3, unspents=us)
        ident = v if isinstance(v, str) else repr(v)
    else:
        given = GIVEN[s.get('i', 0) % len(GIVEN)]
        v, e = env.call(api('broadcast', net), given)
    sent = [h for (_, _, h) in w.broadcasts]
    msg = str(e).lower() if e else ''
    return {'net': net, 'behav': s['behav'], 'mode': s.get('mode', 'raw'), 'log': [x['svc'] for x in w.log], 'sent': sent, 'given': given, 'id': ident,
            'exc': env.exc_kinds(e), 'saysfailed': 'failed' in msg or 'reject' in msg, 'saysunreachable': 'unreachable' in msg}


def run_c12(ctx):
    kinds = ['accept', 'reject', 'refused'] if ctx.quick else ['accept', 'reject', 'refused', 'timeout']
    cfg = 'CONSTANT Kinds = {%s}\n'
    q = lambda ks: ', '.join('"%s"' % k for k in ks)
    ctx.model_check('Broadcast', cfg % q(kinds) + 'SPECIFICATION Spec\nINVARIANTS NoFalseSuccess SentIfPossible StopsAtAcceptance EachOnce RejectedMeansAnswered\nPROPERTY Terminates\n')
    scns = ctx.generate('Broadcast', cfg % q(['accept', 'reject', 's500', 'refused', 'timeout']) + 'INIT Init\nNEXT GenNext\n')
    scns += ctx.generate('Broadcast', cfg % q(['accept']) + 'INIT StatusInit\nNEXT GenNext\n')
    scns = [dict(s, i=i) for i, s in enumerate(scns)]
    sends = [dict(s, mode='send', i=i) for i, s in enumerate(scns) if ctx.tier != 'quick' or i % 7 == 0]
    recs = records(scns + sends, env.run_many(one_broadcast, scns + sends), ctx)
    ctx.judge('BroadcastTrace', recs)
    ctx.notes['exhaustive'] = 'every assignment of accept/reject/500/refused/timeout to the configured services of both networks'


# ------------------------------------------------------------------ C13
def one_paging(s):
    op, net, svc, n, un = s['op'], s['net'], s['svc'], s['size'], s['unconf']
    w = world.World()
    b = world.Book(height=800000)
    a = ADDR[net]
    d = {'chain': [], 'mempool': [], 'utxo': [], 'balance': None, 'script': SCRIPT}
    if op == 'transactions':
        ids = [btc.txid(j) for j in range(n)]
        d['mempool'], d['chain'] = ids[:un], ids[un:]
        index = {t: j + 1 for j, t in enumerate(ids)}
        d['utxo'] = [world.coin(btc.txid(j + 50000), j, 1, SCRIPT, 5) for j in range(7)]
    else:
        index = {}
        heights = (800000, 799999, 799995, 1, 450000)
        for j in range(n):
            # several outputs of one transaction share an id; amounts and heights repeat
            c = world.coin(btc.txid(j // 3), j % 3 if j % 2 else 70000 + j, (1, 546, 2099999999999999, 100000000, 123456789012 + j, 10 + j, 100000)[j % 7], SCRIPT, None if j < un else heights[j % 5])
            d['utxo'].append(c)
            index[(c['txid'], c['vout'], c['value'], world.conf(b, c), c['script'])] = j + 1
        assert len(index) == n
        d['chain'] = [btc.txid(j + 60000) for j in range(13)]
    b.addr[a] = d
    w.books[(svc, net)] = b
    if s['fault']:
        w.fault[svc] = {s['fault'] - 1: ('status', s['code'])}
    for x in SVCS:
        if x != svc:
            w.fault[x] = ('refused',)
    env.Net.handler, env.Net.count = w.handle, 0
    v, e = env.call(api(op, net), a, seconds=120)
    got = []
    if e is None:
        try:
            for x in v:
                key = x if op == 'transactions' else (x.txid, x.txindex, x.amount, x.confirmations, x.script)
                got.append(index.get(key, 0))
        except Exception:
            got = [0]
    return {'op': op, 'net': net, 'svc': svc, 'size': n, 'unconf': un, 'limit': w.blockstream_utxo_limit, 'got': got,
            'faulted': any(x['fault'] for x in w.log if x['svc'] == svc), 'exc': env.exc_kinds(e)}


def run_c13(ctx):
    ctx.model_check('Paging', 'CONSTANTS MaxTotal = %d\nPageSizes = {1, 2, 3, 5}\nSPECIFICATION Spec\nINVARIANTS Complete NoDuplicates NeverSilentlyShort\nPROPERTY Terminates\n' % (11 if ctx.quick else 40))
    sizes = [0, 1, 2, 24, 25, 26, 49, 50, 51, 52, 75, 76, 99, 100, 101, 150, 200, 201, 499, 500, 501, 999, 1000, 1001, 1999, 2000, 2001]
    if not ctx.quick:
        sizes = sorted(set(sizes) | set(range(0, 110)) | {299, 300, 301, 3000, 3001, 2999, 5000})
    scns = ctx.generate('PagingGen', 'CONSTANTS Sizes = {%s}\nFaultAt = {0, 1, 2, 3, 4}\nHuge = %d\nCodes = {400, 404, 429, 500}\nINIT Init\nNEXT GenNext\n' % (', '.join(map(str, sizes)), 12345 if ctx.quick else 123456 // 4))
    recs = records(scns, env.run_many(one_paging, scns), ctx)
    ctx.judge('PagingTrace', recs)


# ------------------------------------------------------------------ C28
def one_timeout(s):
    from bit import set_service_timeout
    steps = []
    for h in s['hist']:
        if h.get('act') == 'set':
            # whole seconds are given as integers, like users do
            set_service_timeout(h['v'] // 1000 if h['v'] % 1000 == 0 else h['v'] / 1000)
            steps.append(dict(h, silent=[], reqs=[]))
        elif h.get('act') == 'ask':
            op, net = h['op'], h['net']
            w = world.World()
            for i, svc in enumerate(SVCS):
                b = small_book(i)
                if s['big']:
                    d = b.addr[ADDR[net]]
                    d['chain'] = [btc.txid(j) for j in range(1003)]
                    d['utxo'] = [world.coin(btc.txid(j), j, 700 + j, SCRIPT, 699000) for j in range(1003)]
                w.books[(svc, net)] = b
                w.accept[svc] = True
                if svc in h['silent']:
                    w.fault[svc] = ('timeout',) if s['late'] == 0 else {s['late']: ('timeout',)}
            reqs = []

            def handle(req):
                t = env.Net.timeout
                if isinstance(t, (tuple, list)):      # separate times to connect and to read
                    t = None if None in t else max(t)
                reqs.append(-1 if t is None else int(round(t * 1000)))
                return w.handle(req)
            env.Net.handler, env.Net.count = handle, 0
            env.call(api(op, net), TX if op == 'broadcast' else TXID if op == 'txbyid' else ADDR[net])
            steps.append(dict(h, silent=sorted(h['silent']), reqs=reqs))
    return {'steps': steps}


def run_c28(ctx):
    cfg = 'CONSTANTS Limits = {%s}\nMaxLen = %d\nINIT Init\n'
    ctx.model_check('Timeouts', cfg % ('1000, 3000', 2) + 'NEXT Next\nINVARIANTS Bounded LimitIsLastSet\n')
    scns = []
    # every operation with every set of silent services, with and without a timeout set before
    one = ctx.generate('Timeouts', cfg % ('3000', 1) + 'NEXT GenNext\n')
    for h in one:
        for pre in ([], [{'act': 'set', 'v': 3000, 'op': '', 'net': '', 'silent': []}]):
            for late, big in ((0, False), (1, False), (0, True), (1, True)):
                if ctx.quick and big and len(h['hist'][0].get('silent', [])) not in (0, 3, 4):
                    continue
                scns.append({'hist': pre + h['hist'], 'late': late, 'big': big})
    sim = ctx.generate('Timeouts', cfg % ('500, 1000, 3000, 7250, 60000', 7) + 'NEXT GenNext\n', num=300 if ctx.quick else 4000, depth=10)
    scns += [{'hist': h['hist'], 'late': i % 3, 'big': i % 5 == 0} for i, h in enumerate(sim)]
    recs = records(scns, env.run_many(one_timeout, scns, fresh=True), ctx)
    ctx.judge('TimeoutsTrace', recs)
    ctx.notes['requests'] = sum(len(x['reqs']) for r in recs for x in r['rec']['steps'])
