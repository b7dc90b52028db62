"""C29: what leaves a wallet, on every channel, over histories of use."""
import base64, contextlib, decimal, io, json, logging, os, random, re, sys, traceback, warnings
import requests
from .. import env, btc, world
from .services import records
from .payment import Wallet, dest, POLICIES

ACTS = ('show', 'query', 'pay', 'send', 'prepare', 'sign', 'data', 'contract', 'compare', 'node', 'export')
OTHER = {'main': 'test', 'test': 'main'}


class Outside(logging.Handler):
    """Collects what can be seen from outside while a step runs: [(channel, text)]."""
    files = None            # paths opened for writing, or None when not listening
    procs = None

    def __init__(self):
        super().__init__(0)
        self.seen = []

    def emit(self, rec):
        try:
            t = rec.getMessage()
        except Exception:
            t = repr((rec.msg, rec.args))
        if rec.exc_info:
            t += ''.join(traceback.format_exception(*rec.exc_info))
        self.add('log', t + repr(rec.args))

    def add(self, ch, x, deep=0):
        """A value as seen from outside: text, bytes, or anything made of them."""
        if isinstance(x, (bytes, bytearray)):
            self.seen.append((ch, bytes(x).hex()))
            x = bytes(x).decode('latin-1')
        if isinstance(x, str):
            self.seen.append((ch, x))
            if '\\x' in x:
                try:
                    self.seen.append((ch, x.encode('latin-1', 'replace').decode('unicode_escape').encode('latin-1', 'replace').hex()))
                except UnicodeDecodeError:
                    pass
            if any(not 31 < ord(c) < 127 for c in x):
                self.seen.append((ch, x.encode('latin-1', 'replace').hex()))
                self.seen.append((ch, x.encode('utf-8', 'replace').hex()))
        elif isinstance(x, (list, tuple, set, frozenset)) and deep < 4:
            for y in x:
                self.add(ch, y, deep + 1)
        elif isinstance(x, dict) and deep < 4:
            for y in x.items():
                self.add(ch, y, deep + 1)
        else:
            self.seen.append((ch, repr(x)))
            self.seen.append((ch, str(x)))

    def error(self, e):
        if e is None:
            return
        self.add('error', ''.join(traceback.format_exception_only(type(e), e)))
        self.add('error', getattr(e, 'args', ()))
        for o in (e.__cause__, None if e.__suppress_context__ else e.__context__):
            if o is not None:
                self.error(o)


def _audit(name, args):
    if Outside.files is not None and name == 'open' and args and isinstance(args[0], (str, bytes)):
        m, f = args[1], args[2]
        if (isinstance(m, str) and set(m) & set('wax+')) or (m is None and isinstance(f, int) and f & (os.O_WRONLY | os.O_RDWR)):
            Outside.files.append(os.fsdecode(args[0]))
    elif Outside.procs is not None and name in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'socket.sendto', 'socket.connect', 'os.putenv'):
        Outside.procs.append(repr(args))


_audited = []


def text(ts):
    return ' '.join(ts).encode('ascii', 'backslashreplace').decode()


def ders(data):
    """Signatures in a serialised transaction: pushed (or as witness items) with their hash type."""
    out = []
    try:
        b = bytes.fromhex(data)
    except (ValueError, TypeError):
        return out
    for i in range(1, len(b) - 8):
        if b[i] == 0x30 and b[i - 1] == b[i + 1] + 3 and b[i + 2] == 2:
            n = b[i + 1]
            d = b[i:i + 2 + n]
            if len(d) == n + 2 and b[i + 3] < n - 4 and d[4 + d[3]] == 2 and d[5 + d[3]] == n - d[3] - 4:
                out.append(d.hex())
    return out


def one_life(s):
    import bit
    from bit.network import NetworkAPI
    from bit.network.meta import Unspent
    rnd = random.Random('life %d' % s['salt'])
    wd = dict(s['w'])
    W = Wallet(wd, base=2000 + s['salt'] % 40)
    F = Wallet({'cls': 'key', 'net': OTHER[W.net], 'comp': True}, base=2100)
    w = world.World()
    w.books[('*', W.net)] = book = world.Book()
    w.books[('*', OTHER[W.net])] = world.Book()
    kinds = ('legacy', 'segwit') if W.allcomp else ('legacy',)
    ncoin = [0]

    def coins(n=3):
        ncoin[0] += 1
        return [(kinds[i % len(kinds)], btc.txid(s['salt'] * 1000 + ncoin[0] * 10 + i), i, 400000 + 17 * i) for i in range(n)]
    fixed = coins(4)
    for kind in ('legacy', 'segwit'):
        book.addr[W.addr[kind]] = {'chain': [btc.txid(7)], 'mempool': [], 'balance': None, 'script': W.spk[kind].hex(),
                                   'utxo': [world.coin(t, n, v, W.spk[kind].hex(), 699990) for k2, t, n, v in fixed if k2 == kind]}
    out = Outside()
    mood = ['ok']

    def handle(req):
        out.add('request', [req.method, req.url, dict(req.headers), req.body or ''])
        auth = str(req.headers.get('Authorization', ''))
        if auth.startswith('Basic '):
            out.add('request', base64.b64decode(auth[6:]))
        if mood[0] == 'down':
            raise requests.exceptions.ConnectionError('down')
        if mood[0] == 'garbage':
            return 200, '[[]]'
        return w.handle(req)
    env.Net.handler, env.Net.count = handle, 0
    env.Clock.now = 1700000000 + s['salt'] * 100000
    sigs, steps = [], []
    root = logging.getLogger()
    if not _audited:
        _audited.append(sys.addaudithook(_audit))
    before = dict(os.environ)
    logging.disable(logging.NOTSET)
    root.addHandler(out)
    level, root.level = root.level, 1
    con = io.StringIO()
    alive = {}

    def wallet(i):
        if i not in alive:
            alive[i] = W.open(i)
        return alive[i]
    try:
        for n, h in enumerate(s['hist']):
            if h == 'end' or h['act'] == 'end':
                continue
            out.seen = []
            w.broadcasts.clear()
            mood[0] = 'ok'
            i = (h['key'] - 1) % W.n
            k = wallet(i)
            con.seek(0)
            con.truncate()
            Outside.files, Outside.procs = [], []
            with warnings.catch_warnings(record=True) as ws, contextlib.redirect_stdout(con), contextlib.redirect_stderr(con):
                warnings.simplefilter('always')
                try:
                    vals = act(h, s, W, F, w, k, i, coins, mood, rnd, out, sigs, bit, NetworkAPI, Unspent)
                finally:
                    files, procs = Outside.files, Outside.procs
                    Outside.files = Outside.procs = None
            for v in vals:
                out.add('result', v)
            for x in ws:
                out.add('log', str(x.message))
            out.add('console', con.getvalue())
            out.add('process', procs)
            for f in set(files):
                out.add('file', f)
                with contextlib.suppress(OSError):
                    if os.path.isfile(f) and os.path.getsize(f) < 1 << 20:
                        out.add('file', open(f, 'rb').read())
            out.add('process', {a: b for a, b in os.environ.items() if before.get(a) != b})
            for _, _, x in w.broadcasts:
                sigs += ders(x)
            chans = {}
            for ch, t in out.seen:
                chans.setdefault(ch, []).append(t)
            steps.append({'act': h['act'], 'seen': [{'ch': ch, 'text': text(ts)} for ch, ts in sorted(chans.items())]})
    finally:
        logging.disable(logging.CRITICAL)
        root.removeHandler(out)
        root.level = level
    return {'secrets': [x.hex() for x in W.secrets], 'steps': steps, 'sigs': sorted(set(sigs))}


def act(h, s, W, F, w, k, i, coins, mood, rnd, out, sigs, bit, NetworkAPI, Unspent):
    """One step; returns the values handed out, errors go to `out`."""
    a, how = h['act'], h['how']
    key = W.key(i)
    vals = []

    def do(f, *args, **kw):
        v, e = env.call(f, *args, **kw)
        out.error(e)
        if e is None:
            vals.append(v)
        return v

    def offer(n=2):
        return [Unspent(v, 5, W.spk[kd].hex(), t, j, W.type(kd)) for kd, t, j, v in coins(n)]
    outs = [(dest(rnd.choice(('p2pkh', 'p2sh', 'p2wpkh', 'v1')), W, rnd.randrange(50)), rnd.randrange(1000, 50000), 'satoshi')]
    kw = {'fee': rnd.choice((1, 5, 900)), 'combine': rnd.random() < .6}
    if rnd.random() < .3:
        kw['absolute_fee'] = True
    if rnd.random() < .2:
        del kw['fee']
        kw.pop('absolute_fee', None)
    if rnd.random() < .3:
        kw['message'] = 'a message'
    if rnd.random() < .3:
        kw['replace_by_fee'] = True

    def send(**kw):
        if not W.multi:
            return do(k.send, outs, **kw)
        v = do(k.create_transaction, outs, **kw)
        for j in range(1, W.m):
            v = do(W.open((i + j) % W.n).sign_transaction, v, unspents=kw['unspents'] or k.unspents)
        if v is not None:
            do(NetworkAPI.broadcast_tx_testnet if W.net == 'test' else NetworkAPI.broadcast_tx, v)
    if a == 'show':
        for x in (k, key):
            out.add('shown', [repr(x), str(x), '%s' % x, '{}'.format(x), repr([x]), repr({'k': x})])
        out.add('shown', [repr(k.unspents), repr(k.transactions)])
    elif a == 'query':
        mood[0] = how
        for f in rnd.sample(('get_balance', 'get_unspents', 'get_transactions'), 2):
            do(getattr(k, f))
        vals.append([k.address, k.segwit_address, k.balance])
        if not W.multi:
            vals.append([key.public_key, list(key.public_point), key.scriptcode, key.segwit_scriptcode if key.is_compressed() else ''])
    elif a == 'pay':
        us = offer(rnd.choice((1, 2, 4)))
        if how == 'short':
            outs = [(outs[0][0], 10 ** 9, 'satoshi')]
        elif how == 'foreign':
            outs = [(dest('p2pkh', F, 3), 1000, 'satoshi')]
        elif how == 'badaddr':
            outs = [(outs[0][0][:-1] + ('1' if outs[0][0][-1] != '1' else '2'), 1000, 'satoshi')]
        elif how == 'badcoin':
            u = us[-1]
            us[-1] = Unspent(u.amount, 5, rnd.choice(('', 'zz', '76a9', u.script[:-2])), rnd.choice((u.txid, 'xy', u.txid[:-3])), u.txindex, u.type)
        elif how == 'nocoins':
            us = []
        elif how == 'badargs':
            j = rnd.randrange(7)
            outs = (outs, 5, [outs[0][:1]], [(outs[0][0], 'many', 'btc')], [(outs[0][0], 1, 'xyz')], outs, [(None, 1, 'satoshi')])[j]
            if j == 0:
                kw['fee'] = 'high'
            elif j == 5:
                kw['leftover'] = 'nowhere'
            if rnd.random() < .3:
                us = rnd.choice((5, [None], ['x'], 'coins'))
        v = do(k.create_transaction, outs, unspents=us, **kw)
        sigs += ders(v)
    elif a == 'send':
        mood[0] = 'down' if how == 'down' else 'ok'
        if how == 'refused':
            for svc in world.MAIN_SERVICES:
                w.accept[svc] = False
        send(unspents=offer() if rnd.random() < .7 or how == 'down' else None, **kw)
        w.accept.clear()
    elif a == 'prepare':
        us = offer()
        if how == 'short':
            outs = [(outs[0][0], 10 ** 9, 'satoshi')]
        elif how == 'badaddr':
            outs = [(outs[0][0] + 'x', 1000, 'satoshi')]
        if not W.multi:
            kw['compressed'] = W.comps[0]
        do(W.cls().prepare_transaction, W.addr['legacy'], outs, unspents=us, **kw)
    elif a == 'sign':
        us = offer()
        p = dict(kw)
        if not W.multi:
            p['compressed'] = W.comps[0]
        v, e = env.call(W.cls().prepare_transaction, W.addr['legacy'], outs, unspents=us, **p)
        out.error(e)
        if how == 'garbage':
            v = rnd.choice(('{', '[]', 'zz', '0100', '{"unspents": [], "outputs": []}'))
        if how == 'badcoin' and e is None:
            j = json.loads(v)
            j['unspents'][0]['txid'] = 'nonsense'
            v = json.dumps(j)
            do(k.sign_transaction, v, unspents=rnd.choice((5, [None], ['x'], us)))
        if v is not None:
            v2 = do(k.sign_transaction, v)
            sigs += ders(v2)
            if isinstance(v2, str):
                if rnd.random() < .3:
                    do(k.sign_transaction, v2, unspents=rnd.choice((5, [None], 7.5)))
                v3 = do(W.open((i + 1) % W.n).sign_transaction, v2, unspents=us)
                sigs += ders(v3)
    elif a == 'data':
        m = rnd.choice((b'', b'data', b'x' * rnd.randrange(200)))
        v = do(key.sign, m)
        if isinstance(v, bytes):
            sigs.append(v.hex())
            do(key.verify, v, m)
            do(key.verify, v, m + b'1')
            if how == 'garbage':
                do(key.verify, v[:-1], m)
                do(key.sign, 'text')
    elif a == 'contract':
        pubs = [key.public_key, F.pubs[0]]
        if how == 'ok':
            c = do(W.M, key, pubs, 1)
            if c is not None:
                out.add('shown', [repr(c), c.address, c.redeemscript, c.public_key])
                vals.pop()
        elif how == 'refused':
            do(W.M, key, [F.pubs[0]], 1)
            do(W.M, key, pubs, 5)
        else:
            do(W.M, F.key(), pubs, 1)
            do(W.M, key, 'pubs', 1)
            do(W.M, key, [key.public_key, b'12'], 1)
    elif a == 'compare':
        do(lambda: key == (F.key() if how == 'ok' else 'text'))
        do(lambda: key != W.key(i))
        do(lambda: hash(key))
    elif a == 'node':
        name = 'node.local:8332'

        def answer(method, params):
            if how == 'refused':
                return ('error', 500, {'code': -26, 'message': 'refused'})
            return ('result', 'ab' * 32 if method == 'sendrawtransaction' else 1.5 if 'received' in method else [])
        w.nodes[name] = answer
        net = NetworkAPI.connect_to_node(user='u', password='p', host='node.local', port=8332, testnet=W.net == 'test')
        out.add('shown', [repr(net), str(net)])
        mood[0] = 'down' if how == 'down' else 'ok'
        do(k.get_balance)
        send(unspents=offer(), **dict(kw, fee=3))
    elif a == 'export':
        # handed to the caller, and to nobody else
        for f in ('to_wif', 'to_hex', 'to_bytes', 'to_int', 'to_der', 'to_pem'):
            _, e = env.call(getattr(key, f))
            out.error(e)
        K = W.K
        for f in (lambda: K(key.to_wif()), lambda: K.from_hex(key.to_hex()), lambda: K.from_int(key.to_int()), lambda: K.from_pem(key.to_pem()), lambda: K.from_der(key.to_der()),
                  lambda: K.from_bytes(key.to_bytes()), lambda: bit.wif_to_key(key.to_wif())):
            v, e = env.call(f)
            out.error(e)
            if v is not None:
                out.add('shown', repr(v))
    return vals


def run_c29(ctx):
    q = ', '.join('"%s"' % a for a in ACTS)
    ctx.model_check('Secrecy', 'CONSTANTS Keys = {1, 2}\nMaxLen = %d\nActs = {%s}\nINIT Init\nNEXT Next\nINVARIANTS NothingLearnt OthersSafe\n' % (2 if ctx.quick else 3, q))
    gen = 'CONSTANTS Keys = {1, 2, 3}\nMaxLen = %d\nActs = {' + q + '}\nINIT Init\nNEXT GenNext\n'
    scns = []
    ws = [{'cls': 'key', 'net': n, 'comp': c} for n in ('main', 'test') for c in (True, False)]
    ws += [{'cls': 'multi', 'net': n, 'policy': p} for n in ('main', 'test') for p in ((1, 2, 'c'), (2, 3, 'c'), (2, 2, 'u'))]
    hs = ctx.generate('Secrecy', gen % 1)
    for h in hs:
        for x in ws:
            if x['cls'] == 'multi' or h['hist'][0]['key'] == 1:
                scns.append({'w': x, 'hist': h['hist'], 'salt': len(scns)})
    for h in ctx.generate('Secrecy', gen % 7, num=500 if ctx.quick else 6000, depth=12):
        scns.append({'w': ws[len(scns) % len(ws)], 'hist': h['hist'], 'salt': len(scns)})
    recs = records(scns, env.run_many(one_life, scns, fresh=True), ctx)
    # all signatures of everyone together
    sigs = sorted({d for r in recs for d in r['rec']['sigs']})
    recs.append({'scn': 'all', 'rec': {'secrets': [], 'steps': [], 'sigs': sigs}})
    ctx.judge('SecrecyTrace', recs)
    ctx.notes['seen'] = {'signatures': len(sigs), 'characters': sum(len(o['text']) for r in recs for st in r['rec']['steps'] for o in st['seen'])}
    chans = {}
    for r in recs:
        for st in r['rec']['steps']:
            for o in st['seen']:
                chans[o['ch']] = chans.get(o['ch'], 0) + len(o['text'])
    ctx.notes['channels'] = chans
