"""C26 (signing data and checking signatures) and C27 (new keys)."""
import hashlib, json, os, pickle, random
from .. import env, btc
from .services import records


# ------------------------------------------------------------------ C26
def der(r, s):
    def num(x):
        b = x.to_bytes((x.bit_length() + 7) // 8 or 1, 'big')
        b = b'\x00' + b if b[0] & 0x80 else b
        return b'\x02' + bytes([len(b)]) + b
    body = num(r) + num(s)
    return b'\x30' + bytes([len(body)]) + body


def rs(sig):
    n = sig[3]
    return int.from_bytes(sig[4:4 + n], 'big'), int.from_bytes(sig[6 + n:6 + n + sig[5 + n]], 'big')


def tampered(sig, how, rnd):
    try:
        if how == 'bit':
            b = bytearray(sig)
            b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
            return bytes(b)
        if how == 'high-s':
            r, s = rs(sig)
            return der(r, btc.N - s)
        if how == 'zero-s':
            r, s = rs(sig)
            return der(*rnd.choice(((r, 0), (0, s), (r, s + btc.N), (r + btc.N, s), (s, r))))
    except Exception:
        return sig[:-1]
    if how == 'hash-type':
        return sig + rnd.choice((b'\x01', b'\x01', b'\x00', b'\x02', b'\x03', b'\x81', b'\x01\x01'))
    if how == 'pad':
        # a needless leading zero in r or in s, or a long-form length
        try:
            r, z = rs(sig)
            n = sig[3]
            a, b = sig[4:4 + n], sig[6 + n:]
            w = rnd.randrange(4)
            a, b = (b'\x00' + a if w in (0, 2) else a), (b'\x00' + b if w in (1, 2) else b)
            body = b'\x02' + bytes([len(a)]) + a + b'\x02' + bytes([len(b)]) + b
            return b'\x30' + (b'\x81' if w == 3 else b'') + bytes([len(body)]) + body
        except Exception:
            return sig[:-1]
    if how == 'cut':
        return sig[:rnd.randrange(1, len(sig))]
    if how == 'extend':
        return sig + bytes([rnd.randrange(256)])
    if how == 'empty':
        return b''
    if how == 'other':
        return der(rnd.randrange(1, btc.N), rnd.randrange(1, btc.N // 2))
    return sig


DATA = [b'', b'\x00', b'a', b'message', bytes(31), bytes(32), b'\xff' * 32, bytes(33), b'x' * 64, b'x' * 65, bytes(range(256)), b'y' * 1000, b'y' * 1001, b'message ', b'Message', b'\x00message']


def relatives(d):
    h = hashlib.sha256
    return [h(d).digest(), h(h(d).digest()).digest(), h(d).hexdigest().encode(), d + b'\x00', b'\x00' + d, d[:-1] if d else b'\x01', d[::-1] + b'\x02', d.hex().encode() + b'0',
            d + d + b'\x03', hashlib.sha1(d).digest(), h(d).digest()[::-1], b'\x18Bitcoin Signed Message:\n' + btc.varint(len(d)) + d, d.strip(b'\x00') + b'\x04', d + b'\n', d + b' ']


def one_sig(s):
    import bit
    rnd = random.Random('%s %s' % (s['salt'], json.dumps(s['hist'])))
    secs, keys = {}, {}
    fixed = [(1).to_bytes(32, 'big'), (btc.N - 1).to_bytes(32, 'big'), (2 ** 200).to_bytes(32, 'big'), bytes(16) + b'\x01' * 16]
    for i in (1, 2, 3):
        sec = fixed[(s['salt'] + i) % 4] if (s['salt'] + i) % 7 < 2 else btc.secret(700 + s['salt'] * 3 + i)
        secs[i] = sec
        comp = (s['salt'] + i) % 3 > 0
        keys[i] = (bit.PrivateKey if (s['salt'] + i) % 2 else bit.PrivateKeyTestnet)(btc.wif(sec, comp, 'main' if (s['salt'] + i) % 2 else 'test'))
    pick = rnd.sample(range(len(DATA)), 3)
    data = {i + 1: DATA[p] for i, p in enumerate(pick)}
    # the second piece of data is often a close relative of the first, the third random
    d = data[1] if rnd.random() < .5 else bytes(rnd.randrange(256) for _ in range(rnd.choice((1, 8, 32, 32, 40, 100))))
    data[1] = d
    rel = [hashlib.sha256(d).digest()] * 2 + relatives(d)
    if rnd.random() < .7:
        data[2] = rel[rnd.randrange(len(rel))]
    data[3] = bytes(rnd.randrange(256) for _ in range(rnd.choice((5, 20, 31, 32, 33, 64))))
    r = {'signs': [], 'checks': []}
    made, last = [], None
    for h in s['hist']:
        if not isinstance(h, dict):
            continue
        if h['data'] == 'new':
            # new data, often a close relative of what was signed before (the same beginning, end or digest)
            d = bytes(rnd.randrange(256) for _ in range(rnd.choice((rnd.randrange(70), rnd.randrange(70), 200, 600))))
            if last is not None and rnd.random() < .45:
                d = rnd.choice([last + d, d + last, last[:-1] + d[:1], d[:1] + last[1:]] + relatives(last))
            last = d
        else:
            d = data[h['data']]
        k = keys[h['key']]
        if h['act'] == 'sign':
            if rnd.random() < .3:
                # the same key, imported again
                k = type(k).from_hex(k.to_hex())
            elif rnd.random() < .2:
                # the key as a party to a contract
                k = (bit.MultiSig if type(k) is bit.PrivateKey else bit.MultiSigTestnet)(k, [k.public_key, btc.pub(btc.secret(99))], 1)
            v, e = env.call(k.sign, d)
            if s.get('fresh') and isinstance(v, bytes):
                for f in (k.verify if hasattr(k, 'verify') else keys[h['key']].verify, lambda a, b: bit.verify_sig(a, b, btc.pub(secs[h['key']]))):
                    q, e2 = env.call(f, v, d)
                    r['checks'].append({'pub': btc.pub(secs[h['key']]).hex(), 'data': d.hex(), 'sig': v.hex(), 'ok': q is True, 'exc': env.exc_kinds(e2)})
                    # nothing related to the data passes for it
                    for x in [hashlib.sha256(d).digest()] + rnd.sample(relatives(d), 2):
                        q, e2 = env.call(f, v, x)
                        r['checks'].append({'pub': btc.pub(secs[h['key']]).hex(), 'data': x.hex(), 'sig': v.hex(), 'ok': q is True, 'exc': env.exc_kinds(e2)})
            v = v if isinstance(v, bytes) else b''
            made.append(v)
            r['signs'].append({'secret': secs[h['key']].hex(), 'pub': btc.pub(secs[h['key']]).hex(), 'data': d.hex(), 'sig': v.hex(), 'exc': env.exc_kinds(e)})
        else:
            sig = tampered(made[h['sig'] - 1], h['tamper'], rnd) if made[h['sig'] - 1] else b'\x30'
            pub = btc.pub(secs[h['key']], rnd.random() < .5)
            if rnd.random() < .5:
                v, e = env.call(k.verify, sig, d)
            else:
                v, e = env.call(bit.verify_sig, sig, d, pub)
            r['checks'].append({'pub': pub.hex(), 'data': d.hex(), 'sig': sig.hex(), 'ok': v is True, 'exc': env.exc_kinds(e)})
    return r


def run_c26(ctx):
    cfg = 'CONSTANTS Keys = {%s}\nData = {%s}\nMaxLen = %d\nINIT Init\n'
    ctx.model_check('MsgSig', cfg % ('1, 2', '1, 2', 3 if ctx.quick else 4) + 'NEXT Next\nINVARIANT OnlyGenuine\n')
    scns = []
    for h in ctx.generate('MsgSig', cfg % ('1, 2', '1, 2', 2) + 'NEXT GenNext\n'):
        for salt in range(4 if ctx.quick else 24):
            scns.append({'hist': h['hist'], 'salt': salt})
    sim = ctx.generate('MsgSig', cfg % ('1, 2, 3', '1, 2, 3', 16) + 'NEXT GenNext\n', num=800 if ctx.quick else 6000, depth=20)
    scns += [{'hist': h['hist'], 'salt': 100 + i} for i, h in enumerate(sim)]
    # many signatures over fresh data, each checked both ways (endings and lengths of every kind)
    n = 60 if ctx.quick else 600
    scns += [{'hist': [{'act': 'sign', 'key': 1 + j % 3, 'data': 'new'} for j in range(24)], 'salt': 5000 + i, 'fresh': True} for i in range(n)]
    recs = records(scns, env.run_many(one_sig, scns), ctx)
    recs = [r for r in recs if r['rec']['signs']]
    ctx.judge('MsgSigTrace', recs)
    ctx.notes['signatures'] = {'made': sum(len(r['rec']['signs']) for r in recs), 'checked': sum(len(r['rec']['checks']) for r in recs),
                               'accepted': sum(c['ok'] for r in recs for c in r['rec']['checks'])}


# ------------------------------------------------------------------ C27
HOWS = ['main', 'test', 'key', 'pair']


def make_key(how):
    import bit
    from bit.keygen import generate_key_address_pair
    want = 'test' if how == 'test' else 'main'

    def go():
        if how == 'pair':
            w, a = generate_key_address_pair()
            k = bit.PrivateKey(w)
            return k.to_bytes().hex(), w, a
        k = {'main': bit.PrivateKey, 'test': bit.PrivateKeyTestnet, 'key': bit.Key}[how]()
        return k.to_bytes().hex(), k.to_wif(), k.address
    v, e = env.call(go)
    sec, w, a = v if e is None else ('', '', '')
    return {'secret': sec, 'wif': [ord(c) for c in w], 'addr': [ord(c) for c in a], 'want': want, 'exc': env.exc_kinds(e)}


def one_fresh(s):
    """Interprets a history: each process of the model is a real process."""
    env.Clock.now = 1700000000
    random.seed(12345)
    steps = [h for h in s['hist'] if isinstance(h, dict)]

    def run(me, i, child_no):
        """Process `me` lives from step i; returns the keys it and its children made."""
        out = []
        n = child_no
        for j in range(i, len(steps)):
            h = steps[j]
            if h['act'] == 'fork':
                n += 1
                if h['p'] == me:
                    r, w = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        try:
                            os.close(r)
                            with os.fdopen(w, 'wb') as f:
                                pickle.dump(run(n, j + 1, n), f)
                        finally:
                            os._exit(0)
                    os.close(w)
                    with os.fdopen(r, 'rb') as f:
                        data = f.read()
                    os.waitpid(pid, 0)
                    out += pickle.loads(data) if data else []
            elif h['p'] != me:
                continue
            elif h['act'] == 'seed':
                random.seed(h['s'])
                try:
                    import numpy
                    numpy.random.seed(h['s'])
                except ImportError:
                    pass
            else:
                for _ in range(s.get('many', 1)):
                    out.append(make_key(h['how']))
        return out
    return {'keys': run(1, 0, 1)}


def run_c27(ctx):
    cfg = 'CONSTANTS MaxProcs = %d\nMaxLen = %d\nHows = {%s}\nINIT Init\n'
    q = ', '.join('"%s"' % h for h in HOWS)
    ctx.model_check('FreshKeys', cfg % (2, 4 if ctx.quick else 5, '"main"') + 'NEXT Next\nINVARIANT NeverTwice\n')
    scns = []
    # each way of making a key: many in a row, after identical seeds, in forked processes that share everything
    for h in HOWS:
        new = lambda p: {'act': 'new', 'p': p, 'how': h, 's': 0}
        seed = lambda p, s=1: {'act': 'seed', 'p': p, 'how': '', 's': s}
        fork = {'act': 'fork', 'p': 1, 'how': '', 's': 0}
        scns.append({'hist': [new(1)], 'many': 100})
        scns.append({'hist': [seed(1), new(1), seed(1), new(1)], 'many': 50})
        scns.append({'hist': [seed(1), fork, fork, new(1), new(2), new(3)], 'many': 50})
        scns.append({'hist': [new(1), fork, new(2), new(1), fork, new(3), new(1)], 'many': 3})
    gen = cfg % (3, 10, q) + 'NEXT GenNext\n'
    scns += ctx.generate('FreshKeys', gen, num=300 if ctx.quick else 3000, depth=14)
    out = env.run_many(one_fresh, scns)
    recs = [r for r in records(scns, out, ctx) if r['rec']['keys']]
    # histories run in separate processes from the same start: no two of them may share a key either
    seen = [k for r in recs for k in r['rec']['keys'] if not k['exc']]
    random.Random(ctx.seed).shuffle(seen)
    recs.append({'scn': {'all': len(seen)}, 'rec': {'keys': seen[:1500]}})
    ctx.judge('FreshKeysTrace', recs)
    ctx.notes['new_keys'] = len(seen)
