"""Encodings: C07 (transactions), C08 (addresses), C09 (keys), C23 (contracts)."""
import json, random
from .. import env, btc
from .services import records
from .signing import raw_tx

WORD = {'one': 1, 'two': 2, 'zero': 0, 'max': 0xffffffff, 'mixed': 0x80fefdfc, 'marker': 0x01000100}
AMT = {'zero': 0, 'one': 1, 'max': 2 ** 64 - 1, 'mixed': 0xfffefdfcfbfa00ff, 'marker': 0x0100}


# ------------------------------------------------------------------ C07
def bytes_of(rnd, n):
    if n > 2000:
        return bytes([rnd.randrange(256)]) * n
    return bytes(rnd.choice((0, 1, 0xfc, 0xfd, 0xfe, 0xff, rnd.randrange(256))) for _ in range(n))


def one_tx(s):
    from bit import transaction as T
    rnd = random.Random(json.dumps(s, sort_keys=True))
    rep = s.get('rep', {})
    ins = [(bytes_of(rnd, 32).hex(), WORD[rnd.choice(list(WORD))], bytes_of(rnd, i['script']), WORD[i['seq']],
            [bytes_of(rnd, n) for n in i['wit']] * rep.get('items', 1)) for i in s['ins']] * rep.get('ins', 1)
    outs = [(AMT[o['amt']], bytes_of(rnd, o['script'])) for o in s['outs']] * rep.get('outs', 1)
    full = raw_tx(WORD[s['version']], WORD[s['lock']], ins, outs)
    legacy = raw_tx(WORD[s['version']], WORD[s['lock']], [i[:4] + ([],) for i in ins], outs)
    r = {'hex': full, 'legacy': legacy, 'big': len(ins) > 600 or len(outs) > 600 or any(len(i[4]) > 600 for i in ins)}
    seconds = 300
    text = full.upper() if s.get('form') == 'HEX' else full
    if not r['big'] and rnd.random() < .6:
        before(T, full, text, outs, rnd)
    if s.get('form', 'hex').lower() == 'hex':
        t, e = env.call(T.deserialize, text, seconds=seconds)
    else:
        t, e = env.call(T.deserialize, bytes.fromhex(full), seconds=seconds)
    again = by = ''
    if e is None:
        again, e = env.call(lambda: t.to_hex(), seconds=seconds)
    if e is None:
        by, e = env.call(lambda: bytes(t).hex(), seconds=seconds)
    r['exc'], r['again'], r['bytes'] = env.exc_kinds(e), again if isinstance(again, str) else repr(again), by or ''
    i, e = env.call(T.calc_txid, text, seconds=seconds)
    r['id'], r['idexc'] = i if isinstance(i, str) else repr(i), env.exc_kinds(e)
    r['dmg'] = [] if r['big'] or len(full) > 4000 else [damaged_tx(T, bytes.fromhex(full), len(ins), rnd) for _ in range(3)]
    if r['big']:       # keep the trace small: equality is decided on digests of the texts
        for x in ('again', 'bytes'):
            r[x] = btc.sha(r[x].encode()).hex()
        r['hex'] = btc.sha(full.encode()).hex()
    return r


def damaged_tx(T, b, nin, rnd):
    """Something that may be no transaction any more, and what became of it."""
    how = rnd.choice(('cut', 'cut-end', 'tail', 'twice', 'flip', 'flip', 'insert', 'delete', 'wide', 'wide-any'))
    i = rnd.randrange(len(b))
    p = 6 if b[4:6] == b'\x00\x01' else 4
    if how == 'cut':
        b = b[:i]
    elif how == 'cut-end':
        b = b[:-rnd.choice((1, 2, 3, 4, 5, 8))]
    elif how == 'tail':
        b = b + bytes(rnd.randrange(256) for _ in range(rnd.choice((1, 1, 2, 4, 9))))
    elif how == 'twice':
        b = b + b
    elif how == 'flip':
        b = b[:i] + bytes([b[i] ^ 1 << rnd.randrange(8)]) + b[i + 1:]
    elif how == 'insert':
        b = b[:i] + bytes([rnd.choice((0, 1, 0xfd, 0xff))]) + b[i:]
    elif how == 'delete':
        b = b[:i] + b[i + 1:]
    elif how == 'wide':         # the number of inputs written longer than needed
        b = b[:p] + (b'\xfd' + bytes([b[p], 0]) if b[p] < 253 else b'\x00') + b[p + 1:]
    else:                       # a byte written as a longer number, wherever it is
        b = b[:i] + rnd.choice((b'\xfd' + bytes([b[i], 0]), b'\xfe' + bytes([b[i], 0, 0, 0]))) + b[i + 1:]
    h = b.hex()
    t, e = env.call(lambda: T.deserialize(h if i % 2 else b).to_hex(), seconds=300)
    d = {'hex': h, 'exc': env.exc_kinds(e), 'again': t if isinstance(t, str) else repr(t)}
    t, e = env.call(T.calc_txid, h, seconds=300)
    d['idexc'], d['id'] = env.exc_kinds(e), t if isinstance(t, str) else repr(t)
    return d


def before(T, full, text, outs, rnd):
    """What the same process did earlier must not show: a look-alike that differs in one late byte, or the same transaction, read and then edited."""
    if rnd.random() < .5 and outs:
        b = bytearray.fromhex(full)
        i = len(b) - 1 - rnd.randrange(4)     # in the lock time: still a transaction
        b[i] ^= 1 << rnd.randrange(8)
        other = bytes(b).hex()
        env.call(T.calc_txid, other)
        env.call(lambda: T.deserialize(rnd.choice((other, bytes(b)))).to_hex())
    else:
        env.call(T.calc_txid, text)
        for form in (text, bytes.fromhex(full)):
            t, e = env.call(T.deserialize, form)
            if e is None:
                def edit():
                    t.version = b'\x07\x00\x00\x00'
                    t.locktime = b'\x07\x00\x00\x00'
                    for i in t.TxIn:
                        i.script_sig, i.script_sig_len, i.sequence = b'\x51', b'\x01', b'\x07\x00\x00\x00'
                    t.TxOut.pop()
                    return t.to_hex()
                env.call(edit)


LENS = (0, 1, 2, 25, 75, 76, 107, 252, 253, 254, 255, 256, 257, 520)


def run_c07(ctx):
    base = 'CONSTANTS MaxIns = %d MaxOuts = %d MaxItems = %d ScriptLens = {%s} ItemLens = {%s}\n'
    L = lambda x: ', '.join(map(str, x))
    ctx.model_check('TxGen', base % (1, 1, 1, '0', '0') + 'INIT RTInit\nNEXT RTNext\nINVARIANTS RoundTrip PrefixFree\n')
    n = 700 if ctx.quick else 8000
    scns = ctx.generate('TxGen', base % (3, 3, 4, L(LENS), L(LENS)) + 'INIT Init\nNEXT Next\n', num=n, depth=60)
    scns += ctx.generate('TxGen', base % (2, 2, 2, L((0, 1, 65535, 65536)), L((0, 1, 65535, 65536, 300))) + 'INIT Init\nNEXT Next\n', num=30 if ctx.quick else 150, depth=40)
    # every small shape
    scns += ctx.generate('TxGen', base % (1, 1, 2, L((0, 1, 253)), L((0, 1, 252, 253))) + 'INIT Init\nNEXT Next\n')[::97 if ctx.quick else 7]
    scns = [s for s in scns if not s['segwit'] or any(i['wit'] for i in s['ins'])]
    one = {'version': 'two', 'lock': 'mixed', 'segwit': False, 'ins': [{'script': 3, 'seq': 'max', 'wit': []}], 'outs': [{'amt': 'one', 'script': 2}]}
    sw = dict(one, segwit=True, ins=[{'script': 0, 'seq': 'zero', 'wit': [1, 0]}])
    for what in ('ins', 'outs', 'items'):
        for cnt in (252, 253, 254, 255, 256, 257, 300) + (65535, 65536, 65537):
            for b in (one, sw):
                if what == 'items' and not b['segwit']:
                    continue
                if ctx.quick and cnt > 60000 and (what == 'ins' or cnt != 65536 or (what == 'outs') == b['segwit']):
                    continue
                scns.append(dict(b, rep={what: cnt if what != 'items' else (cnt + 1) // 2}))
                if what == 'items':
                    scns.append(dict(sw, ins=[{'script': 0, 'seq': 'zero', 'wit': [1]}, {'script': 1, 'seq': 'one', 'wit': [2]}], rep={'items': cnt}))
    for i, s in enumerate(scns):
        s['form'] = ('bytes', 'hex', 'bytes', 'hex', 'HEX')[i % 5]
    recs = records(scns, env.run_many(one_tx, scns), ctx)
    C = {'parse-error', 'roundtrip', 'roundtrip-bytes', 'id', 'id-error', 'damaged-accepted', 'damaged-misread', 'good-refused'}
    ctx.judge('TxTrace', [r for r in recs if len(r['rec']['hex']) < 20000 and not r['rec']['big']], clauses=C)
    large = [r for r in recs if len(r['rec']['hex']) >= 20000 or r['rec']['big']]
    if large:
        ctx.judge('TxTrace', large, clauses=C)
    # the id returned by sending
    from . import payment as P
    cfg, defs = P.gen_cfg([0], 4, 3, modes=['send'])
    sends = ctx.generate('PayGen', cfg + 'INIT Init\nNEXT Next\n', defs=defs, num=300 if ctx.quick else 3000, depth=40)
    sends = [s for s in sends if s['w']['cls'] == 'key']
    for s in sends:
        s['pols'] = [0]
    sends += P.boundary(ctx, 'C04') and [dict(s, mode='send') for s in P.boundary(ctx, 'C04') if s['w']['cls'] == 'key'][:2 if ctx.quick else 6]
    srecs = records(sends, env.run_many(P.one_pay, sends), ctx)
    ctx.judge('PaymentTrace', srecs, clauses={'sent-id', 'sent-other', 'malformed'})
    ctx.notes['transactions'] = {'parsed': len(recs), 'large': len(large), 'sent': sum(1 for r in srecs if not r['rec']['exc'])}


# ------------------------------------------------------------------ C08
def payload(p, n):
    if p == 0:
        return b'\x00' * n
    if p == 1:
        return b'\xff' * n
    if p == 2:
        return (b'\x00\x00' + btc.sha(b'%d' % p) * 2)[:n]
    return (btc.sha(b'payload%d' % p) + btc.sha(b'q%d' % p))[:n]


def address(s):
    """(string, 'yes' when it is valid by construction)."""
    hrp = 'bc' if s['net'] == 'main' else 'tb'
    p = payload(s['pay'], s['len'] if s['form'] == 'bech' else 20)
    ver = {('pkh', 'main'): 0, ('sh', 'main'): 5, ('pkh', 'test'): 111, ('sh', 'test'): 196}.get((s['form'], s['net']), 0)
    d, pos, arg = s['damage'], s['pos'], s['arg']
    if s['form'] == 'bech':
        a = btc.bech32(hrp, s['ver'], p)
        data = [s['ver']] + btc.bits(p, 8, 5)
    else:
        a = btc.b58check(bytes([ver]) + p)
    i = pos * (len(a) - 1) // 41
    al = btc.B32 if s['form'] == 'bech' else btc.B58
    sub = al[arg % len(al)]
    if d == 'none':
        return a, 'yes'
    if d == 'subst':
        a = a[:i] + sub + a[i + 1:]
    elif d == 'delete':
        a = a[:i] + a[i + 1:]
    elif d == 'insert':
        a = a[:i] + sub + a[i:]
    elif d == 'q-insert':       # bech32's known weakness: q before a final p - a valid string must then be judged as such
        a = btc.bech32_raw(hrp, data)
        a = a[:-1] + 'q' * (arg % 3 + 1) + a[-1]
    elif d == 'swap':
        j = min(i + 1, len(a) - 1)
        l = list(a)
        l[i], l[j] = l[j], l[i]
        a = ''.join(l)
    elif d == 'truncate':
        a = a[:i]
    elif d == 'double':
        a = a + a
    elif d == 'space-before':
        a = ' ' + a
    elif d == 'space-after':
        a = a + ' '
    elif d == 'newline':
        a = a[:i] + '\n' + a[i:] if arg % 2 else a + '\n'
    elif d == 'nonascii':
        a = a[:i] + 'é' + a[i + 1:]
    elif d == 'fullwidth':
        a = a[:i] + chr(ord(a[i]) + 0xfee0) + a[i + 1:]
    elif d == 'nul':
        a = a[:i] + '\0' + a[i + 1:]
    elif d == 'case':
        a = a.swapcase()
    elif d == 'reverse':
        a = a[::-1]
    elif d == 'version':
        a = btc.b58check(bytes([(pos * 64 + arg) % 256]) + p)
    elif d == 'paylen':
        a = btc.b58check(bytes([ver]) + payload(s['pay'], arg))
    elif d == 'nochecksum':
        a = btc.b58(bytes([ver]) + p)
    elif d == 'checksum-flip':
        raw = bytes([ver]) + p
        c = bytearray(btc.h256(raw)[:4])
        c[arg % 4] ^= 1 << (pos % 8)
        a = btc.b58(raw + bytes(c))
    elif d == 'zero-char':
        a = a[:i] + '0OIl+/'[arg % 6] + a[i + 1:]
    elif d == 'lead-one':
        a = '1' * (arg % 3 + 1) + a
    elif d == 'wif':
        a = btc.wif(btc.secret(arg), bool(pos % 2), s['net'])
    elif d == 'upper':
        a = a.upper()
    elif d == 'mixed':
        a = a[:i] + a[i:].upper()
    elif d == 'onechar-case':
        a = a[:i] + a[i].swapcase() + a[i + 1:] if arg % 2 else (a.upper()[:i] + a[i].lower() + a.upper()[i + 1:])
    elif d == 'bech32m':
        a = btc.bech32_raw(hrp, data, 0x2bc830a3)
    elif d == 'hrp':
        a = btc.bech32_raw(('ltc', 'tbc', 'b', 'bcr', 'bc1', 'x', 'tb1', 'bb', 'cb', 'bt')[arg % 10], data)
    elif d == 'version17':
        a = btc.bech32_raw(hrp, [17 + arg % 15] + data[1:])
    elif d == 'proglen':
        a = btc.bech32_raw(hrp, [s['ver'] or 1] + btc.bits(payload(s['pay'], (0, 1, 41, 42, 43, 48)[arg % 6]), 8, 5))
    elif d == 'v0len':
        a = btc.bech32_raw(hrp, [0] + btc.bits(payload(s['pay'], arg % 43), 8, 5))
    elif d == 'padbits':
        x = list(data)
        x[-1] |= 1
        a = btc.bech32_raw(hrp, x)
    elif d == 'padgroup':
        a = btc.bech32_raw(hrp, data + [0] * (arg % 3 + 1))
    elif d == 'noprog':
        a = btc.bech32_raw(hrp, data[:arg % 2])
    elif d == 'sep-missing':
        a = a.replace('1', '', 1)
    elif d == 'extra-sep':
        a = a[:max(3, i)] + '1' + a[max(3, i):]
    elif d == 'badchar':
        a = a[:max(3, i)] + 'bio1'[arg % 4] + a[max(4, i + 1):]
    elif d == 'long':
        a = btc.bech32_raw(hrp, [s['ver'] or 1] + btc.bits(payload(s['pay'], 40), 8, 5) + [0] * (arg % 30))
    elif d == 'as-main':
        a = ('tb' if hrp == 'bc' else 'bc') + a[2:]
    return a, 'unknown'


FIXED = ['', ' ', '1', '11', '1111111111', '3', 'bc1', 'tb1', '1' * 25, '1' * 34, 'bc1q', 'None', '0', '0x' + '00' * 20, 'bitcoin:1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2',
         '1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2', '3P14159f73E4gFr7JterCCQh9QjiTjiZrG', 'BC1QW508D6QEJXTDG4Y5R3ZARVARY0C5XW7KV8F3T4',
         'tb1qrp33g0q5c5txsp9arysrx4k6zdkfs4nce4xj0gdcccefvpysxf3q0sl5k7', 'bc1pw508d6qejxtdg4y5r3zarvary0c5xw7kw508d6qejxtdg4y5r3zarvary0c5xw7k7grplx',
         'BC1SW50QA3JX3S', 'bc1zw508d6qejxtdg4y5r3zarvaryvg6kdaj', 'tc1qw508d6qejxtdg4y5r3zarvary0c5xw7kg3g4ty', 'bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t5',
         'BC13W508D6QEJXTDG4Y5R3ZARVARY0C5XW7KN40WF2', 'bc1rw5uspcuh', 'bc10w508d6qejxtdg4y5r3zarvary0c5xw7kw508d6qejxtdg4y5r3zarvary0c5xw7kw5rljs90',
         'BC1QR508D6QEJXTDG4Y5R3ZARVARYV98GJ9P', 'tb1qrp33g0q5c5txsp9arysrx4k6zdkfs4nce4xj0gdcccefvpysxf3q0sL5k7', 'bc1zw508d6qejxtdg4y5r3zarvaryvqyzf3du',
         'tb1qrp33g0q5c5txsp9arysrx4k6zdkfs4nce4xj0gdcccefvpysxf3pjxtptv', 'bc1gmk9yu', 'abcdef1qpzry9x8gf2tvdw0s3jn54khce6mua7lmqqqxw', 'A12UEL5L', '\x7f1axkwrx', 'pzry9x0s0muk', '1pzry9x0s0muk']


def one_addr(s):
    from bit import transaction as T, format as F
    import bit
    from bit.network.meta import Unspent
    env.Clock.now = 1700000000
    a, valid = (s['text'], 'unknown') if 'text' in s else address(s)
    v, e = env.call(T.address_to_scriptpubkey, a)
    n, ne = env.call(F.get_version, a)
    r = {'codes': [ord(c) for c in a], 'valid': valid, 'script': v.hex() if isinstance(v, (bytes, bytearray)) else repr(v), 'exc': env.exc_kinds(e),
         'net': n if isinstance(n, str) else repr(n), 'nexc': env.exc_kinds(ne), 'pay': False, 'pexc': [], 'cexc': []}
    if s.get('pay_too'):
        # the string used as payment and as change address, on the network it looks like
        net = n if n in ('main', 'test') else s.get('net') or 'main'
        k = (bit.PrivateKey if net == 'main' else bit.PrivateKeyTestnet)(btc.wif(btc.secret(1), True, net))
        coin = lambda: [Unspent(10 ** 7, 3, btc.p2pkh(btc.h160(btc.pub(btc.secret(1)))).hex(), btc.txid(3), 0, 'p2pkh')]
        r['pay'] = True
        _, e = env.call(k.create_transaction, [(a, 50000, 'satoshi')], fee=2, unspents=coin())
        r['pexc'] = env.exc_kinds(e)
        _, e = env.call(k.create_transaction, [(btc.pkh_addr(b'x', net), 50000, 'satoshi')], fee=2, leftover=a, unspents=coin()) if a else (None, ValueError())
        r['cexc'] = env.exc_kinds(e)
    return r


CM = 'CONSTANTS Secrets = {%s} Subst = {%s}\nINIT Init\nNEXT Next\n'


def run_c08(ctx):
    ctx.model_check('CodecModel', CM % ('"lead0", "ends01"' if ctx.quick else '"one", "top", "ends01", "lead0", "x"', '1, 2, 20, 45, 58' if ctx.quick else ', '.join(map(str, range(1, 59)))) + 'INVARIANT Faithful\nINVARIANT DamageDetected\n')
    cfg = 'CONSTANTS Payloads = {%s} Positions = {%s}\n'
    valid = ctx.generate('AddrGen', cfg % ('0, 1, 2, 3' + ('' if ctx.quick else ', 4, 5, 6, 7'), '0') + 'INIT Init\nNEXT ValidNext\n')
    n = 15000 if ctx.quick else 60000
    dam = ctx.generate('AddrGen', cfg % (', '.join(map(str, range(30))), ', '.join(map(str, range(42)))) + 'INIT Init\nNEXT Next\n', num=n, depth=10)
    scns = valid + dam
    for i, s in enumerate(scns):
        s['pay_too'] = i % 5 == 0
    scns += [{'text': t, 'pay_too': True} for t in FIXED]
    # every single-character substitution of one address of each form
    shapes = [('pkh', 'main', 0, 20), ('sh', 'test', 0, 20), ('bech', 'main', 0, 20), ('bech', 'test', 0, 32), ('bech', 'main', 1, 32)]
    if not ctx.quick:
        shapes += [('sh', 'main', 0, 20), ('pkh', 'test', 0, 20), ('bech', 'test', 0, 20), ('bech', 'main', 16, 2), ('bech', 'main', 0, 32)]
    for f, net, v, ln in shapes:
        a, _ = address({'form': f, 'net': net, 'ver': v, 'len': ln, 'pay': 9, 'damage': 'none', 'pos': 0, 'arg': 0})
        al = btc.B32 + '1bioB' if f == 'bech' else btc.B58 + '0OIl'
        for i in range(len(a)):
            for j, c in enumerate(al):
                if c != a[i] and (not ctx.quick or (i + j) % 3 == ctx.seed % 3):
                    scns.append({'text': a[:i] + c + a[i + 1:]})
    # all version bytes and all payload lengths
    for ver in range(256):
        scns.append({'text': btc.b58check(bytes([ver]) + payload(11, 20)), 'pay_too': ver % 9 == 0})
    for ver in (0, 5, 111, 196, 128, 239):
        for ln in range(0, 45):
            scns.append({'text': btc.b58check(bytes([ver]) + payload(12, ln)), 'pay_too': ln % 7 == 0})
    scns += [{'text': btc.bech32_raw(h, [v] + btc.bits(payload(13, ln), 8, 5))} for h in ('bc', 'tb') for v in range(32) for ln in range(0, 43)]
    recs = records(scns, env.run_many(one_addr, scns), ctx)
    ctx.judge('AddrTrace', recs, clauses={'valid-refused', 'wrong-script', 'wrong-network', 'network-refused', 'bad-accepted', 'bad-identified', 'bad-paid', 'bad-change', 'refusal-kind', 'payment-refused'})
    ctx.notes['addresses'] = {'strings': len(recs), 'accepted': sum(1 for r in recs if not r['rec']['exc']), 'refused': sum(1 for r in recs if r['rec']['exc'])}


# ------------------------------------------------------------------ C09
PATTERNS = ('random', 'small', 'leading', 'trailing', 'top', 'ends01', 'lead01', 'ff', 'byte', 'shift', 'x-zero')


_XZERO = []


def x_zero(i):
    """Secrets whose public x or y coordinate has a leading zero byte."""
    if not _XZERO:
        j = 0
        while len(_XZERO) < 8:
            s = btc.secret(500000 + j)
            j += 1
            p = btc.pub(s, False)
            if p[1] == 0 or p[33] == 0:
                _XZERO.append(s)
    return _XZERO[i % 8]


def secret_of(pat, a):
    N = btc.N
    n = {'random': lambda: int.from_bytes(btc.secret(9000 + a), 'big'),
         'small': lambda: a + 1,
         'leading': lambda: int.from_bytes(btc.secret(9100 + a), 'big') >> (8 * (a % 32)),
         'trailing': lambda: max(1, (int.from_bytes(btc.secret(9200 + a), 'big') >> (8 * (a % 31))) << (8 * (a % 31))),
         'top': lambda: N - 1 - a,
         'ends01': lambda: (int.from_bytes(btc.secret(9300 + a), 'big') >> 8 << 8 | 1) >> (8 * (a % 4)) << (8 * (a % 4)) | 1,
         'lead01': lambda: (int.from_bytes(btc.secret(9400 + a), 'big') & (2 ** 248 - 1)) | 1 << 248,
         'ff': lambda: (2 ** (8 * (a % 31 + 1)) - 1),
         'byte': lambda: 0x80 << (8 * (a % 31)),
         'shift': lambda: 1 << (8 * a % 256),
         'x-zero': lambda: int.from_bytes(x_zero(a), 'big')}[pat]()
    n = n % N or 1
    return n.to_bytes(32, 'big')


def key_facts(k):
    from bit.format import point_to_public_key
    p = k.public_point
    codes = lambda t: [ord(c) for c in t] if isinstance(t, str) else []
    return {'secret': bytes(k.to_bytes()).hex(), 'wif': codes(k.to_wif()), 'pub': bytes(k.public_key).hex(), 'pubhex': k.pub_to_hex(),
            'point': (int(p.x).to_bytes(32, 'big') + int(p.y).to_bytes(32, 'big')).hex(),
            'back': point_to_public_key(p, True).hex(), 'backlong': point_to_public_key(p, False).hex(), 'addr': codes(k.address), 'seg': codes(k.segwit_address),
            'net': {'PrivateKey': 'main', 'PrivateKeyTestnet': 'test'}.get(type(k).__name__, type(k).__name__)}


NOKEY = {'secret': '', 'wif': [], 'pub': '', 'pubhex': '', 'point': '', 'back': '', 'backlong': '', 'addr': [], 'seg': [], 'net': ''}


def damaged(s, wif):
    d, a = s['damage'], wif
    i = s['pos'] * (len(a) - 1) // 51
    c = btc.B58[s['sub']]
    sec = secret_of(s['pat'], s['arg'])
    if d == 'subst':
        a = a[:i] + c + a[i + 1:]
    elif d == 'delete':
        a = a[:i] + a[i + 1:]
    elif d == 'insert':
        a = a[:i] + c + a[i:]
    elif d == 'swap' and i + 1 < len(a):
        a = a[:i] + a[i + 1] + a[i] + a[i + 2:]
    elif d == 'case':
        a = a[:i] + a[i].swapcase() + a[i + 1:]
    elif d == 'badchar':
        a = a[:i] + '0OIl _-é'[s['sub'] % 8] + a[i + 1:]
    elif d == 'truncate':
        a = a[:i]
    elif d == 'checksum':
        raw = (b'\x80' if s['net'] == 'main' else b'\xef') + sec + (b'\x01' if s['comp'] else b'')
        ck = bytearray(btc.h256(raw)[:4])
        ck[s['pos'] % 4] ^= 1 << (s['sub'] % 8)
        a = btc.b58(raw + bytes(ck))
    elif d == 'version':
        a = btc.b58check(bytes([(s['pos'] * 58 + s['sub']) % 256]) + sec + (b'\x01' if s['comp'] else b''))
    elif d == 'address':
        a = btc.pkh_addr(btc.pub(sec), s['net'])
    elif d == 'pad':
        w = (' ', '\n', '\t', '\r\n', '\u00a0', '\u200b', '\x00', "'")[s['sub'] % 8]
        a = a + w if s['pos'] % 3 == 0 else w + a if s['pos'] % 3 == 1 else w + a + w
    elif d == 'suffix':
        a = btc.b58check((b'\x80' if s['net'] == 'main' else b'\xef') + sec + bytes([s['sub']]))
    return a


def one_key(s):
    import bit
    C = bit.PrivateKey if s['net'] == 'main' else bit.PrivateKeyTestnet
    sec = secret_of(s['pat'], s['arg'])
    wif = btc.wif(sec, s['comp'], s['net'])
    r = {'secret': sec.hex(), 'net': s['net'], 'comp': s['comp'], 'key': NOKEY, 'exc': [], 'hops': [], 'texts': []}
    src = s['arg'] % 3
    k, e = env.call(C if src else bit.wif_to_key, wif)
    if e is None:
        f, e = env.call(key_facts, k)
    r['exc'] = env.exc_kinds(e)
    if e is None:
        r['key'] = f
        for h in s['hops']:
            def hop(k=k, h=h):
                if h == 'wif':
                    w = k.to_wif()
                    return bit.wif_to_key(w) if (s['arg'] + len(r['hops'])) % 2 else C(w)
                return getattr(C, 'from_' + h)(getattr(k, 'to_' + h)())
            k, e = env.call(hop)
            f = None
            if e is None:
                f, e = env.call(key_facts, k)
            r['hops'].append({'form': h, 'exc': env.exc_kinds(e), 'key': f or NOKEY})
            if e is not None:
                break
    if s['damage'] != 'none':
        t = damaged(s, wif)
        v = [env.call(bit.wif_to_key, t)] + ([env.call(K, t) for K in (bit.PrivateKey, bit.PrivateKeyTestnet)] if t else [])
        f, e = env.call(key_facts, v[0][0]) if v[0][1] is None else (NOKEY, None)
        r['texts'].append({'codes': [ord(c) for c in t], 'exc': [env.exc_kinds(x[1] or e) for x in v], 'key': f or NOKEY})
    return r


def run_c09(ctx):
    ctx.model_check('CodecModel', CM % ('"one", "top", "ends01", "lead0", "x"', '1, 30, 58' if ctx.quick else ', '.join(map(str, range(1, 59)))) + 'INVARIANT Faithful\nINVARIANT DamageDetected\n')
    cfg = 'CONSTANTS Patterns = {%s} MaxHops = %d\nINIT Init\nNEXT Next\n'
    pats = ', '.join('"%s"' % p for p in PATTERNS)
    scns = ctx.generate('KeyGen', cfg % (pats, 5), num=4000 if ctx.quick else 40000, depth=20)
    x_zero(0)
    # every pattern, network, compression and single form
    for p in PATTERNS:
        for a in range(32):
            for net in ('main', 'test'):
                for comp in (True, False):
                    if not ctx.quick or a % 4 == 0 or p in ('leading', 'ends01'):
                        scns.append({'pat': p, 'arg': a, 'net': net, 'comp': comp, 'hops': ['wif', 'hex', 'wif', 'bytes', 'int', 'der', 'pem'], 'damage': 'none', 'pos': 0, 'sub': 0})
    for v in range(256):
        for comp in (True, False):
            scns.append({'pat': 'random', 'arg': 1, 'net': 'main', 'comp': comp, 'hops': [], 'damage': 'version', 'pos': v // 58, 'sub': v % 58})
    recs = records(scns, env.run_many(one_key, scns), ctx)
    ctx.judge('KeyTrace', recs, clauses={'import-error', 'secret', 'wif', 'public-key', 'public-point', 'point-back', 'address', 'segwit-address', 'class', 'bad-key-accepted', 'good-key-refused'})
    ctx.notes['keys'] = {'keys': len(recs), 'hops': sum(len(r['rec']['hops']) for r in recs), 'damaged_texts': sum(len(r['rec']['texts']) for r in recs)}


# ------------------------------------------------------------------ C23
def one_contract(s):
    import bit
    rnd = random.Random(json.dumps(s, sort_keys=True))
    net = s['net']
    K = bit.PrivateKey if net == 'main' else bit.PrivateKeyTestnet
    M = bit.MultiSig if net == 'main' else bit.MultiSigTestnet
    secs = [btc.secret(20000 + 100 * s['salt'] + i) for i in range(s['n'])]
    pubs = [btc.pub(x, c) for x, c in zip(secs, s['comps'])]
    order = list(range(s['n']))
    random.Random(s['order']).shuffle(order)
    me = s['me'] - 1
    given = [pubs[i] for i in order]
    keynet = net
    mykey = (secs[me], s['comps'][me])
    if s['flaw'] == 'stranger':
        mykey = (btc.secret(77), True)
    elif s['flaw'] in ('short', 'long', 'empty'):
        bad = {'short': lambda p: p[:-1], 'long': lambda p: p + b'\x00', 'empty': lambda p: b''}[s['flaw']]
        j = [i for i in range(s['n']) if order[i] != me]
        if j:
            x = rnd.choice(j)
            given[x] = bad(given[x])
    elif s['flaw'] == 'twice':
        x = rnd.randrange(s['n'])
        given.insert(rnd.randrange(s['n'] + 1), given[x])
    elif s['flaw'] == 'othernet':
        K = bit.PrivateKeyTestnet if net == 'main' else bit.PrivateKey
        keynet = 'test' if net == 'main' else 'main'

    def enc(ps, shift=0):
        # bytes, hex, HEX; 'both' and 'mixed' differ from key to key
        form = {'bytes': lambda i: 0, 'hex': lambda i: 1, 'both': lambda i: i % 2, 'upper': lambda i: 2, 'mixed': lambda i: rnd.randrange(3)}[s['enc']]
        out = [(p, p.hex(), p.hex().upper())[(form(i) + shift) % 3] for i, p in enumerate(ps)]
        return set(out) if s['as'] == 'set' else out
    mine = btc.pub(*mykey)
    r = {'net': net, 'keynet': keynet, 'm': s['m'], 'keys': [p.hex() for p in given], 'set': s['as'] == 'set', 'me': mine.hex(), 'exc': [], 'redeem': '', 'pubs': [],
         'gotm': 0, 'addr': [], 'seg': [], 'others': []}
    codes = lambda t: [ord(c) for c in t] if isinstance(t, str) else []
    arg = enc(given)

    def make():
        w = M(K(btc.wif(mykey[0], mykey[1], keynet)), arg, s['m'])
        return {'redeem': bytes(w.redeemscript).hex(), 'pubs': [bytes(p).hex() for p in w.public_keys], 'gotm': w.m, 'addr': codes(w.address), 'seg': codes(w.segwit_address)}
    v, e = env.call(make)
    r['exc'] = env.exc_kinds(e)
    if e is None:
        r.update(v)
        for j in range(s['n']):
            if j != me and len(r['others']) < 3 and s['flaw'] in ('none', 'twice'):
                # another co-signer enters the same keys; for a set, in another order and encoding
                again = enc(given if s['as'] == 'list' else given[::-1], 1 + j % 2)
                o, e2 = env.call(lambda: codes(M(K(btc.wif(secs[j], s['comps'][j], net)), again, s['m']).address))
                r['others'].append(o if e2 is None else [])
    return r


def run_c23(ctx):
    ctx.model_check('CodecModel', CM % ('"one"', '1') + 'INVARIANT Faithful\nINVARIANT SetsAgree\n')
    cfg = 'CONSTANTS MaxN = %d\nINIT Init\nNEXT Next\n'
    scns = ctx.generate('ContractGen', cfg % 17, num=4000 if ctx.quick else 30000, depth=8)
    # every m and n, all compressed and all uncompressed
    for n in range(1, 17):
        for m in range(0, n + 2):
            for comp in (True, False):
                for a in ('list', 'set'):
                    scns.append({'net': ('main', 'test')[(m + n) % 2], 'n': n, 'm': m, 'comps': [comp] * n, 'as': a, 'enc': ('bytes', 'hex')[m % 2], 'me': m % n + 1, 'order': n + m, 'flaw': 'none', 'salt': 3})
    recs = records(scns, env.run_many(one_contract, scns), ctx)
    ctx.judge('ContractTrace', recs, clauses={'contract-refused', 'contract-accepted', 'redeem', 'key-order', 'address', 'segwit-address', 'threshold', 'cosigners-differ'})
    ctx.notes['contracts'] = {'made': sum(1 for r in recs if not r['rec']['exc']), 'refused': sum(1 for r in recs if r['rec']['exc'])}
