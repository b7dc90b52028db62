"""Harness-side Bitcoin encodings, independent of the code under test (used to make inputs)."""
import hashlib
from coincurve import PrivateKey as _EC

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
B32 = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
P = 2 ** 256 - 2 ** 32 - 977


def sha(b):
    return hashlib.sha256(b).digest()


def h256(b):
    return sha(sha(b))


def h160(b):
    return hashlib.new('ripemd160', sha(b)).digest()


def b58(b):
    n = int.from_bytes(b, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s


def b58check(b):
    return b58(b + h256(b)[:4])


def _poly(v):
    g = [0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3]
    c = 1
    for x in v:
        t = c >> 25
        c = (c & 0x1ffffff) << 5 ^ x
        for i in range(5):
            c ^= g[i] if (t >> i) & 1 else 0
    return c


def bech32_raw(hrp, data, const=1):
    """data: 5-bit values."""
    v = [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp] + list(data)
    p = _poly(v + [0] * 6) ^ const
    return hrp + '1' + ''.join(B32[d] for d in list(data) + [(p >> 5 * (5 - i)) & 31 for i in range(6)])


def bits(data, frm, to, pad=True):
    acc = n = 0
    out = []
    for v in data:
        acc = (acc << frm) | v
        n += frm
        while n >= to:
            n -= to
            out.append((acc >> n) & ((1 << to) - 1))
    if pad and n:
        out.append((acc << (to - n)) & ((1 << to) - 1))
    return out


def bech32(hrp, ver, prog):
    return bech32_raw(hrp, [ver] + bits(prog, 8, 5))


def pub(secret, compressed=True):
    return _EC(secret if isinstance(secret, bytes) else secret.to_bytes(32, 'big')).public_key.format(compressed)


def p2pkh(h):
    return b'\x76\xa9\x14' + h + b'\x88\xac'


def p2sh(h):
    return b'\xa9\x14' + h + b'\x87'


def pkh_addr(pk, net):
    return b58check((b'\x00' if net == 'main' else b'\x6f') + h160(pk))


def sh_addr(h, net):
    return b58check((b'\x05' if net == 'main' else b'\xc4') + h)


def wif(secret, compressed, net):
    return b58check((b'\x80' if net == 'main' else b'\xef') + secret + (b'\x01' if compressed else b''))


def redeem(pubs, m):
    return bytes([80 + m]) + b''.join(bytes([len(p)]) + p for p in pubs) + bytes([80 + len(pubs), 174])


def varint(n):
    if n < 253:
        return bytes([n])
    if n <= 65535:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def secret(i):
    """Deterministic test secrets."""
    return (int.from_bytes(sha(b'verif-key-%d' % i), 'big') % (N - 1) + 1).to_bytes(32, 'big')


def txid(i):
    return sha(b'verif-tx-%d' % i).hex()
