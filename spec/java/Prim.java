import tlc2.value.impl.*;
import util.UniqueString;
import java.math.BigInteger;
import java.security.MessageDigest;

/** TLC module overrides for Prim.tla: hash functions, secp256k1, hex text.
 *  Independent of the code under test (no coincurve / openssl). */
public class Prim {
    // ---------- byte-sequence plumbing ----------
    static byte[] bytes(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) t.elems[i]).val;
        return b;
    }
    static Value seq(byte[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = IntValue.gen(b[i] & 0xff);
        return new TupleValue(e);
    }
    public static Value FromHex(Value s) {
        String h = ((StringValue) s).val.toString();
        int n = h.length() / 2;
        Value[] e = new Value[n];
        for (int i = 0; i < n; i++)
            e[i] = IntValue.gen(Character.digit(h.charAt(2*i), 16) * 16 + Character.digit(h.charAt(2*i+1), 16));
        return new TupleValue(e);
    }
    public static Value ToHex(Value b) {
        StringBuilder sb = new StringBuilder();
        for (byte x : bytes(b)) sb.append(String.format("%02x", x & 0xff));
        return new StringValue(sb.toString());
    }
    /** Unicode code points of a string. */
    public static Value Codes(Value s) {
        int[] c = ((StringValue) s).val.toString().codePoints().toArray();
        Value[] e = new Value[c.length];
        for (int i = 0; i < c.length; i++) e[i] = IntValue.gen(c[i]);
        return new TupleValue(e);
    }
    /** Concatenation of a sequence of sequences. */
    public static Value Flatten(Value ss) {
        TupleValue t = (TupleValue) ss.toTuple();
        java.util.ArrayList<Value> out = new java.util.ArrayList<>();
        for (Value v : t.elems) for (Value x : ((TupleValue) v.toTuple()).elems) out.add(x);
        return new TupleValue(out.toArray(new Value[0]));
    }
    /** Whether any of a set of code sequences occurs in a string. */
    public static Value Occurs(Value parts, Value s) {
        String h = ((StringValue) s).val.toString();
        SetEnumValue set = (SetEnumValue) parts.toSetEnum();
        for (int i = 0; i < set.elems.size(); i++) {
            TupleValue t = (TupleValue) set.elems.elementAt(i).toTuple();
            StringBuilder sb = new StringBuilder();
            for (Value v : t.elems) sb.appendCodePoint(((IntValue) v).val);
            if (h.contains(sb)) return BoolValue.ValTrue;
        }
        return BoolValue.ValFalse;
    }
    // ---------- hashes ----------
    static byte[] sha(byte[] b) {
        try { return MessageDigest.getInstance("SHA-256").digest(b); } catch (Exception e) { throw new RuntimeException(e); }
    }
    public static Value SHA256(Value b) { return seq(sha(bytes(b))); }
    public static Value RIPEMD160(Value b) { return seq(ripemd(bytes(b))); }

    static final int[] R1 = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12,1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
    static final int[] R2 = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12,6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13,8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
    static final int[] S1 = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8,7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5,11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
    static final int[] S2 = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6,9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5,15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
    static int f(int j, int x, int y, int z) {
        if (j < 16) return x ^ y ^ z;
        if (j < 32) return (x & y) | (~x & z);
        if (j < 48) return (x | ~y) ^ z;
        if (j < 64) return (x & z) | (y & ~z);
        return x ^ (y | ~z);
    }
    static final int[] K1 = {0,0x5A827999,0x6ED9EBA1,0x8F1BBCDC,0xA953FD4E};
    static final int[] K2 = {0x50A28BE6,0x5C4DD124,0x6D703EF3,0x7A6D76E9,0};
    static byte[] ripemd(byte[] m) {
        int[] h = {0x67452301,0xEFCDAB89,0x98BADCFE,0x10325476,0xC3D2E1F0};
        int n = ((m.length + 8) / 64 + 1) * 64;
        byte[] p = java.util.Arrays.copyOf(m, n);
        p[m.length] = (byte) 0x80;
        long bl = 8L * m.length;
        for (int i = 0; i < 8; i++) p[n - 8 + i] = (byte) (bl >>> (8 * i));
        for (int o = 0; o < n; o += 64) {
            int[] x = new int[16];
            for (int i = 0; i < 16; i++) x[i] = (p[o+4*i]&255) | (p[o+4*i+1]&255)<<8 | (p[o+4*i+2]&255)<<16 | (p[o+4*i+3]&255)<<24;
            int a=h[0],b=h[1],c=h[2],d=h[3],e=h[4], aa=a,bb=b,cc=c,dd=d,ee=e;
            for (int j = 0; j < 80; j++) {
                int t = Integer.rotateLeft(a + f(j,b,c,d) + x[R1[j]] + K1[j/16], S1[j]) + e;
                a=e; e=d; d=Integer.rotateLeft(c,10); c=b; b=t;
                t = Integer.rotateLeft(aa + f(79-j,bb,cc,dd) + x[R2[j]] + K2[j/16], S2[j]) + ee;
                aa=ee; ee=dd; dd=Integer.rotateLeft(cc,10); cc=bb; bb=t;
            }
            int t = h[1]+c+dd; h[1]=h[2]+d+ee; h[2]=h[3]+e+aa; h[3]=h[4]+a+bb; h[4]=h[0]+b+cc; h[0]=t;
        }
        byte[] r = new byte[20];
        for (int i = 0; i < 20; i++) r[i] = (byte) (h[i/4] >>> (8*(i%4)));
        return r;
    }
    // ---------- secp256k1 ----------
    static final BigInteger P = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F",16);
    static final BigInteger N = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141",16);
    static final BigInteger GX = new BigInteger("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798",16);
    static final BigInteger GY = new BigInteger("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8",16);
    static final BigInteger TWO = BigInteger.TWO, THREE = BigInteger.valueOf(3), SEVEN = BigInteger.valueOf(7);
    // Jacobian; null = infinity
    static BigInteger[] dbl(BigInteger[] a) {
        if (a == null || a[1].signum() == 0) return null;
        BigInteger x=a[0],y=a[1],z=a[2], yy=y.multiply(y).mod(P), s=x.multiply(yy).shiftLeft(2).mod(P);
        BigInteger m=x.multiply(x).multiply(THREE).mod(P);
        BigInteger x3=m.multiply(m).subtract(s.shiftLeft(1)).mod(P);
        BigInteger y3=m.multiply(s.subtract(x3)).subtract(yy.multiply(yy).shiftLeft(3)).mod(P);
        return new BigInteger[]{x3,y3,y.multiply(z).shiftLeft(1).mod(P)};
    }
    static BigInteger[] add(BigInteger[] a, BigInteger[] b) {
        if (a == null) return b; if (b == null) return a;
        BigInteger z1=a[2].multiply(a[2]).mod(P), z2=b[2].multiply(b[2]).mod(P);
        BigInteger u1=a[0].multiply(z2).mod(P), u2=b[0].multiply(z1).mod(P);
        BigInteger s1=a[1].multiply(z2).multiply(b[2]).mod(P), s2=b[1].multiply(z1).multiply(a[2]).mod(P);
        if (u1.equals(u2)) return s1.equals(s2) ? dbl(a) : null;
        BigInteger h=u2.subtract(u1), hh=h.multiply(h).mod(P), hhh=h.multiply(hh).mod(P), r=s2.subtract(s1), v=u1.multiply(hh).mod(P);
        BigInteger x3=r.multiply(r).subtract(hhh).subtract(v.shiftLeft(1)).mod(P);
        BigInteger y3=r.multiply(v.subtract(x3)).subtract(s1.multiply(hhh)).mod(P);
        return new BigInteger[]{x3,y3,a[2].multiply(b[2]).multiply(h).mod(P)};
    }
    static BigInteger[] mul2(BigInteger k1, BigInteger[] p1, BigInteger k2, BigInteger[] p2) {
        BigInteger[] s = add(p1, p2), r = null;
        for (int i = Math.max(k1.bitLength(), k2.bitLength()) - 1; i >= 0; i--) {
            r = dbl(r);
            boolean a = k1.testBit(i), b = k2.testBit(i);
            if (a && b) r = add(r, s); else if (a) r = add(r, p1); else if (b) r = add(r, p2);
        }
        return r;
    }
    static BigInteger[] affine(BigInteger[] a) {
        BigInteger zi=a[2].modInverse(P), z2=zi.multiply(zi).mod(P);
        return new BigInteger[]{a[0].multiply(z2).mod(P), a[1].multiply(z2).multiply(zi).mod(P)};
    }
    static final BigInteger[] G = {GX, GY, BigInteger.ONE};
    static byte[] fix32(BigInteger v) {
        byte[] o = new byte[32], b = v.toByteArray();
        for (int i = 0; i < 32 && i < b.length; i++) o[31-i] = b[b.length-1-i];
        return o;
    }
    /** Public key (33 or 65 bytes) of a 32-byte secret; <<>> when the secret is out of range. */
    public static Value EcPub(Value secret, Value compressed) {
        BigInteger d = new BigInteger(1, bytes(secret));
        if (d.signum() == 0 || d.compareTo(N) >= 0) return new TupleValue(new Value[0]);
        BigInteger[] q = affine(mul2(d, G, BigInteger.ZERO, null));
        byte[] x = fix32(q[0]), y = fix32(q[1]), o;
        if (((BoolValue) compressed).val) {
            o = new byte[33]; o[0] = (byte) (q[1].testBit(0) ? 3 : 2); System.arraycopy(x,0,o,1,32);
        } else {
            o = new byte[65]; o[0] = 4; System.arraycopy(x,0,o,1,32); System.arraycopy(y,0,o,33,32);
        }
        return seq(o);
    }
    static BigInteger[] parsePub(byte[] k) {
        if (k.length == 33 && (k[0] == 2 || k[0] == 3)) {
            BigInteger x = new BigInteger(1, java.util.Arrays.copyOfRange(k,1,33));
            if (x.compareTo(P) >= 0) return null;
            BigInteger c = x.modPow(THREE,P).add(SEVEN).mod(P);
            BigInteger y = c.modPow(P.add(BigInteger.ONE).shiftRight(2), P);
            if (!y.multiply(y).mod(P).equals(c)) return null;
            if (y.testBit(0) != (k[0] == 3)) y = P.subtract(y);
            return new BigInteger[]{x,y,BigInteger.ONE};
        }
        if (k.length == 65 && k[0] == 4) {
            BigInteger x = new BigInteger(1, java.util.Arrays.copyOfRange(k,1,33)), y = new BigInteger(1, java.util.Arrays.copyOfRange(k,33,65));
            if (x.compareTo(P) >= 0 || y.compareTo(P) >= 0) return null;
            if (!y.multiply(y).mod(P).equals(x.modPow(THREE,P).add(SEVEN).mod(P))) return null;
            return new BigInteger[]{x,y,BigInteger.ONE};
        }
        return null;
    }
    /** ECDSA verification of a strict-DER (BIP-66), low-S signature over a 32-byte digest. */
    static final java.util.concurrent.ConcurrentHashMap<String, Boolean> verified = new java.util.concurrent.ConcurrentHashMap<>();
    public static Value EcVerify(Value pub, Value digest, Value der) {
        byte[] p = bytes(pub), d = bytes(digest), s = bytes(der);
        String key = new String(p, java.nio.charset.StandardCharsets.ISO_8859_1) + "|" + new String(d, java.nio.charset.StandardCharsets.ISO_8859_1)
            + "|" + new String(s, java.nio.charset.StandardCharsets.ISO_8859_1);
        Boolean b = verified.get(key);
        if (b == null) { b = ecVerify(p, d, s) == BoolValue.ValTrue; verified.put(key, b); }
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    static Value ecVerify(byte[] pub, byte[] digest, byte[] s) {
        BigInteger[] rs = parseDer(s);
        if (rs == null) return BoolValue.ValFalse;
        BigInteger r = rs[0], ss = rs[1];
        if (r.signum() <= 0 || ss.signum() <= 0 || r.compareTo(N) >= 0 || ss.compareTo(N.shiftRight(1)) > 0) return BoolValue.ValFalse;
        BigInteger[] q = parsePub(pub);
        if (q == null) return BoolValue.ValFalse;
        BigInteger e = new BigInteger(1, digest), w = ss.modInverse(N);
        BigInteger[] t = mul2(e.multiply(w).mod(N), G, r.multiply(w).mod(N), q);
        if (t == null) return BoolValue.ValFalse;
        return affine(t)[0].mod(N).equals(r) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value IsDerSig(Value der) { return parseDer(bytes(der)) != null ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static BigInteger[] parseDer(byte[] s) {
        if (s.length < 8 || s.length > 72 || s[0] != 0x30 || s[1] != s.length - 2 || s[2] != 2) return null;
        int rl = s[3]; if (rl <= 0 || 4 + rl + 2 > s.length) return null;
        if (s[4+rl] != 2) return null;
        int sl = s[5+rl]; if (sl <= 0 || 6 + rl + sl != s.length) return null;
        if (s[4] < 0 || (rl > 1 && s[4] == 0 && s[5] >= 0)) return null;
        int o = 6 + rl; if (s[o] < 0 || (sl > 1 && s[o] == 0 && s[o+1] >= 0)) return null;
        return new BigInteger[]{ new BigInteger(1, java.util.Arrays.copyOfRange(s,4,4+rl)), new BigInteger(1, java.util.Arrays.copyOfRange(s,o,o+sl)) };
    }
}
