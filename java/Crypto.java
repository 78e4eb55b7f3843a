import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.Arrays;
import java.util.concurrent.ConcurrentHashMap;

import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;

import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC evaluation of the operators that module Crypto.tla leaves uninterpreted.
 *
 * Independent of the code under test and of its dependencies: SHA-2 and HMAC are the JDK's,
 * RIPEMD-160 and secp256k1 are written out below from their specifications. Crypto checks
 * itself against published vectors when it is loaded.
 */
public class Crypto {
    // ------------------------------------------------------------------ conversions
    private static byte[] bytes(Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        if (t == null) {
            throw new IllegalArgumentException("Crypto: not a byte sequence: " + v);
        }
        final byte[] out = new byte[t.elems.length];
        for (int i = 0; i < out.length; i++) {
            out[i] = (byte) ((IntValue) t.elems[i]).val;
        }
        return out;
    }

    private static final IntValue[] INTS = new IntValue[256];
    static {
        for (int i = 0; i < 256; i++) {
            INTS[i] = IntValue.gen(i);
        }
    }

    private static Value tuple(byte[] b) {
        final Value[] vs = new Value[b.length];
        for (int i = 0; i < b.length; i++) {
            vs[i] = INTS[b[i] & 0xff];
        }
        return new TupleValue(vs);
    }

    private static final byte[] NONE = new byte[0];
    private static final ConcurrentHashMap<String, byte[]> MEMO = new ConcurrentHashMap<>();

    private static String key(String op, byte[]... parts) {
        final StringBuilder sb = new StringBuilder(op);
        for (byte[] p : parts) {
            sb.append('/');
            for (byte b : p) {
                sb.append((char) (b & 0xff));
            }
        }
        return sb.toString();
    }

    // ------------------------------------------------------------------ hashes
    private static byte[] digest(String alg, byte[] in) {
        try {
            return MessageDigest.getInstance(alg).digest(in);
        } catch (Exception e) {
            throw new RuntimeException(e);
        }
    }

    private static byte[] hmac512(byte[] k, byte[] d) {
        try {
            final Mac mac = Mac.getInstance("HmacSHA512");
            mac.init(new SecretKeySpec(k, "HmacSHA512"));
            return mac.doFinal(d);
        } catch (Exception e) {
            throw new RuntimeException(e);
        }
    }

    private static byte[] pbkdf2(byte[] pw, byte[] salt, int iter) {
        try {
            final Mac mac = Mac.getInstance("HmacSHA512");
            mac.init(new SecretKeySpec(pw, "HmacSHA512"));
            final byte[] first = Arrays.copyOf(salt, salt.length + 4);
            first[salt.length + 3] = 1;
            byte[] u = mac.doFinal(first);
            final byte[] t = u.clone();
            for (int i = 1; i < iter; i++) {
                u = mac.doFinal(u);
                for (int j = 0; j < t.length; j++) {
                    t[j] ^= u[j];
                }
            }
            return t;
        } catch (Exception e) {
            throw new RuntimeException(e);
        }
    }

    private static final int[] RL = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3,
            12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4,
            13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13};
    private static final int[] RR = {5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10,
            14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0,
            5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11};
    private static final int[] SL = {11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15,
            7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15,
            9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6};
    private static final int[] SR = {8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11,
            7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6,
            14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11};
    private static final int[] KL = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e};
    private static final int[] KR = {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0};

    private static int f(int j, int x, int y, int z) {
        switch (j) {
            case 0: return x ^ y ^ z;
            case 1: return (x & y) | (~x & z);
            case 2: return (x | ~y) ^ z;
            case 3: return (x & z) | (y & ~z);
            default: return x ^ (y | ~z);
        }
    }

    private static byte[] ripemd(byte[] in) {
        final int padded = ((in.length + 8) / 64 + 1) * 64;
        final byte[] m = Arrays.copyOf(in, padded);
        m[in.length] = (byte) 0x80;
        final long bits = (long) in.length * 8;
        for (int i = 0; i < 8; i++) {
            m[padded - 8 + i] = (byte) (bits >>> (8 * i));
        }
        int h0 = 0x67452301, h1 = 0xefcdab89, h2 = 0x98badcfe, h3 = 0x10325476, h4 = 0xc3d2e1f0;
        final int[] x = new int[16];
        for (int off = 0; off < padded; off += 64) {
            for (int i = 0; i < 16; i++) {
                x[i] = (m[off + 4 * i] & 0xff) | (m[off + 4 * i + 1] & 0xff) << 8 | (m[off + 4 * i + 2] & 0xff) << 16
                        | (m[off + 4 * i + 3] & 0xff) << 24;
            }
            int al = h0, bl = h1, cl = h2, dl = h3, el = h4;
            int ar = h0, br = h1, cr = h2, dr = h3, er = h4;
            for (int j = 0; j < 80; j++) {
                int t = Integer.rotateLeft(al + f(j / 16, bl, cl, dl) + x[RL[j]] + KL[j / 16], SL[j]) + el;
                al = el; el = dl; dl = Integer.rotateLeft(cl, 10); cl = bl; bl = t;
                t = Integer.rotateLeft(ar + f(4 - j / 16, br, cr, dr) + x[RR[j]] + KR[j / 16], SR[j]) + er;
                ar = er; er = dr; dr = Integer.rotateLeft(cr, 10); cr = br; br = t;
            }
            final int t = h1 + cl + dr;
            h1 = h2 + dl + er;
            h2 = h3 + el + ar;
            h3 = h4 + al + br;
            h4 = h0 + bl + cr;
            h0 = t;
        }
        final int[] h = {h0, h1, h2, h3, h4};
        final byte[] out = new byte[20];
        for (int i = 0; i < 20; i++) {
            out[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
        }
        return out;
    }

    // ------------------------------------------------------------------ secp256k1
    private static final BigInteger P = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16);
    private static final BigInteger N = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16);
    private static final BigInteger GX = new BigInteger("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16);
    private static final BigInteger GY = new BigInteger("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16);
    private static final BigInteger SEVEN = BigInteger.valueOf(7), TWO = BigInteger.TWO, THREE = BigInteger.valueOf(3);

    /** A point in Jacobian coordinates; z = 0 is infinity. */
    private static final class Pt {
        final BigInteger x, y, z;
        Pt(BigInteger x, BigInteger y, BigInteger z) { this.x = x; this.y = y; this.z = z; }
    }
    private static final Pt INF = new Pt(BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO);
    private static final Pt G = new Pt(GX, GY, BigInteger.ONE);

    private static Pt dbl(Pt a) {
        if (a.z.signum() == 0 || a.y.signum() == 0) return INF;
        final BigInteger yy = a.y.multiply(a.y).mod(P);
        final BigInteger s = a.x.multiply(yy).shiftLeft(2).mod(P);
        final BigInteger m = THREE.multiply(a.x).multiply(a.x).mod(P);
        final BigInteger x = m.multiply(m).subtract(s.shiftLeft(1)).mod(P);
        final BigInteger y = m.multiply(s.subtract(x)).subtract(yy.multiply(yy).shiftLeft(3)).mod(P);
        return new Pt(x, y, a.y.multiply(a.z).shiftLeft(1).mod(P));
    }

    private static Pt add(Pt a, Pt b) {
        if (a.z.signum() == 0) return b;
        if (b.z.signum() == 0) return a;
        final BigInteger z1 = a.z.multiply(a.z).mod(P), z2 = b.z.multiply(b.z).mod(P);
        final BigInteger u1 = a.x.multiply(z2).mod(P), u2 = b.x.multiply(z1).mod(P);
        final BigInteger s1 = a.y.multiply(z2).multiply(b.z).mod(P), s2 = b.y.multiply(z1).multiply(a.z).mod(P);
        if (u1.equals(u2)) return s1.equals(s2) ? dbl(a) : INF;
        final BigInteger h = u2.subtract(u1).mod(P), r = s2.subtract(s1).mod(P);
        final BigInteger hh = h.multiply(h).mod(P), hhh = hh.multiply(h).mod(P), v = u1.multiply(hh).mod(P);
        final BigInteger x = r.multiply(r).subtract(hhh).subtract(v.shiftLeft(1)).mod(P);
        final BigInteger y = r.multiply(v.subtract(x)).subtract(s1.multiply(hhh)).mod(P);
        return new Pt(x, y, h.multiply(a.z).multiply(b.z).mod(P));
    }

    private static Pt mul(BigInteger k, Pt p) {
        Pt acc = INF;
        for (int i = k.bitLength() - 1; i >= 0; i--) {
            acc = dbl(acc);
            if (k.testBit(i)) acc = add(acc, p);
        }
        return acc;
    }

    private static byte[] fixed(BigInteger v) {
        final byte[] raw = v.toByteArray();
        final byte[] out = new byte[32];
        final int n = Math.min(32, raw.length);
        System.arraycopy(raw, raw.length - n, out, 32 - n, n);
        return out;
    }

    private static byte[] compress(Pt p) {
        if (p.z.signum() == 0) return NONE;
        final BigInteger zi = p.z.modInverse(P), zi2 = zi.multiply(zi).mod(P);
        final BigInteger x = p.x.multiply(zi2).mod(P), y = p.y.multiply(zi2).multiply(zi).mod(P);
        final byte[] out = new byte[33];
        out[0] = (byte) (y.testBit(0) ? 3 : 2);
        System.arraycopy(fixed(x), 0, out, 1, 32);
        return out;
    }

    private static Pt lift(BigInteger x, boolean odd) {
        if (x.compareTo(P) >= 0) return null;
        final BigInteger c = x.modPow(THREE, P).add(SEVEN).mod(P);
        BigInteger y = c.modPow(P.add(BigInteger.ONE).shiftRight(2), P);
        if (!y.multiply(y).mod(P).equals(c)) return null;
        if (y.testBit(0) != odd) y = P.subtract(y);
        return new Pt(x, y, BigInteger.ONE);
    }

    private static byte[] pubkey(byte[] sk) {
        final BigInteger d = new BigInteger(1, sk);
        if (sk.length != 32 || d.signum() == 0 || d.compareTo(N) >= 0) return NONE;
        return compress(mul(d, G));
    }

    private static byte[] recover(byte[] msg, byte[] sig) {
        if (sig.length != 65 || msg.length != 32) return NONE;
        final int id = sig[0] & 0xff;
        final BigInteger r = new BigInteger(1, Arrays.copyOfRange(sig, 1, 33));
        final BigInteger s = new BigInteger(1, Arrays.copyOfRange(sig, 33, 65));
        if (id > 3 || r.signum() == 0 || s.signum() == 0 || r.compareTo(N) >= 0 || s.compareTo(N) >= 0) return NONE;
        final Pt pt = lift((id & 2) != 0 ? r.add(N) : r, (id & 1) != 0);
        if (pt == null) return NONE;
        final BigInteger ri = r.modInverse(N);
        final BigInteger e = new BigInteger(1, msg);
        final BigInteger u1 = e.negate().multiply(ri).mod(N), u2 = s.multiply(ri).mod(N);
        return compress(add(mul(u1, G), mul(u2, pt)));
    }

    // ------------------------------------------------------------------ the operators
    public static Value SHA256(Value b) { return tuple(digest("SHA-256", bytes(b))); }

    public static Value SHA512T256(Value b) { return tuple(digest("SHA-512/256", bytes(b))); }

    public static Value RIPEMD160(Value b) { return tuple(ripemd(bytes(b))); }

    public static Value HMACSHA512(Value k, Value d) { return tuple(hmac512(bytes(k), bytes(d))); }

    public static Value PBKDF2SHA512(Value pw, Value salt) {
        final byte[] p = bytes(pw), s = bytes(salt);
        return tuple(MEMO.computeIfAbsent(key("k", p, s), q -> pbkdf2(p, s, 2048)));
    }

    public static Value PubKeyOf(Value sk) {
        final byte[] k = bytes(sk);
        return tuple(MEMO.computeIfAbsent(key("p", k), q -> pubkey(k)));
    }

    public static Value EcRecover(Value msg, Value sig) {
        final byte[] m = bytes(msg), s = bytes(sig);
        return tuple(MEMO.computeIfAbsent(key("r", m, s), q -> recover(m, s)));
    }

    /** (a + b) mod n as 32 bytes, or <<>> if a >= n or the sum is 0 (BIP-32's "invalid child"). */
    public static Value ScalarAdd(Value a, Value b) {
        final BigInteger x = new BigInteger(1, bytes(a));
        if (x.compareTo(N) >= 0) return tuple(NONE);
        final BigInteger s = x.add(new BigInteger(1, bytes(b))).mod(N);
        return tuple(s.signum() == 0 ? NONE : fixed(s));
    }

    // ------------------------------------------------------------------ self check
    private static byte[] hex(String s) {
        final byte[] out = new byte[s.length() / 2];
        for (int i = 0; i < out.length; i++) {
            out[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        }
        return out;
    }

    private static void expect(boolean ok, String what) {
        if (!ok) throw new IllegalStateException("Crypto self check failed: " + what);
    }

    static {
        expect(Arrays.equals(ripemd(NONE), hex("9c1185a5c5e9fc54612808977ee8f548b2258d31")), "ripemd ''");
        expect(Arrays.equals(ripemd("abc".getBytes()), hex("8eb208f7e05d987a9b044a8e98c6b087f15a0bfc")), "ripemd abc");
        expect(Arrays.equals(ripemd("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq".getBytes()),
                hex("12a053384a9c0c88e405a06c27dcf49ada62eb2b")), "ripemd long");
        expect(Arrays.equals(pubkey(fixed(BigInteger.ONE)), compress(G)), "1G");
        expect(Arrays.equals(pubkey(fixed(BigInteger.valueOf(3))),
                hex("02f9308a019258c31049344f85f89d5229b531c845836f99b08601f113bce036f9")), "3G");
        expect(Arrays.equals(pubkey(fixed(N.subtract(BigInteger.ONE)))
                , hex("0379be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")), "-G");
        expect(mul(N, G).z.signum() == 0, "nG");
        // BIP-39 vector: "abandon"*11 + "about", passphrase "TREZOR"
        final byte[] seed = pbkdf2(("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon "
                + "abandon about").getBytes(), "mnemonicTREZOR".getBytes(), 2048);
        expect(Arrays.equals(Arrays.copyOf(seed, 8), hex("c55257c360c07c72")), "pbkdf2");
        // a signature made here verifies by recovery
        final BigInteger d = BigInteger.valueOf(123456789), k = BigInteger.valueOf(987654321), e = BigInteger.valueOf(42);
        final byte[] kg = compress(mul(k, G));
        final BigInteger r = new BigInteger(1, Arrays.copyOfRange(kg, 1, 33)).mod(N);
        final BigInteger s = k.modInverse(N).multiply(e.add(r.multiply(d))).mod(N);
        final byte[] sig = new byte[65];
        sig[0] = (byte) (kg[0] - 2);
        System.arraycopy(fixed(r), 0, sig, 1, 32);
        System.arraycopy(fixed(s), 0, sig, 33, 32);
        expect(Arrays.equals(recover(fixed(e), sig), pubkey(fixed(d))), "recover");
    }
}
