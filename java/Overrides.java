// Java evaluations of operators that spec/*.tla defines in plain TLA+.  Every one of them
// is compared with its TLA+ definition by harness/setup.py (spec/Prims.tla run twice).
import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.Arrays;
import java.util.HashMap;
import java.util.concurrent.ConcurrentHashMap;
import javax.crypto.Cipher;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public class Overrides implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] { Overrides.class }; }

  // ---------------------------------------------------------------- values
  static final IntValue[] SMALL = new IntValue[256];
  static { for (int i = 0; i < 256; i++) SMALL[i] = IntValue.gen(i); }
  static int[] ints(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    int[] r = new int[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = ((IntValue) t.elems[i]).val;
    return r;
  }
  static byte[] oct(Value v) {
    int[] a = ints(v);
    byte[] r = new byte[a.length];
    for (int i = 0; i < r.length; i++) {
      if (a[i] < 0 || a[i] > 255) throw new RuntimeException("not an octet: " + a[i]);
      r[i] = (byte) a[i];
    }
    return r;
  }
  static int num(Value v) { return ((IntValue) v).val; }
  static Value seq(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < e.length; i++) e[i] = SMALL[b[i] & 255];
    return new TupleValue(e);
  }
  static Value seq(int[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < e.length; i++) e[i] = b[i] >= 0 && b[i] < 256 ? SMALL[b[i]] : IntValue.gen(b[i]);
    return new TupleValue(e);
  }
  static byte[] cat(byte[]... xs) {
    int n = 0; for (byte[] x : xs) n += x.length;
    byte[] r = new byte[n]; n = 0;
    for (byte[] x : xs) { System.arraycopy(x, 0, r, n, x.length); n += x.length; }
    return r;
  }
  static byte[] be(int n, int w) { byte[] r = new byte[w]; for (int i = w - 1; i >= 0; i--) { r[i] = (byte) n; n >>>= 8; } return r; }

  // ---------------------------------------------------------------- octets, text
  @TLAPlusOperator(identifier = "Flat", module = "Octets", warn = false)
  public static Value flat(final Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    java.util.ArrayList<Value> out = new java.util.ArrayList<>();
    for (Value e : t.elems) out.addAll(Arrays.asList(((TupleValue) e.toTuple()).elems));
    return new TupleValue(out.toArray(new Value[0]));
  }
  @TLAPlusOperator(identifier = "XorS", module = "Octets", warn = false)
  public static Value xorS(final Value a, final Value b) {
    int[] x = ints(a), y = ints(b); int[] r = new int[x.length];
    for (int i = 0; i < r.length; i++) r[i] = x[i] ^ y[i];
    return seq(r);
  }
  @TLAPlusOperator(identifier = "Codes", module = "Octets", warn = false)
  public static Value codes(final Value s) {
    String x = ((StringValue) s).val.toString(); int[] r = new int[x.length()];
    for (int i = 0; i < r.length; i++) r[i] = x.charAt(i);
    return seq(r);
  }
  @TLAPlusOperator(identifier = "StrOf", module = "Octets", warn = false)
  public static Value strOf(final Value s) {
    StringBuilder b = new StringBuilder(); for (int c : ints(s)) b.append((char) c);
    return new StringValue(b.toString());
  }
  static byte[] unhex(String x) {
    byte[] r = new byte[x.length() / 2];
    for (int i = 0; i < r.length; i++)
      r[i] = (byte) (Character.digit(x.charAt(2 * i), 16) * 16 + Character.digit(x.charAt(2 * i + 1), 16));
    return r;
  }
  @TLAPlusOperator(identifier = "Unhex", module = "Octets", warn = false)
  public static Value unhex(final Value s) { return seq(unhex(((StringValue) s).val.toString())); }
  @TLAPlusOperator(identifier = "HexCodes", module = "Octets", warn = false)
  public static Value hexCodes(final Value s) {
    byte[] o = oct(s); int[] r = new int[2 * o.length];
    for (int i = 0; i < o.length; i++) { r[2 * i] = "0123456789abcdef".charAt((o[i] & 255) >> 4); r[2 * i + 1] = "0123456789abcdef".charAt(o[i] & 15); }
    return seq(r);
  }

  // ---------------------------------------------------------------- hashes, AES, KDF
  static byte[] sha(byte[] b) { try { return MessageDigest.getInstance("SHA-256").digest(b); } catch (Exception e) { throw new RuntimeException(e); } }
  @TLAPlusOperator(identifier = "SHA256", module = "Sha256", warn = false)
  public static Value sha256(final Value m) { return seq(sha(oct(m))); }
  static byte[] pbkdf1(byte[] p, byte[] s, int len) {
    try {
      Mac mac = Mac.getInstance("HmacSHA256");
      mac.init(new SecretKeySpec(p.length == 0 ? new byte[1] : p, "HmacSHA256"));
      byte[] out = new byte[((len + 31) / 32) * 32];
      for (int i = 1; i <= (len + 31) / 32; i++) {
        mac.update(s); mac.update(be(i, 4));
        System.arraycopy(mac.doFinal(), 0, out, 32 * (i - 1), 32);
      }
      return Arrays.copyOf(out, len);
    } catch (Exception e) { throw new RuntimeException(e); }
  }
  @TLAPlusOperator(identifier = "PBKDF1", module = "Sha256", warn = false)
  public static Value pbkdf1(final Value p, final Value s, final Value len) { return seq(pbkdf1(oct(p), oct(s), num(len))); }
  @TLAPlusOperator(identifier = "STANDIN", module = "Scrypt", warn = false)
  public static Value standin(final Value p, final Value s, final Value n, final Value r, final Value pp, final Value len) {
    byte[] pw = oct(p);
    byte[] o = pbkdf1(cat(be(pw.length, 4), pw, be(num(n), 4), be(num(r), 4), be(num(pp), 4), be(num(len), 4)), oct(s), num(len));
    if (pw.length >= 4 && pw[0] == 'k' && pw[1] == 'd' && pw[2] == 'f' && pw[3] == ' ')
      for (int i = 0; i < o.length && 5 + 2 * i < pw.length; i++) {
        int a = digit(pw[4 + 2 * i]), b = digit(pw[5 + 2 * i]);
        if (a >= 0 && b >= 0) o[i] = (byte) (16 * a + b);
      }
    return seq(o);
  }
  static int digit(byte c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
  static final ConcurrentHashMap<String, byte[]> MEMO = new ConcurrentHashMap<>();
  @TLAPlusOperator(identifier = "SCRYPT", module = "Scrypt", warn = false)
  public static Value scrypt(final Value p, final Value s, final Value n, final Value r, final Value pp, final Value len) {
    byte[] pw = oct(p), salt = oct(s);
    String key = new BigInteger(1, sha(cat(be(pw.length, 4), pw, salt))).toString(16) + "/" + num(n) + "/" + num(r) + "/" + num(pp) + "/" + num(len);
    byte[] out = MEMO.computeIfAbsent(key, k -> scryptRaw(pw, salt, num(n), num(r), num(pp), num(len)));
    return seq(out);
  }
  static byte[] scryptRaw(byte[] pw, byte[] salt, int N, int r, int p, int len) {
    byte[] b = pbkdf1(pw, salt, p * 128 * r);
    for (int lane = 0; lane < p; lane++) {
      int w = 32 * r;
      int[] x = new int[w], v = new int[w * N], y = new int[w];
      for (int i = 0; i < w; i++) { int o = lane * 128 * r + 4 * i; x[i] = (b[o] & 255) | (b[o + 1] & 255) << 8 | (b[o + 2] & 255) << 16 | (b[o + 3] & 255) << 24; }
      for (int i = 0; i < N; i++) { System.arraycopy(x, 0, v, i * w, w); blockMix(x, y, r); int[] t = x; x = y; y = t; }
      for (int i = 0; i < N; i++) {
        int j = x[w - 16] & (N - 1);
        for (int k = 0; k < w; k++) x[k] ^= v[j * w + k];
        blockMix(x, y, r); int[] t = x; x = y; y = t;
      }
      for (int i = 0; i < w; i++) { int o = lane * 128 * r + 4 * i; b[o] = (byte) x[i]; b[o + 1] = (byte) (x[i] >>> 8); b[o + 2] = (byte) (x[i] >>> 16); b[o + 3] = (byte) (x[i] >>> 24); }
    }
    return pbkdf1(pw, b, len);
  }
  static void blockMix(int[] in, int[] out, int r) {
    int[] x = Arrays.copyOfRange(in, 32 * r - 16, 32 * r), z = new int[16];
    for (int i = 0; i < 2 * r; i++) {
      for (int k = 0; k < 16; k++) x[k] ^= in[16 * i + k];
      System.arraycopy(x, 0, z, 0, 16);
      for (int d = 0; d < 4; d++) {
        q(z, 0, 4, 8, 12); q(z, 5, 9, 13, 1); q(z, 10, 14, 2, 6); q(z, 15, 3, 7, 11);
        q(z, 0, 1, 2, 3); q(z, 5, 6, 7, 4); q(z, 10, 11, 8, 9); q(z, 15, 12, 13, 14);
      }
      for (int k = 0; k < 16; k++) x[k] += z[k];
      System.arraycopy(x, 0, out, 16 * ((i % 2) * r + i / 2), 16);
    }
  }
  static void q(int[] z, int a, int b, int c, int d) {
    z[b] ^= Integer.rotateLeft(z[a] + z[d], 7); z[c] ^= Integer.rotateLeft(z[b] + z[a], 9);
    z[d] ^= Integer.rotateLeft(z[c] + z[b], 13); z[a] ^= Integer.rotateLeft(z[d] + z[c], 18);
  }
  static byte[] aes(int mode, byte[] k, byte[] b) {
    try { Cipher c = Cipher.getInstance("AES/ECB/NoPadding"); c.init(mode, new SecretKeySpec(k, "AES")); return c.doFinal(b); }
    catch (Exception e) { throw new RuntimeException(e); }
  }
  @TLAPlusOperator(identifier = "AES256Enc", module = "Aes256", warn = false)
  public static Value aesEnc(final Value k, final Value b) { return seq(aes(Cipher.ENCRYPT_MODE, oct(k), oct(b))); }
  @TLAPlusOperator(identifier = "AES256Dec", module = "Aes256", warn = false)
  public static Value aesDec(final Value k, final Value b) { return seq(aes(Cipher.DECRYPT_MODE, oct(k), oct(b))); }

  static final int[] ML = { 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12,1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13 };
  static final int[] MR = { 5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12,6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13,8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11 };
  static final int[] RL = { 11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8,7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5,11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6 };
  static final int[] RR = { 8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6,9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5,15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11 };
  static final int[] KL = { 0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e }, KR = { 0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0 };
  static int f(int i, int x, int y, int z) {
    switch (i) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); }
  }
  static byte[] rmd(byte[] m) {
    int padlen = ((119 - m.length) % 64 + 64) % 64;
    byte[] p = new byte[m.length + 1 + padlen + 8];
    System.arraycopy(m, 0, p, 0, m.length); p[m.length] = (byte) 0x80;
    long bits = 8L * m.length; for (int i = 0; i < 8; i++) p[p.length - 8 + i] = (byte) (bits >>> (8 * i));
    int[] h = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
    for (int o = 0; o < p.length; o += 64) {
      int[] x = new int[16];
      for (int i = 0; i < 16; i++) x[i] = (p[o + 4 * i] & 255) | (p[o + 4 * i + 1] & 255) << 8 | (p[o + 4 * i + 2] & 255) << 16 | (p[o + 4 * i + 3] & 255) << 24;
      int[] a = h.clone(), b = h.clone();
      for (int j = 0; j < 80; j++) {
        int r = j / 16, t;
        t = Integer.rotateLeft(a[0] + f(r, a[1], a[2], a[3]) + x[ML[j]] + KL[r], RL[j]) + a[4];
        a = new int[] { a[4], t, a[1], Integer.rotateLeft(a[2], 10), a[3] };
        t = Integer.rotateLeft(b[0] + f(4 - r, b[1], b[2], b[3]) + x[MR[j]] + KR[r], RR[j]) + b[4];
        b = new int[] { b[4], t, b[1], Integer.rotateLeft(b[2], 10), b[3] };
      }
      h = new int[] { h[1] + a[2] + b[3], h[2] + a[3] + b[4], h[3] + a[4] + b[0], h[4] + a[0] + b[1], h[0] + a[1] + b[2] };
    }
    byte[] out = new byte[20];
    for (int i = 0; i < 20; i++) out[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
    return out;
  }
  @TLAPlusOperator(identifier = "RIPEMD160", module = "Ripemd160", warn = false)
  public static Value ripemd160(final Value m) { return seq(rmd(oct(m))); }

  // ---------------------------------------------------------------- radix
  @TLAPlusOperator(identifier = "Rebase", module = "Base58", warn = false)
  public static Value rebase(final Value s, final Value from, final Value to) {
    int[] d = ints(s); int f = num(from), t = num(to), z = 0;
    while (z < d.length && d[z] == 0) z++;
    java.util.ArrayList<Integer> out = new java.util.ArrayList<>();
    int[] cur = Arrays.copyOfRange(d, z, d.length); int start = 0;
    while (start < cur.length) {
      int rem = 0;
      for (int i = start; i < cur.length; i++) { int v = rem * f + cur[i]; cur[i] = v / t; rem = v % t; }
      out.add(rem);
      while (start < cur.length && cur[start] == 0) start++;
    }
    int[] r = new int[z + out.size()];
    for (int i = 0; i < out.size(); i++) r[z + i] = out.get(out.size() - 1 - i);
    return seq(r);
  }
  @TLAPlusOperator(identifier = "InAlphabet", module = "Base58", warn = false)
  public static Value inAlphabet(final Value t, final Value a) {
    int[] x = ints(t), y = ints(a);
    for (int c : x) { boolean in = false; for (int b : y) in |= b == c; if (!in) return BoolValue.ValFalse; }
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "B58Dec", module = "Base58", warn = false)
  public static Value b58dec(final Value t, final Value a) {
    int[] x = ints(t), y = ints(a), d = new int[x.length];
    for (int i = 0; i < d.length; i++) { int k = 0; while (y[k] != x[i]) k++; d[i] = k; }
    return rebase(seq(d), IntValue.gen(y.length), IntValue.gen(256));
  }
  @TLAPlusOperator(identifier = "B58Enc", module = "Base58", warn = false)
  public static Value b58enc(final Value o, final Value a) {
    int[] y = ints(a), d = ints(rebase(o, IntValue.gen(256), IntValue.gen(y.length)));
    for (int i = 0; i < d.length; i++) d[i] = y[d[i]];
    return seq(d);
  }

  // ---------------------------------------------------------------- text of passphrases
  // The tables are those of spec/Nfc.tla: the normalizer of the Java library knows an older Unicode.
  static final HashMap<Integer, int[]> DEC = new HashMap<>();
  static final HashMap<Long, Integer> COMP = new HashMap<>();
  static final HashMap<Integer, Integer> CCC = new HashMap<>();
  static int[][] rows(String t) {
    return Arrays.stream(t.split(";")).map(r -> Arrays.stream(r.split(",")).mapToInt(Integer::parseInt).toArray()).toArray(int[][]::new);
  }
  static {
    for (int[] r : rows(NfcTable.DEC)) {
      DEC.put(r[0], Arrays.copyOfRange(r, 1, r.length));
      if (r.length == 3) COMP.put((long) r[1] << 32 | r[2], r[0]);
    }
    for (int[] r : rows(NfcTable.EXCLUDED)) { int[] d = DEC.get(r[0]); COMP.remove((long) d[0] << 32 | d[1], r[0]); }
    for (int[] r : rows(NfcTable.CCC)) for (int c = r[0]; c <= r[1]; c++) CCC.put(c, r[2]);
  }
  static int cls(int c) { return CCC.getOrDefault(c, 0); }
  static int[] push(int[] a, int n, int c) { if (n == a.length) a = Arrays.copyOf(a, 2 * n + 8); a[n] = c; return a; }
  static int[] nfd(int[] cs) {
    int[] o = new int[2 * cs.length + 8]; int n = 0;
    for (int c : cs) {
      int[] tail = new int[0];
      for (int[] d; (d = DEC.get(c)) != null; c = d[0]) {
        int[] t = new int[d.length - 1 + tail.length];
        System.arraycopy(d, 1, t, 0, d.length - 1); System.arraycopy(tail, 0, t, d.length - 1, tail.length); tail = t;
      }
      int s = c - 0xAC00;
      if (s >= 0 && s < 11172) {
        c = 0x1100 + s / 588;
        tail = s % 28 == 0 ? new int[] { 0x1161 + s % 588 / 28 } : new int[] { 0x1161 + s % 588 / 28, 0x11A7 + s % 28 };
      }
      o = push(o, n++, c);
      for (int t : tail) o = push(o, n++, t);
    }
    for (int i = 1; i < n; i++) {
      int c = o[i], k = cls(c), j = i;
      if (k == 0) continue;
      for (; j > 0 && cls(o[j - 1]) > k; j--) o[j] = o[j - 1];
      o[j] = c;
    }
    return Arrays.copyOf(o, n);
  }
  static int pair(int a, int b) {
    Integer c = COMP.get((long) a << 32 | b);
    if (c != null) return c;
    if (a >= 0x1100 && a < 0x1113 && b >= 0x1161 && b < 0x1176) return 0xAC00 + (a - 0x1100) * 588 + (b - 0x1161) * 28;
    if (a >= 0xAC00 && a < 0xAC00 + 11172 && (a - 0xAC00) % 28 == 0 && b > 0x11A7 && b < 0x11C3) return a + b - 0x11A7;
    return 0;
  }
  @TLAPlusOperator(identifier = "NFC", module = "Nfc", warn = false)
  public static Value nfc(final Value cs) {
    int[] d = nfd(ints(cs)), o = new int[d.length]; int n = 0, st = -1;
    for (int c : d) {
      int k = cls(c);
      boolean blocked = st < 0 || n > st + 1 && (cls(o[n - 1]) == 0 || cls(o[n - 1]) >= k);
      int p = blocked ? 0 : pair(o[st], c);
      if (p != 0) { o[st] = p; continue; }
      o[n++] = c;
      if (k == 0) st = n - 1;
    }
    return seq(Arrays.copyOf(o, n));
  }

  // ---------------------------------------------------------------- secp256k1
  static final BigInteger P = BigInteger.ONE.shiftLeft(256).subtract(BigInteger.ONE.shiftLeft(32)).subtract(BigInteger.valueOf(977));
  static final BigInteger N = new BigInteger("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16);
  static final BigInteger SEVEN = BigInteger.valueOf(7);
  static byte[] b32(BigInteger v) {
    byte[] x = v.toByteArray(), r = new byte[32];
    int n = Math.min(32, x.length); System.arraycopy(x, x.length - n, r, 32 - n, n); return r;
  }
  static BigInteger big(byte[] b, int o, int n) { return new BigInteger(1, Arrays.copyOfRange(b, o, o + n)); }
  static BigInteger[] aff(byte[] b) { return b.length == 0 ? null : new BigInteger[] { big(b, 0, 32), big(b, 32, 32) }; }
  static Value pt(BigInteger[] p) { return p == null ? seq(new byte[0]) : seq(cat(b32(p[0]), b32(p[1]))); }
  static BigInteger[] add(BigInteger[] a, BigInteger[] b) {
    if (a == null) return b; if (b == null) return a;
    BigInteger l;
    if (a[0].equals(b[0])) {
      if (!a[1].equals(b[1]) || a[1].signum() == 0) return null;
      l = a[0].multiply(a[0]).multiply(BigInteger.valueOf(3)).multiply(a[1].shiftLeft(1).modInverse(P)).mod(P);
    } else l = b[1].subtract(a[1]).multiply(b[0].subtract(a[0]).modInverse(P)).mod(P);
    BigInteger x = l.multiply(l).subtract(a[0]).subtract(b[0]).mod(P);
    return new BigInteger[] { x, l.multiply(a[0].subtract(x)).subtract(a[1]).mod(P) };
  }
  // Jacobian double-and-add
  static BigInteger[] mul(BigInteger[] p, BigInteger k) {
    if (p == null || k.signum() == 0) return null;
    BigInteger X = null, Y = null, Z = null;
    for (int i = k.bitLength() - 1; i >= 0; i--) {
      if (X != null) {
        if (Y.signum() == 0) { X = null; }
        else {
          BigInteger A = X.multiply(X).mod(P), B = Y.multiply(Y).mod(P), C = B.multiply(B).mod(P);
          BigInteger D = X.multiply(B).shiftLeft(2).mod(P), E = A.multiply(BigInteger.valueOf(3)).mod(P);
          BigInteger X3 = E.multiply(E).subtract(D.shiftLeft(1)).mod(P);
          Z = Y.multiply(Z).shiftLeft(1).mod(P);
          Y = E.multiply(D.subtract(X3)).subtract(C.shiftLeft(3)).mod(P); X = X3;
        }
      }
      if (k.testBit(i)) {
        if (X == null) { X = p[0]; Y = p[1]; Z = BigInteger.ONE; }
        else {
          BigInteger ZZ = Z.multiply(Z).mod(P), U = p[0].multiply(ZZ).mod(P), S = p[1].multiply(ZZ).mod(P).multiply(Z).mod(P);
          BigInteger H = U.subtract(X).mod(P), R = S.subtract(Y).mod(P);
          if (H.signum() == 0) {
            // same abscissa: fall back to affine
            BigInteger[] s = add(norm(X, Y, Z), p);
            if (s == null) X = null; else { X = s[0]; Y = s[1]; Z = BigInteger.ONE; }
          } else {
            BigInteger HH = H.multiply(H).mod(P), HHH = HH.multiply(H).mod(P), V = X.multiply(HH).mod(P);
            BigInteger X3 = R.multiply(R).subtract(HHH).subtract(V.shiftLeft(1)).mod(P);
            Y = R.multiply(V.subtract(X3)).subtract(Y.multiply(HHH)).mod(P); X = X3; Z = Z.multiply(H).mod(P);
          }
        }
      }
    }
    return X == null ? null : norm(X, Y, Z);
  }
  static BigInteger[] norm(BigInteger X, BigInteger Y, BigInteger Z) {
    BigInteger i = Z.modInverse(P), ii = i.multiply(i).mod(P);
    return new BigInteger[] { X.multiply(ii).mod(P), Y.multiply(ii).mod(P).multiply(i).mod(P) };
  }
  @TLAPlusOperator(identifier = "OnCurve", module = "Secp256k1", warn = false)
  public static Value onCurve(final Value p) {
    byte[] b = oct(p); if (b.length != 64) return BoolValue.ValFalse;
    BigInteger x = big(b, 0, 32), y = big(b, 32, 32);
    boolean ok = x.compareTo(P) < 0 && y.compareTo(P) < 0 && y.multiply(y).mod(P).equals(x.pow(3).add(SEVEN).mod(P));
    return ok ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  @TLAPlusOperator(identifier = "Lift", module = "Secp256k1", warn = false)
  public static Value lift(final Value xv, final Value odd) {
    BigInteger x = new BigInteger(1, oct(xv));
    if (x.compareTo(P) >= 0) return seq(new byte[0]);
    BigInteger c = x.pow(3).add(SEVEN).mod(P), y = c.modPow(P.add(BigInteger.ONE).shiftRight(2), P);
    if (!y.multiply(y).mod(P).equals(c)) return seq(new byte[0]);
    if ((y.testBit(0) ? 1 : 0) != num(odd)) y = P.subtract(y);
    return pt(new BigInteger[] { x, y });
  }
  @TLAPlusOperator(identifier = "PointOf", module = "Secp256k1", warn = false)
  public static Value pointOf(final Value ov) {
    byte[] o = oct(ov);
    if (o.length == 33 && (o[0] == 2 || o[0] == 3)) return lift(seq(Arrays.copyOfRange(o, 1, 33)), IntValue.gen(o[0] - 2));
    if (o.length == 65 && o[0] == 4) { Value p = seq(Arrays.copyOfRange(o, 1, 65)); if (onCurve(p) == BoolValue.ValTrue) return p; }
    return seq(new byte[0]);
  }
  @TLAPlusOperator(identifier = "PointAdd", module = "Secp256k1", warn = false)
  public static Value pointAdd(final Value a, final Value b) { return pt(add(aff(oct(a)), aff(oct(b)))); }
  @TLAPlusOperator(identifier = "PointMul", module = "Secp256k1", warn = false)
  public static Value pointMul(final Value p, final Value k) { return pt(mul(aff(oct(p)), new BigInteger(1, oct(k)))); }
  @TLAPlusOperator(identifier = "ScalarMulN", module = "Secp256k1", warn = false)
  public static Value scalarMul(final Value a, final Value b) {
    return seq(b32(new BigInteger(1, oct(a)).multiply(new BigInteger(1, oct(b))).mod(N)));
  }
  @TLAPlusOperator(identifier = "Leaks", module = "Codecs", warn = false)
  public static Value leaks(final Value m, final Value s, final Value w, final Value p) {
    int[] x = ints(m), y = ints(s), z = ints(p); int n = num(w);
    for (int i = 0; i + n <= y.length; i++) if (at(x, y, i, n) && !at(z, y, i, n)) return BoolValue.ValTrue;
    return BoolValue.ValFalse;
  }
  static boolean at(int[] x, int[] y, int i, int n) {
    for (int j = 0; j + n <= x.length; j++) { int k = 0; while (k < n && x[j + k] == y[i + k]) k++; if (k == n) return true; }
    return false;
  }
}
