import java.security.MessageDigest;
import java.util.concurrent.ConcurrentHashMap;
import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.overrides.TLAPlusOperator;
import tlc2.overrides.ITLCOverrides;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.util.FP64;
import tlc2.value.impl.*;

/** Fast versions of operators that are fully defined in TLA+ (see SelfCheck.tla). */
public class QrlOverrides {
  // ---------- conversions ----------
  private static final IntValue[] BYTES = new IntValue[256];
  static { for (int i = 0; i < 256; i++) BYTES[i] = IntValue.gen(i); }
  static Value val(byte[] b) { return val(b, 0, b.length); }
  static Value val(byte[] b, int off, int n) {
    Value[] v = new Value[n];
    for (int i = 0; i < n; i++) v[i] = BYTES[b[off + i] & 255];
    return new TupleValue(v);
  }
  static byte[] bytes(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a byte string: " + v);
    Value[] e = ((TupleValue) t).elems;
    byte[] b = new byte[e.length];
    for (int i = 0; i < b.length; i++) {
      int x = ((IntValue) e[i]).val;
      if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
      b[i] = (byte) x;
    }
    return b;
  }
  static int num(Value v) { return ((IntValue) v).val; }
  static int[] addr(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int[] a = new int[8];
    for (int i = 0; i < 8; i++) a[i] = num(e[i]);
    return a;
  }

  // ---------- hashes ----------
  private static final long[] RC = {
    0x0000000000000001L,0x0000000000008082L,0x800000000000808aL,0x8000000080008000L,0x000000000000808bL,0x0000000080000001L,
    0x8000000080008081L,0x8000000000008009L,0x000000000000008aL,0x0000000000000088L,0x0000000080008009L,0x000000008000000aL,
    0x000000008000808bL,0x800000000000008bL,0x8000000000008089L,0x8000000000008003L,0x8000000000008002L,0x8000000000000080L,
    0x000000000000800aL,0x800000008000000aL,0x8000000080008081L,0x8000000000008080L,0x0000000080000001L,0x8000000080008008L};
  private static final int[] ROT = {0,1,62,28,27,36,44,6,55,20,3,10,43,25,39,41,45,15,21,8,18,2,61,56,14};
  private static final int[] DST = new int[25];
  static { for (int i = 0; i < 25; i++) { int x = i % 5, y = i / 5; DST[i] = 5 * ((2 * x + 3 * y) % 5) + y; } }
  static void keccak(long[] a) {
    long[] b = new long[25];
    for (int r = 0; r < 24; r++) {
      long c0 = a[0]^a[5]^a[10]^a[15]^a[20], c1 = a[1]^a[6]^a[11]^a[16]^a[21], c2 = a[2]^a[7]^a[12]^a[17]^a[22],
           c3 = a[3]^a[8]^a[13]^a[18]^a[23], c4 = a[4]^a[9]^a[14]^a[19]^a[24];
      long d0 = c4 ^ Long.rotateLeft(c1,1), d1 = c0 ^ Long.rotateLeft(c2,1), d2 = c1 ^ Long.rotateLeft(c3,1),
           d3 = c2 ^ Long.rotateLeft(c4,1), d4 = c3 ^ Long.rotateLeft(c0,1);
      for (int i = 0; i < 25; i += 5) { a[i]^=d0; a[i+1]^=d1; a[i+2]^=d2; a[i+3]^=d3; a[i+4]^=d4; }
      for (int i = 0; i < 25; i++) b[DST[i]] = Long.rotateLeft(a[i], ROT[i]);
      for (int i = 0; i < 25; i += 5) {
        long b0=b[i],b1=b[i+1],b2=b[i+2],b3=b[i+3],b4=b[i+4];
        a[i]=b0^(~b1&b2); a[i+1]=b1^(~b2&b3); a[i+2]=b2^(~b3&b4); a[i+3]=b3^(~b4&b0); a[i+4]=b4^(~b0&b1);
      }
      a[0] ^= RC[r];
    }
  }
  static byte[] shake(int rate, int n, byte[] m) {
    long[] a = new long[25];
    int off = 0;
    byte[] blk = new byte[rate];
    while (true) {
      int k = Math.min(rate, m.length - off);
      boolean last = m.length - off < rate;
      java.util.Arrays.fill(blk, (byte) 0);
      System.arraycopy(m, off, blk, 0, k);
      if (last) { blk[k] ^= 0x1f; blk[rate-1] ^= (byte) 0x80; }
      for (int i = 0; i < rate; i++) a[i >> 3] ^= (blk[i] & 255L) << (8 * (i & 7));
      keccak(a);
      off += k;
      if (last) break;
    }
    byte[] out = new byte[n];
    int o = 0;
    while (o < n) {
      int k = Math.min(rate, n - o);
      for (int i = 0; i < k; i++) out[o + i] = (byte) (a[i >> 3] >>> (8 * (i & 7)));
      o += k;
      if (o < n) keccak(a);
    }
    return out;
  }
  private static final ThreadLocal<MessageDigest> SHA = ThreadLocal.withInitial(() -> {
    try { return MessageDigest.getInstance("SHA-256"); } catch (Exception e) { throw new RuntimeException(e); }
  });
  static byte[] sha(byte[] m) { return SHA.get().digest(m); }
  static byte[] hash(int hf, byte[] m) {
    return hf == 0 ? sha(m) : shake(hf == 1 ? 168 : 136, 32, m);
  }
  // toByte(type,32) || key(32) || in
  static byte[] core(int hf, int type, byte[] key, byte[] in) {
    byte[] m = new byte[32 + key.length + in.length];
    m[31] = (byte) type;
    System.arraycopy(key, 0, m, 32, key.length);
    System.arraycopy(in, 0, m, 32 + key.length, in.length);
    return hash(hf, m);
  }
  static byte[] addrBytes(int[] a) {
    byte[] b = new byte[32];
    for (int i = 0; i < 8; i++) { b[4*i]=(byte)(a[i]>>>24); b[4*i+1]=(byte)(a[i]>>>16); b[4*i+2]=(byte)(a[i]>>>8); b[4*i+3]=(byte)a[i]; }
    return b;
  }
  static byte[] prf(int hf, byte[] key, int[] a, int mask) { a[7] = mask; return core(hf, 3, key, addrBytes(a)); }

  @TLAPlusOperator(identifier = "Shake128", module = "Prim", warn = false)
  public static Value shake128(Value n, Value m) { return val(shake(168, num(n), bytes(m))); }
  @TLAPlusOperator(identifier = "Shake256", module = "Prim", warn = false)
  public static Value shake256(Value n, Value m) { return val(shake(136, num(n), bytes(m))); }
  @TLAPlusOperator(identifier = "Sha256", module = "Prim", warn = false)
  public static Value sha256(Value m) { return val(sha(bytes(m))); }

  @TLAPlusOperator(identifier = "Sha256N", module = "Prim", warn = false)
  public static Value sha256n(Value m, Value n) {
    byte[] b = sha(bytes(m));
    for (int i = 1; i < num(n); i++) b = sha(b);
    return val(b);
  }

  @TLAPlusOperator(identifier = "Chain", module = "Xmss", warn = false)
  public static Value chain(Value hfv, Value x, Value start, Value steps, Value seedv, Value av) {
    int hf = num(hfv), s = num(start), n = num(steps);
    byte[] cur = bytes(x), seed = bytes(seedv);
    int[] a = addr(av);
    for (int i = s; i < s + n; i++) {
      a[6] = i;
      byte[] key = prf(hf, seed, a, 0), bm = prf(hf, seed, a, 1);
      byte[] y = new byte[32];
      for (int k = 0; k < 32; k++) y[k] = (byte) (cur[k] ^ bm[k]);
      cur = core(hf, 0, key, y);
    }
    return val(cur);
  }
  @TLAPlusOperator(identifier = "HashH", module = "Xmss", warn = false)
  public static Value hashH(Value hfv, Value l, Value r, Value seedv, Value av) {
    int hf = num(hfv);
    byte[] lb = bytes(l), rb = bytes(r), seed = bytes(seedv);
    int[] a = addr(av);
    byte[] key = prf(hf, seed, a, 0), b0 = prf(hf, seed, a, 1), b1 = prf(hf, seed, a, 2);
    byte[] y = new byte[64];
    for (int k = 0; k < 32; k++) { y[k] = (byte) (lb[k] ^ b0[k]); y[32 + k] = (byte) (rb[k] ^ b1[k]); }
    return val(core(hf, 1, key, y));
  }
  @TLAPlusOperator(identifier = "Split", module = "Codec", warn = false)
  public static Value split(Value t) {
    byte[] b = bytes(t);
    java.util.ArrayList<Value> out = new java.util.ArrayList<>();
    int from = -1;
    for (int i = 0; i <= b.length; i++) {
      boolean sp = i == b.length || b[i] == 32 || (b[i] >= 9 && b[i] <= 13);
      if (sp && from >= 0) { out.add(val(b, from, i - from)); from = -1; }
      if (!sp && from < 0) from = i;
    }
    return new TupleValue(out.toArray(new Value[0]));
  }
  @TLAPlusOperator(identifier = "Flatten", module = "Bytes", warn = false)
  public static Value flatten(Value ss) {
    java.util.ArrayList<Value> out = new java.util.ArrayList<>();
    for (Value s : ((TupleValue) ss.toTuple()).elems)
      for (Value v : ((TupleValue) s.toTuple()).elems) out.add(v);
    return new TupleValue(out.toArray(new Value[0]));
  }
  private static final char[] HEX = "0123456789abcdef".toCharArray();
  @TLAPlusOperator(identifier = "ToHex", module = "Bytes", warn = false)
  public static Value toHex(Value v) {
    byte[] b = bytes(v);
    if (b.length == 0) return new StringValue("-");
    StringBuilder s = new StringBuilder(2 * b.length);
    for (byte x : b) { s.append(HEX[(x >> 4) & 15]); s.append(HEX[x & 15]); }
    return new StringValue(s.toString());
  }
  @TLAPlusOperator(identifier = "FromHex", module = "Bytes", warn = false)
  public static Value fromHex(Value v) {
    String s = ((StringValue) v).val.toString();
    if (s.equals("-")) return val(new byte[0]);
    byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; i++)
      b[i] = (byte) ((Character.digit(s.charAt(2*i), 16) << 4) | Character.digit(s.charAt(2*i+1), 16));
    return val(b);
  }

  private static final ConcurrentHashMap<Long, Value> MEMO = new ConcurrentHashMap<>();
  @Evaluation(definition = "Memo", module = "Bytes", minLevel = 0, warn = false, silent = true)
  public static Value memo(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0,
      final TLCState s1, final int control, final CostModel cm) {
    long k = tool.eval(args[0], c, s0, s1, control, cm).fingerPrint(FP64.New());
    Value v = MEMO.get(k);
    if (v == null) {
      v = (Value) tool.eval(args[1], c, s0, s1, control, cm);
      v.deepNormalize();
      MEMO.put(k, v);
    }
    return v;
  }

  public static class Registry implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override public Class[] get() { return new Class[] { QrlOverrides.class }; }
  }
}
