package pgvsym;
/** Nondeterministic inputs: symbolic in the encoder, given values in a replay. */
public final class Sym {
  public static final class Failure extends RuntimeException {
    public Failure(String m) { super(m); }
  }
  static int[] vals;
  static int pos;
  /** Any number 0..n-1. */
  public static int choice(int n) { return pos < vals.length ? Math.floorMod(vals[pos++], n) : 0; }
  /** Any int. */
  public static int any() { return pos < vals.length ? vals[pos++] : 0; }
  /** Whether this is a replay: texts can be inspected. */
  public static boolean concrete() { return true; }
  public static void check(boolean ok, String what) { if (!ok) throw new Failure(what); }
}
