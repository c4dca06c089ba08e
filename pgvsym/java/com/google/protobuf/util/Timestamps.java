package com.google.protobuf.util;
import com.google.protobuf.Duration;
import com.google.protobuf.Timestamp;
import java.util.Comparator;
public final class Timestamps {
  private static final class Cmp implements Comparator<Timestamp> {
    public int compare(Timestamp a, Timestamp b) {
      checkValid(a);
      checkValid(b);
      int s = Long.compare(a.getSeconds(), b.getSeconds());
      return s != 0 ? s : Integer.compare(a.getNanos(), b.getNanos());
    }
  }
  private static final Comparator<Timestamp> COMPARATOR = new Cmp();
  public static Comparator<Timestamp> comparator() { return COMPARATOR; }
  public static int compare(Timestamp a, Timestamp b) { return COMPARATOR.compare(a, b); }
  public static boolean isValid(Timestamp t) {
    long s = t.getSeconds();
    int n = t.getNanos();
    if (s < -62135596800L || s > 253402300799L) return false;
    return n >= 0 && n <= 999999999;
  }
  public static Timestamp checkValid(Timestamp t) {
    if (!isValid(t)) throw new IllegalArgumentException("Timestamp is not valid");
    return t;
  }
  public static Timestamp fromMillis(long ms) {
    return checkValid(Timestamp.newBuilder().setSeconds(Math.floorDiv(ms, 1000L)).setNanos((int) (Math.floorMod(ms, 1000L) * 1000000L)).build());
  }
  public static Duration between(Timestamp from, Timestamp to) {
    checkValid(from);
    checkValid(to);
    long s = Math.subtractExact(to.getSeconds(), from.getSeconds());
    long n = (long) to.getNanos() - (long) from.getNanos();
    if (s > 0 && n < 0) { n += 1000000000L; s -= 1; }
    if (s < 0 && n > 0) { n -= 1000000000L; s += 1; }
    return Duration.newBuilder().setSeconds(s).setNanos((int) n).build();
  }
  public static String toString(Timestamp t) { checkValid(t); return "<timestamp>"; }
}
