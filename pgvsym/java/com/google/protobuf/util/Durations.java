package com.google.protobuf.util;
import com.google.protobuf.Duration;
import java.util.Comparator;
/** The contract of protobuf-java-util 3.15: values are checked, then compared. */
public final class Durations {
  private static final class Cmp implements Comparator<Duration> {
    public int compare(Duration a, Duration b) {
      checkValid(a);
      checkValid(b);
      int s = Long.compare(a.getSeconds(), b.getSeconds());
      return s != 0 ? s : Integer.compare(a.getNanos(), b.getNanos());
    }
  }
  private static final Comparator<Duration> COMPARATOR = new Cmp();
  public static Comparator<Duration> comparator() { return COMPARATOR; }
  public static int compare(Duration a, Duration b) { return COMPARATOR.compare(a, b); }
  public static boolean isValid(Duration d) {
    long s = d.getSeconds();
    int n = d.getNanos();
    if (s < -315576000000L || s > 315576000000L) return false;
    if (n < -999999999 || n > 999999999) return false;
    if (s < 0 || n < 0) {
      if (s > 0 || n > 0) return false;
    }
    return true;
  }
  public static Duration checkValid(Duration d) {
    if (!isValid(d)) throw new IllegalArgumentException("Duration is not valid");
    return d;
  }
  public static long toNanos(Duration d) {
    checkValid(d);
    return Math.addExact(Math.multiplyExact(d.getSeconds(), 1000000000L), (long) d.getNanos());
  }
  public static String toString(Duration d) { checkValid(d); return "<duration>"; }
}
