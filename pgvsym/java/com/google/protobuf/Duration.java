package com.google.protobuf;
public final class Duration extends GeneratedMessageV3 {
  public long seconds;
  public int nanos;
  private static final Duration DEF = new Duration();
  public static Duration getDefaultInstance() { return DEF; }
  public long getSeconds() { return seconds; }
  public int getNanos() { return nanos; }
  public static Builder newBuilder() { return new Builder(); }
  public static final class Builder {
    private final Duration r = new Duration();
    public Builder setSeconds(long s) { r.seconds = s; return this; }
    public Builder setNanos(int n) { r.nanos = n; return this; }
    public Duration build() { return r; }
  }
  @Override public boolean equals(Object o) { return o instanceof Duration && ((Duration) o).seconds == seconds && ((Duration) o).nanos == nanos; }
  @Override public int hashCode() { return (int) (seconds * 31 + nanos); }
}
