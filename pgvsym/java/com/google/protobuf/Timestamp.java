package com.google.protobuf;
public final class Timestamp extends GeneratedMessageV3 {
  public long seconds;
  public int nanos;
  private static final Timestamp DEF = new Timestamp();
  public static Timestamp getDefaultInstance() { return DEF; }
  public long getSeconds() { return seconds; }
  public int getNanos() { return nanos; }
  public static Builder newBuilder() { return new Builder(); }
  public static final class Builder {
    private final Timestamp r = new Timestamp();
    public Builder setSeconds(long s) { r.seconds = s; return this; }
    public Builder setNanos(int n) { r.nanos = n; return this; }
    public Timestamp build() { return r; }
  }
  @Override public boolean equals(Object o) { return o instanceof Timestamp && ((Timestamp) o).seconds == seconds && ((Timestamp) o).nanos == nanos; }
  @Override public int hashCode() { return (int) (seconds * 31 + nanos); }
}
