package com.google.protobuf;
public final class Int64Value extends GeneratedMessageV3 {
  public long value = 0;
  private static final Int64Value DEF = new Int64Value();
  public static Int64Value getDefaultInstance() { return DEF; }
  public long getValue() { return value; }
}
