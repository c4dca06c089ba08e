package com.google.protobuf;
public final class UInt64Value extends GeneratedMessageV3 {
  public long value = 0;
  private static final UInt64Value DEF = new UInt64Value();
  public static UInt64Value getDefaultInstance() { return DEF; }
  public long getValue() { return value; }
}
