package com.google.protobuf;
public final class UInt32Value extends GeneratedMessageV3 {
  public int value = 0;
  private static final UInt32Value DEF = new UInt32Value();
  public static UInt32Value getDefaultInstance() { return DEF; }
  public int getValue() { return value; }
}
