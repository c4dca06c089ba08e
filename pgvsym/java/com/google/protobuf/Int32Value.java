package com.google.protobuf;
public final class Int32Value extends GeneratedMessageV3 {
  public int value = 0;
  private static final Int32Value DEF = new Int32Value();
  public static Int32Value getDefaultInstance() { return DEF; }
  public int getValue() { return value; }
}
