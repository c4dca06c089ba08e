package com.google.protobuf;
public final class BoolValue extends GeneratedMessageV3 {
  public boolean value = false;
  private static final BoolValue DEF = new BoolValue();
  public static BoolValue getDefaultInstance() { return DEF; }
  public boolean getValue() { return value; }
}
