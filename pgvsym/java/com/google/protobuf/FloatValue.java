package com.google.protobuf;
public final class FloatValue extends GeneratedMessageV3 {
  public float value = 0;
  private static final FloatValue DEF = new FloatValue();
  public static FloatValue getDefaultInstance() { return DEF; }
  public float getValue() { return value; }
}
