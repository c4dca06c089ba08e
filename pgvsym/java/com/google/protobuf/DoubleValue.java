package com.google.protobuf;
public final class DoubleValue extends GeneratedMessageV3 {
  public double value = 0;
  private static final DoubleValue DEF = new DoubleValue();
  public static DoubleValue getDefaultInstance() { return DEF; }
  public double getValue() { return value; }
}
