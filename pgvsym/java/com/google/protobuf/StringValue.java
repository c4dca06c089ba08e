package com.google.protobuf;
public final class StringValue extends GeneratedMessageV3 {
  public String value = "";
  private static final StringValue DEF = new StringValue();
  public static StringValue getDefaultInstance() { return DEF; }
  public String getValue() { return value; }
}
