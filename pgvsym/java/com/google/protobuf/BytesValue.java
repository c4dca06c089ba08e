package com.google.protobuf;
public final class BytesValue extends GeneratedMessageV3 {
  public ByteString value = ByteString.EMPTY;
  private static final BytesValue DEF = new BytesValue();
  public static BytesValue getDefaultInstance() { return DEF; }
  public ByteString getValue() { return value; }
}
