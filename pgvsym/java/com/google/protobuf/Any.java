package com.google.protobuf;
public final class Any extends GeneratedMessageV3 {
  public String type_url = "";
  public ByteString value = ByteString.EMPTY;
  private static final Any DEF = new Any();
  public static Any getDefaultInstance() { return DEF; }
  /** Stand-in for serialization: the packed message itself. */
  public Object packed;
  public static Any pack(Message m) { Any a = new Any(); a.packed = m; return a; }
  public String getTypeUrl() { return type_url; }
  public ByteString getValue() { return value; }
}
