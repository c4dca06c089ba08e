package com.google.protobuf;
public final class ByteString {
  public static final ByteString EMPTY = new ByteString(new byte[0]);
  private final byte[] b;
  public ByteString(byte[] b) { this.b = b; }
  public static ByteString copyFrom(byte[] x) { return new ByteString(x.clone()); }
  public int size() { return b.length; }
  public boolean isEmpty() { return b.length == 0; }
  public byte[] toByteArray() { return b.clone(); }
  public byte byteAt(int i) { return b[i]; }
  private static boolean same(byte[] x, int k, byte[] p) {
    for (int i = 0; i < p.length; i++) if (x[k + i] != p[i]) return false;
    return true;
  }
  public boolean startsWith(ByteString p) { return b.length >= p.b.length && same(b, 0, p.b); }
  public boolean endsWith(ByteString p) { return b.length >= p.b.length && same(b, b.length - p.b.length, p.b); }
  @Override public boolean equals(Object o) { return o instanceof ByteString && ((ByteString) o).b.length == b.length && same(b, 0, ((ByteString) o).b); }
  @Override public int hashCode() { return java.util.Arrays.hashCode(b); }
  public String toStringUtf8() { return new String(b, java.nio.charset.StandardCharsets.UTF_8); }
  @Override public String toString() { return "<ByteString>"; }
}
