package com.google.common.primitives;
public final class Bytes {
  public static int indexOf(byte[] a, byte[] t) {
    if (t.length == 0) return 0;
    outer:
    for (int i = 0; i < a.length - t.length + 1; i++) {
      for (int j = 0; j < t.length; j++) if (a[i + j] != t[j]) continue outer;
      return i;
    }
    return -1;
  }
}
