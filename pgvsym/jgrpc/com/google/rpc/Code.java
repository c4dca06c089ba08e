package com.google.rpc;
public enum Code {
  OK(0), CANCELLED(1), UNKNOWN(2), INVALID_ARGUMENT(3), DEADLINE_EXCEEDED(4), NOT_FOUND(5), ALREADY_EXISTS(6), PERMISSION_DENIED(7),
  RESOURCE_EXHAUSTED(8), FAILED_PRECONDITION(9), ABORTED(10), OUT_OF_RANGE(11), UNIMPLEMENTED(12), INTERNAL(13), UNAVAILABLE(14), DATA_LOSS(15), UNAUTHENTICATED(16);
  private final int value;
  Code(int value) { this.value = value; }
  public int getNumber() { return value; }
  public static final int INVALID_ARGUMENT_VALUE = 3;
}
