package io.grpc;
public final class Status {
  public enum Code {
    OK(0), CANCELLED(1), UNKNOWN(2), INVALID_ARGUMENT(3), DEADLINE_EXCEEDED(4), NOT_FOUND(5), ALREADY_EXISTS(6), PERMISSION_DENIED(7),
    RESOURCE_EXHAUSTED(8), FAILED_PRECONDITION(9), ABORTED(10), OUT_OF_RANGE(11), UNIMPLEMENTED(12), INTERNAL(13), UNAVAILABLE(14), DATA_LOSS(15), UNAUTHENTICATED(16);
    private final int value;
    Code(int value) { this.value = value; }
    public int value() { return value; }
  }
  public static final Status OK = new Status(0, null);
  public static final Status CANCELLED = new Status(1, null);
  public static final Status UNKNOWN = new Status(2, null);
  public static final Status INVALID_ARGUMENT = new Status(3, null);
  public static final Status FAILED_PRECONDITION = new Status(9, null);
  public static final Status ABORTED = new Status(10, null);
  public static final Status INTERNAL = new Status(13, null);
  private final int code;
  private final String description;
  Status(int code, String description) { this.code = code; this.description = description; }
  public static Status fromCodeValue(int code) { return new Status(code, null); }
  public Code getCode() { return Code.values()[code]; }
  /** Not part of gRPC: the number of the code. */
  public int number() { return code; }
  public String getDescription() { return description; }
  public Status withDescription(String d) { return new Status(code, d); }
  public boolean isOk() { return code == 0; }
  public StatusRuntimeException asRuntimeException() { return new StatusRuntimeException(this); }
  public StatusRuntimeException asRuntimeException(Metadata trailers) { return new StatusRuntimeException(this, trailers); }
}
