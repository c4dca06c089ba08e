package io.grpc;
public class StatusRuntimeException extends RuntimeException {
  private final Status status;
  private final Metadata trailers;
  public StatusRuntimeException(Status status) { this(status, null); }
  public StatusRuntimeException(Status status, Metadata trailers) { this.status = status; this.trailers = trailers; }
  public final Status getStatus() { return status; }
  public final Metadata getTrailers() { return trailers; }
}
