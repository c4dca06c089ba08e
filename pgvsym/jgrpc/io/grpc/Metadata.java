package io.grpc;
/** Stand-ins for the part of gRPC the interceptors use. */
public final class Metadata {
  /** Not part of gRPC: the google.rpc.Status of the grpc-status-details-bin key. */
  public com.google.rpc.Status details;
}
