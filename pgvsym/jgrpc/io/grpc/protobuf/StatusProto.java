package io.grpc.protobuf;
import io.grpc.Metadata;
import io.grpc.StatusRuntimeException;
public final class StatusProto {
  private StatusProto() {}
  public static StatusRuntimeException toStatusRuntimeException(com.google.rpc.Status s) { return toStatusRuntimeException(s, new Metadata()); }
  public static StatusRuntimeException toStatusRuntimeException(com.google.rpc.Status s, Metadata m) {
    m.details = s;
    return io.grpc.Status.fromCodeValue(s.getCode()).withDescription(s.getMessage()).asRuntimeException(m);
  }
}
