package io.grpc;
public abstract class Channel {
  public abstract <ReqT, RespT> ClientCall<ReqT, RespT> newCall(MethodDescriptor<ReqT, RespT> method, CallOptions options);
  public abstract String authority();
}
