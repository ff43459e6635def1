package io.grpc;
public interface ServerCallHandler<ReqT, RespT> { ServerCall.Listener<ReqT> startCall(ServerCall<ReqT, RespT> c, Metadata h); }
