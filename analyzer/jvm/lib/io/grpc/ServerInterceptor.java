package io.grpc;
public interface ServerInterceptor { <ReqT, RespT> ServerCall.Listener<ReqT> interceptCall(ServerCall<ReqT, RespT> c, Metadata h, ServerCallHandler<ReqT, RespT> n); }
