package io.grpc;
public interface ClientInterceptor { <ReqT, RespT> ClientCall<ReqT, RespT> interceptCall(MethodDescriptor<ReqT, RespT> m, CallOptions o, Channel n); }
