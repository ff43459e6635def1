package io.grpc;
public final class MethodDescriptor<ReqT, RespT> { }
