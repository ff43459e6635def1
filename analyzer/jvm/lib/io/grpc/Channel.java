package io.grpc;
public abstract class Channel { public abstract <A, B> ClientCall<A, B> newCall(MethodDescriptor<A, B> m, CallOptions o); }
