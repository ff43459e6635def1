package io.grpc;
public final class CallOptions { public CallOptions() { } }
