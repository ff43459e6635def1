package io.grpc;
public final class Status { public final StatusRuntimeException of; public Status(StatusRuntimeException e) { of = e; } }
