package io.grpc;
public final class Metadata { public Metadata() { } }
