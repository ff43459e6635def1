package io.grpc.protobuf;
import io.grpc.*;
public final class StatusProto {
    public static StatusRuntimeException toStatusRuntimeException(com.google.rpc.Status s) { return new StatusRuntimeException(s, new Metadata()); }
    public static StatusRuntimeException toStatusRuntimeException(com.google.rpc.Status s, Metadata m) { return new StatusRuntimeException(s, m); }
}
