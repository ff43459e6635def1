package io.grpc;
public class StatusRuntimeException extends RuntimeException {
    public final com.google.rpc.Status rpc; public final Metadata md;
    public StatusRuntimeException(com.google.rpc.Status s, Metadata m) { rpc = s; md = m; }
    public Status getStatus() { return new Status(this); }
    public Metadata getTrailers() { return md; }
}
