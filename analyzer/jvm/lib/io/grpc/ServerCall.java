package io.grpc;
public abstract class ServerCall<ReqT, RespT> {
    public abstract static class Listener<ReqT> { public void onMessage(ReqT m) { } public void onHalfClose() { } public void onCancel() { } public void onComplete() { } public void onReady() { } }
    public abstract void close(Status s, Metadata m);
    public abstract void request(int n);
    public void sendHeaders(Metadata h) { } public void sendMessage(RespT m) { } public boolean isReady() { return true; } public boolean isCancelled() { return false; }
    public MethodDescriptor<ReqT, RespT> getMethodDescriptor() { return null; }
}
