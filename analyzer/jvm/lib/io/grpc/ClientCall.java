package io.grpc;
public abstract class ClientCall<ReqT, RespT> {
    public abstract static class Listener<T> { public void onHeaders(Metadata h) { } public void onMessage(T m) { } public void onClose(Status s, Metadata m) { } public void onReady() { } }
    public abstract void sendMessage(ReqT m); public void halfClose() { } public void request(int n) { } public void cancel(String s, Throwable t) { }
    public void start(Listener<RespT> l, Metadata h) { } public boolean isReady() { return true; } public void setMessageCompression(boolean b) { }
}
