package io.grpc;
public abstract class ForwardingClientCall<ReqT, RespT> extends ClientCall<ReqT, RespT> {
    protected abstract ClientCall<ReqT, RespT> delegate();
    @Override public void start(Listener<RespT> l, Metadata h) { delegate().start(l, h); }
    @Override public void request(int n) { delegate().request(n); }
    @Override public void sendMessage(ReqT m) { delegate().sendMessage(m); }
    @Override public void halfClose() { delegate().halfClose(); }
    @Override public void cancel(String s, Throwable t) { delegate().cancel(s, t); }
    public abstract static class SimpleForwardingClientCall<ReqT, RespT> extends ForwardingClientCall<ReqT, RespT> {
        private final ClientCall<ReqT, RespT> delegate;
        protected SimpleForwardingClientCall(ClientCall<ReqT, RespT> d) { this.delegate = d; }
        @Override protected ClientCall<ReqT, RespT> delegate() { return delegate; }
    }
}
