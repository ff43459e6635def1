package com.google.rpc;
public final class Status extends com.google.protobuf.GeneratedMessageV3 {
    public int code; public String message; public java.util.List<Object> details = new java.util.ArrayList<>();
    public static Builder newBuilder() { return new Builder(); }
    public static final class Builder { private final Status s = new Status();
        public Builder setCode(int c) { s.code = c; return this; }
        public Builder setMessage(String m) { s.message = m; return this; }
        public Builder addDetails(com.google.protobuf.Any a) { s.details.add(a); return this; }
        public Status build() { return s; } }
}
