package com.google.protobuf;
public final class Duration extends GeneratedMessageV3 {
    public native long getSeconds();
    public native int getNanos();
    public static native Builder newBuilder();
    public static native Duration getDefaultInstance();
    public native Builder toBuilder();
    public static final class Builder {
        public native Builder setSeconds(long s);
        public native Builder setNanos(int n);
        public native Duration build();
    }
}
