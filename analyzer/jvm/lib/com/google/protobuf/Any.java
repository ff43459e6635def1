package com.google.protobuf;
public final class Any extends GeneratedMessageV3 {
    public Object packed;
    public native String getTypeUrl();
    public native ByteString getValue();
    public static <T extends Message> Any pack(T m) { Any a = new Any(); a.packed = m; return a; }
}
