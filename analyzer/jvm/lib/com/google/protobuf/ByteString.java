package com.google.protobuf;
public abstract class ByteString implements Iterable<Byte> {
    public static final ByteString EMPTY = null;
    public static native ByteString copyFrom(byte[] b);
    public static native ByteString copyFromUtf8(String s);
    public static native ByteString copyFrom(byte[] b, int off, int n);
    public abstract int size();
    public abstract boolean isEmpty();
    public abstract byte byteAt(int i);
    public abstract byte[] toByteArray();
    public abstract String toStringUtf8();
    public abstract String toString(java.nio.charset.Charset c);
    public abstract boolean startsWith(ByteString p);
    public abstract boolean endsWith(ByteString p);
    public abstract boolean isValidUtf8();
    public abstract ByteString substring(int a);
    public abstract ByteString substring(int a, int b);
}
