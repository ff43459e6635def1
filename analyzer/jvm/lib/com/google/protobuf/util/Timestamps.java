package com.google.protobuf.util;
import com.google.protobuf.Duration;
import com.google.protobuf.Timestamp;
public final class Timestamps {
    public static native java.util.Comparator<Timestamp> comparator();
    public static native int compare(Timestamp a, Timestamp b);
    public static native boolean isValid(Timestamp d);
    public static native Timestamp checkValid(Timestamp d);
    public static native long toNanos(Timestamp d);
    public static native long toMillis(Timestamp d);
    public static native String toString(Timestamp d);
    public static native Timestamp fromMillis(long n);
    public static native Timestamp fromNanos(long n);
    public static native Duration between(Timestamp a, Timestamp b);
    public static native Timestamp add(Timestamp a, Duration b);
    public static native Timestamp subtract(Timestamp a, Duration b);
}
