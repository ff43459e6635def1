package com.google.protobuf.util;
import com.google.protobuf.Duration;
public final class Durations {
    public static native java.util.Comparator<Duration> comparator();
    public static native int compare(Duration a, Duration b);
    public static native boolean isValid(Duration d);
    public static native Duration checkValid(Duration d);
    public static native long toNanos(Duration d);
    public static native long toMillis(Duration d);
    public static native String toString(Duration d);
    public static native Duration fromNanos(long n);
    public static native boolean isNegative(Duration d);
}
