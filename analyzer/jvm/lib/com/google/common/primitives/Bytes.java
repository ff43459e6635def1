package com.google.common.primitives;
public final class Bytes { public static native int indexOf(byte[] a, byte[] b); public static native int indexOf(byte[] a, byte b); }
