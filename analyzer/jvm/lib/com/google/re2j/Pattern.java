package com.google.re2j;
public final class Pattern {
    public static native Pattern compile(String s);
    public static native Pattern compile(String s, int f);
    public native boolean matches(String s);
    public static native boolean matches(String p, CharSequence s);
    public native Matcher matcher(CharSequence s);
    public native String pattern();
}
