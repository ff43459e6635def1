package com.google.re2j;
public final class Matcher { public native boolean matches(); public native boolean find(); public native boolean lookingAt(); }
