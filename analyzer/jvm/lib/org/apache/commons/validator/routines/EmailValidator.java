package org.apache.commons.validator.routines;
public class EmailValidator { public static native EmailValidator getInstance(); public static native EmailValidator getInstance(boolean l); public static native EmailValidator getInstance(boolean l, boolean t); public native boolean isValid(String s); }
