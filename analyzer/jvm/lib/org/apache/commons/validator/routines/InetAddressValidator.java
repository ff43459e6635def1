package org.apache.commons.validator.routines;
public class InetAddressValidator { public static native InetAddressValidator getInstance(); public native boolean isValid(String s); public native boolean isValidInet4Address(String s); public native boolean isValidInet6Address(String s); }
