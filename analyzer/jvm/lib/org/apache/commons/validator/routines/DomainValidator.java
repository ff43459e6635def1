package org.apache.commons.validator.routines;
public class DomainValidator { public static native DomainValidator getInstance(); public static native DomainValidator getInstance(boolean l); public native boolean isValid(String s); }
