package com.google.protobuf;
public final class StringValue extends GeneratedMessageV3 { public native String getValue(); }
