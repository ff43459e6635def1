package com.google.protobuf;
public final class Int32Value extends GeneratedMessageV3 { public native int getValue(); }
