package com.google.protobuf;
public final class UInt32Value extends GeneratedMessageV3 { public native int getValue(); }
