package com.google.protobuf;
public final class UInt64Value extends GeneratedMessageV3 { public native long getValue(); }
