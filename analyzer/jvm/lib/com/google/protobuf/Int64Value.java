package com.google.protobuf;
public final class Int64Value extends GeneratedMessageV3 { public native long getValue(); }
