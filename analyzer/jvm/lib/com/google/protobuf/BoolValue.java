package com.google.protobuf;
public final class BoolValue extends GeneratedMessageV3 { public native boolean getValue(); }
