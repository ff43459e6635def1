package com.google.protobuf;
public final class FloatValue extends GeneratedMessageV3 { public native float getValue(); }
