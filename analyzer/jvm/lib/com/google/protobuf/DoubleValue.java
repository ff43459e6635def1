package com.google.protobuf;
public final class DoubleValue extends GeneratedMessageV3 { public native double getValue(); }
