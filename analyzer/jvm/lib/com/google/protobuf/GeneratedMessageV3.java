package com.google.protobuf;
public abstract class GeneratedMessageV3 implements Message { public boolean isInitialized() { return true; } public int getSerializedSize() { return 0; } }
