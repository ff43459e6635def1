package com.google.protobuf;
public interface MessageLite { boolean isInitialized(); int getSerializedSize(); }
