package com.google.protobuf;
public final class BytesValue extends GeneratedMessageV3 { public native ByteString getValue(); }
