package com.google.rpc;
public enum Code { OK(0), CANCELLED(1), UNKNOWN(2), INVALID_ARGUMENT(3), DEADLINE_EXCEEDED(4), NOT_FOUND(5), ALREADY_EXISTS(6), PERMISSION_DENIED(7), RESOURCE_EXHAUSTED(8), FAILED_PRECONDITION(9), ABORTED(10), OUT_OF_RANGE(11), UNIMPLEMENTED(12), INTERNAL(13), UNAVAILABLE(14), DATA_LOSS(15), UNAUTHENTICATED(16);
    public static final int OK_VALUE = 0;
    public static final int CANCELLED_VALUE = 1;
    public static final int UNKNOWN_VALUE = 2;
    public static final int INVALID_ARGUMENT_VALUE = 3;
    public static final int DEADLINE_EXCEEDED_VALUE = 4;
    public static final int NOT_FOUND_VALUE = 5;
    public static final int ALREADY_EXISTS_VALUE = 6;
    public static final int PERMISSION_DENIED_VALUE = 7;
    public static final int RESOURCE_EXHAUSTED_VALUE = 8;
    public static final int FAILED_PRECONDITION_VALUE = 9;
    public static final int ABORTED_VALUE = 10;
    public static final int OUT_OF_RANGE_VALUE = 11;
    public static final int UNIMPLEMENTED_VALUE = 12;
    public static final int INTERNAL_VALUE = 13;
    public static final int UNAVAILABLE_VALUE = 14;
    public static final int DATA_LOSS_VALUE = 15;
    public static final int UNAUTHENTICATED_VALUE = 16;
    private final int n; Code(int n) { this.n = n; } public int getNumber() { return n; } }
