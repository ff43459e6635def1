package com.google.rpc;
public final class BadRequest extends com.google.protobuf.GeneratedMessageV3 {
    public java.util.List<FieldViolation> violations = new java.util.ArrayList<>();
    public static Builder newBuilder() { return new Builder(); }
    public static final class Builder { private final BadRequest s = new BadRequest();
        public Builder addFieldViolations(FieldViolation v) { s.violations.add(v); return this; }
        public Builder addFieldViolations(FieldViolation.Builder v) { s.violations.add(v.build()); return this; }
        public Builder addAllFieldViolations(Iterable<? extends FieldViolation> vs) { for (FieldViolation v : vs) { s.violations.add(v); } return this; }
        public FieldViolation.Builder addFieldViolationsBuilder() { FieldViolation.Builder b = FieldViolation.newBuilder(); s.violations.add(b.build()); return b; }
        public BadRequest build() { return s; } }
    public static final class FieldViolation extends com.google.protobuf.GeneratedMessageV3 {
        public String field, description;
        public static Builder newBuilder() { return new Builder(); }
        public static final class Builder { private final FieldViolation s = new FieldViolation();
            public Builder setField(String f) { s.field = f; return this; }
            public Builder setDescription(String f) { s.description = f; return this; }
            public FieldViolation build() { return s; } } }
}
