package com.google.rpc;
import java.util.ArrayList;
import java.util.List;
public final class BadRequest implements com.google.protobuf.Message {
  public final List<FieldViolation> list = new ArrayList<>();
  public static Builder newBuilder() { return new Builder(); }
  public int getFieldViolationsCount() { return list.size(); }
  public FieldViolation getFieldViolations(int i) { return list.get(i); }
  public static final class Builder {
    private final BadRequest m = new BadRequest();
    public Builder addFieldViolations(FieldViolation v) { m.list.add(v); return this; }
    public Builder addFieldViolations(FieldViolation.Builder v) { m.list.add(v.build()); return this; }
    public BadRequest build() { return m; }
  }
  public static final class FieldViolation implements com.google.protobuf.Message {
    private String field = "", description = "";
    public String getField() { return field; }
    public String getDescription() { return description; }
    public static Builder newBuilder() { return new Builder(); }
    public static final class Builder {
      private final FieldViolation m = new FieldViolation();
      public Builder setField(String f) { if (f == null) throw new NullPointerException(); m.field = f; return this; }
      public Builder setDescription(String d) { if (d == null) throw new NullPointerException(); m.description = d; return this; }
      public FieldViolation build() { return m; }
    }
  }
}
