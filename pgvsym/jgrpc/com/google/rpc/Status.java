package com.google.rpc;
import com.google.protobuf.Any;
import java.util.ArrayList;
import java.util.List;
public final class Status implements com.google.protobuf.Message {
  private int code;
  private String message = "";
  private final List<Any> details = new ArrayList<>();
  public int getCode() { return code; }
  public String getMessage() { return message; }
  public int getDetailsCount() { return details.size(); }
  public Any getDetails(int i) { return details.get(i); }
  public static Builder newBuilder() { return new Builder(); }
  public static final class Builder {
    private final Status m = new Status();
    public Builder setCode(int c) { m.code = c; return this; }
    public Builder setMessage(String s) { if (s == null) throw new NullPointerException(); m.message = s; return this; }
    public Builder addDetails(Any a) { m.details.add(a); return this; }
    public Status build() { return m; }
  }
}
