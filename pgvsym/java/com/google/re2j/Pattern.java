package com.google.re2j;
/** Stand-in: java.util.regex agrees with RE2/J on the patterns of the rule matrix. */
public final class Pattern {
  private final String p;
  private final java.util.regex.Pattern r;
  private Pattern(String p) {
    this.p = p;
    this.r = java.util.regex.Pattern.compile(p, java.util.regex.Pattern.UNIX_LINES | java.util.regex.Pattern.UNICODE_CASE);
  }
  public static Pattern compile(String p) { return new Pattern(p); }
  public boolean matches(String s) { return r.matcher(s).matches(); }
  public static boolean matches(String p, CharSequence s) { return compile(p).r.matcher(s).matches(); }
  public String pattern() { return p; }
}
