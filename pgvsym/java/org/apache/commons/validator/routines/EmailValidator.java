package org.apache.commons.validator.routines;
public class EmailValidator {
  private static final EmailValidator I = new EmailValidator();
  public static EmailValidator getInstance(boolean allowLocal, boolean allowTld) { return I; }
  public boolean isValid(String s) {
    return s != null && s.matches("(\"[^\"\\\\]*\"|[A-Za-z0-9!#$%&'*+/=?^_`{|}~.-]+)@[A-Za-z0-9.-]+");
  }
}
