package org.apache.commons.validator.routines;
/** Stand-in with local names allowed: an RFC 1034 name (the list of top-level
 *  domains of the library is not modelled). */
public class DomainValidator {
  private static final DomainValidator I = new DomainValidator();
  public static DomainValidator getInstance(boolean allowLocal) { return I; }
  public static DomainValidator getInstance() { return I; }
  public boolean isValid(String s) {
    if (s == null || s.length() > 253) return false;
    return s.matches("([a-zA-Z0-9]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?\\.)*[a-zA-Z]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?\\.?");
  }
}
