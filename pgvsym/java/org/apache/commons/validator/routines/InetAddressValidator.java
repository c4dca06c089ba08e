package org.apache.commons.validator.routines;
public class InetAddressValidator {
  private static final InetAddressValidator I = new InetAddressValidator();
  public static InetAddressValidator getInstance() { return I; }
  public boolean isValid(String s) { return isValidInet4Address(s) || isValidInet6Address(s); }
  public boolean isValidInet4Address(String s) {
    return s.matches("((0|[1-9]\\d?|1\\d\\d|2[0-4]\\d|25[0-5])\\.){3}(0|[1-9]\\d?|1\\d\\d|2[0-4]\\d|25[0-5])");
  }
  public boolean isValidInet6Address(String s) {
    if (!s.contains(":") || s.matches(".*[^0-9a-fA-F:.].*") || s.contains("\n")) return false;
    try {
      return java.net.InetAddress.getByName("[" + s + "]") != null;
    } catch (java.net.UnknownHostException e) {
      return false;
    }
  }
}
