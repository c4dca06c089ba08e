"""Stand-in for the validate_email package: the syntax check alone."""
import re

ADDR = re.compile(r"^[A-Za-z0-9.!#$%&'*+/=?^_`{|}~-]+@[A-Za-z0-9.-]+\Z")


def validate_email(email, *args, **kwargs):
    return ADDR.match(email) is not None
