"""What the scalar types accept (RFC 7643 section 2.3), independent of the implementation."""
import base64
import binascii
import math
from datetime import datetime
from urllib.parse import urlparse

from .core import C, INVALID

BAD_SYNTAX, BAD_TYPE, BAD_B64, BAD_URL = 1, 2, 3, 8
STRING_LIKE = ("String", "Binary", "ExternalReference", "URIReference", "SCIMReference")
SCIM_NAME = {
    "Boolean": "boolean", "Decimal": "decimal", "Integer": "integer", "String": "string",
    "Binary": "binary", "ExternalReference": "reference", "URIReference": "reference",
    "SCIMReference": "reference", "DateTime": "dateTime", "Complex": "complex", "Unknown": "unknown",
}


def is_canonical_base64(v):
    try:
        raw = v.encode("ascii")
    except UnicodeEncodeError:
        return False
    try:
        return base64.b64encode(base64.b64decode(raw)) == raw
    except binascii.Error:
        return False


def is_absolute_url(v):
    try:
        p = urlparse(v)
    except ValueError:
        return False
    return bool(p.scheme) and bool(p.netloc)


def rule(tname, v, mode):
    """-> (value, codes); every code is blocking and belongs to the value itself."""
    if tname == "Unknown":
        return v, []
    if tname == "Boolean":
        return (v, []) if isinstance(v, bool) else (INVALID, [BAD_TYPE])
    if tname == "Integer":
        if isinstance(v, bool):
            return INVALID, [BAD_TYPE]
        if isinstance(v, int):
            return v, []
        if isinstance(v, float) and math.isfinite(v) and v == math.floor(v):
            return int(v), []
        return INVALID, [BAD_TYPE]
    if tname == "Decimal":
        if isinstance(v, bool):
            return INVALID, [BAD_TYPE]
        if isinstance(v, float):
            return v, []
        if isinstance(v, int):
            try:
                return float(v), []
            except OverflowError:
                return INVALID, [BAD_SYNTAX]
        return INVALID, [BAD_TYPE]
    if tname in STRING_LIKE:
        if not isinstance(v, str):
            return INVALID, [BAD_TYPE]
        if tname == "Binary" and not is_canonical_base64(v):
            return INVALID, [BAD_B64]
        if tname == "ExternalReference" and not is_absolute_url(v):
            return INVALID, [BAD_URL]
        return v, []
    if tname == "DateTime":
        if mode == "parse":
            if not isinstance(v, str):
                return INVALID, [BAD_TYPE]
            try:
                return datetime.fromisoformat(v), []
            except ValueError:
                return INVALID, [BAD_SYNTAX]
        return (v.isoformat(), []) if isinstance(v, datetime) else (INVALID, [BAD_TYPE])
    if tname == "Complex":
        return (v, []) if isinstance(v, C) else (INVALID, [BAD_TYPE])
    raise AssertionError(tname)
