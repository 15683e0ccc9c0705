"""Text read from a file (property C13)."""
import numpy

from punx import utils


def utf8(value):
    return value.decode("utf8", errors="replace")


def decoded(value):
    """UTF-8 text for bytes, lists of texts for arrays of text, all else as it is"""
    if isinstance(value, bytes):
        return utf8(value)
    if not isinstance(value, numpy.ndarray) or value.dtype.kind not in ("O", "S"):
        return value
    return utils._decode_items(value.tolist()) if value.size else None


def decoded_items(value):
    if isinstance(value, list):
        return [utils._decode_items(x) for x in value]
    if isinstance(value, bytes):
        return utf8(value)
    return str(value)


def text(value):
    """the text of an attribute: one text, alone or the only one in (nested) lists"""
    value = utils.decode_byte_string(value)
    if isinstance(value, list) and len(value) == 1:
        return rest(value[0])
    return value if isinstance(value, str) else None


def rest(value):
    raise NotImplementedError  # by contract only
