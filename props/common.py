"""Shared builders for the harnesses (public API of the implementation only)."""
from __future__ import annotations

RHO_CP = 8.353535
W_TO_KBTUH = 3.412142


def clamp(h, lo, hi, v):
    return h.max(lo, h.min(hi, v))


def raises(fn, exc=Exception):
    """Run fn; return the exception it raised, or None."""
    try:
        fn()
    except exc as ex:
        return ex
    return None
