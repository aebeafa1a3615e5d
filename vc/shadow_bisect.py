"""contract of bisect; executed literally on concrete-length lists"""
import bisect as _b


def _len(a):
    return a._vc_len() if hasattr(a, '_vc_len') else len(a)


def bisect_left(a, x, lo=0, hi=None, *, key=None):
    if hasattr(a, '_vc_bisect'):
        return a._vc_bisect(x, lo, hi, 'left')
    return _b.bisect_left(a, x, lo, hi, key=key)


def bisect_right(a, x, lo=0, hi=None, *, key=None):
    if hasattr(a, '_vc_bisect'):
        return a._vc_bisect(x, lo, hi, 'right')
    return _b.bisect_right(a, x, lo, hi, key=key)


bisect = bisect_right


def insort_left(a, x, lo=0, hi=None, *, key=None):
    return _b.insort_left(a, x, lo, hi, key=key)


def insort_right(a, x, lo=0, hi=None, *, key=None):
    return _b.insort_right(a, x, lo, hi, key=key)


insort = insort_right
