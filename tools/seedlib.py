"""ctypes access to the library built from the current tree (run from the repository root)"""
import ctypes, os, sys
import numpy as np
L = ctypes.CDLL(os.path.join(os.getcwd(), "_build", "libska_sdp_func.so"))
i32, i64, f64, vp = ctypes.c_int32, ctypes.c_int64, ctypes.c_double, ctypes.c_void_p
L.sdp_mem_create_wrapper.restype = vp
L.sdp_mem_create_wrapper.argtypes = [vp, i32, i32, i32, vp, vp, vp]
L.sdp_mem_set_read_only.argtypes = [vp, i32]
L.sdp_sky_coord_create.restype = vp
L.sdp_sky_coord_create.argtypes = [ctypes.c_char_p, f64, f64, f64]
CODE = {"i1": 1, "i4": 2, "f4": 4, "f8": 8, "c8": 36, "c16": 40}
_keep = []


def mem(x, ro=False, loc=0):
    """handle of a numpy array (shares the memory, any strides)"""
    s = i32(0)
    n = max(x.ndim, 1)
    h = L.sdp_mem_create_wrapper(x.ctypes.data, CODE[x.dtype.str[1:]], loc, x.ndim, (i64 * n)(*x.shape),
                                 (i64 * n)(*x.strides), ctypes.byref(s))
    if ro:
        L.sdp_mem_set_read_only(h, 1)
    _keep.append(x)
    return vp(h)


def sky(*c):
    return vp(L.sdp_sky_coord_create(b"icrs", *[f64(v) for v in c]))


def call(fn, *args, status=0, ret=None):
    """returns (status, result); arrays, ints and floats are converted"""
    s = i32(status)
    a = []
    for x in args:
        if isinstance(x, np.ndarray):
            a.append(mem(x))
        elif x is None:
            a.append(vp(None))
        elif isinstance(x, (int, np.integer)) and not isinstance(x, bool):
            a.append(i64(int(x)))
        elif isinstance(x, float):
            a.append(f64(x))
        else:
            a.append(x)
    f = getattr(L, fn)
    f.restype = ret
    r = f(*a, ctypes.byref(s))
    return s.value, r


def check(ok, text):
    print(("ok: " if ok else "BROKEN: ") + text)
    if not ok:
        sys.exit(1)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)))
