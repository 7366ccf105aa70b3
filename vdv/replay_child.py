"""Runs concrete calls of the public C API.  argv: library, cases pickle, results pickle.
Executed under the address sanitizer; each buffer is a separate exact-size heap block."""
import ctypes
import os
import pickle
import sys

lib = ctypes.CDLL(sys.argv[1])
cases = pickle.load(open(sys.argv[2], "rb"))
start = int(sys.argv[4]) if len(sys.argv) > 4 else 0
libc = ctypes.CDLL(None)
libc.malloc.restype = ctypes.c_void_p
libc.malloc.argtypes = [ctypes.c_size_t]
libc.free.argtypes = [ctypes.c_void_p]
c_i32, c_i64, c_f64, vp = ctypes.c_int32, ctypes.c_int64, ctypes.c_double, ctypes.c_void_p
lib.sdp_mem_create_wrapper.restype = vp
lib.sdp_mem_create_wrapper.argtypes = [vp, c_i32, c_i32, c_i32, vp, vp, vp]
lib.sdp_mem_set_read_only.argtypes = [vp, c_i32]
lib.sdp_mem_free.argtypes = [vp]
lib.sdp_sky_coord_create.restype = vp
lib.sdp_sky_coord_create.argtypes = [ctypes.c_char_p, c_f64, c_f64, c_f64]
try:
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
except OSError:
    pass


def buf(b):
    p = libc.malloc(max(len(b), 1))
    ctypes.memmove(p, b, len(b))
    return p


def run(case):
    args, keep, mems, cells = [], [], {}, {}
    status = c_i32(0)
    st_ptr = None
    for a in case["args"]:
        k = a["kind"]
        if k == "mem":
            p = buf(a["data"])
            if a.get("null"):
                args.append(vp(None))
                continue
            nd = a["ndims"]
            n = max(nd, 1)
            shape = (c_i64 * n)(*(a["shape"][:n] or [0]))
            stride = (c_i64 * n)(*(a["stride"][:n] or [0]))
            s = c_i32(0)
            h = lib.sdp_mem_create_wrapper(p, a["type"], a["loc"], nd, shape, stride, ctypes.byref(s))
            if not h:
                return None
            if a["ro"]:
                lib.sdp_mem_set_read_only(h, 1)
            args.append(vp(h))
            mems[a["name"]] = (p, len(a["data"]), h)
        elif k == "sky":
            h = lib.sdp_sky_coord_create(b"icrs", *a["c"])
            args.append(vp(h))
        elif k == "int":
            args.append(c_i64(a["v"]))
        elif k == "real":
            args.append(c_f64(a["v"]))
        elif k == "real4":
            args.append(ctypes.c_float(a["v"]))
        elif k == "null":
            args.append(vp(None))
        elif k == "cells":
            p = buf(a["data"])
            cells[a["name"]] = (p, len(a["data"]))
            args.append(vp(p))
        elif k == "status":
            status = c_i32(a["v"])
            st_ptr = status
            args.append(ctypes.byref(status))
    types = {"int": c_i32, "int64": c_i64, "real": c_f64, "real4": ctypes.c_float, "ptr": vp, None: None}
    rets = []
    for fn, an, rt in case.get("chain") or [(case["fn"], [1000 + i for i in range(len(args))], case.get("ret"))]:
        f = getattr(lib, fn)
        f.restype = types[rt]
        r = f(*[args[i - 1000] if i >= 1000 else vp(rets[i]) for i in an])
        rets.append(r)
    out = {"status": status.value if st_ptr is not None else None, "ret": r, "mems": {}, "cells": {}}
    for n, (p, ln, h) in mems.items():
        out["mems"][n] = ctypes.string_at(p, ln)
        lib.sdp_mem_free(h)
        libc.free(p)
    for n, (p, ln) in cells.items():
        out["cells"][n] = ctypes.string_at(p, ln)
        libc.free(p)
    return out


with open(sys.argv[3], "ab") as fo:
    for i in range(start, len(cases)):
        r = run(cases[i])
        pickle.dump((i, r), fo)
        fo.flush()
