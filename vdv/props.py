"""Which functions and which obligation kinds decide which property."""
import importlib

SAFETY = {"bounds", "contiguity", "create-size", "div-by-zero", "double-free", "element-type", "frame", "layout",
          "location", "loop-termination", "null-deref", "rank", "use-after-free", "bad-free", "abort", "leak"}
AREA = SAFETY | {"accept", "result", "vacuity", "reach"}

MODULES = ["phase_rotate", "dft", "weighting", "gridder_utils", "examples", "degrid_custom", "sky_coord", "station", "mem", "clamp", "fft", "grid_correct"]
_specs = {}


def load():
    if not _specs:
        for m in MODULES:
            mod = importlib.import_module("specs." + m)
            for sp in mod.SPECS:
                nm = sp.fn + (":" + sp.label if getattr(sp, "label", None) else "")
                assert nm not in _specs, nm
                _specs[nm] = (m, sp)
    return _specs


def find(item):
    return load()[item][1]


def cost(item):
    return getattr(find(item), "cost", 10)


def area(*mods, fns=None, **kw):
    d = dict(mods=mods, fns=fns, kinds=AREA, modes=["accept"])
    d.update(kw)
    return d


def named(*parts):
    return lambda nm: any(p in nm for p in parts)


PROPS = {
    "C01": dict(mods=None, fns=None, kinds={"reject", "reject-frame", "vacuity", "reach"}, modes=["reject"]),
    "C02": dict(mods=None, fns=None, kinds={"sticky", "reject-frame", "reach"}, modes=["sticky"]),
    "C03": dict(mods=None, fns=None, kinds=SAFETY | {"reach"}, modes=["accept", "reject", "sticky"]),
    "C04": area("mem"),
    "C05": area("phase_rotate"),
    "C06": area("dft"),
    "C07": area("weighting"),
    "C08": area("gridder_utils", fns=named("gridder_dft", "gridder_idft")),
    "C09": area("gridder_utils", fns=named("subgrid_add", "subgrid_cut_out")),
    "C10": area("gridder_utils", fns=named("accumulate", "scale_inv", "residual", "rms_diff", "count_nonzero",
                                           "shift_subgrids", "sum_diff")),
    "C11": area("clamp"),
    "C13": area("degrid_custom"),
    "C18": area("examples"),
    "C19": area("sky_coord"),
    "C20": area("station"),
    "C22": area("gridder_utils", "grid_correct", fns=named("make_kernel", "make_w_pattern", "determine_w_step",
                                                           "grid_correct_w_stack")),
    "C23": area("fft"),
}

PROPS["C24"] = dict(mods=None, fns=None, kinds={"omp", "reach"}, modes=["accept"], omp=True)


def items(prop):
    P = PROPS[prop]
    out = []
    for nm, (m, sp) in load().items():
        if P["mods"] is not None and m not in P["mods"]:
            continue
        if P["fns"] is not None and not P["fns"](nm):
            continue
        if P["mods"] is None and prop in getattr(sp, "exclude", ()):
            continue
        out.append(nm)
    return out


ASSUMPTIONS = [
    "floating point is treated as real arithmetic (rounding error, overflow, NaN and infinity are not modelled); "
    "constants are compared to 12 significant digits (6 in single precision)",
    "integer arithmetic is treated as mathematical: array extents and index products stay within the machine types",
    "array handles are valid (created by this library) and distinct arguments do not overlap in memory",
    "memory allocation succeeds",
    "loops run in sequential order (OpenMP pragmas are not compiled in)",
    "libm functions behave as the mathematical functions; pocketfft and libstdc++ containers are trusted",
]


def assumed_text(x):
    return x
