PR, DF, WE, GU = ("visibility/sdp_phase_rotate.cpp", "visibility/sdp_dft.cpp", "visibility/sdp_weighting.cpp",
                  "grid_data/sdp_gridder_utils.cpp")
make("C05-channel-step", "C05", [(PR, "(channel_start_hz + i_channel * channel_step_hz) / C_0;",
     "(channel_start_hz + i_channel * fabs(channel_step_hz)) / C_0;")],
     "a descending frequency axis (negative channel step) with more than one channel",
     "visibilities of every channel after the first are rotated by the phase of the wrong frequency",
     '''
r = np.random.RandomState(1)
uvw, vis = r.uniform(-50, 50, (2, 3, 3)), r.randn(2, 3, 4, 4) + 1j * r.randn(2, 3, 4, 4)
out = np.zeros_like(vis)
f0, df = 1.5e8, -1e6
s, _ = call("sdp_phase_rotate_vis", sky(0.3, 0.2, 0.0), sky(0.31, 0.19, 0.0), f0, df, uvw, vis, out)
check(s == 0, "accepted")
fr = f0 + df * np.arange(4)
d = []
for f in (0, 1, 2, 3):
    o1 = np.zeros_like(vis[:, :, :1])
    call("sdp_phase_rotate_vis", sky(0.3, 0.2, 0.0), sky(0.31, 0.19, 0.0), float(fr[f]), 0.0, uvw, np.ascontiguousarray(vis[:, :, f:f + 1]), o1)
    d.append(close(o1[:, :, 0], out[:, :, f], 1e-7))
check(all(d), "each channel is rotated like a single-channel call at its own frequency: %s" % d)
''')
make("C05-same-ra", "C05", [(PR, "    // Switch on location and data types.\n    const int64_t num_total = num_times * num_baselines;",
     "    // No rotation needed if the phase centre has not moved.\n    if (d_a == 0.0)\n    {\n        for (int k = 0; k < 9; ++k) mat[k] = (k % 4 == 0) ? 1.0 : 0.0;\n    }\n\n"
     "    // Switch on location and data types.\n    const int64_t num_total = num_times * num_baselines;")],
     "a new phase centre at exactly the same right ascension but another declination",
     "the baseline coordinates are left unrotated", '''
uvw = np.random.RandomState(2).uniform(-50, 50, (2, 3, 3)); out = np.zeros_like(uvw)
s, _ = call("sdp_phase_rotate_uvw", sky(0.4, 0.1, 0.0), sky(0.4, 0.3, 0.0), uvw, out)
c, sn = np.cos(0.2), np.sin(0.2)
ref = np.stack([uvw[..., 0], c * uvw[..., 1] - sn * uvw[..., 2], sn * uvw[..., 1] + c * uvw[..., 2]], -1)
check(s == 0 and close(out, ref), "rotation about u by the change in declination")
''')
make("C06-dark-component", "C06", [(DF, "                    for (int i_pol = 0; i_pol < num_pols; ++i_pol)\n                    {\n                        const complex<FLUX_TYPE> flux =",
     "                    if (source_fluxes[i_pol_start] == (complex<FLUX_TYPE>) 0)\n                    {\n                        continue; // Nothing to add for this component.\n                    }\n"
     "                    for (int i_pol = 0; i_pol < num_pols; ++i_pol)\n                    {\n                        const complex<FLUX_TYPE> flux =", 1)],
     "a component whose first polarisation is exactly zero while others are not",
     "the component's contribution to the other polarisations is dropped", '''
r = np.random.RandomState(3)
d, fl, uvw = r.uniform(-.2, .2, (3, 3)), r.randn(3, 2, 4) + 1j * r.randn(3, 2, 4), r.uniform(-20, 20, (2, 2, 3))
fl[1, 1, 0] = 0
vis = np.zeros((2, 2, 2, 4), complex)
s, _ = call("sdp_dft_point_v01", d, fl, uvw, 1e8, 1e6, vis)
il = (1e8 + 1e6 * np.arange(2)) / 299792458.0
ph = np.exp(-2j * np.pi * np.einsum("tbk,ck,f->tbfc", uvw, d, il))
check(s == 0 and close(vis, np.einsum("tbfc,cfp->tbfp", ph, fl), 1e-7), "all polarisations of all components are summed")
''')
make("C07-second-pol", "C07", [(WE, """                            (weights_grid_uv[i_pol_s + i_pol] *
                            weights_grid_uv[i_pol_s + i_pol]);""", """                            (weights_grid_uv[i_pol_s + i_pol] *
                            weights_grid_uv[i_pol_s]);""")],
     "Briggs weights of several polarisations whose gridded weights differ", "the sum of squared weights mixes polarisations", '''
g = np.zeros((4, 4, 2)); w = np.array([[1., 5.], [2., 3.]]).reshape(1, 2, 1, 2)
uvw = np.array([[[1.0, 2.0, 0], [-3.0, 4.0, 0]]]); out = np.zeros_like(w)
s, _ = call("sdp_weighting_briggs", uvw, np.array([299792458.0]), 10.0, 0.5, g, w, out)
f2 = (5.0 / 10 ** 0.5) ** 2 / ((w ** 2).sum() / w.sum())
check(s == 0 and close(out, w / (1 + w * f2)) or close(out, 1 / (1 + w * f2)), "robust weights use the mean gridded weight")
''')

make("C03-grid-edge", "C03", [(WE, "                if (idx_u >= grid_size || idx_v >= grid_size) continue;", "                if (idx_u >= grid_size || idx_v > grid_size) continue;", 0)],
     "a sample exactly at the positive edge of the last row of the grid", "the weight is added beyond the end of the grid array", '''
buf = np.zeros(4 * 4 * 1 + 8); g = buf[:16].reshape(4, 4, 1)
uvw = np.array([[[9.9, 10.0, 0]]]); w = np.ones((1, 1, 1, 1)); out = np.zeros_like(w)
s, _ = call("sdp_weighting_uniform", uvw, np.array([299792458.0]), 10.0, g, w, out)
check(not buf[16:].any(), "memory behind the grid is untouched")
''')
make("C08-empty-range", "C08", [(GU, "        if (start_chs && end_chs && start_chs_(i) >= end_chs_(i)) continue;", "        if (start_chs && end_chs && start_chs_(i) > end_chs_(i)) continue;")],
     "a row whose channel range is empty because start and end are equal", "visibilities are predicted for rows that select no channel", '''
uvw = np.random.RandomState(4).uniform(-5, 5, (3, 3)); lmn = np.array([[.1, .05, -.01]]); vis = np.zeros((3, 2), complex)
s, _ = call("sdp_gridder_dft", uvw, np.array([0, 1, 1], "i4"), np.array([2, 1, 2], "i4"), np.array([2.0]), lmn, 0, 0, 0, 0.1, 0.0, 1e8, 1e6, vis)
check(s == 0 and not vis[1].any() and vis[0].any(), "rows without channels are left alone")
''')
make("C08-far-subgrid", "C08", [(GU, "        dw = (double) subgrid_offset_w * w_step;", "        dw = (double) (subgrid_offset_w > 0 ? subgrid_offset_w : -subgrid_offset_w) * w_step;", 1)],
     "imaging a sub-grid below the central w-plane (negative w offset)", "visibilities are imaged with the w shift of the mirrored plane", '''
r = np.random.RandomState(5)
uvw = r.uniform(-5, 5, (4, 3)); vis = r.randn(4, 1) + 1j * r.randn(4, 1)
n = 2; lmn = r.uniform(-.2, .2, (n * n, 3)); img = np.zeros((n, n), complex)
s, _ = call("sdp_gridder_idft", uvw, vis, None, None, lmn, None, 1, 2, -3, 0.1, 2.5, 1e8, 0.0, img)
q = uvw * 1e8 / 299792458.0 - np.array([1 / 0.1, 2 / 0.1, -3 * 2.5])
ref = (np.exp(2j * np.pi * lmn @ q.T) @ vis[:, 0]).reshape(n, n)
check(s == 0 and close(img, ref, 1e-8), "inverse transform at a negative w offset")
''')
make("C09-far-offset", "C09", [(GU, "            while (j1 >= grid_size_v)\n            {\n                j1 -= grid_size_v;\n            }\n            sub_(i, j) = grid_(i1, j1);",
     "            if (j1 >= grid_size_v)\n            {\n                j1 -= grid_size_v * ((j1 - grid_size_v) / grid_size_v > 0 ? 2 : 1);\n            }\n            if (j1 >= grid_size_v) j1 = grid_size_v - 1;\n            sub_(i, j) = grid_(i1, j1);")],
     "an offset of three or more grid sizes in v", "cells are cut out from the wrong column", '''
g = np.arange(4 * 5).reshape(4, 5) * (1 + 0j); s2 = np.zeros((2, 2), complex)
s, _ = call("sdp_gridder_subgrid_cut_out", g, 1, 23, s2)
ref = g[np.ix_([(i + 2 - 1 + 1) % 4 for i in range(2)], [(j + 2 - 1 + 23) % 5 for j in range(2)])]
check(s == 0 and close(s2, ref), "periodic wrapping of a far offset")
''')
make("C10-rms-shape", "C10", [(GU, "    const int size = num_x * num_y;", "    const int size = num_x * num_x;")],
     "an image that is not square", "the mean is taken over the wrong number of pixels", '''
a, b = np.random.RandomState(6).randn(2, 3, 5)
s, r = call("sdp_gridder_rms_diff", a, b, ret=f64)
check(s == 0 and close(r, np.sqrt(np.mean((a - b) ** 2))), "rms over all pixels")
''')
make("C22-one-shear", "C22", [("grid_data/sdp_gridder_utils.h", "h_u == 0 and h_v == 0", "h_u == 0 or h_v == 0")],
     "a shear in one direction only", "the w-pattern is computed as if there were no shear", '''
n, th, hu, ws = 4, 0.3, 0.2, 3.0
w = np.zeros((n, n), complex)
s, _ = call("sdp_gridder_make_w_pattern", n, th, hu, 0.0, ws, w)
x = (np.arange(n) - n // 2) * th / n; l, m = np.meshgrid(x, x, indexing="ij")
h1, h2 = hu * l - 1, hu * hu + 1
nn = (np.sqrt(h1 * h1 - h2 * (l * l + m * m)) + h1) / h2
check(s == 0 and close(w, np.exp(2j * np.pi * ws * nn), 1e-8), "sheared direction cosine")
''')
make("C01-ro-grid", "C01", [(WE, "    sdp_mem_check_writeable(weights_grid_uv, status);\n", "", 1)],
     "a Briggs weighting call whose weights grid is marked read-only", "the call succeeds and writes into the read-only grid", '''
g, w = np.zeros((4, 4, 1)), np.ones((1, 2, 1, 1))
uvw = np.array([[[1.0, 2.0, 0], [-3.0, 4.0, 0]]]); out = np.zeros_like(w)
s, _ = call("sdp_weighting_briggs", uvw, np.array([299792458.0]), 10.0, 0.5, mem(g, ro=True), w, out)
check(s != 0 and not g.any(), "a read-only weights grid is rejected")
''')

ME, DC, SC, ST = "utility/sdp_mem.cpp", "grid_data/sdp_degrid_uvw_custom.cpp", "utility/sdp_sky_coord.c", "station_beam/sdp_station.cpp"
make("C04-slice-stride", "C04", [(ME, "        stride[num_dims_slice - 1 - i] = src->stride[src->num_dims - 1 - i];\n",
     "        // A row of the parent lies between rows of the slice.\n        stride[num_dims_slice - 1 - i] = (i == 0) ?\n"
     "                    sdp_mem_type_size(src->type) :\n                    stride[num_dims_slice - i] * src->shape[src->num_dims - i];\n")],
     "a slice of an array that has strides of its own, such as a slice of a slice", "the slice is given the strides of a contiguous parent", """
a = np.arange(24.0).reshape(4, 6)
L.sdp_mem_create_wrapper_for_slice.restype = vp
L.sdp_mem_stride_bytes_dim.restype = i64
s = i32(0)
h = L.sdp_mem_create_wrapper_for_slice(mem(a), (i64 * 2)(1, 1), 2, (i64 * 2)(3, 4), ctypes.byref(s))
h = L.sdp_mem_create_wrapper_for_slice(vp(h), (i64 * 2)(0, 1), 2, (i64 * 2)(2, 2), ctypes.byref(s))
check(s.value == 0 and L.sdp_mem_stride_bytes_dim(vp(h), 0) == 48, "rows of a slice of a slice are rows of the array")
""")
make("C04-uncleared", "C04", [(ME, "        mem->data = calloc(bytes, 1);\n",
     "        mem->data = bytes < (1 << 16) ? calloc(bytes, 1) : malloc(bytes);\n")],
     "a large array created where a released one was", "the array starts with the contents of released memory", '''
L.sdp_mem_create.restype = L.sdp_mem_data.restype = vp
n = 100000
for k in range(20):
    s = i32(0)
    h = [vp(L.sdp_mem_create(1, 0, 1, (i64 * 1)(n), ctypes.byref(s))) for _ in range(4)]
    for x in h:
        d = np.ctypeslib.as_array((ctypes.c_uint8 * n).from_address(L.sdp_mem_data(x)))
        check(s.value == 0 and not d.any(), "a new array is cleared")
        d[:] = 7
    for x in h[::2] + h[1::2]:
        L.sdp_mem_free(x)
''')
make("C13-empty-cell", "C13", [(DC, "                                visy += uv_kernel[sub_offset_x + x] * value;\n",
     "                                // Nothing to add for an empty cell.\n                                if (value == complex<VIS_TYPE>(0, 0)) break;\n"
     "                                visy += uv_kernel[sub_offset_x + x] * value;\n")],
     "a grid cell that is exactly zero within the footprint of a visibility", "the cells of the same row after the empty one are left out", '''
r = np.random.RandomState(8)
n, k, ov = 16, 4, 8
def run(g):
    v = np.zeros((1, 1, 1, 1), complex)
    uk, wk = np.random.RandomState(1).rand(ov, k), np.random.RandomState(2).rand(ov, 2)
    s, _ = call("sdp_degrid_uvw_custom", g, np.array([[[0.3, -0.2, 0.1]]]), uk, wk, 1.0, 1.0, 299792458.0, 0.0, 0, v)
    check(s == 0, "accepted")
    return v[0, 0, 0, 0]
g = r.rand(1, 2, n, n, 1) + 0j
h = g.copy(); h[0, :, :, n // 2] = 0
p = np.zeros_like(g); p[0, :, :, n // 2] = g[0, :, :, n // 2]
q = abs(run(g) - run(h) - run(p)); z = [run(np.where(np.arange(n)[None, None, None, :, None] == c, g, 0)) for c in range(n)]
check(close(sum(z), run(g)) and q < 1e-9, "degridding is linear in the grid")
''')
make("C19-type-length", "C19", [(SC, "const size_t type_len = 1 + strlen(type);", "const size_t type_len = strlen(type);")],
     "a coordinate system name that fills its allocation (24 characters)", "the name is not terminated", '''
L.sdp_sky_coord_type.restype = ctypes.c_char_p
bad = []
for n in list(range(0, 200)) * 3:
    t = b"x" * n
    L.sdp_sky_coord_create.argtypes = [ctypes.c_char_p, f64, f64, f64]
    h = vp(L.sdp_sky_coord_create(t, 1.0, 2.0, 3.0))
    if L.sdp_sky_coord_type(h) != t:
        bad.append(n)
check(not bad, "the name is kept (lengths that fail: %s)" % bad[:5])
''')
make("C20-offset-data", "C20", [(ST, "(data_idx ? data_idx[i] : i) * num_out + i_out\n", "(data_idx ? data_idx[i] : i) * num_out + i_out +\n                    (num_in > 1 ? idx_offset_out % num_out : 0)\n", 0)],
     "an element response array together with a non-zero offset into the points", "elements use the response of another direction", '''
r = np.random.RandomState(9)
n, m = 3, 4
w = r.randn(n) + 1j * r.randn(n); x, y, z = r.randn(3, n); l, o, k = r.randn(3, m + 2)
e = r.randn(n + 1, m) + 1j * r.randn(n + 1, m); out = np.zeros(m, complex)
s, _ = call("sdp_station_beam_aperture_array", 2.0, w, x, y, z, 1, m, l, o, k, None, e, 0, out, 0, 1, 1)
ph = 2.0 * (np.outer(l[1:m + 1], x) + np.outer(o[1:m + 1], y) + np.outer(k[1:m + 1], z))
check(s == 0 and close(out, (np.exp(1j * ph) * w * e[:n].T).sum(1)), "each direction uses its own element response")
''')
make("C24-reduction", "C24", [(GU, "    #pragma omp parallel for reduction(+:sum_sq_diff) collapse(2)\n", "    #pragma omp parallel for collapse(2)\n")],
     "more than one thread", "threads overwrite each other's partial sums", '''
a = np.ones((1500, 1500)); b = np.zeros((1500, 1500))
v = [call("sdp_gridder_rms_diff", a, b, ret=f64)[1] for _ in range(20)]
check(all(abs(x - 1) < 1e-9 for x in v), "rms of a constant difference: %s" % v[:4])
''')
CL = "grid_data/sdp_gridder_clamp_channels.cpp"
FT = "fourier_transforms/sdp_fft.cpp"
GC = "grid_data/sdp_gridder_grid_correct.cpp"
make("C11-upper-edge", "C11", [(CL, "const int64_t maxs = (int64_t) (ceil((max_v - v0) / dv));",
                                "const int64_t maxs = (int64_t) (floor((max_v - v0) / dv)) + 1;")],
     "a channel whose v-coordinate is exactly the upper bound", "the channel is selected for both adjacent ranges", '''
C = 299792458.0
def run(lo, hi):
    uvw = np.array([[0.0, C, 0.0]]); a = np.zeros(1, np.int32); b = np.full(1, 10, np.int32)
    x = np.zeros(1, np.int32); y = np.zeros(1, np.int32)
    s, _ = call("sdp_gridder_clamp_channels_uv", uvw, 0.0, 1.0, a, b, -9.0, 9.0, lo, hi, x, y, i64(-1), i64(-1))
    check(s == 0, "accepted")
    return list(range(x[0], y[0]))
u = run(0.0, 4.0) + run(4.0, 8.0)
check(sorted(u) == list(range(8)), "each channel is selected once: %s" % u)
''')
make("C22-odd-facet", "C22", [(GC, "const int pm = im - num_m / 2 + facet_offset_m;", "const int pm = im - (num_m + 1) / 2 + facet_offset_m;", 1)],
     "a facet with an odd number of columns", "the w-correction is applied one pixel off", '''
r = np.random.RandomState(3)
n, k = 32, 5
f = r.randn(4, k) + 1j * r.randn(4, k); g = f.copy()
s, _ = call("sdp_gridder_grid_correct_w_stack", n, 0.4, 5.0, 0.0, 0.0, g, 3, -2, 2, 1)
l, m = ((np.arange(4) - 2 + 3) * 0.4 / n)[:, None], ((np.arange(k) - k // 2 - 2) * 0.4 / n)[None]
w = np.exp(2j * np.pi * 5.0 * 2 * (np.sqrt(1 - l * l - m * m) - 1))
check(s == 0 and close(g, f * w), "each pixel is corrected at its own direction")
''')
make("C23-norm-shape", "C23", [(FT, "const double factor = 1.0 / (num_x * num_y);", "const double factor = 1.0 / (num_x * num_x);", 0)],
     "an array that is not square", "the wrong scale is applied", '''
d = np.ones((4, 6), complex)
s, _ = call("sdp_fft_norm", d)
check(s == 0 and close(d, np.full((4, 6), 1 / 24.0)), "every element is divided by the number of elements")
''')
