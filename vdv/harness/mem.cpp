// Random sequences of array descriptor operations on the real code, against an independent model.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include "ska-sdp-func/utility/sdp_mem.h"

static uint64_t rs;
static uint32_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t) (rs >> 16); }
static int64_t in(int64_t lo, int64_t hi) { return lo + rnd() % (hi - lo + 1); }
static void fail(const char* what) { printf("FAIL %s\n", what); exit(1); }
#define CHECK(c, what) do { if (!(c)) fail(what); } while (0)

typedef std::vector<int64_t> Vec;
static const int TYPES[] = {1, 2, 4, 8, 36, 40};
static int64_t tsize(int t) { return t == 1 ? 1 : t == 2 || t == 4 ? 4 : t == 8 || t == 36 ? 8 : 16; }
static int64_t prod(const Vec& v, size_t from = 0) { int64_t p = 1; for (size_t i = from; i < v.size(); ++i) p *= v[i]; return p; }
static Vec standard(const Vec& s, int64_t es) { Vec r; for (size_t i = 0; i < s.size(); ++i) r.push_back(prod(s, i + 1) * es); return r; }

static void describe(const sdp_Mem* m, const void* data, int t, int loc, const Vec& sh, const Vec& st, int ro)
{
    CHECK(sdp_mem_data_const(m) == data, "data pointer");
    CHECK(sdp_mem_data((sdp_Mem*) m) == data, "data pointer");
    CHECK((int) sdp_mem_type(m) == t, "type");
    CHECK((int) sdp_mem_location(m) == loc, "location");
    CHECK(sdp_mem_num_dims(m) == (int) sh.size(), "number of dimensions");
    CHECK(sdp_mem_num_elements(m) == prod(sh), "number of elements");
    CHECK(!data || (sdp_mem_is_c_contiguous(m) != 0) == (st == standard(sh, tsize(t))), "contiguity");
    CHECK(!data || (sdp_mem_is_read_only(m) != 0) == (ro != 0), "read-only");
    CHECK(!data || (sdp_mem_is_complex(m) != 0) == (t == 36 || t == 40), "is complex");
    CHECK(!data || (sdp_mem_is_double(m) != 0) == (t == 8 || t == 40), "is double");
    CHECK(!data || (sdp_mem_is_floating_point(m) != 0) == (t == 4 || t == 8), "is floating point");
    for (int d = -1; d < (int) sh.size() + 2; ++d)
    {
        const bool inside = d >= 0 && d < (int) sh.size();
        CHECK(sdp_mem_shape_dim(m, d) == (inside ? sh[d] : 0), "extent of a dimension");
        CHECK(sdp_mem_stride_bytes_dim(m, d) == (inside ? st[d] : 0), "stride of a dimension in bytes");
        CHECK(sdp_mem_stride_elements_dim(m, d) == (inside ? st[d] / tsize(t) : 0), "stride of a dimension in elements");
    }
}

static void checks(const sdp_Mem* m, int t, int loc, const Vec& sh, bool contig)
{
    const int nd = (int) sh.size();
    sdp_Error e;
#define AGREES(call, ok, what) do { e = SDP_SUCCESS; call; CHECK((e == SDP_SUCCESS) == (ok), what); \
        e = SDP_ERR_RUNTIME; call; CHECK(e == SDP_ERR_RUNTIME, what " overwrites a pending error"); } while (0)
    AGREES(sdp_mem_check_writeable(m, &e), true, "check of writeable");
    AGREES(sdp_mem_check_c_contiguity(m, &e), contig, "check of contiguity");
    for (int l = 0; l < 3; ++l) AGREES(sdp_mem_check_location(m, (sdp_MemLocation) l, &e), l == loc, "check of location");
    for (int n = 0; n < 5; ++n) AGREES(sdp_mem_check_num_dims(m, n, &e), n == nd, "check of number of dimensions");
    for (int k = 0; k < 6; ++k) AGREES(sdp_mem_check_type(m, (sdp_MemType) TYPES[k], &e), TYPES[k] == t, "check of type");
    for (int d = 0; d < nd; ++d) for (int x = 0; x < 5; ++x)
    {
        AGREES(sdp_mem_check_shape_dim(m, d, x, &e), sh[d] == x, "check of an extent");
        AGREES(sdp_mem_check_dim_size(m, d, x, &e), sh[d] == x, "check of an extent");
    }
    Vec o(sh);
    AGREES(sdp_mem_check_shape(m, nd, o.data(), &e), true, "check of a shape");
    for (int d = 0; d < nd; ++d)
    {
        o = sh; o[d] += in(1, 2);
        AGREES(sdp_mem_check_shape(m, nd, o.data(), &e), false, "check of a shape");
    }
    o = sh; o.push_back(0);
    AGREES(sdp_mem_check_shape(m, nd + 1, o.data(), &e), false, "check of a shape");
}

static double get(const void* p, int t, int c)
{
    switch (t) { case 1: return *(const char*) p; case 2: return *(const int*) p; case 4: case 36: return ((const float*) p)[c];
                 default: return ((const double*) p)[c]; }
}
static void put(void* p, int t, int c, double v)
{
    switch (t) { case 1: *(char*) p = (char) v; break; case 2: *(int*) p = (int) v; break;
                 case 4: case 36: ((float*) p)[c] = (float) v; break; default: ((double*) p)[c] = v; }
}
static int ncomp(int t) { return t >= 36 ? 2 : 1; }

struct Arr
{
    std::vector<char> buf; Vec sh, st; int t, loc; int64_t base;
    const char* at(int64_t k) const { int64_t o = base; for (int i = (int) sh.size() - 1; i >= 0; --i) { o += (k % sh[i]) * st[i]; k /= sh[i]; } return buf.data() + o; }
};

static Arr make(bool cpu, bool pad, bool small_values = true, bool empty = true)
{
    Arr a;
    a.t = TYPES[in(0, 5)]; a.loc = cpu ? 0 : (int) in(0, 2); a.base = 0;
    const int nd = (int) in(0, 4);
    for (int i = 0; i < nd; ++i) a.sh.push_back(empty && in(0, 9) == 0 ? 0 : in(1, 4));
    const int64_t es = tsize(a.t);
    Vec alloc(a.sh);
    if (pad) for (int i = 0; i < nd; ++i) if (in(0, 2) == 0) alloc[i] += in(1, 2);
    a.st = standard(alloc, es);
    a.buf.resize((size_t) (prod(alloc) * es + 1));
    for (int64_t k = 0; k < prod(alloc); ++k) for (int c = 0; c < ncomp(a.t); ++c) put(a.buf.data() + k * es, a.t, c, (double) in(-100, 100));
    (void) small_values;
    return a;
}
static sdp_Mem* wrap(Arr& a, bool implicit, sdp_Error* e)
{
    return sdp_mem_create_wrapper(a.buf.data(), (sdp_MemType) a.t, (sdp_MemLocation) a.loc, (int) a.sh.size(), a.sh.data(),
                                  implicit ? 0 : a.st.data(), e);
}
static bool contig(const Arr& a) { return a.st == standard(a.sh, tsize(a.t)); }

int main(int argc, char** argv)
{
    rs = 88172645463325252ull + 7919ull * (uint64_t) (argc > 1 ? atoll(argv[1]) : 1);
    for (int i = 0; i < 20; ++i) rnd();
    sdp_Error e = SDP_SUCCESS;
    for (int round = 0; round < 60; ++round)
    {
        e = SDP_SUCCESS;
        {   // wrapper, alias, slice
            Arr a = make(false, true);
            if (in(0, 5) == 0) for (size_t i = 0; i < a.st.size(); ++i) a.st[i] = in(-3, 9) * tsize(a.t);
            const bool implicit = contig(a) && in(0, 1);
            sdp_Mem* m = wrap(a, implicit, &e);
            CHECK(e == SDP_SUCCESS, "wrapping reports an error");
            describe(m, a.buf.data(), a.t, a.loc, a.sh, a.st, 0);
            checks(m, a.t, a.loc, a.sh, contig(a));
            sdp_mem_set_read_only(m, 1);
            describe(m, a.buf.data(), a.t, a.loc, a.sh, a.st, 1);
            sdp_Mem* al = sdp_mem_create_alias(m);
            describe(al, a.buf.data(), a.t, a.loc, a.sh, a.st, 0);
            const int n = (int) a.sh.size();
            Vec off, ext;
            bool ok = true;
            const int ns = n ? (int) in(1, n + (in(0, 5) == 0)) : 1;
            int64_t where = 0;
            for (int i = 0; i < n; ++i) { off.push_back(in(0, 7) ? (a.sh[i] ? in(0, a.sh[i] - 1) : 0) : in(-1, 5)); where += off[i] * a.st[i];
                                          if (off[i] < 0 || off[i] >= a.sh[i]) ok = false; }
            for (int i = 0; i < ns; ++i)
            {
                const int s = n - ns + i;
                const int64_t room = s >= 0 ? a.sh[s] - off[s] : 0;
                ext.push_back(in(0, 7) && room >= 0 ? in(0, room) : in(0, 6));
                if (ext[i] > room) ok = false;
            }
            if (ns > n) ok = false;
            e = SDP_SUCCESS;
            off.resize(8); 
            sdp_Mem* v = sdp_mem_create_wrapper_for_slice(m, off.data(), ns, ext.data(), &e);
            CHECK((e == SDP_SUCCESS) == ok, ok ? "a slice inside its parent is refused" : "a slice outside its parent is accepted");
            CHECK((v != 0) == ok, "a refused slice is returned");
            if (ok) describe(v, a.buf.data() + where, a.t, a.loc, ext, Vec(a.st.end() - ns, a.st.end()), 0);
            sdp_mem_free(v);
            describe(m, a.buf.data(), a.t, a.loc, a.sh, a.st, 1);
            sdp_mem_free(m);
            describe(al, a.buf.data(), a.t, a.loc, a.sh, a.st, 0);
            sdp_mem_free(al);
        }
        e = SDP_SUCCESS;
        {   // matching shapes, types and locations
            Arr a = make(false, true), b = make(false, true);
            if (in(0, 2)) { b.sh = a.sh; b.st = a.st; if (in(0, 1)) b.t = a.t; if (in(0, 1)) b.loc = a.loc;
                            if (in(0, 2) == 0 && b.sh.size()) b.sh[in(0, (int64_t) b.sh.size() - 1)] += 1;
                            b.st = standard(b.sh, tsize(b.t)); }
            sdp_Mem* x = wrap(a, false, &e); sdp_Mem* y = wrap(b, false, &e);
            for (int c = 0; c < 2; ++c)
                CHECK((sdp_mem_is_matching(x, y, c) != 0) == (a.t == b.t && a.sh == b.sh && a.st == b.st && (!c || a.loc == b.loc)), "matching arrays");
            for (int i = 0; i < (int) a.sh.size(); ++i) for (int j = 0; j < (int) b.sh.size(); ++j)
            {
                e = SDP_SUCCESS; sdp_mem_check_same_shape(x, i, y, j, &e);
                CHECK((e == SDP_SUCCESS) == (a.sh[i] == b.sh[j]), "check of equal extents");
                e = SDP_ERR_RUNTIME; sdp_mem_check_same_shape(x, i, y, j, &e);
                CHECK(e == SDP_ERR_RUNTIME, "check of equal extents overwrites a pending error");
            }
            e = SDP_SUCCESS;
            sdp_mem_free(x); sdp_mem_free(y);
        }
        {   // creation and references
            Arr a = make(true, false);
            sdp_Mem* m = sdp_mem_create((sdp_MemType) a.t, SDP_MEM_CPU, (int) a.sh.size(), a.sh.data(), &e);
            CHECK(e == SDP_SUCCESS, "creating an array reports an error");
            const int64_t bytes = prod(a.sh) * tsize(a.t);
            char* d = (char*) sdp_mem_data(m);
            CHECK((d != 0) == (bytes > 0), "memory of a created array");
            for (int64_t k = 0; k < bytes; ++k) CHECK(d[k] == 0, "created memory is not cleared");
            memset(d ? d : a.buf.data(), 1, bytes);                   // every byte can be written
            describe(m, d, a.t, 0, a.sh, standard(a.sh, tsize(a.t)), 0);
            int refs = 1;
            for (int q = 0; q < 6; ++q)
            {
                if (in(0, 1)) { CHECK(sdp_mem_ref_inc(m) == m, "reference"); ++refs; }
                else if (refs > 1) { if (in(0, 1)) sdp_mem_ref_dec(m); else sdp_mem_free(m); --refs; }
                for (int64_t k = 0; k < bytes; ++k) CHECK(d[k] == 1, "contents while references are left");
                describe(m, d, a.t, 0, a.sh, standard(a.sh, tsize(a.t)), 0);
            }
            while (refs--) sdp_mem_free(m);
            if (round % 8 == 0)
            {   // any size
                const int64_t n = ((int64_t) 1) << in(0, 22);
                m = sdp_mem_create(SDP_MEM_CHAR, SDP_MEM_CPU, 1, &n, &e);
                char* p = (char*) sdp_mem_data(m);
                for (int64_t k = 0; k < n; ++k) CHECK(p[k] == 0, "created memory is not cleared");
                memset(p, 7, n);
                sdp_mem_free(m);
            }
            m = sdp_mem_create((sdp_MemType) a.t, (sdp_MemLocation) 1, 1, a.sh.size() && prod(a.sh) ? a.sh.data() : &bytes, &e);
            sdp_mem_free(m);
            e = SDP_SUCCESS;
        }
        {   // copies
            Arr a = make(true, true);
            sdp_Mem* m = wrap(a, false, &e);
            sdp_Mem* c = sdp_mem_create_copy(m, SDP_MEM_CPU, &e);
            CHECK(e == SDP_SUCCESS, "copying reports an error");
            char* d = (char*) sdp_mem_data(c);
            describe(c, d, a.t, 0, a.sh, standard(a.sh, tsize(a.t)), 0);
            for (int64_t k = 0; k < prod(a.sh); ++k) CHECK(!memcmp(d + k * tsize(a.t), a.at(k), tsize(a.t)), "element of a copy");
            if (prod(a.sh)) CHECK(d != a.buf.data(), "a copy shares memory");
            sdp_mem_free(m);
            if (contig(a) && prod(a.sh))
            {
                sdp_Mem* w = wrap(a, false, &e);
                const int64_t n = prod(a.sh), x = in(0, n), y = in(0, n), l = in(0, n - (x > y ? x : y));
                std::vector<char> old(a.buf), from(d, d + n * tsize(a.t));
                for (size_t q = 0; q < from.size(); ++q) d[q] = (char) in(-100, 100);
                sdp_mem_copy_contents(w, c, x, y, l, &e);
                CHECK(e == SDP_SUCCESS, "copying contents reports an error");
                for (int64_t k = 0; k < n; ++k)
                    CHECK(!memcmp(a.at(k), k >= x && k < x + l ? d + (k - x + y) * tsize(a.t) : old.data() + k * tsize(a.t), tsize(a.t)),
                          "element of copied contents");
                const int64_t s = in(0, n), z = in(0, n - s);
                old = a.buf;
                sdp_mem_clear_portion(w, s, z, &e);
                CHECK(e == SDP_SUCCESS, "clearing a portion reports an error");
                std::vector<char> zero(16);
                for (int64_t k = 0; k < n; ++k)
                    CHECK(!memcmp(a.at(k), k >= s && k < s + z ? zero.data() : old.data() + k * tsize(a.t), tsize(a.t)),
                          "element of a cleared portion");
                sdp_mem_free(w);
            }
            sdp_mem_free(c);
            sdp_Mem* w = wrap(a, false, &e);
            std::vector<char> old(a.buf);
            sdp_mem_clear_contents(w, &e);
            CHECK(e == SDP_SUCCESS, "clearing reports an error");
            std::vector<char> want(old);
            for (int64_t k = 0; k < prod(a.sh); ++k) memset(want.data() + (a.at(k) - a.buf.data()), 0, tsize(a.t));
            CHECK(want == a.buf, "cleared contents");
            sdp_mem_free(w);
        }
        {   // values
            Arr a = make(true, false, true, false);
            if (a.t > 1 && a.sh.size())
            {
                sdp_Mem* m = wrap(a, true, &e);
                Arr old = a;
                if (a.t > 2)
                {
                    sdp_mem_scale_real(m, -2.5, &e);
                    CHECK(e == SDP_SUCCESS, "scaling reports an error");
                    for (int64_t k = 0; k < prod(a.sh); ++k) for (int c = 0; c < ncomp(a.t); ++c)
                        CHECK(get(a.at(k), a.t, c) == -2.5 * get(old.at(k), a.t, c), "scaled element");
                    const int to = a.t >= 36 ? (in(0, 1) ? 36 : 40) : (in(0, 1) ? 4 : 8);
                    sdp_Mem* v = sdp_mem_convert_precision(m, (sdp_MemType) to, &e);
                    CHECK(e == SDP_SUCCESS, "converting reports an error");
                    char* d = (char*) sdp_mem_data(v);
                    describe(v, d, to, 0, a.sh, standard(a.sh, tsize(to)), 0);
                    for (int64_t k = 0; k < prod(a.sh); ++k) for (int c = 0; c < ncomp(a.t); ++c)
                        CHECK(get(d + k * tsize(to), to, c) == get(a.at(k), a.t, c), "converted element");
                    sdp_mem_free(v);
                }
                if (a.sh.size() <= 3)
                {
                    const int val = (int) in(-9, 9);
                    sdp_mem_set_value(m, val, &e);
                    CHECK(e == SDP_SUCCESS, "setting a value reports an error");
                    for (int64_t k = 0; k < prod(a.sh); ++k) for (int c = 0; c < ncomp(a.t); ++c)
                        CHECK(get(a.at(k), a.t, c) == (c ? 0 : val), "element set to a value");
                }
                sdp_mem_free(m);
            }
        }
    }
    sdp_mem_free(0); sdp_mem_ref_dec(0);
    return 0;
}
