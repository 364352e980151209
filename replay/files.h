// Random variables written to a file, and what must be found in it afterwards.
#ifndef VERIF_FILES_H
#define VERIF_FILES_H
#include "h.h"
#include <map>
#include <set>
#include <cfloat>
#include <climits>
#include <fstream>
#include <sstream>
#include <iostream>
#include <softlib/SFile.h>
#include <softlib/SFileException.h>

typedef std::string str;
template<typename F> static bool throws(F f) { try { f(); return false; } catch (SFileException &e) { return true; } }

enum kind { kD, kI32, kI64, kU32, kU64, kS };
struct var {
    kind k; bool list; std::vector<sfilesize_t> dims;
    std::vector<double> d; std::vector<int32_t> i32; std::vector<int64_t> i64; std::vector<uint32_t> u32; std::vector<uint64_t> u64;
    str s;
    std::map<str, double> as; std::map<str, str> at;
    size_t n() const { size_t r = 1; for (auto x : dims) r *= x; return r; }
};
static double rnum() {
    switch (I(0, 9)) {
        case 0: return 0;
        case 1: return (double)I(-1000, 1000);
        case 2: return I(0, 1) ? DBL_MAX : -DBL_MIN;
        case 3: return 1.0 / 3.0;
        case 4: return std::nextafter((double)I(-3, 3), 10);
        case 5: return std::ldexp(U(-1, 1), (int)I(-900, 900));
        case 6: return 0.1 * I(1, 99);
        default: return U(-1e3, 1e3);
    }
}
static str rstr(bool text) {
    str s; int n = (int)(I(0, 5) == 0 ? 0 : I(1, 40));
    for (int i = 0; i < n; i++) { int c = text || I(0, 3) ? (int)I(32, 126) : (int)I(1, 255); s += (char)c; }
    return s;
}
static var rvar(bool exact53, bool multi, bool istext) {
    var v; v.k = (kind)I(0, 5); v.list = I(0, 2) == 0;
    int nd = multi && I(0, 2) == 0 ? (int)I(1, 4) : 2;
    if (v.k == kS) { v.s = rstr(istext); v.dims = {v.s.size()}; return v; }
    if (v.list) v.dims = {(sfilesize_t)I(1, 12)};
    else for (int i = 0; i < nd; i++) v.dims.push_back((sfilesize_t)(I(0, 3) == 0 ? 1 : I(1, 5)));
    size_t n = v.n();
    int64_t L = (int64_t)1 << 53;
    for (size_t i = 0; i < n; i++) switch (v.k) {
        case kD: v.d.push_back(rnum()); break;
        case kI32: v.i32.push_back(I(0, 3) ? (int32_t)I(-99, 99) : (I(0, 1) ? INT32_MIN : INT32_MAX)); break;
        case kI64: v.i64.push_back(I(0, 3) ? I(-99, 99) : (exact53 ? I(-L, L) : (I(0, 1) ? INT64_MIN + I(0, 3) : INT64_MAX - I(0, 3)))); break;
        case kU32: v.u32.push_back(I(0, 3) ? (uint32_t)I(0, 99) : UINT32_MAX - (uint32_t)I(0, 2)); break;
        case kU64: v.u64.push_back(I(0, 3) ? I(0, 99) : (exact53 ? I(0, L) : UINT64_MAX - I(0, 3))); break;
        default: break;
    }
    return v;
}
template<typename T> static const T *const *rows(const std::vector<T> &x, size_t r, size_t c, std::vector<std::vector<T>> &keep, std::vector<const T *> &p) {
    // rows in separate blocks, in no particular order
    keep.assign(r, {}); p.assign(r, nullptr);
    for (size_t i = 0; i < r; i++) { size_t k = r - 1 - i; keep[k].assign(x.begin() + k * c, x.begin() + (k + 1) * c); p[k] = keep[k].data(); }
    return p.data();
}
static void wr(SFile *f, const str &nm, const var &v) {
    size_t nd = v.dims.size();
#define W(M, X, T, WA, WL, WM) case M: { std::vector<std::vector<T>> kp; std::vector<const T *> p; \
        if (v.list) f->WL(nm, v.X.data(), v.dims[0]); \
        else if (nd == 2) { if (I(0, 4) == 0 && M == kD && v.dims[0] == v.dims[1]) f->WriteImage(nm, (const double *const *)rows(v.X, v.dims[0], v.dims[1], kp, p), v.dims[0]); \
            else if (I(0, 1)) f->WriteArray(nm, rows(v.X, v.dims[0], v.dims[1], kp, p), v.dims[0], v.dims[1]); \
            else f->WA(nm, rows(v.X, v.dims[0], v.dims[1], kp, p), v.dims[0], v.dims[1]); } \
        else f->WM(nm, v.X.data(), nd, v.dims.data()); } break;
    switch (v.k) {
        W(kD, d, double, WriteArray, WriteList, WriteMultiArray)
        W(kI32, i32, int32_t, WriteInt32Array, WriteInt32List, WriteMultiInt32Array)
        W(kI64, i64, int64_t, WriteInt64Array, WriteInt64List, WriteMultiInt64Array)
        W(kU32, u32, uint32_t, WriteUInt32Array, WriteUInt32List, WriteMultiUInt32Array)
        W(kU64, u64, uint64_t, WriteUInt64Array, WriteUInt64List, WriteMultiUInt64Array)
        case kS: f->WriteString(nm, v.s); break;
    }
#undef W
    for (auto &a : v.as) f->WriteAttribute_scalar(nm, a.first, a.second);
    for (auto &a : v.at) f->WriteAttribute_string(nm, a.first, a.second);
}
template<typename T, typename G2, typename G1, typename GS> static void rd1(SFile *f, const str &nm, const var &v, const std::vector<T> &x, bool sdt, bool twice, G2 g2, G1 g1, GS gs) {
    size_t nd = v.dims.size();
    if (nd > 2) {
        CHECK(throws([&] { sfilesize_t d[8]; g2(d); }), "more than two dimensions must be refused as matrix");
        CHECK(throws([&] { sfilesize_t d[8]; g1(d); }), "more than two dimensions must be refused as vector");
        return;
    }
    size_t r = nd == 2 ? v.dims[0] : 1, c = v.dims[nd - 1];
    for (int t = 0; t < (twice ? 2 : 1); t++) {
        sfilesize_t d[3] = {77, 77, 77};
        T **a = g2(d);
        CHECK(d[0] == r && d[1] == c && d[2] == 77, "%s is %lux%lu, read as %lux%lu", nm.c_str(), (unsigned long)r, (unsigned long)c, (unsigned long)d[0], (unsigned long)d[1]);
        for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++)
            CHECK(a[i][j] == x[i * c + j] && a[i] == a[0] + i * c, "%s(%lu,%lu): %.17g read as %.17g", nm.c_str(), (unsigned long)i, (unsigned long)j, (double)x[i * c + j], (double)a[i][j]);
        for (size_t i = 0; i < r * c; i++) a[0][i] = 5;   // the copy is the caller's
        delete[] a[0]; delete[] a;
    }
    if (r == 1 || c == 1 || !sdt) {
        sfilesize_t d[2] = {77, 77};
        T *a = g1(d);
        CHECK(d[0] == r * c && d[1] == 77, "length of %s", nm.c_str());
        for (size_t i = 0; i < r * c; i++) CHECK(a[i] == x[i], "%s[%lu]: %.17g read as %.17g", nm.c_str(), (unsigned long)i, (double)x[i], (double)a[i]);
        delete[] a;
    } else CHECK(throws([&] { sfilesize_t d[2]; g1(d); }), "matrix %s must be refused as vector", nm.c_str());
    if (r == 1 && c == 1) CHECK(gs() == x[0], "%s: %.17g read as %.17g", nm.c_str(), (double)x[0], (double)gs());
    else CHECK(throws([&] { gs(); }), "%s is not a single number", nm.c_str());
}
static void rd(SFile *f, const str &nm, const var &v, bool sdt, bool mat) {
    CHECK(f->HasVariable(nm), "variable %s not found", nm.c_str());
    static const SFile::sfile_data_type DT[] = {SFile::SFILE_DATA_DOUBLE, SFile::SFILE_DATA_INT32, SFile::SFILE_DATA_INT64, SFile::SFILE_DATA_UINT32, SFile::SFILE_DATA_UINT64, SFile::SFILE_DATA_STRING};
    for (int h = 0; h < 7; h++) {
        auto hint = (SFile::sfile_data_type)h;
        auto want = !sdt || v.k == kS ? DT[v.k] : (hint == SFile::SFILE_DATA_UNDEFINED || hint == SFile::SFILE_DATA_STRING ? SFile::SFILE_DATA_DOUBLE : hint);
        CHECK(f->GetDataType(nm, hint) == want, "type of %s: %d instead of %d", nm.c_str(), (int)f->GetDataType(nm, hint), (int)want);
    }
#define R(M, X, T, A, B, C) case M: rd1<T>(f, nm, v, v.X, sdt, I(0, 1), [&](sfilesize_t *d) { return f->A(nm, d); }, [&](sfilesize_t *d) { return f->B(nm, d); }, [&] { return f->C(nm); }); break;
    switch (v.k) {
        R(kD, d, double, GetDoubles, GetDoubles1D, GetScalar)
        R(kI32, i32, int32_t, GetInt32_2D, GetInt32_1D, GetInt32)
        R(kI64, i64, int64_t, GetInt64_2D, GetInt64_1D, GetInt64)
        R(kU32, u32, uint32_t, GetUInt32_2D, GetUInt32_1D, GetUInt32)
        R(kU64, u64, uint64_t, GetUInt64_2D, GetUInt64_1D, GetUInt64)
        case kS: CHECK(f->GetString(nm) == v.s, "string %s", nm.c_str()); CHECK(f->GetString(nm) == v.s, "string %s, second time", nm.c_str()); break;
    }
#undef R
    if (sdt && v.k != kS) {
        sfilesize_t d[2]; double **a = f->GetDoubles(nm, d);
        for (size_t i = 0; i < v.n(); i++) {
            double w = v.k == kD ? v.d[i] : v.k == kI32 ? v.i32[i] : v.k == kI64 ? (double)v.i64[i] : v.k == kU32 ? v.u32[i] : (double)v.u64[i];
            CHECK(a[0][i] == w, "%s[%lu] as number: %.17g read as %.17g", nm.c_str(), (unsigned long)i, w, a[0][i]);
        }
        delete[] a[0]; delete[] a;
    }
    if (!sdt && v.k != kS) {
        sfilesize_t nd = 0, dm[8];
        for (int q = 0; q < 8; q++) dm[q] = 77;
        double *a = f->GetMultiArray_linear(nm, v.dims.size(), nd, dm);
        CHECK(a && nd == v.dims.size(), "dimensions of %s", nm.c_str());
        for (size_t i = 0; i < 8; i++) CHECK(dm[i] == (i < nd ? v.dims[i] : 77), "dimension %lu of %s", (unsigned long)i, nm.c_str());
        for (size_t i = 0; i < v.n(); i++) {
            double w = v.k == kD ? v.d[i] : v.k == kI32 ? v.i32[i] : v.k == kI64 ? (double)v.i64[i] : v.k == kU32 ? v.u32[i] : (double)v.u64[i];
            CHECK(v.k == kI64 || v.k == kU64 ? h_near(a[i], w, 1e-15, 0) : a[i] == w, "%s[%lu] of all: %.17g read as %.17g", nm.c_str(), (unsigned long)i, w, a[i]);
        }
        delete[] a;
        sfilesize_t none[1] = {77};
        CHECK(f->GetMultiArray_linear(nm, v.dims.size() - 1, nd, none) == nullptr && nd == v.dims.size() && (v.dims.size() > 1 || none[0] == 77), "array without room for its dimensions");
    }
    for (auto &a : v.as) CHECK(f->GetAttributeScalar(nm, a.first) == a.second, "attribute %s of %s: %.17g read as %.17g", a.first.c_str(), nm.c_str(), a.second, f->GetAttributeScalar(nm, a.first));
    for (auto &a : v.at) CHECK(f->GetAttributeString(nm, a.first) == a.second, "attribute %s of %s", a.first.c_str(), nm.c_str());
    CHECK(throws([&] { f->GetAttributeScalar(nm, "nope"); }), "missing attribute");
    CHECK(throws([&] { f->GetAttributeString(nm, "nope"); }), "missing attribute");
    (void)mat;
}
static void missing(SFile *f, const str &nm, bool sdt) {
    sfilesize_t d[4], n;
    CHECK(!f->HasVariable(nm), "variable %s found", nm.c_str());
    CHECK(f->GetDataType(nm) == SFile::SFILE_DATA_UNDEFINED, "type of missing variable");
    CHECK(throws([&] { f->GetDoubles(nm, d); }), "missing"); CHECK(throws([&] { f->GetDoubles1D(nm, d); }), "missing");
    CHECK(throws([&] { f->GetInt32_2D(nm, d); }), "missing"); CHECK(throws([&] { f->GetUInt64_1D(nm, d); }), "missing");
    CHECK(throws([&] { f->GetString(nm); }), "missing"); CHECK(throws([&] { f->GetScalar(nm); }), "missing");
    CHECK(throws([&] { f->GetMultiArray_linear(nm, 4, n, d); }), "missing");
    CHECK(throws([&] { f->GetAttributeScalar(nm, "a"); }), "missing"); CHECK(throws([&] { f->GetAttributeString(nm, "a"); }), "missing");
    (void)sdt;
}
static void roundtrip(const str &ext, bool sdt, bool mat) {
    str fn = "data." + ext;
    std::map<str, var> vars;
    auto fresh = [&](SFile *f) {
        int nv = (int)I(1, 6);
        for (int i = 0; i < nv; i++) {
            str nm = "v" + std::to_string(vars.size()) + (I(0, 2) ? "" : "_x");
            var v = rvar(sdt, !sdt, false);
            if (sdt || mat || I(0, 1)) { if (I(0, 2) == 0) v.as["att"] = rnum(); if (I(0, 2) == 0) v.at["text"] = rstr(mat); }
            wr(f, nm, v);
            vars[nm] = v;
        }
    };
    remove(fn.c_str());
    SFile *f = SFile::Create(fn, SFILE_MODE_WRITE);
    CHECK(f->filetype == SFile::TypeOfFile(fn) && f->filename == fn && f->mode == SFILE_MODE_WRITE, "file object");
    fresh(f);
    f->Close(); delete f;
    if (I(0, 2) == 0) {          // add more
        f = SFile::Create(fn, SFILE_MODE_UPDATE);
        for (auto &p : vars) rd(f, p.first, p.second, sdt, mat);
        fresh(f);
        f->Close(); delete f;
    } else if (I(0, 4) == 0) {   // start anew
        vars.clear();
        f = SFile::Create(fn, SFILE_MODE_WRITE);
        var v = rvar(sdt, !sdt, false); wr(f, "other", v); vars["other"] = v;
        f->Close(); delete f;
    }
    f = SFile::Create(fn, SFILE_MODE_READ);
    for (auto &p : vars) rd(f, p.first, p.second, sdt, mat);
    if (!vars.count("other")) missing(f, "other", sdt); else missing(f, "v0", sdt);
    missing(f, "data", sdt);
    if (!sdt) { f->Close(); }
    delete f;
    remove(fn.c_str());
}
static void unopenable(const str &ext) {
    str fn = "no/such/dir/x." + ext;
    CHECK(throws([&] { SFile::Create(fn, SFILE_MODE_READ); }), "reading a file that is not there");
    CHECK(throws([&] { SFile::Create(fn, SFILE_MODE_WRITE); }), "writing a file that cannot be made");
    CHECK(throws([&] { SFile::Create(fn, SFILE_MODE_UPDATE); }), "updating a file that is not there");
    CHECK(throws([&] { SFile::Create("absent." + ext, SFILE_MODE_READ); }), "reading a file that is not there");
}
#endif
