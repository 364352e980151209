// The part of the file interface shared by all formats, over a file held in memory.
#include "files.h"
struct Mem : SFile {
    size_t r = 1, c = 1; sfile_data_type t = SFILE_DATA_DOUBLE; std::vector<double> d; std::vector<int64_t> l; str nm;
    std::vector<sfilesize_t> dm; str log;
    template<typename T> T **two(const str &n, sfilesize_t *D) {
        if (n != nm) throw SFileException("missing");
        D[0] = r; D[1] = c; T **a = new T*[r]; a[0] = new T[r * c];
        for (size_t i = 0; i < r; i++) { a[i] = a[0] + i * c; for (size_t j = 0; j < c; j++) a[i][j] = t == SFILE_DATA_DOUBLE ? (T)d[i * c + j] : (T)l[i * c + j]; }
        return a;
    }
    template<typename T> T *one(const str &n, sfilesize_t *D) {
        if (n != nm) throw SFileException("missing");
        *D = r * c; T *a = new T[r * c]; for (size_t i = 0; i < r * c; i++) a[i] = t == SFILE_DATA_DOUBLE ? (T)d[i] : (T)l[i];
        return a;
    }
    bool HasVariable(const str &n) override { return n == nm; }
    void Close() override {} void CreateStruct(const str &) override {}
    double GetAttributeScalar(const str &, const str &) override { return 0; } str GetAttributeString(const str &, const str &) override { return ""; }
    sfile_data_type GetDataType(const str &, sfile_data_type) override { return t; }
    double *GetMultiArray_linear(const str &, const sfilesize_t nn, sfilesize_t &n, sfilesize_t *D) override {
        n = dm.size(); if (n > nn) return nullptr;
        size_t tot = 1; for (size_t i = 0; i < n; i++) { D[i] = dm[i]; tot *= dm[i]; }
        double *a = new double[tot]; for (size_t i = 0; i < tot; i++) a[i] = (double)i; return a;
    }
    str GetString(const str &) override { return ""; } void Open(const str &, sfile_mode) override {}
    void WriteAttribute_scalar(const str &, const str &, const double) override {} void WriteAttribute_string(const str &, const str &, const str &) override {}
    void WriteImage(const str &, const double *const *, sfilesize_t) override {} void WriteMultiArray(const str &, const double *, const sfilesize_t, const sfilesize_t *) override {}
    void WriteString(const str &, const str &) override {}
#define M1(N, T) void WriteMulti##N##Array(const str &, const T *, const sfilesize_t, const sfilesize_t *) override {} \
    T **Get##N##_2D(const str &n, sfilesize_t *D) override { return two<T>(n, D); } T *Get##N##_1D(const str &n, sfilesize_t *D) override { return one<T>(n, D); } \
    void Write##N##Array(const str &n, const T *const *a, sfilesize_t x, sfilesize_t y) override { log += h_fmt(#N "A %s %lu %lu %lld;", n.c_str(), (long)x, (long)y, (long long)a[0][0]); } \
    void Write##N##List(const str &n, const T *a, sfilesize_t x) override { log += h_fmt(#N "L %s %lu %lld;", n.c_str(), (long)x, (long long)a[0]); }
    M1(Int32, int32_t) M1(Int64, int64_t) M1(UInt32, uint32_t) M1(UInt64, uint64_t)
    double **GetDoubles(const str &n, sfilesize_t *D) override { return two<double>(n, D); } double *GetDoubles1D(const str &n, sfilesize_t *D) override { return one<double>(n, D); }
    using SFile::WriteArray; using SFile::WriteList;
    void WriteArray(const str &n, const double *const *a, sfilesize_t x, sfilesize_t y) override { log += h_fmt("A %s %lu %lu %g;", n.c_str(), (long)x, (long)y, a[0][0]); }
    void WriteList(const str &n, const double *a, sfilesize_t x) override { log += h_fmt("L %s %lu %g;", n.c_str(), (long)x, a[0]); }
};
static void body() {
    for (int it = 0; it < N_(3000, 40000); it++) {
        Mem m; m.nm = "v" + std::to_string(I(0, 3)); m.filename = "mem";
        m.r = I(0, 2) ? I(1, 4) : 1; m.c = I(0, 2) ? I(1, 5) : 1; m.t = (SFile::sfile_data_type)I(0, 6);
        bool num = m.t != SFile::SFILE_DATA_UNDEFINED && m.t != SFile::SFILE_DATA_STRING;
        for (size_t i = 0; i < m.r * m.c; i++) {
            m.d.push_back(I(0, 1) ? U(-1e6, 1e6) : (double)I(-9, 9));
            int64_t x = I(-1000, 1000);
            if (I(0, 2) == 0) x = m.t == SFile::SFILE_DATA_INT32 ? (I(0, 1) ? INT32_MIN : INT32_MAX) : I(0, 1) ? INT64_MIN : INT64_MAX;
            if (m.t == SFile::SFILE_DATA_UINT32) x = (int64_t)(uint32_t)x;
            if (m.t == SFile::SFILE_DATA_INT32) x = (int64_t)(int32_t)x;
            m.l.push_back(x);
        }
        CASE("case %d: %lux%lu variable of type %d", it, (long)m.r, (long)m.c, (int)m.t);
        auto want = [&](size_t i) { return m.t == SFile::SFILE_DATA_DOUBLE ? (int64_t)m.d[i] : m.l[i]; };
        size_t n = m.r * m.c;
        bool vec = m.r == 1 || m.c == 1;
        if (m.t == SFile::SFILE_DATA_DOUBLE) {
            sfilesize_t L[2] = {77, 77};
            if (vec) { double *p = m.GetList(m.nm, L); CHECK(L[0] == n && L[1] == 77, "length"); for (size_t i = 0; i < n; i++) CHECK(p[i] == m.d[i], "element %lu", (long)i); delete[] p; }
            else CHECK(throws([&] { m.GetList(m.nm, L); }), "a matrix is not a list");
            if (n == 1) CHECK(m.GetScalar(m.nm) == m.d[0], "number"); else CHECK(throws([&] { m.GetScalar(m.nm); }), "not a single number");
            CHECK(throws([&] { m.GetList("nope", L); }) && throws([&] { m.GetScalar("nope"); }), "missing");
        }
        sfilesize_t D[3] = {77, 77, 77};
        if (num) {
            int64_t **a = m.GetIntArray(m.nm, D);
            CHECK(D[0] == m.r && D[1] == m.c && D[2] == 77, "dimensions");
            for (size_t i = 0; i < m.r; i++) for (size_t j = 0; j < m.c; j++)
                CHECK(a[i][j] == want(i * m.c + j) && a[i] == a[0] + i * m.c, "element %lu %lu: %ld instead of %ld", (long)i, (long)j, (long)a[i][j], (long)want(i * m.c + j));
            delete[] a[0]; delete[] a;
            if (vec || m.t != SFile::SFILE_DATA_DOUBLE) {
                sfilesize_t L[2] = {77, 77}; int64_t *p = m.GetIntList(m.nm, L);
                CHECK(L[0] == n && L[1] == 77, "length"); for (size_t i = 0; i < n; i++) CHECK(p[i] == want(i), "element %lu", (long)i); delete[] p;
            } else CHECK(throws([&] { m.GetIntList(m.nm, D); }), "a matrix is not a list");
            if (n == 1) CHECK(m.GetInt(m.nm) == want(0), "number %ld instead of %ld", (long)m.GetInt(m.nm), (long)want(0)); else CHECK(throws([&] { m.GetInt(m.nm); }), "not a single number");
        } else CHECK(throws([&] { m.GetIntArray(m.nm, D); }) && throws([&] { m.GetIntList(m.nm, D); }) && throws([&] { m.GetInt(m.nm); }), "not numeric");
#define S1(N, T) if (m.t == SFile::SFILE_DATA_##T) { if (n == 1) CHECK(m.Get##N(m.nm) == (decltype(m.Get##N(m.nm)))m.l[0], "number"); else CHECK(throws([&] { m.Get##N(m.nm); }), "not a single number"); }
        S1(Int32, INT32) S1(Int64, INT64) S1(UInt32, UINT32) S1(UInt64, UINT64)
        // several dimensions
        int nd = (int)I(1, 4); m.dm.clear(); for (int i = 0; i < nd; i++) m.dm.push_back(I(1, 5));
        sfilesize_t q = 0, dd[6] = {77, 77, 77, 77, 77, 77};
        CASE("case %d: array of dimensions %d %d %d %d", it, (int)m.dm[0], nd > 1 ? (int)m.dm[1] : 0, nd > 2 ? (int)m.dm[2] : 0, nd > 3 ? (int)m.dm[3] : 0);
        CHECK(m.GetMultiArray("x", nd - 1, q, dd) == nullptr && (int)q == nd, "no room");
        void *p = m.GetMultiArray("x", nd + (int)I(0, 2), q, dd);
        CHECK(p && (int)q == nd, "dimensions");
        for (int i = 0; i < 6; i++) CHECK(dd[i] == (i < nd ? m.dm[i] : 77), "dimension %d", i);
        double x = 0;
        auto at = [&](int a, int b, int c, int d) { return nd == 1 ? ((double *)p)[a] : nd == 2 ? ((double **)p)[a][b] : nd == 3 ? ((double ***)p)[a][b][c] : ((double ****)p)[a][b][c][d]; };
        for (int a = 0; a < (int)m.dm[0]; a++) for (int b = 0; b < (nd > 1 ? (int)m.dm[1] : 1); b++) for (int c = 0; c < (nd > 2 ? (int)m.dm[2] : 1); c++) for (int d = 0; d < (nd > 3 ? (int)m.dm[3] : 1); d++)
            CHECK(at(a, b, c, d) == x++, "element %d %d %d %d", a, b, c, d);
    }
    CASE("writing"); {
        Mem m; SFile *s = &m; double x[] = {1.5}; int32_t a[] = {2}; int64_t b[] = {3}; uint32_t c[] = {4}; uint64_t d[] = {5};
        const int32_t *pa[] = {a}; const int64_t *pb[] = {b}; const uint32_t *pc[] = {c}; const uint64_t *pd[] = {d}; const double *px[] = {x};
        s->WriteScalar("w", 2.25); CHECK(m.log == "L w 1 2.25;", "%s", m.log.c_str());
        m.log = ""; s->WriteList("w", a, 1); s->WriteList("w", b, 1); s->WriteList("w", c, 1); s->WriteList("w", d, 1); s->WriteList("w", x, 1);
        CHECK(m.log == "Int32L w 1 2;Int64L w 1 3;UInt32L w 1 4;UInt64L w 1 5;L w 1 1.5;", "%s", m.log.c_str());
        m.log = ""; s->WriteArray("w", pa, 1, 7); s->WriteArray("w", pb, 1, 6); s->WriteArray("w", pc, 1, 5); s->WriteArray("w", pd, 1, 4); s->WriteArray("w", px, 1, 3);
        CHECK(m.log == "Int32A w 1 7 2;Int64A w 1 6 3;UInt32A w 1 5 4;UInt64A w 1 4 5;A w 1 3 1.5;", "%s", m.log.c_str());
    }
    const char *ext[] = {"h5", "hdf5", "mat", "sdt", "out", "H5", "", "txt", "sd", "sdtx"};
    sfile_type ty[] = {SFILE_TYPE_HDF5, SFILE_TYPE_HDF5, SFILE_TYPE_MATLAB, SFILE_TYPE_SDT, SFILE_TYPE_SDT, SFILE_TYPE_UNKNOWN, SFILE_TYPE_UNKNOWN, SFILE_TYPE_UNKNOWN, SFILE_TYPE_UNKNOWN, SFILE_TYPE_UNKNOWN};
    for (int i = 0; i < 10; i++) {
        CASE("type %s", ext[i]);
        CHECK(SFile::GetFileType(ext[i]) == ty[i], "type by name");
        for (auto st : {"a", "a.b", "a.sdt", "d.mat/f", "", ".", "..h5"}) CHECK(SFile::TypeOfFile(str(st) + "." + ext[i]) == ty[i], "type of %s.%s", st, ext[i]);
        CHECK(SFile::TypeOfFile(ext[i]) == SFILE_TYPE_UNKNOWN, "type of name without dot");
        if (ty[i] == SFILE_TYPE_UNKNOWN) CHECK(throws([&] { SFile::Create(str("a.") + ext[i], SFILE_MODE_WRITE); }), "unknown type");
        else {
            SFile *f = SFile::Create(str("a.") + ext[i], SFILE_MODE_WRITE); f->WriteScalar("x", 4); f->Close();
            CHECK(f->filetype == ty[i] && f->filename == str("a.") + ext[i], "file object");
            f = SFile::Create(str("a.") + ext[i], SFILE_MODE_READ, ty[i]); CHECK(f->GetScalar("x") == 4 && f->GetInt("x") == 4 && f->filetype == ty[i], "read back");
            std::ifstream in(str("a.") + ext[i], std::ios::binary); char h[8] = {0}; in.read(h, 7);
            CHECK(ty[i] == SFILE_TYPE_SDT ? !strncmp(h, "@matrix", 7) : ty[i] == SFILE_TYPE_MATLAB ? !strncmp(h, "MATLAB ", 7) : !strncmp(h + 1, "HDF", 3), "format of the file");
        }
    }
}
MAIN(body)
