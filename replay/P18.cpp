// HDF5 and MAT files: what is written is read back, and only that.
#include "files.h"
#include <H5Cpp.h>
#include <ctime>
#include <softlib/SFile_HDF5.h>
static str attr(H5::H5Object &o, const char *n) { H5::Attribute a = o.openAttribute(n); str s; a.read(a.getDataType(), s); return s; }
static void body() {
    for (int i = 0; i < N_(150, 3000); i++) { CASE("HDF5 round trip %d", i); roundtrip(I(0, 3) ? "h5" : "hdf5", false, false); }
    for (int i = 0; i < N_(150, 3000); i++) { CASE("MAT round trip %d", i); roundtrip("mat", false, true); }
    CASE("files that cannot be opened"); unopenable("h5"); unopenable("mat");
    for (auto ext : {"h5", "mat"}) {
        CASE("groups, %s", ext);
        str fn = str("g.") + ext; SFile *f = SFile::Create(fn, SFILE_MODE_WRITE); f->CreateStruct("grp"); f->CreateStruct("grp/sub"); f->WriteScalar("grp/x", 2.5); f->WriteString("grp/sub/s", "abc");
        double one = 1; f->WriteList("x", &one, 1); f->Close();
        f = SFile::Create(fn, SFILE_MODE_READ);
        CHECK(f->GetScalar("grp/x") == 2.5 && f->GetScalar("x") == 1 && f->GetString("grp/sub/s") == "abc" && !f->HasVariable("sub/s"), "variables of groups");
        f->Close();
    }
    CASE("layout of HDF5 files"); {
        SFile *f = SFile::Create("l.h5", SFILE_MODE_WRITE); double a[] = {1, 2, 3}, b[] = {4, 5, 6}; const double *p[] = {a, b}; int32_t q[] = {7}; uint64_t u[] = {8, 9};
        f->WriteArray("m", p, 2, 3); f->WriteInt32List("i", q, 1); f->WriteUInt64List("u", u, 2); f->WriteString("s", "hello"); f->Close();
        H5::H5File h("l.h5", H5F_ACC_RDONLY); hsize_t d[3]; double r[6];
        H5::DataSet ds = h.openDataSet("m"); CHECK(ds.getSpace().getSimpleExtentDims(d) == 2 && d[0] == 2 && d[1] == 3 && ds.getDataType() == H5::PredType::IEEE_F64LE, "matrix"); ds.read(r, H5::PredType::NATIVE_DOUBLE);
        for (int i = 0; i < 6; i++) CHECK(r[i] == i + 1, "element %d", i);
        ds = h.openDataSet("i"); CHECK(ds.getSpace().getSimpleExtentDims(d) == 1 && d[0] == 1 && ds.getDataType() == H5::PredType::STD_I32LE, "list");
        ds = h.openDataSet("u"); CHECK(ds.getSpace().getSimpleExtentDims(d) == 1 && d[0] == 2 && ds.getDataType() == H5::PredType::STD_U64LE, "list");
        ds = h.openDataSet("s"); CHECK(ds.getSpace().getSimpleExtentDims(d) == 1 && d[0] == 5 && ds.getDataType() == H5::PredType::C_S1, "string");
    }
    CASE("layout of MAT files"); {
        time_t t0 = time(nullptr);
        SFile *f = SFile::Create("l.mat", SFILE_MODE_WRITE); double a[] = {1, 2}; const double *p[] = {a}; int32_t i3[] = {1, 2}; int64_t i6[] = {1, 2}; uint32_t u3[] = {1, 2}; uint64_t u6[] = {1, 2}; sfilesize_t dm[] = {2, 1, 1};
        const int32_t *pi3[] = {i3}; const int64_t *pi6[] = {i6}; const uint32_t *pu3[] = {u3}; const uint64_t *pu6[] = {u6};
        f->WriteArray("d", p, 1, 2); f->WriteArray("i3", pi3, 1, 2); f->WriteArray("i6", pi6, 1, 2); f->WriteArray("u3", pu3, 1, 2); f->WriteArray("u6", pu6, 1, 2);
        f->WriteMultiArray("md", a, 3, dm); f->WriteMultiInt32Array("mi3", i3, 3, dm); f->WriteMultiInt64Array("mi6", i6, 3, dm); f->WriteMultiUInt32Array("mu3", u3, 3, dm); f->WriteMultiUInt64Array("mu6", u6, 3, dm);
        f->WriteString("s", "hey"); f->CreateStruct("g"); f->WriteAttribute_scalar("d", "k", 5); f->WriteAttribute_string("d", "t", "txt"); f->Close();
        H5::H5File h("l.mat", H5F_ACC_RDONLY);
        const char *c[][2] = {{"d", "double"}, {"i3", "int32"}, {"i6", "int64"}, {"u3", "uint32"}, {"u6", "uint64"}, {"md", "double"}, {"mi3", "int32"}, {"mi6", "int64"}, {"mu3", "uint32"}, {"mu6", "uint64"}, {"s", "char"}};
        for (auto &x : c) { H5::DataSet ds = h.openDataSet(x[0]); CHECK(attr(ds, "MATLAB_class") == x[1], "class of %s", x[0]); }
        H5::DataSet ds = h.openDataSet("s"); int v = 0; ds.openAttribute("MATLAB_int_decode").read(H5::PredType::NATIVE_INT, &v); CHECK(v == 2, "decoding of strings");
        hsize_t d[3]; CHECK(ds.getSpace().getSimpleExtentDims(d) == 2 && d[0] == 3 && d[1] == 1 && ds.getDataType() == H5::PredType::STD_U16LE, "layout of strings");
        H5::Group g = h.openGroup("g"); CHECK(attr(g, "MATLAB_class") == "struct", "class of groups");
        h.close();
        f = SFile::Create("l.mat", SFILE_MODE_READ); CHECK(f->GetScalar("d_k") == 5 && f->GetString("d_t") == "txt" && f->GetAttributeScalar("d", "k") == 5 && f->GetAttributeString("d", "t") == "txt", "attributes are variables"); f->Close();
        std::ifstream in("l.mat", std::ios::binary); char b[512]; in.read(b, 512); b[511] = 0;
        bool ok = false; time_t t1 = time(nullptr);
        for (time_t t = t0; t <= t1; t++) {
            tm l = *localtime(&t); char w[200]; strftime(w, 200, "MATLAB 7.3 MAT-file, Platform: libsoft, Created on: %a %b %d %H:%M:%S %Y HDF5 schema 1.00 .", &l);
            str s = w; s.resize(116, ' '); ok = ok || !memcmp(b, s.data(), 116);
        }
        CHECK(ok, "header: %.116s", b);
        const unsigned char m[12] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 'I', 'M'}; CHECK(!memcmp(b + 116, m, 12), "magic number");
    }
    CASE("string in one row"); {
        { SFile_HDF5 q; q.Open("r.mat", SFILE_MODE_WRITE); q.Close(); }
        H5::H5File h("r.mat", H5F_ACC_TRUNC); unsigned short w[] = {'a', 'b', 'c'}; hsize_t d[] = {1, 3}, e[] = {3};
        H5::DataSet ds = h.createDataSet("s", H5::PredType::STD_U16LE, H5::DataSpace(2, d)); ds.write(w, H5::PredType::STD_U16LE); ds.close();
        ds = h.createDataSet("t", H5::PredType::STD_U16LE, H5::DataSpace(1, e)); ds.write(w, H5::PredType::STD_U16LE); ds.close();
        hsize_t c[] = {1, 1, 3}; ds = h.createDataSet("u", H5::PredType::STD_U16LE, H5::DataSpace(3, c)); ds.close();
        unsigned short W[40]; for (int i = 0; i < 40; i++) W[i] = 'a' + i % 26; hsize_t g[] = {8, 5};
        ds = h.createDataSet("b", H5::PredType::STD_U16LE, H5::DataSpace(2, g)); ds.write(W, H5::PredType::STD_U16LE); ds.close();
        ds = h.createDataSet("n", H5::PredType::STD_I32LE, H5::DataSpace(1, e)); ds.close();
        ds = h.createDataSet("sc", H5::PredType::IEEE_F64LE, H5::DataSpace(H5S_SCALAR)); double x = 4.5; ds.write(&x, H5::PredType::NATIVE_DOUBLE); ds.close();
        ds = h.createDataSet("f", H5::PredType::IEEE_F32LE, H5::DataSpace(1, e)); ds.close();
        h.close();
        SFile *f = SFile::Create("r.mat", SFILE_MODE_READ); CHECK(f->GetString("s") == "abc" && f->GetString("t") == "abc", "string");
        CHECK(throws([&] { f->GetString("n"); }) && throws([&] { f->GetString("sc"); }), "not a string");
        CHECK(throws([&] { f->GetString("u"); }), "string of three dimensions"); str B = f->GetString("b"); CHECK(B.size() == 40 && B[0] == 'a' && B[39] == 'a' + 39 % 26, "matrix of characters");
        CHECK(f->GetScalar("sc") == 4.5, "variable without dimensions"); CHECK(f->GetDataType("f") == SFile::SFILE_DATA_UNDEFINED, "other types"); f->Close();
    }
    CASE("objects never opened"); { SFile_HDF5 a; }
}
MAIN(body)
