// Text files (SDT): what is written is read back, and only that.
#include "files.h"
#include <softlib/SFile_SDT.h>
static SFile *text(const str &t) { { std::ofstream o("hand.sdt"); o << t; } return SFile::Create("hand.sdt", SFILE_MODE_READ); }
static void body() {
    for (int i = 0; i < N_(400, 6000); i++) { CASE("round trip %d", i); roundtrip(I(0, 3) ? "sdt" : "out", true, false); }
    CASE("files that cannot be opened"); unopenable("sdt");
    for (int i = 0; i < N_(200, 2000); i++) {
        int r = (int)I(1, 4), c = (int)I(1, 4);
        std::vector<double> x; std::ostringstream o; o.precision(17);
        auto blank = [&] { for (int k = (int)I(0, 2); k > 0; k--) o << (I(0, 1) ? "" : (I(0, 1) ? "  " : "\t ")) << "\n"; };
        auto sp = [&] { o << (I(0, 3) ? " " : "  \t"); };
        str nm = I(0, 1) ? "abc" : "grp/@x-1";
        int bad = (int)I(0, 9), bi = (int)I(0, r - 1), bj = (int)I(0, c - 1);
        blank(); if (I(0, 3) == 0) sp();
        o << (bad == 1 ? (I(0, 1) ? "matrix" : "@matrx") : "@matrix");
        if (bad != 2) { sp(); o << nm; sp(); o << (bad == 7 ? 0 : r); }
        if (bad != 2 && bad != 3) { sp(); o << c; }
        o << "\n";
        if (bad != 7) for (int a = 0; a < r; a++) {
            if (bad == 4 && a == bi) { o << "\n"; }
            for (int b = 0; b < c; b++) {
                double v = I(0, 1) ? U(-9, 9) : I(-5, 5); x.push_back(v);
                if (bad == 5 && a == bi && b == bj) break;
                if (bad == 6 && a == bi && b == bj) o << "x"; else o << v;
                sp();
            }
            o << "\n";
        }
        blank();
        o << "@string s 2\n72 105 \n"; blank();
        CASE("text %d: %s", i, o.str().c_str());
        bool ill = bad >= 1 && bad <= 7;
        if (ill) { CHECK(throws([&] { text(o.str()); }), "ill-formed file must be refused"); continue; }
        SFile *f = text(o.str());
        sfilesize_t d[2]; double **a = f->GetDoubles(nm, d);
        CHECK((int)d[0] == r && (int)d[1] == c, "dimensions");
        for (int k = 0; k < r * c; k++) CHECK(a[k / c][k % c] == x[k], "element %d: %.17g read as %.17g", k, x[k], a[k / c][k % c]);
        CHECK(f->GetString("s") == "Hi", "string");
        CHECK(f->HasVariable("s") && !f->HasVariable("S") && throws([&] { f->GetDoubles("s", d); }) && throws([&] { f->GetString(nm); }), "kinds of variables");
        delete f;
    }
    CASE("the first of two variables of the same name"); {
        SFile *f = text("@matrix a 1 1\n1\n\n@matrix a 1 1\n2\n@string a 1\n65\n");
        CHECK(f->GetScalar("a") == 1 && f->GetString("a") == "A" && f->GetDataType("a") == SFile::SFILE_DATA_DOUBLE, "first definition");
    }
    CASE("empty file"); { SFile *f = text(""); CHECK(!f->HasVariable("a") && !f->HasVariable(""), "nothing there"); }
    CASE("several dimensions"); {
        SFile *f = SFile::Create("m.sdt", SFILE_MODE_WRITE);
        sfilesize_t dm[3] = {1, 1, 1}; double d = 1; int32_t i = 1; int64_t l = 1; uint32_t u = 1; uint64_t ul = 1;
        CHECK(throws([&] { f->WriteMultiArray("m", &d, 3, dm); }) && throws([&] { f->WriteMultiInt32Array("m", &i, 3, dm); }) && throws([&] { f->WriteMultiInt64Array("m", &l, 3, dm); })
            && throws([&] { f->WriteMultiUInt32Array("m", &u, 3, dm); }) && throws([&] { f->WriteMultiUInt64Array("m", &ul, 3, dm); }), "must be refused");
        f->Close();
    }
    CASE("layout of the file"); {
        SFile *f = SFile::Create("l.sdt", SFILE_MODE_WRITE);
        double a[] = {1, 2.5}, b[] = {-3, 4}; const double *p[] = {a, b}; int32_t q[] = {7, 8};
        f->WriteArray("abc", p, 2, 2); f->WriteInt32List("l", q, 2); f->WriteString("s", "Hi"); f->WriteScalar("x", 3); f->WriteAttribute_scalar("abc", "k", 5);
        f->Close(); std::ifstream in("l.sdt"); std::ostringstream o; str w; int nl = 0; std::vector<str> ls; str line; while (std::getline(in, line)) ls.push_back(line);
        auto toks = [&](size_t i) { std::istringstream s(i < ls.size() ? ls[i] : str("?")); str r, t; while (s >> t) r += (r.empty() ? "" : " ") + t; return r; };
        const char *want[] = {"@matrix abc 2 2", "1 2.5", "-3 4", "", "@matrix l 1 2", "7 8", "", "@string s 2", "72 105", "", "@matrix x 1 1", "3", "", "@matrix abc_k 1 1", "5", ""};
        for (auto t : want) { CHECK(toks(nl) == t, "line %d is '%s' instead of '%s'", nl, toks(nl).c_str(), t); nl++; }
        CHECK((int)ls.size() == nl, "number of lines");
    }

}
MAIN(body)
