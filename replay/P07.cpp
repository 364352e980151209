#include "h.h"
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
#include <softlib/SFile.h>
#include <softlib/SFileException.h>
#include <softlib/SOFTLibException.h>
#include <gsl/gsl_errno.h>
typedef std::vector<double> V;
struct G { V R, Z, F[4], rs, zs, rw, zw; bool psi; double ax, az; };
static G gen() {
    G g; int nr = I(4, 9), nz = I(4, 9);
    double r = I(0, 3) ? U(0.3, 2) : U(0, 0.2), z = U(-2, 0);
    for (int i = 0; i < nr; i++) { g.R.push_back(r); r += U(0.05, 0.5); }
    for (int i = 0; i < nz; i++) { g.Z.push_back(z); z += U(0.05, 0.5); }
    g.psi = I(0, 2);
    for (auto &f : g.F) { int m = I(0, 3); for (int j = 0; j < nz; j++) for (int i = 0; i < nr; i++)
        f.push_back(m == 0 ? U(-3, 3) : m == 1 ? 2 + 0.3 * g.R[i] - 0.2 * g.Z[j] : m == 2 ? std::sin(2 * g.R[i]) + std::cos(g.Z[j]) * 2 : 5 / (0.3 + g.R[i])); }
    int w = I(1, 3);
    if (w & 1) { int n = I(3, 7); for (int i = 0; i < n; i++) { double t = 2 * M_PI * (i + U(0, 0.5)) / n; g.rw.push_back(2 + std::cos(t)); g.zw.push_back(std::sin(t)); } }
    if (w & 2) { int n = I(3, 7); for (int i = 0; i < n; i++) { double t = 2 * M_PI * (i + U(0, 0.5)) / n; g.rs.push_back(2 + 0.7 * std::cos(t)); g.zs.push_back(0.7 * std::sin(t)); } }
    g.ax = 2 + U(-0.1, 0.1); g.az = U(-0.05, 0.05);
    return g;
}
static double *cp(const V &v) { if (v.empty()) return nullptr; double *p = new double[v.size()]; std::copy(v.begin(), v.end(), p); return p; }
static MagneticFieldNumeric2D *mk(const G &g) {
    return new MagneticFieldNumeric2D("a name", "some text", cp(g.R), cp(g.Z), g.R.size(), g.Z.size(), cp(g.F[0]), cp(g.F[1]), cp(g.F[2]), g.psi ? cp(g.F[3]) : nullptr,
        g.ax, g.az, cp(g.rs), cp(g.zs), g.rs.size(), cp(g.rw), cp(g.zw), g.rw.size());
}
struct Ref {
    gsl_spline2d *s[4];
    Ref(const G &g) { for (int i = 0; i < 4; i++) { s[i] = gsl_spline2d_alloc(gsl_interp2d_bicubic, g.R.size(), g.Z.size()); gsl_spline2d_init(s[i], g.R.data(), g.Z.data(), g.F[i].data(), g.R.size(), g.Z.size()); } }
    ~Ref() { for (auto p : s) gsl_spline2d_free(p); }
    double v(int i, int d, double r, double z) { return (d == 0 ? gsl_spline2d_eval : d == 1 ? gsl_spline2d_eval_deriv_x : gsl_spline2d_eval_deriv_y)(s[i], r, z, nullptr, nullptr); }
};
static std::string head;
static void point(const G &g, Ref &ref, MagneticFieldNumeric2D &f, double x, double y, double z) {
    CASE("%s at (%.17g, %.17g, %.17g)", head.c_str(), x, y, z);
    double rho = std::hypot(x, y), r = std::min(std::max(rho, g.R.front()), g.R.back()), zc = std::min(std::max(z, g.Z.front()), g.Z.back());
    double c = x / rho, s = y / rho;
    if (rho == 0) c = 1, s = 0;
    MagneticField2D &mf = f; slibreal_t pt[3] = {x, y, z}; Vector<3> pv(pt);
    double v[4][3]; for (int i = 0; i < 4; i++) for (int d = 0; d < 3; d++) v[i][d] = ref.v(i, d, r, zc);
    double B[3] = {v[0][0] * c - v[1][0] * s, v[0][0] * s + v[1][0] * c, v[2][0]};
    double T = 1e-9;
    double *b = f.Eval(x, y, z); for (int i = 0; i < 3; i++) NEAR(b[i], B[i], T, T);
    b = f.Eval(pt); for (int i = 0; i < 3; i++) NEAR(b[i], B[i], T, T);
    b = mf.Eval(pv); for (int i = 0; i < 3; i++) NEAR(b[i], B[i], T, T);
    if (rho > 0) {
        // dB/dx_j = e_r (dBr) + e_phi (dBphi) + (Br e_phi - Bphi e_r) dphi
        double J[3][3], dr[3] = {c, s, 0}, dp[3] = {-s / r, c / r, 0}, dz[3] = {0, 0, 1}, er[3] = {c, s, 0}, ep[3] = {-s, c, 0};
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
            double d[3]; for (int q = 0; q < 3; q++) d[q] = v[q][1] * dr[j] + v[q][2] * dz[j];
            J[i][j] = er[i] * d[0] + ep[i] * d[1] + (i == 2 ? d[2] : 0) + (v[0][0] * ep[i] - v[1][0] * er[i]) * dp[j];
        }
        double sc = 0; for (auto &q : v) for (double t : q) sc = std::max(sc, std::fabs(t)); sc *= 1 + 1 / r;
        for (int w = 0; w < 3; w++) {
            struct magnetic_field_data &m = w == 0 ? f.EvalDerivatives(x, y, z) : w == 1 ? f.EvalDerivatives(pt) : mf.EvalDerivatives(pv);
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) NEAR(m.J[i][j], J[i][j], T, T * sc);
            for (int i = 0; i < 3; i++) NEAR(m.B[i], B[i], T, T);
            double A = std::sqrt(B[0] * B[0] + B[1] * B[1] + B[2] * B[2]);
            NEAR(m.Babs, A, T, T);
            if (A > 1e-3) for (int j = 0; j < 3; j++) NEAR(m.gradB[j], (B[0] * J[0][j] + B[1] * J[1][j] + B[2] * J[2][j]) / A, 1e-7, 1e-7 * sc);
            NEAR(m.curlB[0], J[2][1] - J[1][2], T, T * sc); NEAR(m.curlB[1], J[0][2] - J[2][0], T, T * sc); NEAR(m.curlB[2], J[1][0] - J[0][1], T, T * sc);
        }
    }
    CHECK(f.HasMagneticFlux() == g.psi);
    if (g.psi) {
        NEAR(f.EvalFlux(x, y, z), v[3][0], T, T); NEAR(mf.EvalFlux(pt), v[3][0], T, T); NEAR(mf.EvalFlux(pv), v[3][0], T, T);
        for (int w = 0; w < 3; w++) {
            struct flux_diff *d = w == 0 ? f.EvalFluxDerivatives(x, y, z) : w == 1 ? mf.EvalFluxDerivatives(pt) : mf.EvalFluxDerivatives(pv);
            NEAR(d->psi, v[3][0], T, T); NEAR(d->dpsi_dR, v[3][1], T, T); NEAR(d->dpsi_dZ, v[3][2], T, T);
        }
    } else {
        bool t = false; try { f.EvalFlux(x, y, z); } catch (SOFTLibException &) { t = true; } CHECK(t, "flux of a field without flux must be refused");
        t = false; try { f.EvalFluxDerivatives(x, y, z); } catch (SOFTLibException &) { t = true; } CHECK(t, "flux of a field without flux must be refused");
    }
}
static void level(const V &r, const V &z, double lev, double &mn, double &mx) {
    mn = INFINITY, mx = -INFINITY; size_t n = r.size();
    for (size_t i = 0; i < n; i++) { size_t j = (i + 1) % n; double a = z[i] - lev, b = z[j] - lev; if (a * b > 0 || a == b) continue; double t = a / (a - b), R = r[i] + t * (r[j] - r[i]); mn = std::min(mn, R); mx = std::max(mx, R); }
}
static void meta(const G &g, MagneticFieldNumeric2D &f) {
    CASE("%s: name, axis, domain, separatrix, radii", head.c_str());
    CHECK(f.GetName() == "a name"); CHECK(f.GetDescription() == "some text");
    CHECK(f.GetMagneticAxisR() == g.ax && f.GetMagneticAxisZ() == g.az);
    const V &r = g.rw.empty() ? g.rs : g.rw, &z = g.rw.empty() ? g.zs : g.zw;
    CHECK(f.GetNDomain() == r.size());
    for (size_t i = 0; i < r.size(); i++) CHECK(f.GetRDomain()[i] == r[i] && f.GetZDomain()[i] == z[i], "domain point %zu", i);
    CHECK(f.GetNSeparatrix() == g.rs.size());
    for (size_t i = 0; i < g.rs.size(); i++) CHECK(f.GetRSeparatrix()[i] == g.rs[i] && f.GetZSeparatrix()[i] == g.zs[i]);
    double mn, mx;
    level(g.rs.empty() ? g.rw : g.rs, g.rs.empty() ? g.zw : g.zs, g.az, mn, mx);
    NEAR(f.FindMaxRadius(), mx, 1e-9, 1e-12); NEAR(f.FindMinRadius(), mn, 1e-9, 1e-12);
}
static void probe(const G &g, Ref &ref, MagneticFieldNumeric2D &f, int n) {
    for (int i = 0; i < n; i++) {
        double r = U(g.R.front(), g.R.back()), z = U(g.Z.front(), g.Z.back()), ph = I(0, 3) ? U(0, 2 * M_PI) : M_PI / 2 * I(0, 3);
        if (I(0, 3) == 0) r = g.R.back() + U(0, 2);
        if (I(0, 5) == 0 && g.R.front() > 0) r = U(0.01, 1) * g.R.front();
        if (I(0, 4) == 0) z = I(0, 1) ? g.Z.back() + U(0, 2) : g.Z.front() - U(0, 2);
        if (I(0, 9) == 0) r = g.R[I(1, g.R.size() - 1)];
        if (I(0, 9) == 0) z = g.Z[I(0, g.Z.size() - 1)];
        double x = r * std::cos(ph), y = r * std::sin(ph);
        if (I(0, 9) == 0) x = r, y = 0;
        if (r > 1e-3) point(g, ref, f, x, y, z);
    }
}
#ifdef FILES
static double *rowm(const V &v, int nz, int nr) { double *p = new double[v.size()]; for (int j = 0; j < nz; j++) for (int i = 0; i < nr; i++) p[i * nz + j] = v[j * nr + i]; return p; }
static void files(const G &g, Ref &ref, MagneticFieldNumeric2D &f, const std::string &dir) {
    static const char *ext[] = {"h5", "mat"};
    std::string fn = dir + "/f." + ext[I(0, 1)], old = head;
    head = old + " saved and loaded";
    CASE("%s", head.c_str());
    f.Save(fn);
    { MagneticFieldNumeric2D l(fn); meta(g, l); probe(g, ref, l, 12); }
    // same data, other layouts accepted by the loader
    unlink(fn.c_str());
    fn = dir + "/g.h5"; int nr = g.R.size(), nz = g.Z.size(); int bad = I(0, 5); bool tr = I(0, 1), cols = I(0, 1); int ver = I(0, 3), vf = I(0, 2), bc = I(0, 9); if (ver < 3 && I(0, 2)) { bad = 5; bc = 9; }
    head = old + h_fmt(" loaded from a file with %s fields, %s contours%s", tr ? "transposed" : "plain", cols ? "2xN" : "Nx2", (bad < 4 ? h_fmt(" and one row too few in field %d", bad) : std::string("")) .c_str()) + h_fmt(", verification vector: %s of component %d%s", ver == 0 ? "right" : ver == 1 ? "one element wrong" : ver == 2 ? "one element too long" : "none", vf, bc < 2 ? ", contour of three coordinates" : bc == 2 ? ", contour of one coordinate" : "");
    CASE("%s", head.c_str());
    {
        SFile *sf = SFile::Create(fn, SFILE_MODE_WRITE);
        sf->WriteString("name", "a name"); sf->WriteString("desc", "some text");
        double ma[2] = {g.ax, g.az}; sf->WriteList("maxis", ma, 2);
        V R = g.R, Z = g.Z; sf->WriteList("r", R.data(), nr); sf->WriteList("z", Z.data(), nz);
        const char *nm[] = {"Br", "Bphi", "Bz", "Psi"};
        for (int q = 0; q < 4; q++) { if (q == 3 && !g.psi) continue;
            sfilesize_t d[2] = {(sfilesize_t)nz, (sfilesize_t)nr}; double *p = tr ? rowm(g.F[q], nz, nr) : cp(g.F[q]); if (tr) std::swap(d[0], d[1]);
            if (bad == q) d[0]--;
            sf->WriteMultiArray(nm[q], p, 2, d); delete[] p; }
        if (ver < 3) { V t(g.F[vf].begin(), g.F[vf].begin() + nr); if (ver == 1) t[I(0, 1) ? nr - 1 : I(0, nr - 1)] += 0.5; if (ver == 2) t.push_back(g.F[vf][nr]);
            static const char *vn[] = {"verBr", "verBphi", "verBz"}; sf->WriteList(vn[vf], t.data(), t.size()); }
        for (int w = 0; w < 2; w++) { const V &r = w ? g.rs : g.rw, &z = w ? g.zs : g.zw; int n = r.size(); if (!n) continue;
            double **a;
            if (bc < 3) { int c = bc < 2 ? 3 : 1; int m = std::max(n, 3); a = new double *[m]; a[0] = new double[c * m]; for (int i = 0; i < m; i++) { a[i] = a[0] + c * i; for (int q = 0; q < c; q++) a[i][q] = 1 + i + q; } sf->WriteArray(w ? "separatrix" : "wall", a, m, c); }
            else if (cols) { a = new double *[2]; a[0] = new double[2 * n]; a[1] = a[0] + n; for (int i = 0; i < n; i++) a[0][i] = r[i], a[1][i] = z[i]; sf->WriteArray(w ? "separatrix" : "wall", a, 2, n); }
            else { a = new double *[n]; a[0] = new double[2 * n]; for (int i = 0; i < n; i++) { a[i] = a[0] + 2 * i; a[i][0] = r[i], a[i][1] = z[i]; } sf->WriteArray(w ? "separatrix" : "wall", a, n, 2); }
            delete[] a[0]; delete[] a; }
        sf->Close(); delete sf;
    }
    if ((bad < 4 && (bad != 3 || g.psi)) || ver == 1 || ver == 2 || bc < 3) {
        bool t = false; try { MagneticFieldNumeric2D l(fn); } catch (SOFTLibException &) { t = true; }
        CHECK(t, "ill-formed files must be refused (fields that do not match the grid or their verification vector, contours without two coordinates)");
    } else if (!(tr && nr == nz)) { MagneticFieldNumeric2D l(fn); meta(g, l); probe(g, ref, l, 12); }
    unlink(fn.c_str());
    head = old;
}
#include <softlib/MagneticField/MagneticFieldLUKE.h>
static void wmat(SFile *sf, const std::string &n, const V &v, int m, int k) { V c = v; sfilesize_t d[2] = {(sfilesize_t)m, (sfilesize_t)k}; sf->WriteMultiArray(n, c.data(), 2, d); }
static double bil(const V &x, const V &y, const V &z, double a, double b) {
    size_t i = 0, j = 0; while (i + 2 < x.size() && a >= x[i + 1]) i++; while (j + 2 < y.size() && b >= y[j + 1]) j++;
    double t = (a - x[i]) / (x[i + 1] - x[i]), u = (b - y[j]) / (y[j + 1] - y[j]); size_t n = x.size();
    return (1 - t) * (1 - u) * z[j * n + i] + t * (1 - u) * z[j * n + i + 1] + (1 - t) * u * z[(j + 1) * n + i] + t * u * z[(j + 1) * n + i + 1];
}
static void luke(const std::string &dir) {
    int nx = I(4, 8), ny = I(4, 8), np = I(2, 6), nt = I(3, 7), bad = I(0, 14), wk = I(0, 4);
    V x, y, pn, psi, ps, th, B[3], pt[2]; double a = U(-1.3, -0.8), Rp = U(2, 3), Zp = U(-0.4, 0.4), psia = U(-2, 2), sg = I(0, 1) ? -1 : 1, pl = U(0.3, 2);
    for (int i = 0; i < nx; i++) { x.push_back(a); a += U(0.1, 0.5); } a = U(-1.3, -0.8);
    for (int i = 0; i < ny; i++) { y.push_back(a); a += U(0.1, 0.5); }
    if (I(0, 1)) for (int i = 1; i + 1 < ny; i++) if (y[i - 1] < 0 && y[i + 1] > 0) { y[i] = 0; break; }
    for (int i = 0; i < nx * ny; i++) pn.push_back(U(-0.3, 1.6));
    a = 0; for (int i = 0; i < np; i++) { psi.push_back(sg * a); a += U(0.1, 0.6) * pl; }
    for (double v : psi) ps.push_back(std::fabs(v / psi.back()));
    for (int i = 0; i < nt; i++) th.push_back(2 * M_PI * i / (nt - 1));
    for (V &b : B) for (int i = 0; i < np * nt; i++) b.push_back(U(-3, 3));
    for (V &b : pt) for (int i = 0; i < np * nt; i++) b.push_back(U(-1, 1));
    pt[1][np - 1] = U(0.1, 1); pt[1][2 * np - 1] = U(-1, -0.1);
    std::string fn = dir + "/l.h5", wn = wk ? dir + "/w.h5" : ""; head = h_fmt("LUKE file: %dx%d grid, %dx%d field, axis (%g, %g), defect %d, wall %s", nx, ny, np, nt, Rp, Zp, bad, wk == 0 ? "none" : wk == 1 ? "2xN" : wk == 2 ? "Nx2" : wk == 3 ? "Nx3" : "missing");
    CASE("%s", head.c_str());
    { SFile *sf = SFile::Create(fn, SFILE_MODE_WRITE); sf->CreateStruct("equil"); sf->CreateStruct("equil/eqdsk");
      sf->WriteString("equil/id", "an id"); sf->WriteScalar("equil/Rp", Rp); sf->WriteScalar("equil/Zp", Zp); sf->WriteScalar("equil/eqdsk/psia", psia);
      sf->WriteList("equil/eqdsk/x", x.data(), nx); sf->WriteList("equil/eqdsk/y", y.data(), ny); wmat(sf, "equil/eqdsk/xypsin", pn, bad == 0 ? ny - 1 : ny, nx);
      sf->WriteList("equil/psi_apRp", psi.data(), np); sf->WriteList("equil/theta", th.data(), nt);
      const char *bn[] = {"equil/ptBx", "equil/ptBy", "equil/ptBPHI", "equil/ptx", "equil/pty"};
      for (int q = 0; q < 5; q++) wmat(sf, bn[q], q < 3 ? B[q] : pt[q - 3], bad == q + 1 ? nt - 1 : nt, np);
      sf->Close(); delete sf; }
    V wr, wz; if (wk) { int n = I(3, 6); for (int i = 0; i < n; i++) wr.push_back(U(1, 4)), wz.push_back(U(-1, 1));
      SFile *sf = SFile::Create(wn, SFILE_MODE_WRITE); V v; if (wk == 1) { v = wr; v.insert(v.end(), wz.begin(), wz.end()); } else for (int i = 0; i < n; i++) { v.push_back(wr[i]); v.push_back(wz[i]); if (wk == 3) v.push_back(0); }
      if (wk < 4) wmat(sf, "wall", v, wk == 1 ? 2 : n, wk == 1 ? n : wk == 2 ? 2 : 3); else wmat(sf, "vessel", v, n, 2);
      sf->Close(); delete sf; }
    MagneticFieldLUKE *f = nullptr; bool thr = false;
    try { f = wk || I(0, 1) ? I(0, 1) ? new MagneticFieldLUKE(fn, wn) : new MagneticFieldLUKE(fn, SFILE_TYPE_HDF5, wn, SFILE_TYPE_HDF5) : I(0, 1) ? new MagneticFieldLUKE(fn) : new MagneticFieldLUKE(fn, SFILE_TYPE_HDF5); } catch (SOFTLibException &) { thr = true; }
    if (bad < 6 || wk >= 3) CHECK(thr, "an ill-formed equilibrium or wall must be refused");
    else {
        CHECK(!thr, "a well-formed equilibrium must be accepted");
        CHECK(f->GetName() == "an id" && f->GetDescription() == "an id", "name of the field");
        NEAR(f->GetMagneticAxisR(), Rp, 1e-12, 1e-12); NEAR(f->GetMagneticAxisZ(), Zp, 1e-12, 1e-12);
        for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
            double t = std::atan2(y[j], x[i]); if (t < 0) t += 2 * M_PI; double p = pn[j * nx + i];
            CASE("%s: grid point (%d, %d)", head.c_str(), i, j);
            double *b = f->Eval(x[i] + Rp, 0.0, y[j] + Zp);
            for (int q = 0; q < 3; q++) { double w = bil(ps, th, B[q], std::fabs(p), t); NEAR(b[q == 0 ? 0 : q == 1 ? 2 : 1], w, 1e-8, 1e-8); }
            NEAR(f->EvalFlux(x[i] + Rp, 0.0, y[j] + Zp), p * psia, 1e-8, 1e-8);
        }
        CHECK((int)f->GetNSeparatrix() == nt, "number of points of the separatrix");
        for (int i = 0; i < nt; i++) { NEAR(f->GetRSeparatrix()[i], pt[0][i * np + np - 1] + Rp, 1e-12, 1e-12); NEAR(f->GetZSeparatrix()[i], pt[1][i * np + np - 1] + Zp, 1e-12, 1e-12); }
        int nd = wk ? wr.size() : nt; CHECK((int)f->GetNDomain() == nd, "number of points of the domain");
        for (int i = 0; i < nd; i++) { NEAR(f->GetRDomain()[i], wk ? wr[i] : pt[0][i * np + np - 1] + Rp, 1e-12, 1e-12); NEAR(f->GetZDomain()[i], wk ? wz[i] : pt[1][i * np + np - 1] + Zp, 1e-12, 1e-12); }
    }
    delete f; unlink(fn.c_str()); if (wk) unlink(wn.c_str());
}
#endif
static void run() {
    gsl_set_error_handler_off();
    static std::string d;
#ifdef FILES
    char dir[] = "/tmp/verif-p07-XXXXXX"; if (!mkdtemp(dir)) CHECK(false, "scratch directory");
    d = dir;
#endif
    for (int t = 0; t < N_(
#ifdef FILES
        60, 600
#else
        120, 1500
#endif
        ); t++) {
        G g = gen(); Ref ref(g); MagneticFieldNumeric2D *f = mk(g);
        head = h_fmt("grid %d: %zux%zu R=[%g,%g] Z=[%g,%g] wall=%zu sep=%zu flux=%d (seeded data)", t, g.R.size(), g.Z.size(), g.R.front(), g.R.back(), g.Z.front(), g.Z.back(), g.rw.size(), g.rs.size(), g.psi);
        meta(g, *f); probe(g, ref, *f, 25);
        std::string h = head; head += " (clone)";
        CASE("%s", head.c_str());
        MagneticFieldNumeric2D *c = f->Clone(); meta(g, *c); probe(g, ref, *c, 10);
        // the clone is independent
        V z0(f->GetNDomain(), 1.0); f->SetDomain(z0.data(), z0.data(), z0.size());
        meta(g, *c);
        head = h; delete f; probe(g, ref, *c, 5);
#ifdef FILES
        for (int q = 0; q < 3; q++) files(g, ref, *c, d);
        luke(d); head = h;
#endif
        delete c;
        CASE("%s: neither wall nor separatrix", head.c_str());
        G e = g; e.rw = e.zw = e.rs = e.zs = V(); bool th = false;
        try { mk(e); } catch (SOFTLibException &) { th = true; }
        CHECK(th, "a field without wall and separatrix must be refused");
    }
    if (!d.empty()) rmdir(d.c_str());
}
MAIN(run)
