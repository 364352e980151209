#include "h.h"
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
struct D { double v, d[3]; D(double v = 0) : v(v), d{0, 0, 0} {} };
static D op(D a, D b, double v, double da, double db) { D r(v); for (int i = 0; i < 3; i++) r.d[i] = da * a.d[i] + db * b.d[i]; return r; }
static D operator+(D a, D b) { return op(a, b, a.v + b.v, 1, 1); }
static D operator-(D a, D b) { return op(a, b, a.v - b.v, 1, -1); }
static D operator*(D a, D b) { return op(a, b, a.v * b.v, b.v, a.v); }
static D operator/(D a, D b) { return op(a, b, a.v / b.v, 1 / b.v, -a.v / b.v / b.v); }
static D sq(D a) { double s = std::sqrt(a.v); return op(a, D(0), s, 0.5 / s, 0); }
static D ex(D a) { double s = std::exp(a.v); return op(a, D(0), s, s, 0); }
static D pw(D a, double p) { return op(a, D(0), std::pow(a.v, p), p * std::pow(a.v, p - 1), 0); }
struct Par { double B0, Rm, z0, a; int sB, sI, qt; double q1, q2; };
static D q(const Par &p, D r) {
    D x = r / D(p.a);
    switch (p.qt) {
        case 0: return D(p.q1);
        case 1: return D(p.q1) * x + D(p.q2);
        case 2: return D(p.q1) * x * x + D(p.q2);
        case 3: return ex(D(p.q1) * x) + D(p.q2);
        default: if (std::isinf(p.q2)) return D(p.q1); return D(p.q1) / (D(1) - D(2 / (p.q2 + 2)) * pw(x, p.q2));
    }
}
static void B(const Par &p, D x, D y, D z, D *o) {
    D R = sq(x * x + y * y), Z = z - D(p.z0), dR = D(p.Rm) - R, r = sq(dR * dR + Z * Z), qq = q(p, r);
    D bp = D(p.sI * p.B0) / (qq * R), bt = D(p.sB * p.B0 * p.Rm) / R;
    o[0] = bp * Z * x / R - bt * y / R; o[1] = bp * Z * y / R + bt * x / R; o[2] = bp * dR;
}
static Par gen() {
    Par p; p.B0 = U(0.5, 8); p.Rm = U(1, 4); p.z0 = I(0, 2) ? U(-1, 1) : 0; p.a = U(0.2, 0.9) * p.Rm;
    p.sB = I(0, 1) ? 1 : -1; p.sI = I(0, 1) ? 1 : -1; p.qt = I(0, 4); p.q1 = U(0.7, 3); p.q2 = U(0.5, 3);
    if (p.qt == 4 && I(0, 3) == 0) p.q2 = INFINITY;
    return p;
}
static MagneticFieldAnalytical2D mk(const Par &p) {
    return MagneticFieldAnalytical2D(p.B0, p.Rm, p.z0, p.a, p.sB > 0 ? MFAFS_CCW : MFAFS_CW, p.sI > 0 ? MFAFS_CCW : MFAFS_CW, (MFASafetyFactorType)p.qt, p.q1, p.q2);
}
static void C(const Par &p, double x, double y, double z) {
    CASE("B0=%.17g Rm=%.17g z0=%.17g a=%.17g sB=%d sI=%d qtype=%d q1=%.17g q2=%.17g at (%.17g,%.17g,%.17g)", p.B0, p.Rm, p.z0, p.a, p.sB, p.sI, p.qt, p.q1, p.q2, x, y, z);
}
static void point(const Par &p, MagneticFieldAnalytical2D &f, double x, double y, double z) {
    C(p, x, y, z);
    D X(x), Y(y), Z(z), o[3]; X.d[0] = Y.d[1] = Z.d[2] = 1;
    B(p, X, Y, Z, o);
    double R = std::hypot(x, y), r = std::hypot(p.Rm - R, z - p.z0);
    double sc = p.B0 * 4 / R, T = 1e-8;
    bool axis = r == 0;
    if (axis) { double bt = p.sB * p.B0 * p.Rm / R; o[0] = D(-bt * y / R); o[1] = D(bt * x / R); o[2] = D(0.); }
    slibreal_t pt[3] = {x, y, z}; Vector<3> pv(pt); MagneticField2D &mf = f;
    double *b = f.Eval(x, y, z);
    for (int i = 0; i < 3; i++) NEAR(b[i], o[i].v, T, T * sc);
    b = mf.Eval(pt); for (int i = 0; i < 3; i++) NEAR(b[i], o[i].v, T, T * sc);
    b = mf.Eval(pv); for (int i = 0; i < 3; i++) NEAR(b[i], o[i].v, T, T * sc);
    // flux
    D RR(R), ZZ(z); RR.d[0] = 1; ZZ.d[1] = 1;
    D dr = D(p.Rm) - RR, dz = ZZ - D(p.z0), rr = sq(dr * dr + dz * dz);
    if (!axis) {
        D psi = D(p.sI * M_PI * p.B0) * rr * rr / q(p, rr);
        NEAR(f.EvalFlux(x, y, z), psi.v, T, T); NEAR(mf.EvalFlux(pt), psi.v, T, T); NEAR(mf.EvalFlux(pv), psi.v, T, T);
        struct flux_diff *fd = f.EvalFluxDerivatives(x, y, z);
        NEAR(fd->psi, psi.v, T, T); NEAR(fd->dpsi_dR, psi.d[0], T, T * sc); NEAR(fd->dpsi_dZ, psi.d[1], T, T * sc);
        fd = mf.EvalFluxDerivatives(pt); NEAR(fd->psi, psi.v, T, T);
        fd = mf.EvalFluxDerivatives(pv); NEAR(fd->dpsi_dZ, psi.d[1], T, T * sc);
    }
    if (!axis && r < 1e-6) return;
    for (int k = 0; k < 3; k++) {
        struct magnetic_field_data &m = k == 0 ? f.EvalDerivatives(x, y, z) : k == 1 ? mf.EvalDerivatives(pt) : mf.EvalDerivatives(pv);
        double ab = std::sqrt(o[0].v * o[0].v + o[1].v * o[1].v + o[2].v * o[2].v);
        for (int i = 0; i < 3; i++) NEAR(m.B[i], o[i].v, T, T * sc);
        NEAR(m.Babs, ab, T, 0);
        if (axis) break;
        double ds = sc * (1 / R + 1 / p.a + 1 / p.Rm) * 10;
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) NEAR(m.J[i][j], o[i].d[j], T, T * ds);
        for (int j = 0; j < 3; j++) { double g = 0; for (int i = 0; i < 3; i++) g += o[i].v * o[i].d[j]; NEAR(m.gradB[j], g / ab, T, T * ds); }
        NEAR(m.curlB[0], o[2].d[1] - o[1].d[2], T, T * ds);
        NEAR(m.curlB[1], o[0].d[2] - o[2].d[0], T, T * ds);
        NEAR(m.curlB[2], o[1].d[0] - o[0].d[1], T, T * ds);
        NEAR(m.J[0][0] + m.J[1][1] + m.J[2][2], 0, 0, T * ds);
    }
    // q profile and derivative
    D rd(r); rd.d[0] = 1; D qv = q(p, rd);
    if (!axis) { NEAR(f.__GetSafetyFactor(r), qv.v, T, 0); NEAR(f.__GetrDqDr(r), r * qv.d[0], T, T); }
}
static void body() {
    for (int k = 0; k < N_(400, 4000); k++) {
        Par p = gen();
        if (k == 0) { p.z0 = 0; p.qt = 0; }
        MagneticFieldAnalytical2D f = mk(p);
        C(p, 0, 0, 0);
        NEAR(f.GetB0(), p.B0, 0, 0); NEAR(f.GetRMajor(), p.Rm, 0, 0); NEAR(f.GetRMinor(), p.a, 0, 0);
        NEAR(f.GetMagneticAxisR(), p.Rm, 0, 0); NEAR(f.GetMagneticAxisZ(), p.z0, 0, 0);
        CHECK(f.GetMagneticAxis()[0] == p.Rm && f.GetMagneticAxis()[1] == p.z0);
        CHECK(f.HasMagneticFlux());
        for (int j = 0; j < 12; j++) {
            double r = p.a * U(0.001, 0.95), th = U(0, 2 * M_PI), ph = U(0, 2 * M_PI);
            if (j == 0) r = 0, ph = 0;
            if (j == 1) ph = 0;
            if (j == 2) ph = M_PI / 2;
            if (j == 3) th = 0;
            if (j == 4) th = M_PI / 2;
            if (j == 5) r = p.a * 0.999;
            if (p.qt == 4 && !std::isinf(p.q2) && p.q2 < 0.2) continue;
            double R = p.Rm - r * cos(th), z = p.z0 + r * sin(th);
            point(p, f, r == 0 ? p.Rm : R * cos(ph), r == 0 ? 0 : R * sin(ph), z);
        }
        if (k % 40 == 0) {
            unsigned nr = I(5, 12), nz = I(5, 12);
            CASE("ToNumeric2D nr=%u nz=%u B0=%g Rm=%g z0=%g a=%g qt=%d sB=%d sI=%d", nr, nz, p.B0, p.Rm, p.z0, p.a, p.qt, p.sB, p.sI);
            MagneticFieldNumeric2D *n = f.ToNumeric2D(nr, nz);
            { MagneticField2D *nb = n; CHECK(nb->GetName() == f.GetName() && nb->GetDescription() == f.GetDescription()); }
            NEAR(n->GetMagneticAxisR(), p.Rm, 0, 0); NEAR(n->GetMagneticAxisZ(), p.z0, 0, 0);
            CHECK(n->GetNDomain() == f.GetNDomain());
            for (unsigned i = 0; i < f.GetNDomain(); i++) CHECK(n->GetRDomain()[i] == f.GetRDomain()[i] && n->GetZDomain()[i] == f.GetZDomain()[i]);
            for (unsigned i = 0; i < nr; i++) for (unsigned j = 0; j < nz; j++) {
                double R = p.Rm - p.a + 2 * p.a * i / (nr - 1.), z = p.z0 - p.a + 2 * p.a * j / (nz - 1.), ph = U(0, 6);
                if (std::hypot(R - p.Rm, z - p.z0) < 1e-9) continue;
                D o[3]; B(p, D(R * cos(ph)), D(R * sin(ph)), D(z), o);
                double *b = n->Eval(R * cos(ph), R * sin(ph), z);
                for (int c = 0; c < 3; c++) NEAR(b[c], o[c].v, 1e-6, 1e-6 * p.B0 * p.Rm / R);
                NEAR(n->EvalFlux(R * cos(ph), R * sin(ph), z), f.EvalFlux(R, 0, z), 1e-6, 1e-6);
            }
        }
        if (k % 20 == 0) {
            CASE("Clone of field B0=%g Rm=%g z0=%g a=%g qt=%d sB=%d sI=%d", p.B0, p.Rm, p.z0, p.a, p.qt, p.sB, p.sI);
            MagneticFieldAnalytical2D *c = f.Clone();
            point(p, *c, p.Rm - 0.3 * p.a, 0.1, p.z0 + 0.2 * p.a);
            CHECK(c->GetName() == f.GetName() && c->GetDescription() == f.GetDescription());
        }
    }
}
MAIN(body)
