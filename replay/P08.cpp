// Domain geometry on small-integer contours, judged by exact integer arithmetic.
#include "h.h"
#include <softlib/MagneticField/MagneticField2D.h>
#include <softlib/SOFTLibException.h>
typedef long long L;
struct F : public MagneticField2D {
    F(double r, double z) { magnetic_axis[0] = r; magnetic_axis[1] = z; }
    void axis(double r, double z) { magnetic_axis[0] = r; magnetic_axis[1] = z; }
    F *Clone() override { return nullptr; }
    slibreal_t *Eval(slibreal_t, slibreal_t, slibreal_t) override { return nullptr; }
    struct magnetic_field_data &EvalDerivatives(slibreal_t, slibreal_t, slibreal_t) override { return magdata; }
    slibreal_t EvalFlux(slibreal_t, slibreal_t, slibreal_t) override { return 0; }
    struct flux_diff *EvalFluxDerivatives(slibreal_t, slibreal_t, slibreal_t) override { return nullptr; }
    bool HasMagneticFlux() override { return false; }
};
struct Poly { std::vector<L> r, z; std::vector<double> R, Z; std::string s;
    void add(L a, L b) { r.push_back(a); z.push_back(b); R.push_back(a); Z.push_back(b); s += h_fmt("(%lld,%lld)", a, b); }
    int n() const { return r.size(); } };
static L sgn(L a) { return (a > 0) - (a < 0); }
static bool on(L px, L py, L ax, L ay, L bx, L by) {
    return (bx - ax) * (py - ay) == (by - ay) * (px - ax) && px >= std::min(ax, bx) && px <= std::max(ax, bx) && py >= std::min(ay, by) && py <= std::max(ay, by);
}
static L cr(L ax, L ay, L bx, L by, L cx, L cy) { return sgn((bx - ax) * (cy - ay) - (by - ay) * (cx - ax)); }
static bool meet(L ax, L ay, L bx, L by, L cx, L cy, L dx, L dy) {
    if (on(ax, ay, cx, cy, dx, dy) || on(bx, by, cx, cy, dx, dy) || on(cx, cy, ax, ay, bx, by) || on(dx, dy, ax, ay, bx, by)) return true;
    return cr(ax, ay, bx, by, cx, cy) * cr(ax, ay, bx, by, dx, dy) < 0 && cr(cx, cy, dx, dy, ax, ay) * cr(cx, cy, dx, dy, bx, by) < 0;
}
static Poly gen() {
    Poly p; int n = I(0, 9) == 0 ? I(1, 3) : I(3, 8);
    static const int w[] = {2, 4, 8};
    int W = w[I(0, 2)];
    L off = I(0, 1) ? 0 : I(1, 6);
    for (int i = 0; i < n; i++) p.add(off + I(0, W), I(-W / 2, W / 2));
    return p;
}
static const int py[][3] = {{0, 0, 0}, {1, 0, 1}, {0, 2, 2}, {3, 4, 5}, {-4, 3, 5}, {2, 0, 2}, {-3, 0, 3}, {0, -4, 4}, {6, 8, 10}, {5, 0, 5}, {6, 0, 6}, {-8, 6, 10}, {5, -12, 13}};
static void crossing() {
    for (int t = 0; t < N_(4000, 200000); t++) {
        Poly p = gen();
        F f(p.R[0], p.Z[0]);
        f.SetDomain(p.R.data(), p.Z.data(), p.n());
        for (int k = 0; k < 4; k++) {
            const int *a = py[I(0, 12)], *b = py[I(0, 12)]; L za = I(-5, 5), zb = I(-5, 5);
            if (I(0, 5) == 0) { zb = za; }
            bool want = false;
            for (int i = 0; i < p.n(); i++) { int j = (i + 1) % p.n(); want |= meet(a[2], za, b[2], zb, p.r[i], p.z[i], p.r[j], p.z[j]); }
            CASE("contour %s; line from (%d,%d,%lld) to (%d,%d,%lld)", p.s.c_str(), a[0], a[1], za, b[0], b[1], zb);
            CHECK(f.CrossesDomain(a[0], a[1], za, b[0], b[1], zb) == want, "crossing must be %d", want);
            double A[3] = {(double)a[0], (double)a[1], (double)za}, B[3] = {(double)b[0], (double)b[1], (double)zb};
            CHECK(f.CrossesDomain(A, B) == want, "two-vector form: crossing must be %d", want);
            f.axis(a[2], za);
            CHECK(f.CrossesDomain(B) == want, "vector form from the axis: crossing must be %d", want);
            CHECK(f.CrossesDomain(B[0], B[1], B[2]) == want, "coordinate form from the axis: crossing must be %d", want);
        }
    }
}
// extent of X over the points of the closed contour with Y = a
static bool extent(const std::vector<L> &X, const std::vector<L> &Y, L a, double &mn, double &mx) {
    int n = X.size(); bool any = false;
    auto put = [&](double x) { if (!any) mn = mx = x; else { mn = std::min(mn, x); mx = std::max(mx, x); } any = true; };
    for (int i = 0; i < n; i++) {
        int j = (i + 1) % n;
        if (Y[i] == a) put(X[i]);
        if (Y[j] == a) put(X[j]);
        if ((Y[i] - a) * (Y[j] - a) < 0) put((double)(X[i] * (Y[j] - Y[i]) + (X[j] - X[i]) * (a - Y[i])) / (double)(Y[j] - Y[i]));
    }
    return any;
}
static void radii() {
    for (int t = 0; t < N_(6000, 200000); t++) {
        Poly p = gen(), d = gen();
        L za = I(-4, 4); double mn = 0, mx = 0, zmn = 0, zmx = 0;
        F f(d.R[0], d.Z[0]);
        f.SetDomain(d.R.data(), d.Z.data(), d.n());   // another contour before
        double q0, q1, q2, q3;
        if (I(0, 1)) f.GetDomainBounds(q0, q1, q2, q3);
        L ra = I(0, 6);
        f.axis(ra, za);
        CASE("contour %s; axis (%lld,%lld), earlier contour %s", p.s.c_str(), ra, za, d.s.c_str());
        bool ok = extent(p.r, p.z, za, mn, mx), thrown = false;
        try { f.SetDomain(p.R.data(), p.Z.data(), p.n()); } catch (SOFTLibException &) { thrown = true; }
        CHECK(thrown == !ok, "SetDomain must %s", ok ? "succeed" : "report that the axis is outside");
        L rq = I(0, 8); double a = 777, b = -777;
        bool okz = extent(p.z, p.r, rq, zmn, zmx); thrown = false;
        CASE("contour %s; vertical extent at R=%lld", p.s.c_str(), rq);
        try { f.FindMaxZ(rq, a, b); } catch (SOFTLibException &) { thrown = true; }
        CHECK(thrown == !okz, "FindMaxZ must %s", okz ? "succeed" : "report an error");
        if (okz) { NEAR(a, zmn, 1e-13, 1e-13); NEAR(b, zmx, 1e-13, 1e-13); }
        a = 777, b = -777; thrown = false;
        try { f.FindMaxMin(p.n(), p.Z.data(), p.R.data(), rq, a, b); } catch (SOFTLibException &) { thrown = true; }
        CHECK(thrown == !okz, "FindMaxMin must %s", okz ? "succeed" : "report an error");
        if (okz) { NEAR(a, zmn, 1e-13, 1e-13); NEAR(b, zmx, 1e-13, 1e-13); }
        CASE("contour %s; axis (%lld,%lld), earlier contour %s", p.s.c_str(), ra, za, d.s.c_str());
        CHECK(f.GetNDomain() == (unsigned)p.n() && f.GetRDomain() == p.R.data() && f.GetZDomain() == p.Z.data(), "contour returned is the one set");
        double br0 = ra, br1 = ra, bz0 = za, bz1 = za;
        for (int i = 0; i < p.n(); i++) { br0 = std::min(br0, p.R[i]); br1 = std::max(br1, p.R[i]); bz0 = std::min(bz0, p.Z[i]); bz1 = std::max(bz1, p.Z[i]); }
        for (int k = 0; k < 2; k++) {
            f.GetDomainBounds(q0, q1, q2, q3);
            CHECK(q0 == br0 && q1 == br1 && q2 == bz0 && q3 == bz1, "bounding box [%g,%g]x[%g,%g], required [%g,%g]x[%g,%g] (call %d)", q0, q1, q2, q3, br0, br1, bz0, bz1, k + 1);
        }
        CHECK(f.GetMagneticAxisR() == ra && f.GetMagneticAxisZ() == za, "axis");
        if (ok) {
            for (int k = 0; k < 2; k++) {
                NEAR(f.GetMaxRadius(), mx, 1e-13, 1e-13);
                NEAR(f.GetMinRadius(), mn, 1e-13, 1e-13);
                NEAR(f.FindMaxRadius(), mx, 1e-13, 1e-13);
                NEAR(f.FindMinRadius(), mn, 1e-13, 1e-13);
            }
            NEAR(f.FindMinRadius(p.n(), p.R.data(), p.Z.data()), mn, 1e-13, 1e-13);
            NEAR(f.FindMaxRadius(p.n(), p.R.data(), p.Z.data()), mx, 1e-13, 1e-13);
        }
        // another contour with as many points, given explicitly
        std::vector<double> R2; std::vector<L> r2;
        for (int i = 0; i < p.n(); i++) { L v = p.r[i] + I(-1, 2); r2.push_back(v); R2.push_back(v); }
        double mn2, mx2;
        if (extent(r2, p.z, za, mn2, mx2)) {
            if (I(0, 1)) NEAR(f.FindMaxRadius(p.n(), R2.data(), p.Z.data()), mx2, 1e-13, 1e-13);
            NEAR(f.FindMinRadius(p.n(), R2.data(), p.Z.data()), mn2, 1e-13, 1e-13);
        }
        double s1[2] = {1, 2}, s2[2] = {3, 4};
        f.SetSeparatrix(s1, s2, 2);
        CHECK(f.GetRSeparatrix() == s1 && f.GetZSeparatrix() == s2 && f.GetNSeparatrix() == 2, "separatrix");
        f.SetSeparatrix(I(0, 1) ? nullptr : s1, nullptr, 2);
        CHECK(f.GetNSeparatrix() == 0, "a missing separatrix has no points");
        f.SetSeparatrix(nullptr, s2, 2);
        CHECK(f.GetNSeparatrix() == 0, "a missing separatrix has no points");
        f.SetSeparatrix(nullptr, nullptr, 0);
    }
}
static void body() { crossing(); radii(); }
MAIN(body)
