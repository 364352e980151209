// Lines of sight against a wall of revolution.
#include "h.h"
#include <softlib/MagneticField/MagneticField2D.h>
typedef long double LD;
struct F : public MagneticField2D {
    F(double r, double z) { magnetic_axis[0] = r; magnetic_axis[1] = z; }
    void axis(double r, double z) { magnetic_axis[0] = r; magnetic_axis[1] = z; }
    F *Clone() override { return nullptr; }
    slibreal_t *Eval(slibreal_t, slibreal_t, slibreal_t) override { return nullptr; }
    struct magnetic_field_data &EvalDerivatives(slibreal_t, slibreal_t, slibreal_t) override { return magdata; }
    slibreal_t EvalFlux(slibreal_t, slibreal_t, slibreal_t) override { return 0; }
    struct flux_diff *EvalFluxDerivatives(slibreal_t, slibreal_t, slibreal_t) override { return nullptr; }
    bool HasMagneticFlux() override { return false; }
};
static const LD EPS = 1e-7L;
// does the line hit the tile? 1 yes, 0 no, -1 too close to call
static int in01(LD v) { return v > EPS && v < 1 - EPS ? 1 : (v < -EPS || v > 1 + EPS) ? 0 : -1; }
static int both(int a, int b) { return a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : -1; }
static int either(int a, int b) { return a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : -1; }
static int oracle(LD ra, LD za, LD rb, LD zb, const double *p, const double *q) {
    LD dx = q[0] - (LD)p[0], dy = q[1] - (LD)p[1], dz = q[2] - (LD)p[2];
    if (za == zb) {
        if (dz == 0) return 0;
        if (std::fabs(dz) < EPS) return -1;
        LD t = (za - p[2]) / dz, R = std::sqrt((p[0] + dx * t) * (p[0] + dx * t) + (p[1] + dy * t) * (p[1] + dy * t));
        if (ra == rb) return -1;
        return both(in01(t), in01((R - ra) / (rb - ra)));
    }
    LD k = (rb - ra) / (zb - za), m = ra + k * (p[2] - za), c = k * dz;       // radius of the cone at the height of the point
    LD A = dx * dx + dy * dy - c * c, B = p[0] * dx + p[1] * dy - m * c, C = (LD)p[0] * p[0] + (LD)p[1] * p[1] - m * m;
    LD sc = dx * dx + dy * dy + c * c;
    auto at = [&](LD t) { return both(in01(t), in01((p[2] + dz * t - za) / (zb - za))); };
    if (std::fabs(A) < 1e-6L * sc || sc == 0) return -1;
    LD d = B * B - A * C, ds = B * B + std::fabs(A * C);
    if (std::fabs(d) < 1e-7L * ds || ds == 0) return -1;
    if (d < 0) return 0;
    LD s = std::sqrt(d);
    return either(at((-B + s) / A), at((-B - s) / A));
}
struct W { std::vector<double> r, z; std::string s; int n() const { return r.size(); } };
static W wall() {
    W w; int n = I(3, 7), k = I(0, 2);
    for (int i = 0; i < n; i++) {
        double r, z;
        if (k == 0) { r = 3 + U(0.5, 1.5) * std::cos(2 * M_PI * i / n); z = U(0.5, 1.5) * std::sin(2 * M_PI * i / n); }
        else if (k == 1) { r = I(1, 6); z = I(-3, 3); }
        else { r = U(0, 5); z = U(-2, 2); }
        w.r.push_back(r); w.z.push_back(z); w.s += h_fmt("(%.17g,%.17g)", r, z);
    }
    return w;
}
static bool ask(F &f, const double *p, const double *q, bool ow) {
    double a[3] = {p[0], p[1], p[2]}, b[3] = {q[0], q[1], q[2]};
    bool r = f.IntersectsDomain3D(p[0], p[1], p[2], q[0], q[1], q[2], ow);
    CHECK(f.IntersectsDomain3D(a, b, ow) == r, "array form agrees with the coordinate form");
    return r;
}
static void body() {
    int yes = 0, no = 0;
    for (int t = 0; t < N_(20000, 600000); t++) {
        W w = wall();
        F f(w.r[0], w.z[0]); f.SetDomain(w.r.data(), w.z.data(), w.n());
        double ax = I(0, 1) ? 3.0 : U(1, 4); f.axis(ax, 0);
        bool ow = I(0, 1);
        double p[3], q[3];
        if (I(0, 1)) {        // through a point of a tile
            int i = I(0, w.n() - 1), j = (i + 1) % w.n(); double s = U(0.02, 0.98), R = w.r[i] + s * (w.r[j] - w.r[i]), Z = w.z[i] + s * (w.z[j] - w.z[i]), ph = U(0, 6.3);
            double P[3] = {R * std::cos(ph), R * std::sin(ph), Z}, T = U(0.05, 0.95), L = I(0, 1) ? 0.3 : 4, d[3] = {U(-L, L), U(-L, L), I(0, 4) ? U(-L, L) : 0};
            for (int c = 0; c < 3; c++) { p[c] = P[c] - T * d[c]; q[c] = P[c] + (1 - T) * d[c]; }
        } else
            for (int c = 0; c < 3; c++) { p[c] = c < 2 ? U(-6, 6) : U(-3, 3); q[c] = c < 2 ? U(-6, 6) : U(-3, 3); }
        if (I(0, 15) == 0) q[2] = p[2];
        if (I(0, 15) == 0) { q[0] = p[0]; q[1] = p[1]; }
        int want = 0;
        for (int i = 0; i < w.n(); i++) {
            int j = (i + 1) % w.n();
            if (!ow && w.r[i] > ax && w.r[j] > ax) continue;
            want = either(want, oracle(w.r[i], w.z[i], w.r[j], w.z[j], p, q));
        }
        CASE("wall %s, axis R=%.17g, outer wall %d, line (%.17g,%.17g,%.17g)-(%.17g,%.17g,%.17g)", w.s.c_str(), ax, ow, p[0], p[1], p[2], q[0], q[1], q[2]);
        bool got = ask(f, p, q, ow);
        if (want < 0) continue;
        (want ? yes : no)++;
        CHECK(got == (want == 1), "line of sight blocked: %d, required %d", got, want);
        CHECK(f.IntersectsDomain3D(q[0], q[1], q[2], p[0], p[1], p[2], ow) == got, "the same line from the other end");
        if (ow) CHECK(f.IntersectsDomain3D(p[0], p[1], p[2], q[0], q[1], q[2]) == got, "the outer wall counts by default");
    }
    CHECK(yes > 100 && no > 100, "driver reaches both answers");
    // special positions, exactly representable
    auto one = [&](std::vector<double> r, std::vector<double> z, double a, double b, double c, double d, double e, double g, bool want) {
        F f(r[0], z[0]); f.SetDomain(r.data(), z.data(), r.size());
        double p[3] = {a, b, c}, q[3] = {d, e, g};
        std::string s; for (size_t i = 0; i < r.size(); i++) s += h_fmt("(%g,%g)", r[i], z[i]);
        CASE("wall %s, line (%g,%g,%g)-(%g,%g,%g)", s.c_str(), a, b, c, d, e, g);
        CHECK(ask(f, p, q, true) == want, "line of sight blocked must be %d", want);
    };
    one({5, 5}, {0, 4}, 3, 4, 1, 3, 4, 2, true);       // within a cylinder
    one({5, 5}, {0, 4}, 3, 4, -2, 3, 4, 6, true);
    one({5, 5}, {0, 4}, 3, 4, 5, 3, 4, 6, false);
    one({5, 5}, {0, 4}, 3, 4, -3, 3, 4, -1, false);
    one({5, 5}, {0, 4}, 3, 3, 1, 3, 3, 2, false);
    one({5, 5}, {0, 4}, 3, 4, 2, 9, 9, 3, true);       // starts on the wall
    one({5, 5}, {0, 4}, 0, 0, 2, 0, 5, 2, true);       // ends on the wall
    one({5, 5}, {0, 4}, 0, 0, 2, 0, 4.5, 2, false);
    one({5, 5}, {0, 4}, 5, -3, 1, 5, 3, 1, true);      // tangent
    one({2, 6}, {0, 0}, 4, 0, -1, 4, 0, 1, true);      // horizontal ring
    one({2, 6}, {0, 0}, 1, 0, -1, 1, 0, 1, false);
    one({2, 6}, {0, 0}, 7, 0, -1, 7, 0, 1, false);
    one({2, 6}, {0, 0}, 2, 0, -1, 2, 0, 1, true);
    one({6, 2}, {0, 0}, 0, 6, -1, 0, 6, 1, true);
    one({2, 6}, {0, 0}, 4, 0, 1, 4, 0, 3, false);
    one({2, 6}, {0, 0}, 4, 0, 0, 4, 0, 3, true);
    // rectilinear walls, vertical and radial lines: exact, including lines that start or end on a tile
    for (int t = 0; t < N_(3000, 100000); t++) {
        static const int P2[] = {-4, -2, -1, 1, 2, 4};
        std::vector<double> r = {(double)I(1, 8)}, z = {(double)I(-4, 4)};
        for (int i = 0; i < I(1, 6); i++) {
            double a = r.back(), b = z.back();
            if (i % 2) { double v = a + P2[I(0, 5)]; a = v < 0 ? a + 2 : v; } else b += P2[I(0, 5)];
            r.push_back(a); z.push_back(b);
        }
        // go back the same way, so that the contour is closed without a slanted tile
        for (int i = (int)r.size() - 2; i > 0; i--) { r.push_back(r[i]); z.push_back(z[i]); }
        double p[3], q[3]; bool vert = I(0, 1);
        int k = I(0, 2); double R0 = I(0, 9), R1 = R0 + P2[I(0, 5)];
        if (R1 < 0) R1 = R0 + 4;
        if (vert) R1 = R0;
        p[0] = k == 0 ? R0 : 0; p[1] = k == 0 ? 0 : k == 1 ? R0 : -R0; p[2] = I(-5, 5);
        q[0] = k == 0 ? R1 : 0; q[1] = k == 0 ? 0 : k == 1 ? R1 : -R1; q[2] = vert ? p[2] + P2[I(0, 5)] : p[2];
        double ax = I(0, 8); bool ow = I(0, 1), want = false;
        F f(r[0], z[0]); f.SetDomain(r.data(), z.data(), r.size()); f.axis(ax, 0);
        std::string s;
        for (size_t i = 0; i < r.size(); i++) {
            size_t j = (i + 1) % r.size(); s += h_fmt("(%g,%g)", r[i], z[i]);
            if (!ow && r[i] > ax && r[j] > ax) continue;
            if (z[i] == z[j] && !vert) continue;
            want |= std::max(r[i], r[j]) >= std::min(R0, R1) && std::min(r[i], r[j]) <= std::max(R0, R1) &&
                    std::max(z[i], z[j]) >= std::min(p[2], q[2]) && std::min(z[i], z[j]) <= std::max(p[2], q[2]);
        }
        CASE("wall %s, axis R=%g, outer wall %d, line (%g,%g,%g)-(%g,%g,%g)", s.c_str(), ax, ow, p[0], p[1], p[2], q[0], q[1], q[2]);
        CHECK(ask(f, p, q, ow) == want, "line of sight blocked must be %d", want);
    }
    // parallel to a generator of the cone R = z
    for (int xp = -3; xp <= 3; xp++) for (int yp = -3; yp <= 3; yp++) for (int zp = -1; zp <= 5; zp++) for (int l = 1; l <= 4; l *= 2) {
        // (xp+u)^2 + yp^2 = (zp+u)^2, 0 <= zp+u <= 4, 0 <= u <= l
        bool want; int B = xp - zp, C = zp * zp - xp * xp - yp * yp;
        if (B == 0) want = C == 0 && zp + l >= 0 && zp <= 4;
        else { double u = C / (2.0 * B); want = u >= 0 && u <= l && zp + u >= 0 && zp + u <= 4; }
        if (B != 0 && (std::abs(B) & (std::abs(B) - 1))) continue;     // keep the division exact
        one({0, 4}, {0, 4}, xp, yp, zp, xp + l, yp, zp + l, want);
    }
}
MAIN(body)
