#include "h.h"
#include <memory>
#include <softlib/SOFTLibException.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_interp2d.h>
#include <gsl/gsl_spline2d.h>
#include <softlib/DistributionFunction/NumericDistributionFunction.h>
#include <softlib/DistributionFunction/NumericMomentumSpaceDistributionFunction.h>
typedef std::vector<double> V;
// one momentum-space table, evaluated independently
struct T {
    V p, x, f; bool cubic, log, flip; gsl_spline2d *s;
    T(V p_, V x_, V f_, bool c, bool l) : p(p_), x(x_), f(f_), cubic(c), log(l), flip(false) {
        s = gsl_spline2d_alloc(c ? gsl_interp2d_bicubic : gsl_interp2d_bilinear, p.size(), x.size());
        V g = f; if (l) for (double &v : g) v = std::log(v);
        gsl_spline2d_init(s, p.data(), x.data(), g.data(), p.size(), x.size());
    }
    double operator()(double P, double X) const {
        if (flip) X = -X;
        if (P < p.front() || P > p.back() || X < x.front() || X > x.back()) return 0;
        double v = gsl_spline2d_eval(s, P, X, 0, 0); return log ? std::exp(v) : v;
    }
};
static V grid(int n, double a, double b) { V g(n); double x = a; for (int i = 0; i < n; i++) { g[i] = x; x += (b - a) / n * U(0.3, 1.2); } return g; }
struct Ref {
    std::vector<std::pair<double, T *>> g;
    void add(double r, T *t) { g.push_back({r, t}); std::sort(g.begin(), g.end(), [](auto &a, auto &b) { return a.first < b.first; }); }
    double operator()(double r, double P, double X) const {
        size_t n = g.size(); if (n == 1) return (*g[0].second)(P, X);
        size_t i = 0; while (i + 2 < n && r > g[i + 1].first) i++;
        double a = g[i].first, b = g[i + 1].first, fa = (*g[i].second)(P, X), fb = (*g[i + 1].second)(P, X);
        return fa + (fb - fa) * (r - a) / (b - a);
    }
};
static V pts(const V &g) { V o = g; for (size_t i = 0; i + 1 < g.size(); i++) o.push_back(U(g[i], g[i + 1])); o.push_back(g.front() - U(0, 1)); o.push_back(g.back() + U(0, 1)); return o; }
static double scale(const Ref &R, double P, double X) { double m = 0; for (auto &q : R.g) m = std::max(m, std::fabs((*q.second)(P, X))); return m; }
static void compare(NumericDistributionFunction &F, const Ref &R, bool extra, const V &p, const V &x, const std::string &h, const char *who) {
    V rs; for (auto &q : R.g) rs.push_back(q.first);
    V rr = pts(rs), pp = pts(p), xx = pts(x); double lo = rs.front(), hi = rs.back();
    for (double r : rr) for (int k = 0; k < 12; k++) {
        double P = pp[I(0, pp.size() - 1)], X = xx[I(0, xx.size() - 1)], sh = I(0, 2) ? 0 : SP(); if (I(0, 4) == 0) X = -X;
        double re = sh == 0 ? r : r + sh; double rho = re - sh;
        CASE("%s %s: evaluate at r=%.17g shift=%.17g p=%.17g xi=%.17g", h.c_str(), who, re, sh, P, X);
        bool out = rho < lo || rho > hi, thrown = false; double v = 0;
        try { v = F.Eval(re, P, X, sh); } catch (SOFTLibException &) { thrown = true; }
        CHECK(thrown == (!extra && out), "radius %.17g, grid [%.17g, %.17g], extrapolation %s: %s", rho, lo, hi, extra ? "permitted" : "forbidden", thrown ? "refused" : "accepted");
        if (!thrown) NEAR(v, R(rho, P, X), 1e-8, 1e-8 * (1 + std::fabs(rho)) * 20 * scale(R, P, X) + 1e-300);
    }
}
static void run() {
    gsl_set_error_handler_off();
    for (int t = 0; t < N_(700, 8000); t++) {
        int nr = I(0, 4) ? I(2, 6) : 1; bool cubic = I(0, 1), log = I(0, 2) == 0, dec = I(0, 2) == 0 && nr > 1, alloc = I(0, 1), flip = I(0, 3) == 0, extra = I(0, 1), zero = I(0, 2) == 0;
        int np = I(cubic ? 4 : 2, 7), nx = I(cubic ? 4 : 2, 7), how = I(0, 2);
        V r = grid(nr, zero ? 0 : SP(0, 2), 4), p = grid(np, U(0, 1), 10), x = grid(nx, I(0, 1) ? -1 : 0.1, 1);
        if (dec) std::reverse(r.begin(), r.end());
        V f; for (int i = 0; i < nr * np * nx; i++) f.push_back(U(0.1, 3));
        std::string h = h_fmt("nr=%d np=%d nxi=%d %s %s %s r=(%.17g .. %.17g) set up by %s", nr, np, nx, cubic ? "cubic" : "linear", log ? "logarithmic" : "plain", dec ? "decreasing" : "increasing", r[0], r.back(), how == 0 ? "initialisation" : how == 1 ? "initialising twice" : "insertion");
        CASE("%s", h.c_str());
        NumericDistributionFunction F; Ref R; V fc = f;
        std::vector<std::unique_ptr<V>> keep;
        std::vector<int> ord; for (int i = 0; i < nr; i++) ord.push_back(i);
        int it = cubic ? NumericDistributionFunction::INTERPOLATION_CUBIC : NumericDistributionFunction::INTERPOLATION_LINEAR;
        auto part = [&](int i) { return V(fc.begin() + i * np * nx, fc.begin() + (i + 1) * np * nx); };
        V r2{0.5, 1.5}, f2(2 * np * nx, 7.0);
        if (how == 1) F.Initialize(2, np, nx, r2.data(), p.data(), x.data(), f2.data(), it);
        V rc = r, pc = p, xc = x;
        if (how < 2) {
            if (log) F.InitializeLog(nr, np, nx, r.data(), p.data(), x.data(), f.data(), it, alloc); else F.Initialize(nr, np, nx, r.data(), p.data(), x.data(), f.data(), it);
            if (!log || alloc) for (size_t i = 0; i < f.size(); i++) CHECK(f[i] == fc[i], "table given was changed at %zu", i);
        } else {
            std::shuffle(ord.begin(), ord.end(), h_rng); if (I(0, 1)) std::sort(ord.begin(), ord.end());
            V seen;
            for (int i : ord) {
                keep.emplace_back(new V(part(i))); double *d = keep.back()->data(); int idx;
                CASE("%s: insert r=%.17g", h.c_str(), r[i]);
                if (log) idx = F.InsertMomentumSpaceDistributionLog(np, nx, r[i], p.data(), x.data(), d, it, alloc);
                else if (I(0, 1)) { auto *m = new NumericMomentumSpaceDistributionFunction(); m->Initialize(np, nx, p.data(), x.data(), d, cubic ? NumericMomentumSpaceDistributionFunction::INTERPOLATION_CUBIC : NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR); idx = F.InsertMomentumSpaceDistribution(r[i], m); }
                else idx = F.InsertMomentumSpaceDistribution(np, nx, r[i], p.data(), x.data(), d, it);
                int want = 0; for (double q : seen) want += q < r[i]; seen.push_back(r[i]);
                CHECK(idx == want, "radius inserted at %d instead of %d", idx, want);
            }
        }
        CHECK(rc == r && pc == p && xc == x, "grids given were changed");
        for (int i = 0; i < nr; i++) { R.add(r[i], new T(p, x, part(i), cubic, log)); if (flip) R.g.back().second->flip = false; }
        if (flip) { F.FlipPitchSign(true); for (auto &q : R.g) q.second->flip = true; }
        F.SetExtrapolationPermission(extra);
        compare(F, R, extra, p, x, h, flip ? "(pitch sign flipped)" : "");
        NumericDistributionFunction *C = F.MinClone();
        compare(*C, R, extra, p, x, h, "copy");
        CHECK(C->IsLogarithmic() == F.IsLogarithmic());
        if (I(0, 1)) { C->SetExtrapolationPermission(!extra); C->FlipPitchSign(!flip); compare(F, R, extra, p, x, h, "after its copy was changed"); for (auto &q : R.g) q.second->flip = !flip; compare(*C, R, !extra, p, x, h, "changed copy"); }
        for (auto &q : R.g) { gsl_spline2d_free(q.second->s); delete q.second; }
        // momentum space alone
        {
            NumericMomentumSpaceDistributionFunction m; T ref(p, x, part(0), cubic, log); V q = part(0);
            int mt = cubic ? NumericMomentumSpaceDistributionFunction::INTERPOLATION_CUBIC : NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR;
            if (log) m.InitializeLog(np, nx, p.data(), x.data(), q.data(), mt); else m.Initialize(np, nx, p.data(), x.data(), q.data(), mt);
            CHECK(q == part(0), "table given was changed"); CHECK(m.IsLogarithmic() == log);
            if (flip) { m.FlipPitchSign(); ref.flip = true; }
            auto *c = m.MinClone();
            for (double P : pts(p)) for (double X : pts(x)) { if (flip) X = -X; CASE("momentum space of %s %s at p=%.17g xi=%.17g", h.c_str(), flip ? "flipped" : "", P, X); NEAR(m.Eval(P, X), ref(P, X), 1e-9, 1e-300); NEAR(c->Eval(P, X), ref(P, X), 1e-9, 1e-300); NEAR(m.Eval(U(0, 3), P, X, U(0, 1)), ref(P, X), 1e-9, 1e-300); }
            CHECK(c->IsLogarithmic() == log);
            delete c; gsl_spline2d_free(ref.s);
        }
        // grids that are not monotonic
        if (nr > 2) {
            V b = r; int k = I(0, nr - 2); if (I(0, 1)) b[k + 1] = b[k]; else std::swap(b[k], b[k + 1]);
            bool inc = true, de = true; for (int i = 0; i + 1 < nr; i++) { inc &= b[i] < b[i + 1]; de &= b[i] > b[i + 1]; }
            if (!inc && !de) { NumericDistributionFunction G; bool th = false; V g = fc; CASE("%s: radial grid not monotonic at %d", h.c_str(), k); try { G.Initialize(nr, np, nx, b.data(), p.data(), x.data(), g.data(), it); } catch (SOFTLibException &) { th = true; } CHECK(th, "accepted"); }
        }
        // zero values of a logarithmic table: zero there, finite elsewhere (linear interpolation)
        if (!cubic) {
            V z = part(0); int i = I(0, np - 1), j = I(0, nx - 1); z[j * np + i] = 0; NumericDistributionFunction G; V rr{1}; CASE("%s: logarithmic table with value 0 at (%d, %d)", h.c_str(), i, j);
            if (I(0, 1)) G.InitializeLog(1, np, nx, rr.data(), p.data(), x.data(), z.data(), it, alloc); else G.InsertMomentumSpaceDistributionLog(np, nx, 1, p.data(), x.data(), z.data(), it, alloc);
            for (double P : pts(p)) for (double X : pts(x)) { double v = G.Eval(1, P, X); CHECK(v >= 0 && std::isfinite(v), "value %g", v); }
            CHECK(G.Eval(1, p[i], x[j]) == 0, "value %g at the zero", G.Eval(1, p[i], x[j]));
        }
    }
}
MAIN(run)
