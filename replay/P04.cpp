#include "rkref.h"
template<unsigned N> struct Acc : public RKDP45<N> {
    Acc(double tol) : RKDP45<N>(tol) {}
    using RKDP45<N>::yerr; using RKDP45<N>::yout; using RKDP45<N>::dydxout; using RKDP45<N>::optimal_step; using RKDP45<N>::h;
};
template<unsigned N> static void dim() {
    for (int it = 0; it < N_(150, 3000); it++) {
        Sys<N> s; s.kind = I(0, 7); s.w = U(0.5, 3); s.lim = U(3, 8);
        double tol = std::pow(10.0, U(-9, -3));
        Acc<N> &r = *new Acc<N>(tol); r.SetEquation(&s);
        Ref<N> f; f.s = &s; f.tol = tol;
        if (I(0, 1)) { f.safe = U(0.5, 0.95); r.SetSafetyFactor(f.safe); }
        if (I(0, 1)) { f.beta = U(0.02, 0.08); r.SetExponentBeta(f.beta); f.alpha = 0.2 - 0.75 * f.beta; r.SetExponentAlpha(f.alpha); }
        if (I(0, 1)) { f.mn = U(0.1, 0.6); r.SetMinScaleFactor(f.mn); }
        if (I(0, 1)) { f.mx = U(1.5, 10); r.SetMaxScaleFactor(f.mx); }
        if (I(0, 2) == 0) r.ToggleDenseOutput(false);
        Vector<N> y0; typename Ref<N>::A y, d; for (unsigned i = 0; i < N; i++) y0[i] = y[i] = U(-1, 1);
        r.InitialValue(y0); s.f(0, y.data(), d.data());
        double t = 0; bool first = true, was = true;
        for (int k = 0; k < 60; k++) {
            CASE("N=%u system %d w=%.17g tol=%.17g safe=%.17g alpha=%.17g beta=%.17g min=%.17g max=%.17g step %d from t=%.17g", N, s.kind, s.w, tol, f.safe, f.alpha, f.beta, f.mn, f.mx, k, t);
            // continue from the state of the code, so that round-off does not build up
            f.opt = r.optimal_step; if (first) f.opt = 1.0;
            double h; bool clear; int rej0 = f.nrej; bool ok = f.step(t, y, d, h, clear); (void)rej0;
            if (!ok || h < 1e-12) break;
            if (first) NEAR(r.optimal_step, 1.0, 1e-12, 0);
            double T = r.Step(); first = false;
            if (!clear) break;
            CHECK(T > t, "time must increase"); 
            NEAR(T - t, h, 1e-5, 1e-14 * (1 + t));
            bool sharp = f.last * tol > 1e-11 || f.last == 0; if (sharp && (was || f.beta == 0)) NEAR(r.optimal_step / f.opt, 1.0, 1e-3, 0); was = sharp;
            double ay = 0; for (unsigned i = 0; i < N; i++) ay = std::max(ay, std::fabs(f.yn[i]));
            double e = 0, dd[N]; s.f(T, r.LastSolution(), dd);
            for (unsigned i = 0; i < N; i++) {
                NEAR(r.LastSolution()[i], f.yn[i], 1e-4 * std::min(1.0, h), 1e-5 * std::min(1.0, h) * (1 + ay) + 1e-13 * (1 + ay));
                if (s.kind < 3) NEAR(r.LastDerivative()[i], dd[i], 1e-7, 1e-7);
                double sk = tol + tol * std::max(std::fabs(y[i]), std::fabs(r.LastSolution()[i])); e += r.yerr[i] / sk * (r.yerr[i] / sk);
            }
            CHECK(std::sqrt(e / N) <= 1 + 1e-9, "the error estimate of a stored step exceeds the tolerance");
            t = T; for (unsigned i = 0; i < N; i++) { y[i] = r.LastSolution()[i]; d[i] = r.LastDerivative()[i]; }
            if (t > 20) break;
        }
    }
    // a single trial step and its estimate against the reference
    for (int it = 0; it < N_(300, 5000); it++) {
        Sys<N> s; s.kind = I(0, 2); s.w = U(0.5, 3); s.lim = 1; Ref<N> f; f.s = &s; f.tol = 1e-6;
        Acc<N> &r = *new Acc<N>(1e-6); r.SetEquation(&s);
        double t = U(-3, 3), h = U(0.01, 1.5); typename Ref<N>::A y, d; Vector<N> yv, dv;
        for (unsigned i = 0; i < N; i++) yv[i] = y[i] = U(-2, 2);
        s.f(t, y.data(), d.data()); for (unsigned i = 0; i < N; i++) dv[i] = d[i];
        f.trial(t, h, y, d);
        CASE("N=%u system %d w=%.17g trial step t=%.17g h=%.17g y0=%.17g", N, s.kind, s.w, t, h, y[0]);
        Vector<N> &o = r.InnerStep(t, h, yv, dv);
        for (unsigned i = 0; i < N; i++) { NEAR(o[i], f.yn[i], 1e-11, 1e-11); NEAR(r.yout[i], f.yn[i], 1e-11, 1e-11); NEAR(r.dydxout[i], f.k[6][i], 1e-10, 1e-10); NEAR(r.yerr[i], f.ye[i], 1e-9, 1e-13); CHECK(yv[i] == y[i] && dv[i] == d[i]); }
        NEAR(r.EstimateError(yv, o), f.err(y), 1e-6, 1e-6);
    }
}
// the step control on its own: any error, any history of rejections
static void control() {
    for (int it = 0; it < N_(400, 20000); it++) {
        Acc<2> &r = *new Acc<2>(1e-6); Ref<2> f; double eo = 1e-4; bool rej = false;
        if (I(0, 1)) { f.safe = U(0.5, 0.99); r.SetSafetyFactor(f.safe); f.beta = U(0, 0.08); r.SetExponentBeta(f.beta); f.alpha = U(0.1, 0.25); r.SetExponentAlpha(f.alpha); f.mn = U(0.05, 0.9); r.SetMinScaleFactor(f.mn); f.mx = U(1, 10); r.SetMaxScaleFactor(f.mx); }
        double h = U(1e-3, 2); r.h = h;
        for (int k = 0; k < 12; k++) {
            double e = I(0, 7) == 0 ? 0 : I(0, 7) == 0 ? NAN : I(0, 7) == 0 ? 1.0 : I(0, 9) == 0 ? INFINITY : std::pow(10.0, U(-8, 6));
            CASE("step control: error %.17g after h=%.17g errold=%.17g rejected=%d safe=%.17g alpha=%.17g beta=%.17g min=%.17g max=%.17g", e, h, eo, rej, f.safe, f.alpha, f.beta, f.mn, f.mx);
            r.h = h; bool ok = r.UpdateTimestep(e);
            CHECK(ok == (e <= 1)); CHECK(r.h == h);
            double sc;
            if (std::isnan(e)) sc = 0.1;
            else if (e <= 1) { sc = e == 0 ? f.mx : f.safe * std::pow(e, -f.alpha) * std::pow(eo, f.beta); if (sc < f.mn) sc = f.mn; if (sc > f.mx) sc = f.mx; if (rej) sc = std::min(sc, 1.0); eo = std::max(e, 1e-4); }
            else sc = std::max(f.safe * std::pow(e, -f.alpha), f.mn);
            rej = !ok;
            NEAR(r.optimal_step, h * sc, 1e-12, 0);
            h = r.optimal_step; if (h < 1e-9) h = U(1e-3, 2); 
        }
    }
}
// one step with step h solves y' = polynomial of degree 4 exactly, and the error of a smooth problem falls as h^6
static void order() {
    for (int it = 0; it < N_(50, 500); it++) {
        Sys<1> s; s.kind = 6; s.w = U(-5, 5); s.lim = 0; Acc<1> &r = *new Acc<1>(1e-6); r.SetEquation(&s);
        double h = U(0.1, 2); Vector<1> y, d; y[0] = U(-1, 1); d[0] = 1;
        CASE("polynomial right-hand side w=%.17g h=%.17g", s.w, h);
        Vector<1> &o = r.InnerStep(0, h, y, d);
        NEAR(o[0], y[0] + h + h*h + h*h*h + h*h*h*h + s.w * std::pow(h, 5) / 5, 1e-11, 1e-11);
        Sys<1> g; g.kind = 0; g.w = 0; g.lim = 0; Acc<1> &q = *new Acc<1>(1e-6); q.SetEquation(&g);
        double er[2]; for (int k = 0; k < 2; k++) { double hh = k ? 0.25 : 0.5; Vector<1> z, dz; z[0] = 1; dz[0] = 0.7; double ex = 1/0.3 + (1 - 1/0.3) * std::exp(-0.3 * hh); er[k] = std::fabs(q.InnerStep(0, hh, z, dz)[0] - ex); }
        CHECK(er[0] < 1e-7 && er[1] < er[0] / 30, "errors %g %g", er[0], er[1]);
    }
    for (int n = 0; n < 1; n++) { CASE("steps that cannot succeed end in an exception"); Sys<2> s; s.kind = 4; s.w = 1; s.lim = -10; Acc<2> &r = *new Acc<2>(1e-6); r.SetEquation(&s); Vector<2> y; y[0] = y[1] = 1; r.InitialValue(y);
        bool t = false; try { r.Step(); } catch (SOFTLibException &e) { t = true; } CHECK(t); CHECK(r.StepsTaken() == 1, "a failed step was stored"); }
}
static void body() { dim<1>(); dim<2>(); dim<3>(); dim<6>(); control(); order(); }
MAIN(body)
