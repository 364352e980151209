#include "rkref.h"
template<unsigned N> static void dim() {
    for (int it = 0; it < N_(60, 1000); it++) {
        Sys<N> s; s.kind = (int[]){0, 1, 2, 3, 6}[I(0, 4)]; s.w = U(0.5, 3); s.lim = 0; double tol = std::pow(10.0, U(-9, -4));
        RKDP45<N> &r = *new RKDP45<N>(tol); r.SetEquation(&s);
        if (I(0, 2) == 0) { Vector<N> z; for (unsigned i = 0; i < N; i++) z[i] = U(-3, 3); r.InitialValue(z); for (int k = I(0, 9); k > 0; k--) r.Step(); }      // used before
        Vector<N> y0; for (unsigned i = 0; i < N; i++) y0[i] = U(-1, 1);
        r.InitialValue(y0);
        CASE("N=%u dense output before the first step", N);
        { double tt = 0, oo[N]; bool t = false; try { r.OutputDense(1, &tt, oo); } catch (SOFTLibException &e) { t = true; } CHECK(t); }
        int n = it == 0 ? 1205 : (int)I(1, 12); if (it == 0) r.SetMaxScaleFactor(1.01);
        for (int k = 0; k < n; k++) { CASE("N=%u system %d w=%.17g tol=%.17g step %d", N, s.kind, s.w, tol, k); r.Step(); }
        // the reference interpolant of each step, from the stored end points
        typedef typename Ref<N>::A A;
        std::vector<Ref<N>> R(n); std::vector<double> T(n + 1); std::vector<double> hh(n);
        for (int k = 0; k <= n; k++) T[k] = r.TimeAt(k);
        for (int k = 0; k < n; k++) { A y, d; for (unsigned i = 0; i < N; i++) { y[i] = r.SolutionAt(k)[i]; d[i] = r.DerivativeAt(k)[i]; } R[k].s = &s; hh[k] = T[k+1] - T[k]; R[k].trial(T[k], hh[k], y, d); }
        static const double D[7] = {-12715105075.0/11282082432.0, 0, 87487479700.0/32700410799.0, -10690763975.0/1880347072.0, 701980252875.0/199316789632.0, -1453857185.0/822651844.0, 69997945.0/29380423.0};
        auto ref = [&](double t, unsigned i, double &sc) {
            int k = std::lower_bound(T.begin(), T.end(), t) - T.begin(); k = std::max(0, k - 1); k = std::min(k, n - 1);
            double h = hh[k], th = (t - T[k]) / h, t1 = 1 - th, y = r.SolutionAt(k)[i], Y = r.SolutionAt(k+1)[i], d = r.DerivativeAt(k)[i], d2 = r.DerivativeAt(k+1)[i];
            double q = 0; for (int p = 0; p < 7; p++) q += D[p] * R[k].k[p][i];
            // cubic Hermite interpolant plus the correction of order four
            double H = (1 + 2*th) * t1*t1 * y + th * t1*t1 * h*d + th*th * (3 - 2*th) * Y - th*th * t1 * h*d2;
            sc = 1 + std::fabs(y) + std::fabs(Y) + std::fabs(h*d) + std::fabs(h*d2) + std::fabs(h*q);
            return H + th*th * t1*t1 * h*q;
        };
        for (int mode = 0; mode < 6; mode++) {
            int m = mode == 2 ? 1 : (int)I(2, 40); std::vector<double> t(m), o(m * N + 2, 7.25);
            for (auto &x : t) x = I(0, 3) == 0 ? T[I(0, n)] : U(T[0], T[n]);
            if (mode < 2) std::sort(t.begin(), t.end());
            if (mode == 3) std::sort(t.begin(), t.end(), std::greater<double>());
            if (mode == 1) { t[0] = T[0]; t[m-1] = T[n]; }
            auto t0 = t;
            CASE("N=%u system %d w=%.17g tol=%.17g y0=%.17g steps %d: dense output at %d times, first %.17g last %.17g (%s)", N, s.kind, s.w, tol, y0[0], n, m, t[0], t[m-1], mode < 2 ? "ascending" : mode == 3 ? "descending" : "any order");
            if (mode == 5) {
                double a = U(T[0], T[n]), b = U(T[0], T[n]); if (I(0, 2) == 0) { a = T[0]; b = T[n]; }
                CASE("N=%u system %d w=%.17g tol=%.17g y0=%.17g steps %d: dense output on %d points from %.17g to %.17g", N, s.kind, s.w, tol, y0[0], n, m, a, b);
                static_cast<Integrator<N>&>(r).OutputDense(m, a, b, o.data(), t.data());
                for (int q = 0; q < m; q++) NEAR(t[q], a + (b - a) * q / (m - 1), 1e-12, 1e-12 * (1 + std::fabs(b)));
                CHECK(t[0] == a && t[m-1] == b);
            } else { r.OutputDense(m, t.data(), o.data()); CHECK(t == t0, "the times requested were changed"); }
            for (int q = 0; q < m; q++) for (unsigned i = 0; i < N; i++) { double sc, v = ref(t[q], i, sc); NEAR(o[q * N + i], v, 1e-8, 1e-9 * sc); }
            for (int q = 0; q < m; q++) for (int k = 0; k <= n; k++) if (t[q] == T[k]) for (unsigned i = 0; i < N; i++) NEAR(o[q*N+i], r.SolutionAt(k)[i], 1e-9, 1e-9);
            CHECK(o[m*N] == 7.25 && o[m*N+1] == 7.25);
        }
        // refused: extrapolation
        for (int q = 0; q < 4; q++) {
            double bad = (q & 1) ? T[n] + std::pow(10.0, U(-6, 2)) : T[0] - std::pow(10.0, U(-6, 2)); std::vector<double> t(3), o(3 * N);
            for (auto &x : t) x = U(T[0], T[n]); t[I(0, 2)] = bad;
            CASE("N=%u dense output at %.17g outside [%.17g, %.17g] is refused", N, bad, T[0], T[n]);
            bool th = false; try { r.OutputDense(3, t.data(), o.data()); } catch (SOFTLibException &e) { th = true; } CHECK(th);
        }
        { double t1[1], o1[N]; CASE("N=%u one time on a grid", N); r.OutputDense(1, T[n], T[n], o1, t1); CHECK(t1[0] == T[n]); for (unsigned i = 0; i < N; i++) NEAR(o1[i], r.LastSolution()[i], 1e-10, 1e-10);
          bool a = false, b = false; try { r.OutputDense(1, T[0], T[n], o1, t1); } catch (SOFTLibException &e) { a = true; } CHECK(a); try { r.OutputDense(0, T[0], T[n], o1, t1); } catch (SOFTLibException &e) { b = true; } CHECK(b); }
    }
    CASE("N=%u dense output switched off", N);
    { Sys<N> s; s.kind = 0; s.w = 1; s.lim = 0; RKDP45<N> &r = *new RKDP45<N>(1e-6); r.ToggleDenseOutput(false); CHECK(!r.HasDenseOutput()); r.SetEquation(&s); Vector<N> y; r.InitialValue(y); r.Step(); r.Step();
      double t = 0, o[N]; bool th = false; try { r.OutputDense(1, &t, o); } catch (SOFTLibException &e) { th = true; } CHECK(th); r.ToggleDenseOutput(true); CHECK(r.HasDenseOutput()); }
}
// the interpolant reproduces solutions that are polynomials up to degree four
static void poly() {
    for (int it = 0; it < N_(100, 2000); it++) {
        Sys<2> s; s.kind = 6; s.w = 0; s.lim = 0; RKDP45<2> &r = *new RKDP45<2>(1e-3); r.SetEquation(&s); Vector<2> y; y[0] = 0; y[1] = 1; r.InitialValue(y);
        for (int k = 0; k < 3; k++) r.Step();
        double t = U(0, r.LastTime()), o[2]; CASE("polynomial solution at t=%.17g of [0, %.17g]", t, r.LastTime()); r.OutputDense(1, &t, o);
        double x = t + t*t + t*t*t + t*t*t*t; NEAR(o[0], x, 1e-9, 1e-9); NEAR(o[1], 1 + x, 1e-9, 1e-9);
    }
}
static void body() { dim<1>(); dim<2>(); dim<3>(); dim<6>(); poly(); }
MAIN(body)
