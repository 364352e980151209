#include "rkref.h"
template<unsigned N> static Vector<N> rv() { Vector<N> v; for (unsigned i = 0; i < N; i++) v[i] = I(0, 4) ? U(-5, 5) : SP(); return v; }
template<unsigned N> static void dim() {
    for (int it = 0; it < N_(6, 40); it++) {
        Sys<N> s; s.kind = I(0, 2); s.w = U(0.5, 2); s.lim = 1;
        RKDP45<N> *q = new RKDP45<N>(1e-6); RKDP45<N> &r = *q;     // never released by the library either
        if (I(0, 2) == 0) r.ToggleDenseOutput(false);
        CASE("N=%u new integrator", N);
        CHECK(r.StepsTaken() == 0 && r.LastTime() == 0 && r.LastSolution() == nullptr && r.LastDerivative() == nullptr);
        r.SetEquation(&s);
        for (int round = 0; round < 3; round++) {
            std::vector<double> T; std::vector<std::vector<double>> Y, D;
            Vector<N> y0 = rv<N>(), keep = y0;
            double a[N], d[N]; y0.ToArray(a); s.f(0, a, d);
            CASE("N=%u initial value, round %d", N, round);
            r.InitialValue(y0); T.push_back(0); Y.emplace_back(a, a + N); D.emplace_back(d, d + N);
            for (unsigned i = 0; i < N; i++) CHECK(y0[i] == keep[i]);
            int n = it == 0 ? (round == 0 ? 2503 : round == 1 ? 1000 : 1001) : it == 1 ? 998 + round : (int)I(0, 40);
            auto all = [&](bool full) {
                CHECK(r.StepsTaken() == T.size(), "%u steps, required %zu", r.StepsTaken(), T.size());
                CHECK(r.LastTime() == T.back());
                for (size_t q = full ? 0 : T.size() - 1; q < T.size(); q++) {
                    CHECK(r.TimeAt(q) == T[q], "time of step %zu", q);
                    for (unsigned i = 0; i < N; i++) { CHECK(r.SolutionAt(q)[i] == Y[q][i], "solution of step %zu", q); CHECK(r.DerivativeAt(q)[i] == D[q][i], "derivative of step %zu", q); }
                }
                for (unsigned i = 0; i < N; i++) { CHECK(r.LastSolution()[i] == Y.back()[i]); CHECK(r.LastDerivative()[i] == D.back()[i]); }
            };
            all(true);
            for (int k = 0; k < n; k++) {
                double t = T.back() + U(1e-3, 1); Vector<N> y = rv<N>(), yp = rv<N>();
                CASE("N=%u round %d storing step %d at t=%.17g", N, round, k + 1, t);
                if (I(0, 1)) static_cast<Integrator<N>&>(r).StoreSolution(t, y, yp); else r.StoreSolution(t, y, yp);
                T.push_back(t); double z[N]; y.ToArray(z); Y.emplace_back(z, z + N); yp.ToArray(z); D.emplace_back(z, z + N);
                all(I(0, 200) == 0);
            }
            all(true);
            // steps of the integrator are appended
            RKDP45<N> &g = *new RKDP45<N>(1e-5); g.SetEquation(&s); g.InitialValue(y0); T.assign(1, 0); 
            for (int k = 1; k < 8; k++) {
                CASE("N=%u step %d", N, k); double t = g.Step();
                CHECK(g.StepsTaken() == (unsigned)k + 1); CHECK(g.LastTime() == t && g.TimeAt(k) == t); CHECK(t > T.back()); T.push_back(t);
                for (int m = 0; m <= k; m++) CHECK(g.TimeAt(m) == T[m]);
                double dd[N]; s.f(t, g.LastSolution(), dd);
                for (unsigned i = 0; i < N; i++) NEAR(g.LastDerivative()[i], dd[i], 1e-9, 1e-9);
            }
        }
    }
}
static void lengthy() {
    Sys<1> s; s.kind = 0; s.w = 1; s.lim = 0; RKDP45<1> &r = *new RKDP45<1>(1e-6); r.SetEquation(&s); Vector<1> y; y[0] = 0.5; r.InitialValue(y); Vector<1> d; double y0 = 0.5;
    unsigned n = h_thorough ? 1000000 : 70000;
    for (unsigned k = 1; k <= n; k++) { CASE("one dimension, storing step %u", k); y[0] = k * 0.25; d[0] = -0.5 * k; r.StoreSolution(k, y, d); CHECK(r.StepsTaken() == k + 1); CHECK(r.LastTime() == k && r.LastSolution()[0] == k * 0.25); }
    CHECK(r.SolutionAt(0)[0] == y0); for (unsigned k = 1; k <= n; k++) { CASE("one dimension, step %u of %u", k, n); CHECK(r.TimeAt(k) == k && r.SolutionAt(k)[0] == k * 0.25 && r.DerivativeAt(k)[0] == -0.5 * k); }
}
static void body() { lengthy(); dim<1>(); dim<2>(); dim<3>(); dim<5>(); dim<8>(); }
MAIN(body)
