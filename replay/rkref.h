// A reference Dormand-Prince 5(4) step, step-size control and dense output, written from the literature.
#ifndef RKREF_H
#define RKREF_H
#include "h.h"
#include <softlib/config.h>
#include <softlib/RKDP45.h>
#include <softlib/GeneralEquation.h>
#include <softlib/SOFTLibException.h>
#include <array>
template<unsigned N> struct Sys : public IntegratorEquation<N> {
    int kind; double w, lim; long calls = 0;
    void f(double t, const double *y, double *d) const {
        for (unsigned i = 0; i < N; i++) switch (kind) {
            case 0: d[i] = std::cos(w * t) - 0.3 * y[i]; break;
            case 1: d[i] = (i % 2 ? 1 : -1) * w * y[N - 1 - i] + 0.1 * y[i]; break;
            case 2: d[i] = std::sin(y[i] + t) + 0.2 * y[(i + 1) % N] * y[i] / (1 + y[i] * y[i]); break;
            case 3: d[i] = (t > 1.3 && t < 1.31) ? 40.0 * w : -w * y[i]; break;      // steps are rejected
            case 4: d[i] = y[i] > lim ? NAN : w * (1 + 0.2 * i); break;               // undefined beyond a limit
            case 5: d[i] = 0; break;
            case 6: d[i] = 1 + 2 * t + 3 * t * t + 4 * t * t * t + w * t * t * t * t; break;
            default: d[i] = -200 * w * (y[i] - std::cos(t)); break;                    // stiff
        }
    }
    Vector<N> &Evaluate(const slibreal_t t, const Vector<N> &y, Vector<N> &o) override {
        calls++; double a[N], d[N]; y.ToArray(a); f(t, a, d); for (unsigned i = 0; i < N; i++) o[i] = d[i]; return o;
    }
};
template<unsigned N> struct Ref {
    typedef std::array<double, N> A;
    const Sys<N> *s; double tol, safe = 0.9, alpha = 0.2, beta = 0, mn = 0.2, mx = 10, errold = 1e-4, opt = 1; bool rej = false;
    int nrej = 0; double last = 0;
    A k[7], yn, ye;
    void trial(double t, double h, const A &y, const A &d) {
        static const double c[6] = {0, 1.0/5, 3.0/10, 4.0/5, 8.0/9, 1};
        static const double a[6][5] = {{0}, {1.0/5}, {3.0/40, 9.0/40}, {44.0/45, -56.0/15, 32.0/9},
            {19372.0/6561, -25360.0/2187, 64448.0/6561, -212.0/729}, {9017.0/3168, -355.0/33, 46732.0/5247, 49.0/176, -5103.0/18656}};
        static const double b[6] = {35.0/384, 0, 500.0/1113, 125.0/192, -2187.0/6784, 11.0/84};
        static const double bh[7] = {5179.0/57600, 0, 7571.0/16695, 393.0/640, -92097.0/339200, 187.0/2100, 1.0/40};
        k[0] = d;
        for (int q = 1; q < 6; q++) {
            A z; for (unsigned i = 0; i < N; i++) { z[i] = y[i]; for (int p = 0; p < q; p++) z[i] += h * a[q][p] * k[p][i]; }
            s->f(t + c[q] * h, z.data(), k[q].data());
        }
        for (unsigned i = 0; i < N; i++) { yn[i] = y[i]; for (int p = 0; p < 6; p++) yn[i] += h * b[p] * k[p][i]; }
        s->f(t + h, yn.data(), k[6].data());
        for (unsigned i = 0; i < N; i++) { ye[i] = 0; for (int p = 0; p < 7; p++) ye[i] += h * ((p < 6 ? b[p] : 0) - bh[p]) * k[p][i]; }
    }
    double err(const A &y) const {
        double e = 0; for (unsigned i = 0; i < N; i++) { double sk = tol + tol * std::max(std::fabs(y[i]), std::fabs(yn[i])); e += ye[i] / sk * (ye[i] / sk); }
        return std::sqrt(e / N);
    }
    // the step taken from (t, y), its length, whether the verdict was clear of round-off
    bool step(double t, const A &y, const A &d, double &h, bool &clear) {
        h = opt; clear = true;
        while (true) {
            trial(t, h, y, d); double e = last = err(y);
            if (std::fabs(e - 1) < 1e-6) clear = false;
            if (std::isnan(e)) { opt = h * 0.1; rej = true; nrej++; }
            else if (e <= 1) {
                double sc = e == 0 ? mx : safe * std::pow(e, -alpha) * std::pow(errold, beta);
                if (sc < mn) sc = mn;
                if (sc > mx) sc = mx;
                if (rej && sc > 1) sc = 1;
                opt = h * sc; errold = std::max(e, 1e-4); rej = false; return true;
            } else { opt = h * std::max(safe * std::pow(e, -alpha), mn); rej = true; nrej++; }
            h = opt;
            if (std::fabs(h) <= std::fabs(t) * 1e-15) return false;
        }
    }
};
#endif
