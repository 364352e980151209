#include "h.h"
#include <softlib/DistributionFunction/AnalyticalAvalanche.h>
#include <softlib/DistributionFunction/ConnorHastieDistribution.h>
#include <softlib/DistributionFunction/ExponentialPitch.h>
#include <softlib/DistributionFunction/UnitDistributionFunction.h>
static double mec = 9.10938356e-31 * 299792458.0;
static void run() {
    for (int t = 0; t < N_(6000, 100000); t++) {
        int kind = I(0, 3), how = I(0, 2);
        double E = U(0.1, 50), L = U(8, 25), Z = I(0, 3) ? U(1, 6) : 1, pm = U(1, 60), dp = I(0, 2) ? U(0.1, 5) : 0, C = SP(-20, 60);
        static const char *nm[] = {"avalanche", "Connor-Hastie", "exponential pitch", "unit"};
        std::string h = h_fmt("%s E=%.17g lnLambda=%.17g Z=%.17g pMax=%.17g deltaP=%.17g C=%.17g set up by %s", nm[kind], E, L, Z, pm, dp, C, how == 0 ? "the constructor" : how == 1 ? "initialisation" : "initialising twice");
        CASE("%s", h.c_str());
        MomentumSpaceDistributionFunction *f;
        bool nocut = kind == 1 && I(0, 3) == 0; if (nocut) pm = dp = 0;
        if (kind == 0) { auto *a = how ? new AnalyticalAvalanche() : new AnalyticalAvalanche(E, L, Z); if (how == 2) a->Initialize(3, 10, 2); if (how) a->Initialize(E, L, Z); f = a; }
        else if (kind == 1) { auto *a = how ? new ConnorHastieDistribution() : nocut ? new ConnorHastieDistribution(E, Z) : new ConnorHastieDistribution(E, Z, pm, dp); if (how == 2) a->Initialize(3, 2, 10, 1); if (how) { if (nocut) a->Initialize(E, Z); else a->Initialize(E, Z, pm, dp); } f = a; }
        else if (kind == 2) { auto *a = how ? new ExponentialPitch() : new ExponentialPitch(C); if (how == 2) a->Initialize(-1.5); if (how) a->Initialize(C); f = a; }
        else f = new UnitDistributionFunction();
        MomentumSpaceDistributionFunction *g = f->MinClone();
        for (int i = 0; i < 10; i++) {
            double p = I(0, 9) ? U(0.05, 80) : kind == 1 ? pm : 1, xi = I(0, 5) ? U(-1, 1) : I(0, 1) ? 1 : -1, want = 1, gm = std::sqrt(1 + p * p), x = std::fabs(xi);
            if (p == 0) p = 1;
            if (kind == 0) { double A = (E + 1) / (Z + 1) * gm, g0 = L * std::sqrt(Z + 5); want = mec * A / (2 * M_PI * g0 * p * p) * std::exp(-gm / g0 - A * (1 - x)) / (1 - std::exp(-2 * A)); }
            else if (kind == 1) { if (x < 0.02) continue; want = std::exp(-(E + 1) / (2 * (Z + 1)) * p * (1 - x * x) / x - (dp > 0 && p >= pm ? (p - pm) * (p - pm) / dp / dp : 0)) / p / x; }
            else if (kind == 2) want = std::exp(C * x);
            CASE("%s at p=%.17g xi=%.17g", h.c_str(), p, xi);
            double rho = U(0, 2), s = U(-1, 1);
            NEAR(f->Eval(p, xi), want, 1e-7, 1e-300); NEAR(g->Eval(p, xi), want, 1e-7, 1e-300);
            NEAR(f->Eval(rho, p, xi, s), want, 1e-7, 1e-300); NEAR(static_cast<DistributionFunction *>(g)->Eval(rho, p, xi), want, 1e-7, 1e-300);
        }
        delete f; delete g;
    }
}
MAIN(run)
