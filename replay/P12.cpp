#include "h.h"
#include <memory>
#include <softlib/DistributionFunction/LinearRadialProfile.h>
#include <softlib/DistributionFunction/PowerRadialProfile.h>
#include <softlib/DistributionFunction/GaussianRadialProfile.h>
#include <softlib/DistributionFunction/BesselRadialProfile.h>
#include <softlib/DistributionFunction/UniformRadialProfile.h>
#include <softlib/DistributionFunction/RadialDistributionFunction.h>
#include <softlib/DistributionFunction/UnitDistributionFunction.h>
#include <softlib/SOFTLibException.h>
static double J0(double x) { double s = 0, t = 1; for (int k = 1; k < 60; k++) { s += t; t *= -x * x / 4 / k / k; } return s; }
struct MS : public MomentumSpaceDistributionFunction {
    double k; static int clones; MS(double k) : k(k) {}
    using MomentumSpaceDistributionFunction::Eval;
    slibreal_t Eval(const slibreal_t p, const slibreal_t xi) override { return k * p + 3 * xi * xi * xi; }
    MS *MinClone() override { clones++; return new MS(k); }
};
int MS::clones = 0;
static void run() {
    for (int t = 0; t < N_(4000, 60000); t++) {
        int kind = I(0, 4);
        double r0 = SP(-1, 1), r1 = I(0, 9) ? r0 + U(0.1, 2) : SP(-1, 1), a = I(0, 9) ? U(0.1, 3) : SP(), b = I(0, 9) ? U(0.1, 3) : SP(), c = I(0, 9) ? U(0.1, 3) : SP();
        static const char *nm[] = {"linear", "power", "gaussian", "bessel", "uniform"};
        std::string h = h_fmt("%s profile rmin=%.17g rmax=%.17g a=%.17g b=%.17g c=%.17g", nm[kind], r0, r1, a, b, c);
        CASE("%s", h.c_str());
        bool bad = kind < 4 && (r0 >= r1 || (kind == 2 && (a <= 0 || b <= 0 || c <= 0)));
        RadialProfile *f = nullptr; bool thrown = false;
        if (kind == 1 && a < 0) continue;
        try {
            if (kind == 0) f = new LinearRadialProfile(r0, r1);
            else if (kind == 1) f = new PowerRadialProfile(r0, r1, a);
            else if (kind == 2) f = new GaussianRadialProfile(r0, r1, a, b, c);
            else if (kind == 3) f = new BesselRadialProfile(r0, r1);
            else f = new UniformRadialProfile();
        } catch (SOFTLibException &) { thrown = true; }
        CHECK(thrown == bad, "profile %s refused", bad ? "must be" : "must not be");
        if (thrown) continue;
        RadialProfile *g = f->MinClone();
        CHECK(g != f);
        double k = U(-2, 2); MS ms(k); MomentumSpaceDistributionFunction *mp = &ms;
        RadialDistributionFunction *d1 = new RadialDistributionFunction(f, &ms), *d2 = ms.ToRadialDistribution(f), *d3 = d1->MinClone(), *d4 = ms.ToRadialDistribution();
        for (int i = 0; i < 12; i++) {
            double s = I(0, 2) ? U(-1, 1) : 0, rho = I(0, 5) ? U(r0 - 0.3 * (r1 - r0), r1 + 0.3 * (r1 - r0)) : I(0, 1) ? r0 : r1;
            if (s != 0 && (std::fabs(rho - r0) < 1e-9 || std::fabs(rho - r1) < 1e-9)) s = 0;
            if (s == 0 && I(0, 1)) { /* plain */ }
            double r = rho + s, q = r - s, x = (q - r0) / (r1 - r0), want;
            if (kind == 4) want = 1;
            else if (q < r0 || q >= r1) want = 0;
            else want = kind == 0 ? 1 - x : kind == 1 ? 1 - std::pow(x, a) : kind == 2 ? a * std::exp(-(q - b) * (q - b) / c / c) : J0(2.404825557695773 * x);
            double p = U(0, 50), xi = U(-1, 1);
            CASE("%s at r=%.17g shift=%.17g p=%.17g xi=%.17g k=%.17g", h.c_str(), r, s, p, xi, k);
            NEAR(f->Eval(r, s), want, 1e-8, 1e-9); NEAR(g->Eval(r, s), want, 1e-8, 1e-9);
            double m = k * p + 3 * xi * xi * xi;
            NEAR(d1->Eval(r, p, xi, s), want * m, 1e-8, 1e-7); NEAR(d2->Eval(r, p, xi, s), want * m, 1e-8, 1e-7); NEAR(d3->Eval(r, p, xi, s), want * m, 1e-8, 1e-7);
            NEAR(d4->Eval(r, p, xi, s), m, 1e-8, 1e-7); NEAR(mp->Eval(r, p, xi, s), m, 1e-8, 1e-7);
            if (s == 0) { NEAR(d1->Eval(r, p, xi), want * m, 1e-8, 1e-7); }
        }
    }
}
MAIN(run)
