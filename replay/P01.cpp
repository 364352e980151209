#include "h.h"
#include <softlib/Vector.h>
template<unsigned N> static Vector<N> rv(double s) { Vector<N> v; for (unsigned i = 0; i < N; i++) v[i] = I(0, 5) ? U(-s, s) : SP(); return v; }
template<unsigned N> static std::string sv(const Vector<N> &v) { std::string r = "("; for (unsigned i = 0; i < N; i++) r += h_fmt("%s%.17g", i ? "," : "", v[i]); return r + ")"; }
#define EACH(expr, ref) do { CASE("N=%u op=%s a=%s b=%s s=%.17g", N, #expr, sv(a0).c_str(), sv(b0).c_str(), s); Vector<N> a = a0, b = b0; (void)a; (void)b; \
    Vector<N> r = (expr); CHECK(r.size() == N); for (unsigned i = 0; i < N; i++) { NEAR(r[i], (ref), 1e-13, 1e-300); } } while (0)
#define SAME(x, y) do { for (unsigned i_ = 0; i_ < N; i_++) CHECK((x)[i_] == (y)[i_], "operand changed"); } while (0)
template<unsigned N> static void dim() {
    for (int it = 0; it < N_(40, 2000); it++) {
        double sc = std::pow(10.0, U(-3, 3));
        Vector<N> a0 = rv<N>(sc), b0 = rv<N>(sc);
        double s = SP();
        EACH(a + b, a0[i] + b0[i]); EACH(a - b, a0[i] - b0[i]);
        EACH(a + s, a0[i] + s); EACH(s + a, a0[i] + s); EACH(a - s, a0[i] - s); EACH(s - a, s - a0[i]);
        EACH(a * s, a0[i] * s); EACH(s * a, a0[i] * s); if (s != 0) EACH(a / s, a0[i] / s); EACH(-a, -a0[i]);
        EACH(a += b, a0[i] + b0[i]); EACH(a -= b, a0[i] - b0[i]); EACH(a += s, a0[i] + s); EACH(a -= s, a0[i] - s);
        EACH(a *= s, a0[i] * s); if (s != 0) EACH(a /= s, a0[i] / s); EACH(a = b, b0[i]); EACH(a = s, s);
        EACH(a += a, 2 * a0[i]); EACH(a -= a, 0.0); EACH(a = a, a0[i]);
        unsigned k = I(0, N - 1);
        if (a0[k] != 0) {
            EACH(a += a[k], a0[i] + a0[k]); EACH(a -= a[k], a0[i] - a0[k]); EACH(a *= a[k], a0[i] * a0[k]); EACH(a /= a[k], a0[i] / a0[k]); EACH(a = a[k], a0[k]);
        }
        { CASE("N=%u a=%s reductions", N, sv(a0).c_str());
          double d = 0, n2 = 0; for (unsigned i = 0; i < N; i++) { d += a0[i] * b0[i]; n2 += a0[i] * a0[i]; }
          const Vector<N> ca = a0, cb = b0;
          NEAR(ca.Dot(cb), d, 1e-12, 1e-12 * sc * sc); NEAR(ca.Norm(), std::sqrt(n2), 1e-13, 0);
          SAME(ca, a0); SAME(cb, b0);
          double arr[N + 2]; for (auto &x : arr) x = 7.25; ca.ToArray(arr); for (unsigned i = 0; i < N; i++) CHECK(arr[i] == a0[i]); CHECK(arr[N] == 7.25 && arr[N + 1] == 7.25);
          Vector<N> f(arr); SAME(f, a0); Vector<N> g; for (unsigned i = 0; i < N; i++) CHECK(g[i] == 0); g = arr; SAME(g, a0);
          Vector<N> c(ca); SAME(c, a0); c += b0; SAME(ca, a0);
          Vector<N> &ref = (c += b0); CHECK(&ref == &c); Vector<N> &r2 = (c = b0); CHECK(&r2 == &c); Vector<N> &r3 = (c *= s); CHECK(&r3 == &c);
          if (n2 > 0) { Vector<N> u = ca; u.Normalize(); NEAR(u.Norm(), 1.0, 1e-12, 0); for (unsigned i = 0; i < N; i++) NEAR(u[i] * std::sqrt(n2), a0[i], 1e-12, 1e-14 * sc); }
        }
        { Vector<N> x = a0, y = b0; CASE("N=%u operands of binary operators keep their value a=%s b=%s", N, sv(a0).c_str(), sv(b0).c_str());
          (void)(x + y); (void)(x - y); (void)(x * s); (void)(s - x);  (void)(-x); (void)x.Dot(y); (void)x.Norm(); SAME(x, a0); SAME(y, b0); }
        if (N != 3) { CASE("N=%u cross product refused", N); bool t = false; Vector<N> z; try { Vector<N>::Cross(a0, b0, z); } catch (SOFTLibException &e) { t = true; } CHECK(t); }
    }
}
static void cross() {
    typedef Vector<3> V;
    for (int it = 0; it < N_(300, 20000); it++) {
        V a = rv<3>(2), b = rv<3>(2), c = rv<3>(1); if (it % 7 == 0) b = a; if (it % 11 == 0) b = a * 2.0;
        double r[3] = {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]};
        CASE("cross a=%s b=%s", sv(a).c_str(), sv(b).c_str());
        auto eq = [&](const V &x, const V &y) { for (int i = 0; i < 3; i++) NEAR(x[i], y[i], 1e-13, 1e-14); };
        V R(r), a0 = a, b0 = b;
        eq(V::Cross(a, b), R); V &q = V::Cross(a, b, c); CHECK(&q == &c); eq(c, R); eq(a, a0); eq(b, b0);
        { V x = a; V::Cross(x, b, x); eq(x, R); } { V x = b; V::Cross(a, x, x); eq(x, R); } { V x = a; V::Cross(x, x, x); for (int i = 0; i < 3; i++) NEAR(x[i], 0, 0, 1e-14); }
    }
}
static void body() { dim<1>(); dim<2>(); dim<3>(); dim<4>(); dim<5>(); dim<7>(); dim<16>(); dim<33>(); cross(); }
MAIN(body)
