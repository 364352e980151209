#include "h.h"
#include <softlib/Matrix.h>
template<unsigned M, unsigned N> static void fill(Matrix<M,N> &a, double *ref) { for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < N; j++) { double v = SP(-3, 3); a(i,j) = v; ref[i*N+j] = v; } }
#define EW(expr, refe) do { CASE("%ux%u op=%s it=%d", M, N, #expr, it); Matrix<M,N> a(ra), b(rb); Matrix<M,N> r((expr)); \
    for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < N; j++) { double x = ra[i*N+j], y = rb[i*N+j]; (void)x; (void)y; NEAR(r(i,j), (refe), 1e-13, 1e-14); } } while (0)
template<unsigned M, unsigned N, unsigned K> static void dims() {
    for (int it = 0; it < N_(15, 600); it++) {
        double ra[M*N], rb[M*N], rc[N*K], rq[N*N], s = SP();
        Matrix<M,N> A, B; fill(A, ra); fill(B, rb); Matrix<N,K> C; fill(C, rc); Matrix<N,N> Q; fill(Q, rq);
        CASE("%ux%u construction", M, N);
        CHECK(A.Rows() == M && A.Cols() == N);
        { Matrix<M,N> z; for (unsigned i = 0; i < M*N; i++) CHECK(z(i) == 0); Matrix<M,N> f((const double *)ra), g(A); for (unsigned i = 0; i < M*N; i++) { CHECK(f(i) == ra[i]); CHECK(g(i) == ra[i]); CHECK(A(i) == ra[i]); }
          const double *rows[M]; for (unsigned i = 0; i < M; i++) rows[i] = ra + i*N; Matrix<M,N> h((const double **)rows); for (unsigned i = 0; i < M*N; i++) CHECK(h(i) == ra[i]);
          Vector<M> x; Vector<N> y; for (unsigned i = 0; i < M; i++) x[i] = U(-1,1); for (unsigned j = 0; j < N; j++) y[j] = U(-1,1);
          Matrix<M,N> o(x, y); for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < N; j++) NEAR(o(i,j), x[i]*y[j], 1e-14, 0);
          CASE("%ux%u matrix-vector", M, N);
          Vector<M> u = A * y; for (unsigned i = 0; i < M; i++) { double t = 0; for (unsigned j = 0; j < N; j++) t += ra[i*N+j]*y[j]; NEAR(u[i], t, 1e-12, 1e-13); }
          Vector<N> v = x * A; for (unsigned j = 0; j < N; j++) { double t = 0; for (unsigned i = 0; i < M; i++) t += ra[i*N+j]*x[i]; NEAR(v[j], t, 1e-12, 1e-13); }
        }
        EW(a + b, x + y); EW(a - b, x - y); EW(a + s, x + s); EW(s + a, x + s); EW(a - s, x - s); EW(s - a, s - x); EW(a * s, x * s); EW(s * a, x * s); EW(-a, -x);
        EW(a += b, x + y); EW(a -= b, x - y); EW(a += s, x + s); EW(a -= s, x - s); EW(a *= s, x * s); EW(a = b, y); EW(a += a, 2*x); EW(a -= a, 0.0); EW(a = a, x);
        { CASE("%ux%u operands keep their value", M, N); const Matrix<M,N> a(ra), b(rb); (void)(a+b); (void)(a-b); (void)(a*s); (void)(s-a); (void)(a*C); { Matrix<M,N> t(ra); Matrix<M,N> u(-t); for (unsigned i = 0; i < M*N; i++) CHECK(t(i) == ra[i]); }
          for (unsigned i = 0; i < M*N; i++) { CHECK(a(i) == ra[i]); CHECK(b(i) == rb[i]); } }
        { CASE("%ux%ux%u product", M, N, K); Matrix<M,K> P(A * C); for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < K; j++) { double t = 0; for (unsigned k = 0; k < N; k++) t += ra[i*N+k]*rc[k*K+j]; NEAR(P(i,j), t, 1e-11, 1e-12); } }
        { CASE("%ux%u *= %ux%u", M, N, N, N); Matrix<M,N> P(A); Matrix<M,N> &r = (P *= Q); CHECK(&r == &P); for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < N; j++) { double t = 0; for (unsigned k = 0; k < N; k++) t += ra[i*N+k]*rq[k*N+j]; NEAR(P(i,j), t, 1e-11, 1e-12); } }
        { CASE("%ux%u square in place", N, N); Matrix<N,N> P(Q); P *= P; for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < N; j++) { double t = 0; for (unsigned k = 0; k < N; k++) t += rq[i*N+k]*rq[k*N+j]; NEAR(P(i,j), t, 1e-11, 1e-12); } }
    }
}
static void body() { dims<1,1,1>(); dims<2,2,2>(); dims<3,3,3>(); dims<2,3,4>(); dims<4,3,2>(); dims<1,5,2>(); dims<5,1,3>(); dims<6,7,3>(); }
MAIN(body)
