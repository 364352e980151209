// Support for the replay drivers: run the real code on concrete inputs.
#ifndef VERIF_H
#define VERIF_H
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <random>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <signal.h>
#include <limits>
#include <algorithm>
#include <functional>

static char *h_case = nullptr;
static long h_n = 0;
static std::mt19937_64 h_rng(1);
static bool h_thorough = false;
static inline void h_init(int argc, char **argv) {
    h_rng.seed(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    h_thorough = argc > 2 && !strcmp(argv[2], "thorough");
    const char *p = getenv("HCASE");
    int fd = p ? open(p, O_RDWR | O_CREAT | O_TRUNC, 0600) : -1;
    if (fd >= 0 && !ftruncate(fd, 4096)) h_case = (char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (!h_case || h_case == MAP_FAILED) { static char b[4096]; h_case = b; }
}
// name the case about to run (kept if the process dies)
static inline void CASE(const char *f, ...) {
    va_list a; va_start(a, f); vsnprintf(h_case, 4095, f, a); va_end(a); h_n++;
}
[[noreturn]] static inline void h_fail(const char *expr, int line, const char *msg) {
    printf("FAIL %s\n  check: %s (driver line %d)\n  %s\n", h_case, expr, line, msg);
    fflush(stdout); _exit(1);
}
static inline std::string h_fmt(const char *f, ...) {
    char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
#define CHECK(c, ...) do { if (!(c)) h_fail(#c, __LINE__, h_fmt("" __VA_ARGS__).c_str()); } while (0)
static inline bool h_near(double a, double b, double rel = 1e-9, double abs_ = 1e-12) {
    if (std::isnan(a) || std::isnan(b)) return false;
    if (a == b) return true;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
#define NEAR(a, b, rel, ab) do { double h_a = (a), h_b = (b); if (!h_near(h_a, h_b, rel, ab)) \
    h_fail(#a " == " #b, __LINE__, h_fmt("got %.17g, required %.17g", h_a, h_b).c_str()); } while (0)
static inline double U(double a = 0, double b = 1) { return a + (b - a) * std::uniform_real_distribution<double>(0, 1)(h_rng); }
static inline long I(long a, long b) { return std::uniform_int_distribution<long>(a, b)(h_rng); }
// a number that is often a special value
static inline double SP(double a = -2, double b = 2) {
    static const double s[] = {0, 1, -1, 2, 0.5, -0.5, 1e-8, 10, -3};
    return I(0, 3) == 0 ? s[I(0, 8)] : U(a, b);
}
static inline int N_(int quick, int thorough) { return h_thorough ? thorough : quick; }
static inline int h_done() { printf("OK %ld\n", h_n); fflush(stdout); _exit(0); }
#define MAIN(body) int main(int argc, char **argv) { h_init(argc, argv); try { body(); } \
    catch (std::exception &e) { h_fail("no exception", __LINE__, h_fmt("uncaught exception: %s", e.what()).c_str()); } \
    catch (...) { h_fail("no exception", __LINE__, "uncaught exception"); } return h_done(); }
#endif
