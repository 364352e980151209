#include "h.h"
#include <png.h>
#include <fstream>
#include <sys/stat.h>
#include <softlib/config.h>
#include <softlib/ImageGenerator/ImageGenerator.h>
#include <softlib/ImageGenerator/ImageColormap.h>
#include <softlib/SOFTLibException.h>
typedef ImageColormap::scolor_t C;
static std::string dir;
struct Map { std::vector<C> c; double lo, hi; };
// the colours a value may get: linear between neighbouring colours, truncated; rounding may move it by one next to an integer
static void admissible(const Map &m, double v, double out[3]) {
    int n = m.c.size(); double i = (v - m.lo) / (m.hi - m.lo) * (n - 1);
    int l; double f; if (!(i > 0)) { l = 0; f = 0; } else if (i >= n - 1) { l = n - 1; f = 0; } else { l = (int)std::floor(i); f = i - l; }
    const C &a = m.c[l], &b = m.c[std::min(l + 1, n - 1)];
    out[0] = (1 - f) * a.red + f * b.red; out[1] = (1 - f) * a.green + f * b.green; out[2] = (1 - f) * a.blue + f * b.blue;
}
static void same(const Map &m, double v, long r, long g, long b) {
    double w[3]; admissible(m, v, w); long o[3] = {r, g, b};
    for (int k = 0; k < 3; k++) CHECK(o[k] <= w[k] + 1e-6 && w[k] - 1e-6 < o[k] + 1, "component %d is %ld, required %.12g truncated", k, o[k], w[k]);
}
static Map rmap() { Map m; int n = I(0, 9) == 0 ? 1 : (int)I(2, 12); for (int i = 0; i < n; i++) m.c.push_back({(unsigned)I(0, 255), (unsigned)I(0, 255), (unsigned)I(0, 255)}); m.lo = I(0, 2) ? U(-3, 3) : 0; m.hi = m.lo + std::pow(10.0, U(-2, 2)); return m; }
static std::vector<double> pixels(const Map &m, int n) { std::vector<double> v(n); for (auto &x : v) x = I(0, 9) == 0 ? (I(0, 1) ? m.lo : m.hi) : U(m.lo - 0.2 * (m.hi - m.lo), m.hi + 0.2 * (m.hi - m.lo)); return v; }
static void ppm(const std::string &f, const Map &m, const double *img, unsigned nr, unsigned nc) {
    std::ifstream s(f); std::string sig; long w, h, mx; CHECK((s >> sig >> w >> h >> mx) && sig == "P3", "header"); CHECK(w == (long)nr && h == (long)nc && mx == 255, "size %ld x %ld", w, h);
    for (unsigned y = 0; y < nc; y++) for (unsigned x = 0; x < nr; x++) { long r, g, b; CHECK(bool(s >> r >> g >> b), "pixel %u,%u missing", x, y); same(m, img[x * nc + y], r, g, b); }
    std::string rest; CHECK(!(s >> rest), "text after the image");
}
static void png(const std::string &f, const Map &m, const double *img, unsigned nr, unsigned nc) {
    png_image p; memset(&p, 0, sizeof p); p.version = PNG_IMAGE_VERSION; CHECK(png_image_begin_read_from_file(&p, f.c_str()), "not a PNG file"); CHECK(!(p.format & PNG_FORMAT_FLAG_ALPHA) && (p.format & PNG_FORMAT_FLAG_COLOR));
    p.format = PNG_FORMAT_RGB; CHECK(p.width == nr && p.height == nc, "size %u x %u", p.width, p.height);
    std::vector<uint8_t> b(PNG_IMAGE_SIZE(p)); CHECK(png_image_finish_read(&p, nullptr, b.data(), 0, nullptr));
    for (unsigned y = 0; y < nc; y++) for (unsigned x = 0; x < nr; x++) { uint8_t *q = &b[3 * (y * nr + x)]; same(m, img[x * nc + y], q[0], q[1], q[2]); }
}
static void body() {
    char t[] = "/tmp/verif_p21_XXXXXX"; CHECK(mkdtemp(t)); dir = t;
    struct G { ~G() { for (auto s : {"/a.ppm", "/a.png"}) unlink((dir + s).c_str()); rmdir(dir.c_str()); } }; static G *g = new G;
    atexit([] {}); 
    Map ger = {{{0,0,0},{38,38,128},{76,38,191},{153,51,128},{255,64,38},{230,128,0},{230,191,26},{230,230,128},{255,255,255}}, 0, 1}, gray = {{{0,0,0},{255,255,255}}, 0, 1};
    for (int it = 0; it < N_(400, 20000); it++) {
        Map m = rmap(); std::vector<C> keep = m.c; ImageColormap *c = new ImageColormap(keep.data(), keep.size(), m.lo, m.hi);
        for (auto &k : keep) k = {1, 2, 3};       // the colormap has its own copy
        for (int q = 0; q < 20; q++) {
            double v = q == 0 ? m.lo : q == 1 ? m.hi : q == 2 ? 1e300 : q == 3 ? -1e300 : q == 4 ? m.lo + 1e12 : q == 5 ? INFINITY : q == 6 ? -INFINITY : q == 7 ? NAN : U(m.lo - (m.hi - m.lo), m.hi + (m.hi - m.lo));
            CASE("colormap of %zu colours on [%.17g, %.17g] at %.17g", m.c.size(), m.lo, m.hi, v); C o = c->Eval(v); same(m, v, o.red, o.green, o.blue);
        }
    }
    for (int it = 0; it < N_(80, 1500); it++) {
        unsigned nr = it < 3 ? 1 : I(1, 17), nc = it == 1 ? 1 : I(1, 17); int how = it % 4; Map m = how == 0 ? rmap() : how == 1 ? ger : how == 2 ? gray : ger;
        auto v = pixels(m, nr * nc); auto v0 = v; ImageColormap c(m.c.data(), m.c.size(), m.lo, m.hi);
        for (int k = 0; k < 2; k++) {
            auto ty = k ? ImageGenerator::IMAGE_TYPE_PNG : ImageGenerator::IMAGE_TYPE_PPM; std::string f = dir + (k ? "/a.png" : "/a.ppm");
            CASE("%s image of %u x %u values, colormap %d, first value %.17g", k ? "PNG" : "PPM", nr, nc, how, v[0]);
            if (how == 0) ImageGenerator::gen(ty, f, v.data(), nr, nc, &c); else if (how == 1) ImageGenerator::gen(ty, f, v.data(), nr, nc, ImageGenerator::COLORMAP_GERIMAP); else if (how == 2) ImageGenerator::gen(ty, f, v.data(), nr, nc, ImageGenerator::COLORMAP_GRAY); else ImageGenerator::gen(ty, f, v.data(), nr, nc);
            CHECK(v == v0, "the image was modified"); if (k) png(f, m, v.data(), nr, nc); else ppm(f, m, v.data(), nr, nc);
        }
    }
    double one = 0.5;
    for (int k = 0; k < 2; k++) { auto ty = k ? ImageGenerator::IMAGE_TYPE_PNG : ImageGenerator::IMAGE_TYPE_PPM; CASE("file that cannot be created is an error (%d)", k); bool th = false; try { ImageGenerator::gen(ty, dir + "/no/such/dir/x", &one, 1, 1, ImageGenerator::COLORMAP_GRAY); } catch (SOFTLibException &e) { th = true; } CHECK(th);
        CASE("unknown colormap is an error (%d)", k); th = false; try { ImageGenerator::gen(ty, dir + "/a.ppm", &one, 1, 1, (ImageGenerator::colormap_type)7); } catch (SOFTLibException &e) { th = true; } CHECK(th); }
    CASE("unknown format is an error"); bool th = false; try { ImageGenerator::gen((ImageGenerator::image_type)7, dir + "/a.ppm", &one, 1, 1, ImageGenerator::COLORMAP_GRAY); } catch (SOFTLibException &e) { th = true; } CHECK(th);
    delete g;
}
MAIN(body)
