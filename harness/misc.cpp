// The read noise model and the utilities everything else is built from.
#include "common.hpp"
#include "symint.hpp"
#include <sys/time.h>
#include <unistd.h>
#include "read_noise.hpp"
#undef error
#ifndef NOSYMINT
struct SymTimeval { SInt tv_sec, tv_usec; };
#define timeval SymTimeval
#endif
namespace sutil {
#undef ARCTIC_UTIL_HPP
#include "../include/util.hpp"
#include "../src/util.cpp"
#undef timeval
}

// ---------------------------------------------------------------- read noise model
static double lim(double x, double m) { return x > m ? m : x < -m ? -m : x; }

HARNESS(noise_model) {
    verbosity = 0;
    int nr = sym_cfg("rows", 2), nc = sym_cfg("cols", 2), n = nr * nc, smooth = sym_cfg("smooth", 1);
    const char* fi = sym_cfg_str("in", "");   // '?' symbolic, others fixed
    const char* fo = sym_cfg_str("out", "");
    double amp = sym_cfg("amp", 0) ? sym_cfg("amp", 0) : sym_range("amp", 0.5, 20), frac = sym_cfg("frac", 0) ? 0.01 * sym_cfg("frac", 0) : 0.25;
    std::valarray<double> in(n), out(n), res(n), in0(n), out0(n);
    int li = strlen(fi), lo = strlen(fo);
    for (int k = 0; k < n; k++) {
        in[k] = (li > k ? fi[k] == '?' : 0) ? sym_range("in", -100, 100) : (k * 7) % 5 + (k % 2 ? 0.25 : -1.0);
        out[k] = (lo > k ? fo[k] == '?' : 0) ? sym_range("out", -100, 100) : (k * 5) % 7 - 2.0;
    }
    in0 = in; out0 = out;
    determine_read_noise_model(&in[0], &out[0], nr, nc, amp, frac, smooth, &res[0]);
    double m = amp * frac, a2 = amp * amp;
    for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) {
        int k = i * nc + j;
        CHECK_EQ(in[k], in0[k], "noise: the image is not modified");
        CHECK_EQ(out[k], out0[k], "noise: the estimate is not modified");
        if (sym_cfg("pixel", -1) >= 0 && sym_cfg("pixel", -1) != k) continue;
        double d0 = in0[k] - out0[k], d9 = 0;
        int c9 = 0;
        for (int y = i - 1; y <= i + 1; y++) for (int x = j - 1; x <= j + 1; x++)
            if (y >= 0 && y < nr && x >= 0 && x < nc) { d9 += in0[y * nc + x] - out0[y * nc + x]; c9++; }
        d9 /= c9;
        double w = lim(d0, 1.0) * (d0 * d0) / (d0 * d0 + 4.0 * a2) + lim(d9, m) * (d9 * d9) / (d9 * d9 + 18.0 * a2);
        for (int q = 0; q < (smooth ? 4 : 2); q++) {
            int y = i + (q == 0 ? -1 : q == 1 ? 1 : 0), x = j + (q == 2 ? -1 : q == 3 ? 1 : 0);
            if (y < 0 || y >= nr || x < 0 || x >= nc) continue;
            double d = out0[y * nc + x] - out0[k];
            w += lim(d, m) * 4.0 * a2 / (d * d + 4.0 * a2);
        }
        w /= smooth ? 6.0 : 4.0;
        CHECK_EQ(res[k], w, "noise: each pixel follows the noise model");
        OBS("noise", res[k]);
    }
    REACH("modelled");
}

// no noise to remove from an image that is flat
HARNESS(noise_flat) {
    verbosity = 0;
    int nr = sym_choose("rows", 2, 4), nc = sym_choose("cols", 2, 4), n = nr * nc, smooth = sym_choose("smooth", 0, 1);
    double v = sym_range("level", -100, 1e5), amp = sym_range("amp", 0.5, 20);
    std::valarray<double> in(v, n), out(v, n), res(n);
    determine_read_noise_model(&in[0], &out[0], nr, nc, amp, 0.2, smooth, &res[0]);
    for (int k = 0; k < n; k++) CHECK_EQ(res[k], 0.0, "noise: a flat image that equals its estimate has none");
    REACH("modelled");
}

// every pixel stays within the limits of the single contributions
HARNESS(noise_bound) {
    verbosity = 0;
    int nr = 2, nc = 2, n = 4, smooth = sym_cfg("smooth", 1);
    double amp = 4, frac = 0.25;
    std::valarray<double> in(0.0, n), out(0.0, n), res(n);
    in[0] = sym_range("in", -1e4, 1e4); out[3] = sym_range("out", -1e4, 1e4);
    determine_read_noise_model(&in[0], &out[0], nr, nc, amp, frac, smooth, &res[0]);
    double top = (1.0 + amp * frac * (smooth ? 5 : 3)) / (smooth ? 6.0 : 4.0);
    for (int k = 0; k < n; k++) { CHECK_LE(res[k], top, "noise: bounded by the clipping limits"); CHECK_LE(-top, res[k], "noise: bounded by the clipping limits"); }
    REACH("modelled");
}

// ---------------------------------------------------------------- utilities
HARNESS(util_transpose) {
    int nr = sym_choose("rows", 1, sym_cfg("max", 4)), nc = sym_choose("cols", 1, sym_cfg("max", 4));
    Image a(std::valarray<double>(0.0, nc), nr);
    for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) a[i][j] = sym_real("pix");
    Image b = transpose(a);
    CHECK((int)b.size() == nc, "transpose: columns become rows");
    for (int j = 0; j < nc && j < (int)b.size(); j++) {
        CHECK((int)b[j].size() == nr, "transpose: rows become columns");
        for (int i = 0; i < nr; i++) CHECK_EQ(b[j][i], a[i][j], "transpose: every element in its place");
    }
    Image c = transpose(b);
    for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) CHECK_EQ(c[i][j], a[i][j], "transpose: twice is the identity");
    std::vector<double> f = flatten(a);
    CHECK((int)f.size() == nr * nc, "flatten: every element once");
    for (int k = 0; k < nr * nc && k < (int)f.size(); k++) CHECK_EQ(f[k], a[k / nc][k % nc], "flatten: rows one after the other");
    REACH("util");
}

HARNESS(util_clamp) {
    double v = sym_real("value"), lo = sym_real("min"), hi = sym_real("max");
    ASSUME_LE(lo, hi);
    double c = clamp(v, lo, hi);
    CHECK_LE(lo, c, "clamp: not below the lower limit");
    CHECK_LE(c, hi, "clamp: not above the upper limit");
    if (lo <= v && v <= hi) CHECK_EQ(c, v, "clamp: values between the limits stay");
    else CHECK(c == lo || c == hi, "clamp: other values go to a limit");
    if (v < lo) CHECK_EQ(c, lo, "clamp: to the nearer limit");
    REACH("util");
}

HARNESS(util_arange) {
    if (sym_cfg("whole", 0)) {     // steps that add up to the stop exactly, with numbers that do not round
        int n = sym_choose("n", 0, 5), a = sym_choose("start", -2, 2), s = sym_choose("step", 1, 3);
        std::valarray<double> r = arange(a, a + 0.5 * s * n, 0.5 * s);
        CHECK((int)r.size() == n, "range: the stop itself is left out");
        REACH("whole");
        return;
    }
    double a = sym_range("start", -10, 10), b = sym_range("stop", -10, 10), s = sym_range("step", 0.5, 3);
    ASSUME_LE(b - a, sym_cfg("max", 6) * s);
    std::valarray<double> r = arange(a, b, s);
    int n = r.size();
    for (int i = 0; i < n; i++) { CHECK_EQ(r[i], a + i * s, "range: evenly spaced from the start"); CHECK_LT(r[i], b, "range: ends before the stop"); }
    CHECK_LE(b, a + n * s, "range: reaches the stop");
    REACH("util");
    OBS("n", n);
}

HARNESS(util_elapsed) {
#ifdef NOSYMINT
    struct timeval t0, t1;
    static const int us[] = {0, 1, 250000, 999999};
    t0.tv_sec = sym_choose("s0", 0, 3); t1.tv_sec = sym_choose("s1", 0, 3);
    t0.tv_usec = us[sym_choose("u0", 0, 3)]; t1.tv_usec = us[sym_choose("u1", 0, 3)];
    CHECK_EQ(sutil::gettimelapsed(t0, t1), ((double)t1.tv_sec - (double)t0.tv_sec) + 1e-6 * ((double)t1.tv_usec - (double)t0.tv_usec), "elapsed: seconds and microseconds between two times");
#else
    SymTimeval t0, t1;
    t0.tv_sec = SInt::raw(sym_int("s0", 0, 1e9)); t1.tv_sec = SInt::raw(sym_int("s1", 0, 1e9));
    t0.tv_usec = SInt::raw(sym_int("u0", 0, 999999)); t1.tv_usec = SInt::raw(sym_int("u1", 0, 999999));
    double e = sutil::gettimelapsed(t0, t1);
    CHECK_EQ(e, (t1.tv_sec.v - t0.tv_sec.v) + (t1.tv_usec.v - t0.tv_usec.v) / 1e6, "elapsed: seconds and microseconds between two times");
    OBS("e", e);
#endif
    REACH("util");
}

HARNESS(util_files) {
    int nr = sym_choose("rows", 1, 3), nc = sym_choose("cols", 1, 3);
    Image a(std::valarray<double>(0.0, nc), nr);
    for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) a[i][j] = sym_range("pix", -1e6, 1e6);
    char name[] = "/tmp/verif_img_XXXXXX";
    int fd = mkstemp(name);
    if (fd < 0) return;
    close(fd);
    save_image_to_txt(name, a);
    Image b = load_image_from_txt(name);
    unlink(name);
    CHECK((int)b.size() == nr, "files: as many rows as saved");
    for (int i = 0; i < nr && i < (int)b.size(); i++) {
        CHECK((int)b[i].size() == nc, "files: as many columns as saved");
        for (int j = 0; j < nc && j < (int)b[i].size(); j++) {
            CHECK_LE(b[i][j], a[i][j] + 1e-6, "files: every pixel comes back to six decimals");
            CHECK_LE(a[i][j] - 1e-6, b[i][j], "files: every pixel comes back to six decimals");
        }
    }
    REACH("util");
}
