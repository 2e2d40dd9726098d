// Shared machinery for harnesses that clock whole (small) images.
#ifndef VERIF_CLOCK_HPP
#define VERIF_CLOCK_HPP
#include "common.hpp"

struct Model {
    std::valarray<double> dwell;
    ROE* roe;
    CCD ccd;
    std::valarray<TrapInstantCapture> ic;
    std::valarray<TrapSlowCapture> sc;
    std::valarray<TrapInstantCaptureContinuum> icco;
    std::valarray<TrapSlowCaptureContinuum> scco;
    int express, offset, prune_frequency;
    double prune_n;
    double ic_density[8];      // densities as given to the constructors
};

static std::string pcfg(const char* pre, const char* n) { return std::string(pre) + n; }
static int pint(const char* pre, const char* n, int d) { return sym_cfg(pcfg(pre, n).c_str(), d); }

inline CCD make_ccd(int n_phases, int mode, double well = 1000.0) {
    std::valarray<CCDPhase> ph(CCDPhase(well, 0, 1), n_phases);
    std::valarray<double> fr(1.0 / n_phases, n_phases);
    if (n_phases > 1) { fr[0] = 0.5; for (int i = 1; i < n_phases; i++) fr[i] = 0.5 / (n_phases - 1); }
    for (int i = 0; i < n_phases; i++) {
        if (mode == 1) ph[i] = CCDPhase(well, 10.0 * i, 1.0, 0.0);
        if (mode == 2) ph[i] = CCDPhase(well, 0.0, 1.0, 0.125);
        if (mode == 3) ph[i] = CCDPhase(well * (1 + i), 5.0, 1.0, 0.0);
        if (mode == 4) ph[i] = CCDPhase(well, 100.0, 1.0, 0.0);
        if (mode == 5) ph[i] = CCDPhase(well, 100.0, 0.5, 0.0);
        if (mode == 6) ph[i] = CCDPhase(well, 0.0, 0.5, 0.125);
        if (mode == 7) ph[i] = CCDPhase(well, 0.0, 0.5, 0.0);
    }
    return CCD(ph, fr);
}

// roe kinds: 0 standard, 1 charge injection, 2 trap pumping
inline ROE* make_roe(const char* pre, std::valarray<double>& dwell, double tscale = 1) {
    int type = pint(pre, "roe", 0), nph = pint(pre, "nph", 1);
    int prescan = pint(pre, "prescan", 0), over = pint(pre, "over", -1);
    bool reset = pint(pre, "reset", 1), first = pint(pre, "empty", 0), away = pint(pre, "away", 1), integer = pint(pre, "integer", 0);
    int n = type == 2 ? 2 * nph : nph;
    dwell = std::valarray<double>(1.0 / n, n);
    for (int i = 0; i < n; i++) dwell[i] = tscale * (0.5 + 0.25 * i);
    if (type == 1) return new ROEChargeInjection(dwell, prescan, over, reset, away, integer);
    if (type == 2) return new ROETrapPumping(dwell, pint(pre, "pumps", 2), first, integer);
    return new ROE(dwell, prescan, over, reset, first, away, integer);
}

// kinds: string over i (instant), s (slow), c (instant continuum), k (slow continuum), n (non-uniform instant)
inline void make_traps(Model& m, const char* kinds, double d0 = 10.0, double ts = 1.0) {
    int ni = 0, ns = 0, nc = 0, nk = 0;
    for (const char* p = kinds; *p; p++) { ni += *p == 'i' || *p == 'n'; ns += *p == 's'; nc += *p == 'c'; nk += *p == 'k'; }
    m.ic = std::valarray<TrapInstantCapture>(TrapInstantCapture(1, 1), ni);
    m.sc = std::valarray<TrapSlowCapture>(TrapSlowCapture(1, 1, 1), ns);
    m.icco = std::valarray<TrapInstantCaptureContinuum>(TrapInstantCaptureContinuum(1, 1, 1), nc);
    m.scco = std::valarray<TrapSlowCaptureContinuum>(TrapSlowCaptureContinuum(1, 1, 1, 1), nk);
    int i = 0, s = 0, c = 0, k = 0, j = 0;
    for (const char* p = kinds; *p; p++, j++) {
        double d = d0 + 2.0 * j, t = ts * (1.0 + 0.75 * j);
        if ((*p == 'i' || *p == 'n') && i < 8) m.ic_density[i] = d;
        if (*p == 'i') m.ic[i++] = TrapInstantCapture(d, t);
        if (*p == 'n') m.ic[i++] = TrapInstantCapture(d, t, 0.25, 0.5);
        if (*p == 's') m.sc[s++] = TrapSlowCapture(d, t, ts * 0.4);
        if (*p == 'c') m.icco[c++] = TrapInstantCaptureContinuum(d, t, 0.5);
        if (*p == 'k') m.scco[k++] = TrapSlowCaptureContinuum(d, t, 0.5, ts * 0.3);
    }
}

inline Model make_model(const char* pre = "", const char* dflt_traps = "i", double ts = 1.0) {
    Model m;
    m.roe = make_roe(pre, m.dwell, ts);
    m.ccd = make_ccd(pint(pre, "nph", 1), pint(pre, "ccd", 0));
    make_traps(m, sym_cfg_str(pcfg(pre, "traps").c_str(), dflt_traps), pint(pre, "dens", 10), ts * pint(pre, "tau", 1));
    m.express = pint(pre, "express", 0);
    m.offset = pint(pre, "offset", 0);
    m.prune_frequency = pint(pre, "prune", 20);
    m.prune_n = pint(pre, "prunen", 0) ? pint(pre, "prunen", 0) : 1e-10;
    return m;
}

inline Image clock(Model& m, Image img, int r0 = 0, int r1 = -1, int c0 = 0, int c1 = -1, int neg = 1) {
    return clock_charge_in_one_direction(img, m.roe, &m.ccd, m.ic.size() ? &m.ic : nullptr, m.sc.size() ? &m.sc : nullptr,
                                         m.icco.size() ? &m.icco : nullptr, m.scco.size() ? &m.scco : nullptr,
                                         m.express, m.offset, r0, r1, c0, c1, 0, -1, m.prune_n, m.prune_frequency, neg, 0);
}

inline Image image(int nr, int nc, double v = 0.0) { return Image(std::valarray<double>(v, nc), nr); }

// pixel values: "lo" and "hi" bound the symbolic pixels; the cfg string "fix" may pin some pixels:
// one letter per pixel in row-major order: ? symbolic, 0 empty, b bright (800), d dim (3), h 200, 1 to 9 times 50
inline Image sym_image(int nr, int nc, const char* name = "pix") {
    Image im = image(nr, nc);
    const char* f = sym_cfg_str("fix", "");
    double lo = sym_cfg("lo", 0), hi = sym_cfg("hi", 900);
    int n = strlen(f), k = 0;
    for (int r = 0; r < nr; r++)
        for (int c = 0; c < nc; c++, k++) {
            char ch = k < n ? f[k] : '?';
            if (ch == '?') im[r][c] = sym_range(name, lo, hi);
            else im[r][c] = ch == 'b' ? 800.0 : ch == 'd' ? 3.0 : ch == 'h' ? 200.0 : ch >= '1' && ch <= '9' ? 50.0 * (ch - '0') : 0.0;
        }
    return im;
}

inline double colsum(const Image& im, int c) { double s = 0; for (size_t r = 0; r < im.size(); r++) s += im[r][c]; return s; }
inline void obs_image(const Image& im) { for (size_t r = 0; r < im.size(); r++) for (size_t c = 0; c < im[r].size(); c++) OBS("pixel", im[r][c]); }

inline void check_same(const Image& a, const Image& b, const char* what) {
    CHECK(a.size() == b.size(), "shape: same number of rows");
    for (size_t r = 0; r < a.size(); r++) {
        CHECK(a[r].size() == b[r].size(), "shape: same number of columns");
        // (loose: interpolation tables of continuum traps may legitimately be laid out differently)
        for (size_t c = 0; c < a[r].size(); c++)
            if (sym_cfg("loose", 0)) CHECK_LE(fabs(a[r][c] - b[r][c]), 1e-3, what);
            else CHECK_EQ(a[r][c], b[r][c], what);
    }
}
#endif
