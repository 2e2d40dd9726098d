// add_cti / remove_cti and the flat C interface of the Python package.
#include "clock.hpp"
#include <string.h>
#include "interface.hpp"

template <class T> static std::valarray<T>* ptr(std::valarray<T>& v) { return v.size() ? &v : nullptr; }

struct Win { int p0, p1, s0, s1; };
static Win whole() { Win w = {sym_cfg("p0", 0), sym_cfg("p1", -1), sym_cfg("s0", 0), sym_cfg("s1", -1)}; return w; }

static Image add(Image& im, Model* p, Model* s, Win w, int neg = 1, int iteration = 0) {
    return add_cti(im, p ? p->roe : nullptr, p ? &p->ccd : nullptr, p ? ptr(p->ic) : nullptr, p ? ptr(p->sc) : nullptr,
                   p ? ptr(p->icco) : nullptr, p ? ptr(p->scco) : nullptr, p ? p->express : 0, p ? p->offset : 0, w.p0, w.p1, 0, -1,
                   p ? p->prune_n : 0, p ? p->prune_frequency : 0,
                   s ? s->roe : nullptr, s ? &s->ccd : nullptr, s ? ptr(s->ic) : nullptr, s ? ptr(s->sc) : nullptr,
                   s ? ptr(s->icco) : nullptr, s ? ptr(s->scco) : nullptr, s ? s->express : 0, s ? s->offset : 0, w.s0, w.s1, 0, -1,
                   s ? s->prune_n : 0, s ? s->prune_frequency : 0, neg, 0, iteration);
}
static Image rem(Image& im, int n, Model* p, Model* s, Win w, int neg = 1) {
    return remove_cti(im, n, p ? p->roe : nullptr, p ? &p->ccd : nullptr, p ? ptr(p->ic) : nullptr, p ? ptr(p->sc) : nullptr,
                   p ? ptr(p->icco) : nullptr, p ? ptr(p->scco) : nullptr, p ? p->express : 0, p ? p->offset : 0, w.p0, w.p1, 0, -1,
                   p ? p->prune_n : 0, p ? p->prune_frequency : 0,
                   s ? s->roe : nullptr, s ? &s->ccd : nullptr, s ? ptr(s->ic) : nullptr, s ? ptr(s->sc) : nullptr,
                   s ? ptr(s->icco) : nullptr, s ? ptr(s->scco) : nullptr, s ? s->express : 0, s ? s->offset : 0, w.s0, w.s1, 0, -1,
                   s ? s->prune_n : 0, s ? s->prune_frequency : 0, neg);
}
static Image flip(const Image& im) {
    int nr = im.size(), nc = im[0].size();
    Image t = image(nc, nr);
    for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) t[c][r] = im[r][c];
    return t;
}
// bounds of a window in the range 0..n (a stop of -1 stands for the end)
static Win choose_window(int nr, int nc) {
    Win w = whole();
    if (sym_cfg("win", 0)) {
        w.p0 = sym_choose("parallel_window_start", 0, nr - 1); w.p1 = sym_choose("parallel_window_stop", 0, nr);
        w.s0 = sym_choose("serial_window_start", 0, nc - 1); w.s1 = sym_choose("serial_window_stop", 0, nc);
        if (w.p1 == 0) w.p1 = -1;
        if (w.s1 == 0) w.s1 = -1;
    }
    return w;
}
static bool reversed(Win w) { return (w.p1 >= 0 && w.p1 < w.p0) || (w.s1 >= 0 && w.s1 < w.s0); }

// parallel and then serial clocking, each with its own model and windows
HARNESS(compose) {
    verbosity = 0;
    Model p = make_model("p"), s = make_model("s", "s");
    int nr = sym_cfg("rows", 2), nc = sym_cfg("cols", 2), neg = sym_cfg("neg", 1);
    Image im = sym_image(nr, nc), keep = im;
    Win w = choose_window(nr, nc);
    if (reversed(w)) return;
    Image got = add(im, &p, &s, w, neg);
    REACH("clocked");
    obs_image(got);
    check_same(im, keep, "compose: the input image is not modified");
    Image a = clock(p, im, w.p0, w.p1, w.s0, w.s1, neg);
    Image b = flip(clock(s, flip(a), w.s0, w.s1, w.p0, w.p1, neg));
    check_same(got, b, "compose: parallel clocking is followed by serial clocking of its result");
    for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) {
        bool in = r >= w.p0 && (w.p1 < 0 || r < w.p1) && c >= w.s0 && (w.s1 < 0 || c < w.s1);
        if (!in) CHECK_EQ(got[r][c], im[r][c], "window: pixels outside the window are untouched");
    }
}

// clocking along rows is clocking along columns of the transposed image
HARNESS(symmetry) {
    verbosity = 0;
    Model m = make_model();
    int nr = sym_cfg("rows", 2), nc = sym_cfg("cols", 2), neg = sym_cfg("neg", 1);
    Image im = sym_image(nr, nc);
    Win w = choose_window(nr, nc);
    if (reversed(w)) return;
    Image got = add(im, nullptr, &m, w, neg);
    REACH("clocked");
    obs_image(got);
    Win t = {w.s0, w.s1, w.p0, w.p1};
    Image f = flip(im);
    Image b = flip(add(f, &m, nullptr, t, neg));
    check_same(got, b, "symmetry: serial clocking equals parallel clocking of the transposed image");
}

// the correction: each iteration adds the difference between the data and the re-degraded estimate
HARNESS(remove_steps) {
    verbosity = 0;
    const char* which = sym_cfg_str("dir", "p");
    Model p = make_model("p"), s = make_model("s", "i");
    Model* P = strchr(which, 'p') ? &p : nullptr;
    Model* S = strchr(which, 's') ? &s : nullptr;
    int nr = sym_cfg("rows", 2), nc = sym_cfg("cols", 1), n = sym_cfg("n", 1), neg = sym_cfg("neg", 1);
    Image im = sym_image(nr, nc), keep = im;
    Win w = choose_window(nr, nc);
    if (reversed(w)) return;
    Image got = rem(im, n, P, S, w, neg);
    REACH("corrected");
    obs_image(got);
    check_same(im, keep, "remove: the input image is not modified");
    Image x = im;
    for (int i = 1; i <= n; i++) {
        Image y = add(x, P, S, w, neg, i);
        for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) {
            x[r][c] = x[r][c] + (im[r][c] - y[r][c]);
            if (!neg && x[r][c] < 0.0) x[r][c] = 0.0;
        }
    }
    check_same(got, x, "remove: each iteration adds the data minus the estimate with CTI added");
    if (n == 0) check_same(got, im, "remove: without iterations the image is returned as it is");
    if (!neg && n > 0) for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) CHECK_LE(0.0, got[r][c], "remove: no negative pixels when they are not allowed");
}

static double norm1(const Image& a, const Image& b) {
    double t = 0;
    for (size_t r = 0; r < a.size(); r++) for (size_t c = 0; c < a[r].size(); c++) t += fabs(a[r][c] - b[r][c]);
    return t;
}
// add then remove: the error of the estimate shrinks with every iteration
HARNESS(remove_converges) {
    verbosity = 0;
    Model m = make_model();
    int nr = sym_cfg("rows", 2), n = sym_cfg("n", 2);
    Image truth = sym_image(nr, 1);
    Image data = add(truth, &m, nullptr, whole());
    Image x0 = data;
    double prev = norm1(x0, truth);
    for (int i = 1; i <= n; i++) {
        Image x = rem(data, i, &m, nullptr, whole());
        double e = sym_name(norm1(x, truth));
        CHECK_LE(e, prev, "remove: the error of the corrected image does not grow from one iteration to the next");
        prev = e;
        if (i == n) { REACH("corrected"); obs_image(x); }
    }
}
// the true image is what the correction looks for: once reached it is kept
HARNESS(remove_fixed) {
    verbosity = 0;
    Model m = make_model();
    int nr = sym_cfg("rows", 2), n = sym_cfg("n", 2);
    Image truth = image(nr, 1);
    for (int r = 0; r < nr; r++) truth[r][0] = sym_range("pix", 0, 100);      // inside the notch: CTI changes nothing
    Image data = add(truth, &m, nullptr, whole());
    Image x = rem(data, n, &m, nullptr, whole(), sym_cfg("neg", 1));
    REACH("corrected");
    obs_image(x);
    check_same(x, truth, "remove: an image that CTI leaves alone is left alone by the correction");
}

// ---------------------------------------------------------------- purity
// results do not depend on what the same objects were used for before
HARNESS(pure) {
    verbosity = 0;
    Model a = make_model(), b = make_model();
    int nr = sym_cfg("rows", 2), nc = sym_cfg("cols", 1);
    Image im = sym_image(nr, nc), keep = im;
    // earlier use of a's objects: another shape, express and offset
    int nr2 = sym_cfg("rows2", 4), nc2 = sym_cfg("cols2", 2), e = a.express, o = a.offset;
    Image other = image(nr2, nc2, 500.0);
    other[0][0] = 20.0; other[nr2 - 1][nc2 - 1] = 700.0;
    a.express = sym_cfg("express2", 0); a.offset = sym_cfg("offset2", 0);
    clock(a, other, sym_cfg("p0", 0), sym_cfg("p1", -1));
    a.express = e; a.offset = o;
    Image A = add(im, &a, nullptr, whole()), A2 = add(im, &a, nullptr, whole()), B = add(im, &b, nullptr, whole());
    REACH("clocked");
    obs_image(A);
    check_same(A, B, "pure: the result does not depend on earlier use of the model objects");
    check_same(A2, A, "pure: repeating a calculation repeats its result");
    check_same(im, keep, "pure: the input image is not modified");
    CHECK(a.ic.size() == b.ic.size() && a.sc.size() == b.sc.size(), "pure: trap species are not modified");
    for (size_t i = 0; i < a.ic.size(); i++) { CHECK_EQ(a.ic[i].density, b.ic[i].density, "pure: trap species are not modified"); CHECK_EQ(a.ic[i].release_timescale, b.ic[i].release_timescale, "pure: trap species are not modified"); }
}

// what is printed does not influence what is computed
HARNESS(verbose) {
    Model m = make_model();
    int nr = sym_cfg("rows", 2), nc = sym_cfg("cols", 1), v = sym_cfg("v", 2);
    Image im = sym_image(nr, nc);
    verbosity = 0;
    Win w = whole();
    Image a = clock(m, im, w.p0, w.p1);
    set_verbosity(v);
    Image b = clock_charge_in_one_direction(im, m.roe, &m.ccd, ptr(m.ic), ptr(m.sc), ptr(m.icco), ptr(m.scco), m.express, m.offset, w.p0, w.p1, 0, -1, 0, -1,
                                            m.prune_n, m.prune_frequency, 1, v >= 1);
    Image c = add_cti(im, m.roe, &m.ccd, ptr(m.ic), ptr(m.sc), ptr(m.icco), ptr(m.scco), m.express, m.offset, w.p0, w.p1, 0, -1, m.prune_n, m.prune_frequency,
                      nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, 0, 0, 0, -1, 0, -1, 0, 0, 1, v, 0);
    set_verbosity(0);
    REACH("clocked");
    obs_image(a);
    check_same(a, b, "verbose: printing does not change the result");
    check_same(a, c, "verbose: printing does not change the result");
}

// ---------------------------------------------------------------- flat interface
struct Flat {
    std::valarray<double> dwell, frac, well, notch, power, first, dens, rel, third, fourth, prune;
    int n[4];
};
static Flat flat(Model& m) {
    Flat f;
    f.dwell = m.dwell; f.frac = m.ccd.fraction_of_traps_per_phase;
    int np = m.ccd.n_phases;
    f.well.resize(np); f.notch.resize(np); f.power.resize(np); f.first.resize(np);
    for (int i = 0; i < np; i++) { f.well[i] = m.ccd.phases[i].full_well_depth; f.notch[i] = m.ccd.phases[i].well_notch_depth; f.power[i] = m.ccd.phases[i].well_fill_power; f.first[i] = m.ccd.phases[i].first_electron_fill; }
    f.n[0] = m.ic.size(); f.n[1] = m.sc.size(); f.n[2] = m.icco.size(); f.n[3] = m.scco.size();
    int nt = f.n[0] + f.n[1] + f.n[2] + f.n[3];
    f.dens.resize(nt + 1); f.rel.resize(nt + 1); f.third.resize(nt + 1, 0.0); f.fourth.resize(nt + 1, 0.0);
    int k = 0;
    for (auto& t : m.ic) { f.dens[k] = k < 8 ? m.ic_density[k] : t.density; f.rel[k] = t.release_timescale; f.third[k] = t.fractional_volume_none_exposed; f.fourth[k++] = t.fractional_volume_full_exposed; }
    for (auto& t : m.sc) { f.dens[k] = t.density; f.rel[k] = t.release_timescale; f.third[k++] = t.capture_timescale; }
    for (auto& t : m.icco) { f.dens[k] = t.density; f.rel[k] = t.release_timescale; f.third[k++] = t.release_timescale_sigma; }
    for (auto& t : m.scco) { f.dens[k] = t.density; f.rel[k] = t.release_timescale; f.third[k] = t.release_timescale_sigma; f.fourth[k++] = t.capture_timescale; }
    f.prune.resize(1, m.prune_n);
    return f;
}
HARNESS(flat_interface) {
    const char* which = sym_cfg_str("dir", "ps");
    Model p = make_model("p"), s = make_model("s", "s");
    bool P = strchr(which, 'p'), S = strchr(which, 's');
    int nr = sym_cfg("rows", 2), nc = sym_cfg("cols", 3), neg = sym_cfg("neg", 1);
    if (!P) make_traps(p, "");
    if (!S) make_traps(s, "");
    Image im = sym_image(nr, nc);
    Win w = choose_window(nr, nc);
    if (reversed(w)) return;
    Image want = add(im, P ? &p : nullptr, S ? &s : nullptr, w, neg);
    Flat a = flat(p), b = flat(s);
    std::valarray<double> buf(nr * nc);
    for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) buf[r * nc + c] = im[r][c];
    ROE *R = p.roe, *Q = s.roe;
    int pr = sym_cfg("proe", 0), sr = sym_cfg("sroe", 0);
    add_cti(&buf[0], nr, nc,
            &a.dwell[0], a.dwell.size(), R->prescan_offset, R->overscan_start, R->empty_traps_between_columns, R->empty_traps_for_first_transfers,
            R->force_release_away_from_readout, R->use_integer_express_matrix, R->n_pumps, pr,
            &a.frac[0], p.ccd.n_phases, &a.well[0], &a.notch[0], &a.power[0], &a.first[0],
            &a.dens[0], &a.rel[0], &a.third[0], &a.fourth[0], a.n[0], a.n[1], a.n[2], a.n[3],
            p.express, p.offset, w.p0, w.p1, 0, -1, &a.prune[0], p.prune_frequency,
            &b.dwell[0], b.dwell.size(), Q->prescan_offset, Q->overscan_start, Q->empty_traps_between_columns, Q->empty_traps_for_first_transfers,
            Q->force_release_away_from_readout, Q->use_integer_express_matrix, Q->n_pumps, sr,
            &b.frac[0], s.ccd.n_phases, &b.well[0], &b.notch[0], &b.power[0], &b.first[0],
            &b.dens[0], &b.rel[0], &b.third[0], &b.fourth[0], b.n[0], b.n[1], b.n[2], b.n[3],
            s.express, s.offset, w.s0, w.s1, 0, -1, &b.prune[0], s.prune_frequency,
            neg, 0, 0);
    REACH("clocked");
    for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) {
        OBS("pixel", buf[r * nc + c]);
        CHECK_EQ(buf[r * nc + c], want[r][c], "interface: the flat interface returns what the library computes for the same model");
    }
}
