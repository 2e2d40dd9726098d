// Columns and read-noise pixels are worked on by several threads: no schedule may change a result.
#include "clock.hpp"
#include <string.h>
#include "read_noise.hpp"

static const int QUANTA[] = {1, 2, 3, 5, 11, 40, 170, 1000};

template <class F, class S> static void schedules(F run, S same) {
    sym_threads(1); sym_quantum(0);
    run(0);
    int lo = sym_cfg("threads", 2), hi = sym_cfg("threads2", 3), races = 0, k = 1;
    for (int n = lo; n <= hi; n++) {
        sym_threads(n);
        for (int q : QUANTA) { sym_quantum(q); run(k); same(0, k); races += sym_raced(); }
        sym_quantum(0); run(k); same(0, k); races += sym_raced();
    }
    if (sym_is_symbolic()) {
        // on this path every other schedule of these threads gives the same result as well
        CHECK(races == 0, "threads: no memory is written by one thread and used by another");
    } else if (!getenv("VERIF_TRACE")) {
        // replay: look for a schedule in which the conflicting accesses change the result
        for (int n = lo; n <= hi; n++) for (int q = 1; q < 60; q++) for (int p = 0; p < (q < 20 ? 3 : 12); p++) {
            sym_threads(n); sym_quantum(q * (1 + q / 20)); sym_first_switch(p * 37);
            run(k); same(0, k); sym_raced();
        }
        sym_first_switch(0);
    }
    sym_threads(1); sym_quantum(0);
}

HARNESS(clock_threads) {
    verbosity = 0;
    Model m = make_model();
    int nr = sym_cfg("rows", 2), nc = sym_cfg("cols", 2), r0 = sym_cfg("r0", 0), r1 = sym_cfg("r1", -1), c0 = sym_cfg("c0", 0), c1 = sym_cfg("c1", -1);
    Image im = sym_image(nr, nc), out[2];
    schedules([&](int k) { Image x = clock(m, im, r0, r1, c0, c1, sym_cfg("neg", 1)); out[k].resize(0); out[k] = x; },
              [&](int a, int b) { check_same(out[b], out[a], "threads: the result does not depend on how many threads work on the columns, or in which order"); });
    REACH("clocked");
    obs_image(out[0]);
}

HARNESS(cti_threads) {
    verbosity = 0;
    Model p = make_model("p"), s = make_model("s", "s");
    int nr = sym_cfg("rows", 2), nc = sym_cfg("cols", 2), n = sym_cfg("n", 0);
    Image im = sym_image(nr, nc), out[2];
    schedules([&](int k) {
        Image x = n ? remove_cti(im, n, p.roe, &p.ccd, &p.ic, nullptr, nullptr, nullptr, p.express, p.offset, 0, -1, 0, -1, 0, 0,
                                 s.roe, &s.ccd, nullptr, &s.sc, nullptr, nullptr, s.express, s.offset, 0, -1, 0, -1, 0, 0, 1)
                    : add_cti(im, p.roe, &p.ccd, &p.ic, nullptr, nullptr, nullptr, p.express, p.offset, 0, -1, 0, -1, 0, 0,
                              s.roe, &s.ccd, nullptr, &s.sc, nullptr, nullptr, s.express, s.offset, 0, -1, 0, -1, 0, 0, 1, 0, 0);
        out[k].resize(0); out[k] = x; },
              [&](int a, int b) { check_same(out[b], out[a], "threads: the result does not depend on how many threads work on the columns, or in which order"); });
    REACH("clocked");
    obs_image(out[0]);
}

HARNESS(noise_threads) {
    verbosity = 0;
    int nr = sym_cfg("rows", 3), nc = sym_cfg("cols", 3), n = nr * nc, smooth = sym_cfg("smooth", 1);
    double amp = sym_cfg("amp", 4), frac = 0.2;
    Image a = sym_image(nr, nc, "pix");
    std::valarray<double> in(n), img(n), out[2];
    for (int i = 0; i < n; i++) { in[i] = a[i / nc][i % nc]; img[i] = (i * 7) % 5 + (i % 2 ? 0.25 : 0.0); }
    schedules([&](int k) { std::valarray<double> o(n); determine_read_noise_model(&in[0], &img[0], nr, nc, amp, frac, smooth, &o[0]); out[k].resize(0); out[k] = o; },
              [&](int x, int y) { for (int i = 0; i < n; i++) CHECK_EQ(out[y][i], out[x][i], "threads: the read noise model does not depend on how many threads work on the pixels, or in which order"); });
    REACH("clocked");
    for (int i = 0; i < n; i++) OBS("noise", out[0][i]);
}
