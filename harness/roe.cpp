// Express multipliers, stored states and clock sequences of the readout electronics.
#include "common.hpp"
#include "symint.hpp"
#undef ARCTIC_ROE_HPP
#ifdef NOSYMINT
#define SINT int
#define MKRAW(x) (int)(x)
#define MKINT(n, lo, hi) sym_choose(n, (lo), (hi) > 12 ? 12 : (hi))
namespace si {
#include "../include/roe.hpp"
#include "../src/roe.cpp"
}
#else
#define SINT SInt
#define MKRAW(x) SInt::raw(x)
#define MKINT(n, lo, hi) SInt::raw(sym_int(n, lo, hi))
namespace si {
#define int SInt
#define unsigned
#include "../include/roe.hpp"
#include "../src/roe.cpp"
#undef int
#undef unsigned
}
#endif
static double num(double x) { return x; }

static std::valarray<double> dwell(int n) { return std::valarray<double>(1.0, n); }

// the table is a matrix of n_express_passes rows of n_rows entries
static double entry(si::ROE& R, int nr, int e, int r) { return R.express_matrix[e * nr + r]; }

static void common_checks(si::ROE& R, int nr, double cap, bool integer) {
    CHECK((long)R.express_matrix.size() == (long)(int)R.n_express_passes * nr, "express: the table has one entry per pass and row");
    int np = (int)R.n_express_passes;
    for (int e = 0; e < np; e++)
        for (int r = 0; r < nr; r++) {
            double w = entry(R, nr, e, r);
            CHECK_LE(0.0, w, "express: multipliers are not negative");
            CHECK_LE(w, cap, "express: no multiplier exceeds the transfers one pass stands for");
            if (integer) CHECK_EQ(w, floor(w), "express: multipliers are whole numbers when that is asked for");
        }
}

// ---------------------------------------------------------------- standard readout
HARNESS(express_standard) {
    verbosity = 0;
    int maxrows = sym_cfg("maxrows", 5), maxoff = sym_cfg("maxoff", 3);
    SINT n_rows = MKINT("rows", 1, maxrows), express = MKINT("express", 0, 1000000), window = MKINT("window_offset", 0, maxoff);
    SINT prescan = MKINT("prescan", 0, sym_cfg("maxpre", 2));
    int nr = (int)n_rows, off = (int)window + (int)prescan, nt = nr + off;
    bool first = sym_choose("empty_traps_for_first_transfers", 0, 1), integer = sym_choose("use_integer_express_matrix", 0, 1);
    bool over = sym_cfg("over", 0);
    SINT start = over ? MKINT("overscan_start", 1, 1000000) : SINT(-1);
    std::valarray<double> dt = dwell(1);
    si::ROE R(dt, prescan, start, true, first, true, integer);
    R.set_express_matrix_from_rows_and_express(n_rows, express, window);
    R.set_store_trap_states_matrix();
    int np = (int)R.n_express_passes;
    int ex = (express == 0 || express >= nt) ? nt : (int)express;
    REACH("table");
    OBS("passes", np);
    for (int e = 0; e < np; e++) for (int r = 0; r < nr; r++) OBS("multiplier", entry(R, nr, e, r));
    double each = first && ex != nt ? double(nt - 1) / ex : double(nt) / ex;
    if (integer) each = ceil(each);
    common_checks(R, nr, each < 1.0 ? 1.0 : each, integer && !over);
    if (!first) CHECK(np == ex, "express: as many passes as asked for, at most one per transfer");
    else CHECK(np <= nt, "express: at most one pass per transfer");
    // the pixels of the overscan are not shifted through the device
    double extra = 0;
    for (int r = 0; r < nr; r++) {
        double sum = 0;
        for (int e = 0; e < np; e++) sum = sum + entry(R, nr, e, r);
        double want = r + 1 + off;
        if (over) {
            double beyond = r + 1 + (int)window - num(start);           // rows past the last real one, counted from one
            if (beyond >= 0.0) want = want - (beyond + 1.0);
        }
        CHECK_EQ(sum, want, over ? "express: pixels in the overscan are spared the transfers they do not make" : "express: the multipliers of a pixel add up to its number of transfers");
    }
    if (over) return;
    // every pass is ordered along the column and passes follow one another
    for (int r = 0; r < nr; r++) {
        bool seen = false;
        for (int e = 0; e < np; e++) {
            double w = entry(R, nr, e, r);
            if (w > 0.0) {
                if (first && !seen) CHECK_EQ(w, 1.0, "express: with traps initially empty a pixel's first transfer stands alone");
                seen = true;
            }
        }
        CHECK(seen, "express: every pixel is transferred at least once");
    }
    for (int e = 0; e < np; e++) for (int r = 1; r < nr; r++)
        if (!first) CHECK_LE(entry(R, nr, e, r - 1), entry(R, nr, e, r), "express: a pixel farther from the readout makes no fewer transfers in any pass");
    // where a pass leaves the traps for the next one
    for (int e = 0; e < np; e++) {
        int starts = nr;
        if (e + 1 < np) { starts = 0; while (starts < nr && !(entry(R, nr, e + 1, starts) > 0.0)) starts++; }
        for (int r = 0; r < nr; r++) {
            bool want = !first && e + 1 < np && starts > 0 && r == starts - 1;
            CHECK(R.store_trap_states_matrix[e * nr + r] == want, "store: a pass hands over the traps as the pixel before the next pass's first one left them");
        }
    }
}

// ---------------------------------------------------------------- charge injection
HARNESS(express_injection) {
    verbosity = 0;
    SINT n_rows = MKINT("rows", 1, sym_cfg("maxrows", 5)), express = MKINT("express", 0, 1000000), window = MKINT("window_offset", 0, sym_cfg("maxoff", 4));
    SINT prescan = MKINT("prescan", 0, sym_cfg("maxpre", 3));
    int nr = (int)n_rows;
    bool integer = sym_choose("use_integer_express_matrix", 0, 1), over = sym_cfg("over", 0);
    SINT start = over ? MKINT("overscan_start", 2, sym_cfg("maxover", 9)) : SINT(-1);
    std::valarray<double> dt = dwell(1);
    si::ROEChargeInjection R(dt, prescan, start, true, true, integer);
    R.set_express_matrix_from_rows_and_express(n_rows, express, window);
    R.set_store_trap_states_matrix();
    int np = (int)R.n_express_passes;
    int nt = over ? (int)prescan + (int)start - 1 : nr + (int)window + (int)prescan;
    int ex = (express == 0 || express >= nt) ? nt : (int)express;
    REACH("table");
    OBS("passes", np);
    for (int e = 0; e < np; e++) for (int r = 0; r < nr; r++) OBS("multiplier", entry(R, nr, e, r));
    double each = double(nt) / ex;
    if (integer) each = ceil(each);
    common_checks(R, nr, each, integer);
    CHECK(np == ex, "express: as many passes as asked for, at most one per transfer");
    for (int r = 0; r < nr; r++) {
        double sum = 0;
        for (int e = 0; e < np; e++) { sum = sum + entry(R, nr, e, r); CHECK(!R.store_trap_states_matrix[e * nr + r], "store: injected charge meets the traps empty in every pass"); }
        CHECK_EQ(sum, (double)nt, "express: injected charge in every row makes every transfer");
    }
}

// ---------------------------------------------------------------- trap pumping
HARNESS(express_pumping) {
    verbosity = 0;
    SINT n_rows = MKINT("rows", 1, 3), express = MKINT("express", 0, 1000000), pumps = MKINT("pumps", 1, sym_cfg("maxpumps", 7));
    int nr = (int)n_rows, nt = (int)pumps;
    bool first = sym_choose("empty_traps_for_first_transfers", 0, 1), integer = sym_choose("use_integer_express_matrix", 0, 1);
    std::valarray<double> dt = dwell(2);
    si::ROETrapPumping R(dt, pumps, first, integer);
    R.set_express_matrix_from_rows_and_express(n_rows, express, 0);
    R.set_store_trap_states_matrix();
    int np = (int)R.n_express_passes;
    int ex = (express == 0 || express >= nt) ? nt : (int)express;
    REACH("table");
    OBS("passes", np);
    for (int e = 0; e < np; e++) for (int r = 0; r < nr; r++) OBS("multiplier", entry(R, nr, e, r));
    double each = first && ex != nt ? double(nt - 1) / ex : double(nt) / ex;
    if (integer) each = ceil(each);
    common_checks(R, nr, each < 1.0 ? 1.0 : each, integer);
    for (int r = 0; r < nr; r++) {
        double sum = 0;
        for (int e = 0; e < np; e++) {
            double w = entry(R, nr, e, r);
            sum = sum + w;
            if (first && e == 0) CHECK_EQ(w, 1.0, "express: with traps initially empty the first pump stands alone");
            bool want = e + 1 < np && w != 0.0;
            CHECK(R.store_trap_states_matrix[e * nr + r] == want, "store: each pump starts from the traps the last one left");
        }
        CHECK_EQ(sum, (double)nt, "express: every row is pumped the requested number of times");
    }
}

// ---------------------------------------------------------------- clock sequence
// Positions along the device in units of phases, growing towards the readout:
// phase i of pixel p is at i, of pixel p+k at i - k n.  In a step the packet of
// pixel p is under the high phase at h (h runs 0,1,...,n-1, and for pumping on to n
// and back), so that of pixel p+k is at h - k n.
static void check_sequence(si::ROE& R, int steps, int n, bool away) {
    CHECK((int)R.clock_sequence.size() == steps, "clock: one entry per step");
    for (int s = 0; s < steps; s++) {
        CHECK((int)R.clock_sequence[s].size() == n, "clock: one entry per phase");
        int h = s <= n ? s : 2 * n - s;
        int high = 0;
        for (int i = 0; i < n; i++) {
            si::ROEStepPhase& q = R.clock_sequence[s][i];
            high += q.is_high;
            CHECK(q.is_high == (i == h % n), "clock: the high phase moves one phase per step");
            int shift = away && i > h % n ? 1 : 0;
            CHECK((int)q.n_capture_pixels == (int)q.capture_from_which_pixels.size() && (int)q.n_release_pixels == (int)q.release_to_which_pixels.size()
                  && q.release_fraction_to_pixels.size() == q.release_to_which_pixels.size(), "clock: the lists have the lengths they claim");
            // capture: from the packet at this very phase, if any
            if (i == h % n) {
                CHECK(q.capture_from_which_pixels.size() == 1, "clock: traps capture from the packet held over them");
                if (q.capture_from_which_pixels.size() == 1) CHECK((int)q.capture_from_which_pixels[0] == (h - i) / n + shift, "clock: traps capture from the packet held over them");
            } else CHECK(q.capture_from_which_pixels.size() == 0, "clock: traps under a low phase capture nothing");
            // release: to the nearest packet, in equal parts if two are equally near
            int best = 1 << 20;
            for (int k = -2; k <= 3; k++) best = std::min(best, abs(h - k * n - i));
            double total = 0;
            int want = 0;
            for (int k = -2; k <= 3; k++) if (abs(h - k * n - i) == best) want++;
            CHECK((int)q.release_to_which_pixels.size() == want, "clock: electrons are released to the nearest packet");
            for (size_t j = 0; j < q.release_to_which_pixels.size(); j++) {
                int k = (int)q.release_to_which_pixels[j] - shift;
                CHECK(abs(h - k * n - i) == best, "clock: electrons are released to the nearest packet");
                CHECK_EQ(q.release_fraction_to_pixels[j], 1.0 / want, "clock: equally near packets share the electrons");
                total = total + q.release_fraction_to_pixels[j];
                if (away) CHECK((int)q.release_to_which_pixels[j] >= 0, "clock: nothing is released towards the readout when that is excluded");
            }
            CHECK_EQ(total, 1.0, "clock: every released electron goes somewhere");
        }
        CHECK(high == 1, "clock: exactly one phase is high in each step");
    }
}
HARNESS(clock_standard) {
    verbosity = 0;
    int n = sym_choose("steps", 1, sym_cfg("max", 8));
    bool away = sym_choose("force_release_away_from_readout", 0, 1), first = sym_choose("empty_first", 0, 1);
    std::valarray<double> dt = dwell(n);
    si::ROE R(dt, MKINT("prescan", 0, 1000), -1, true, first, away, false);
    R.set_clock_sequence();
    REACH("sequence");
    OBS("size", (double)R.clock_sequence.size());
    CHECK((int)R.n_steps == n && (int)R.n_phases == n, "clock: one phase per dwell time");
    check_sequence(R, n, n, away);
    si::ROEChargeInjection C(dt, 0, -1, true, away, false);
    C.set_clock_sequence();
    check_sequence(C, n, n, away);
}
HARNESS(clock_pumping) {
    verbosity = 0;
    int n = sym_choose("phases", 1, sym_cfg("max", 5));
    std::valarray<double> dt = dwell(2 * n);
    si::ROETrapPumping R(dt, MKINT("pumps", 1, 1000), sym_choose("empty_first", 0, 1), false);
    R.set_clock_sequence();
    REACH("sequence");
    OBS("size", (double)R.clock_sequence.size());
    CHECK((int)R.n_steps == 2 * n && (int)R.n_phases == n, "clock: a pump goes over every phase there and back");
    check_sequence(R, 2 * n, n, false);
}

// ---------------------------------------------------------------- copies and invalid arguments
static void make_standard(void* p) { double* a = (double*)p; std::valarray<double> dt = dwell(1); si::ROE R(dt, MKRAW(a[0]), MKRAW(a[1])); }
HARNESS(validation) {
    verbosity = 0;
    double a[2];
    a[0] = sym_int("prescan", -1000000, 1000000);
    a[1] = sym_int("overscan_start", -1000000, 1000000);
    int rc = sym_guard(make_standard, a);
    REACH("constructed");
    OBS("rc", rc);
    bool bad = a[0] < 0.0;
    bool bad2 = a[1] <= 0.0;
    bool none = a[1] == -1.0;
    CHECK((rc != 0) == (bad || (bad2 && !none)), "validation: a negative prescan or an overscan that starts before the first pixel is rejected, everything else accepted");
}
HARNESS(copying) {
    verbosity = 0;
    std::valarray<double> dt = dwell(4), d1 = dwell(2);
    for (int i = 0; i < 4; i++) dt[i] = sym_open("dwell", 0, 10);
    SINT pre = MKINT("prescan", 0, 1000000), over = MKINT("overscan_start", 1, 1000000), pumps = MKINT("pumps", 1, 1000000);
    bool b1 = sym_choose("b1", 0, 1), b2 = sym_choose("b2", 0, 1), b3 = sym_choose("b3", 0, 1), b4 = sym_choose("b4", 0, 1);
    si::ROE R(dt, pre, over, b1, b2, b3, b4), C(R), A(d1);
    A = R;
    REACH("copied");
    OBS("b", b1);
    si::ROE* q[2] = {&C, &A};
    for (int k = 0; k < 2; k++) {
        si::ROE& Q = *q[k];
        const char* w = "copy: a copied readout has all the settings of the original";
        CHECK(Q.dwell_times.size() == 4, w);
        for (size_t i = 0; i < 4 && i < Q.dwell_times.size(); i++) CHECK_EQ(Q.dwell_times[i], dt[i], w);
        CHECK_EQ((double)Q.prescan_offset, (double)pre, w);
        CHECK_EQ((double)Q.overscan_start, (double)over, w);
        CHECK(Q.empty_traps_between_columns == b1 && Q.empty_traps_for_first_transfers == b2 && Q.force_release_away_from_readout == b3 && Q.use_integer_express_matrix == b4, w);
        CHECK(Q.type == R.type && (int)Q.n_steps == 4 && (int)Q.n_phases == 4, w);
        Q.set_clock_sequence();
        check_sequence(Q, 4, 4, b3);
    }
    si::ROETrapPumping P(dt, pumps, b2, b4), P2(d1, 1, !b2, !b4);
    P2 = P;
    CHECK_EQ((double)P2.n_pumps, (double)pumps, "copy: a copied pumping readout keeps its number of pumps");
    CHECK((int)P2.n_phases == 2 && (int)P2.n_steps == 4 && P2.type == P.type, "copy: a copied pumping readout keeps its number of pumps");
    // the defaults of one readout are not those of another
    si::ROE D1, D2;
    D1.dwell_times[0] = dt[0];
    CHECK_EQ(D2.dwell_times[0], 1.0, "copy: readouts do not share their dwell times");
    dt[0] = 77.0;
    CHECK(R.dwell_times[0] < 11.0, "copy: readouts do not share their dwell times");
}
