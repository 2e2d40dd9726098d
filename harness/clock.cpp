// Clocking of whole images: reference comparison, windows, offsets, columns, identities.
#include "clock.hpp"
#include <string.h>

// electrons held in one manager of any kind (its own bookkeeping is checked elsewhere)
template <class T> static double held_in(T& ms, int ph) { return ms[ph].n_trapped_electrons_total(); }

struct Sim {           // reference: one trap population per phase, driven transfer by transfer
    TrapManagerManager tm;
    Model& m;
    int nph;
    Sim(Model& m, int transfers) : tm(m.ic, m.sc, m.icco, m.scco, transfers, m.ccd, m.dwell), m(m), nph(m.ccd.n_phases) {}
    double transfer(int ph, double n_free) {
        double d = 0;
        if (m.ic.size()) d += tm.trap_managers_ic[ph].n_electrons_released_and_captured(n_free + d);
        if (m.sc.size()) d += tm.trap_managers_sc[ph].n_electrons_released_and_captured(n_free + d);
        if (m.icco.size()) d += tm.trap_managers_ic_co[ph].n_electrons_released_and_captured(n_free + d);
        if (m.scco.size()) d += tm.trap_managers_sc_co[ph].n_electrons_released_and_captured(n_free + d);
        return d;
    }
    double held() {
        double t = 0;
        for (int p = 0; p < nph; p++) {
            if (m.ic.size()) t += held_in(tm.trap_managers_ic, p);
            if (m.sc.size()) t += held_in(tm.trap_managers_sc, p);
            if (m.icco.size()) t += held_in(tm.trap_managers_ic_co, p);
            if (m.scco.size()) t += held_in(tm.trap_managers_sc_co, p);
        }
        return t;
    }
};

// number of transfers through the trap pixel of pass e that row r undergoes, all passes kept (standard readout)
static double full_weight(int n_passes, bool empty_first, int e, int r, int off) {
    int through = empty_first ? n_passes - 1 - e : e;      // trap pixels are visited in reverse order when traps start empty
    return r + off >= through ? 1.0 : 0.0;
}

// Reference for the standard readout with every transfer computed.
//   Single phase: pixel r passes through r+1+offset trap pixels.
static Image reference_full(Model& m, Image img, int r0, int r1, int c0, int c1, double* trapped) {
    int nr = img.size();
    int off = m.offset + m.roe->prescan_offset;
    int passes = nr + off;
    bool first = m.roe->empty_traps_for_first_transfers;
    for (int c = c0; c < c1; c++) {
        Sim s(m, r1 - r0 + m.offset);
        for (int e = 0; e < passes; e++) {
            Sim now(m, r1 - r0 + m.offset);
            if (!first) now.tm = s.tm;
            bool stored = false;
            for (int r = r0; r < r1; r++) {
                if (full_weight(passes, first, e, r, off) == 0) continue;
                double d = now.transfer(0, img[r][c]);
                img[r][c] += d;
                // the rows before the first one that meets the next trap pixel have met all the
                // trap pixels alike: it continues from what the last of them left behind
                if (!stored && full_weight(passes, first, e + 1, r, off) == 0 && r + 1 < nr && full_weight(passes, first, e + 1, r + 1, off) != 0) { s.tm = now.tm; stored = true; }
            }
            if (trapped) *trapped += now.held();
        }
    }
    return img;
}

static int nc(const Image& im) { return im[0].size(); }
// Reference that follows any express / store / clock-sequence tables of the readout.
static Image reference_tables(Model& m, Image img, int r0, int r1, int c0, int c1, int neg) {
    int nr = img.size();
    ROE& R = *m.roe;
    R.set_clock_sequence();
    R.set_express_matrix_from_rows_and_express(nr, m.express, m.offset);
    R.set_store_trap_states_matrix();
    int big = r1 - r0 + m.offset;
    if (!R.empty_traps_between_columns) big *= nc(img);
    if (R.type == roe_type_trap_pumping) big *= R.n_express_passes;
    Sim s(m, big), saved(m, big), empty(m, big);
    for (int c = c0; c < c1; c++) {
        if (R.empty_traps_between_columns) saved.tm = empty.tm;
        for (int e = 0; e < R.n_express_passes; e++) {
            s.tm = saved.tm;
            for (int r = r0; r < r1; r++) {
                double w = R.express_matrix[e * nr + r];
                if (w == 0) continue;
                for (int st = 0; st < R.n_steps; st++)
                    for (int ph = 0; ph < m.ccd.n_phases; ph++) {
                        ROEStepPhase& sp = R.clock_sequence[st][ph];
                        double n_free = 0;
                        for (size_t i = 0; i < sp.capture_from_which_pixels.size(); i++) {
                            int k = r + sp.capture_from_which_pixels[i];
                            if (k >= 0 && k < nr) n_free += img[k][c];
                        }
                        double d = s.transfer(ph, n_free);
                        for (size_t i = 0; i < sp.release_to_which_pixels.size(); i++) {
                            int k = r + sp.release_to_which_pixels[i];
                            if (k < 0 || k >= nr) continue;
                            img[k][c] += d * w * sp.release_fraction_to_pixels[i];
                            if (!neg && img[k][c] < 0.0) img[k][c] = 0.0;
                        }
                    }
                if (m.prune_frequency > 0 && (r - r0 + 1) % m.prune_frequency == 0) s.tm.prune_watermarks(m.prune_n);
                if (R.store_trap_states_matrix[e * nr + r]) saved.tm = s.tm;
            }
        }
        saved.tm = s.tm;
    }
    return img;
}

HARNESS(ref_full) {
    verbosity = 0;
    Model m = make_model();
    int nr = sym_cfg("rows", 2), nc = 1;
    Image im = sym_image(nr, nc);
    double trapped = 0;
    Image want = reference_full(m, im, 0, nr, 0, nc, &trapped);
    Image got = clock(m, im);
    REACH("clocked");
    obs_image(got);
    check_same(got, want, "full: clocking every transfer equals passing each pixel through its trap pixels in turn");
    if (m.roe->empty_traps_for_first_transfers) {
        CHECK_EQ(colsum(got, 0) + trapped, colsum(im, 0), "full: electrons missing from the column are exactly those left in traps");
        CHECK_LE(colsum(got, 0), colsum(im, 0), "full: a column never gains electrons");
    }
    for (int r = 0; r < nr; r++) CHECK_LE(0.0, got[r][0], "full: pixels stay non-negative when every transfer is computed");
}

HARNESS(ref_tables) {
    verbosity = 0;
    Model m = make_model();
    int nr = sym_cfg("rows", 2), nc = sym_cfg("cols", 1);
    int r0 = sym_cfg("r0", 0), r1 = sym_cfg("r1", nr), c0 = sym_cfg("c0", 0), c1 = sym_cfg("c1", nc), neg = sym_cfg("neg", 1);
    Image im = sym_image(nr, nc);
    Image want = reference_tables(m, im, r0, r1, c0, c1, neg);
    Image got = clock(m, im, r0, r1, c0, c1, neg);
    REACH("clocked");
    obs_image(got);
    check_same(got, want, "tables: each pixel changes by its transfers times their multipliers");
    if (!neg) for (int r = r0; r < r1; r++) for (int c = c0; c < c1; c++) CHECK_LE(0.0, got[r][c], "tables: no negative pixels when they are not allowed");
    for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++)
        if (c < c0 || c >= c1) CHECK_EQ(got[r][c], im[r][c], "window: columns outside the window are untouched");
}

// ---------------------------------------------------------------- windows
HARNESS(window) {
    verbosity = 0;
    Model m = make_model();
    int nr = sym_cfg("rows", 3), nc = sym_cfg("cols", 2);
    Image im = sym_image(nr, nc);
    Image full = clock(m, im);
    int c0 = sym_choose("column_start", 0, nc - 1), c1 = sym_choose("column_stop", 0, nc);
    int r1 = sym_choose("row_stop", 0, nr);
    if (c1 < c0) return;
    Image part = clock(m, im, 0, r1, c0, c1);
    REACH("window");
    obs_image(part);
    for (int r = 0; r < nr; r++)
        for (int c = 0; c < nc; c++)
            if (c < c0 || c >= c1 || r >= r1) CHECK_EQ(part[r][c], im[r][c], "window: pixels outside the window are untouched");
            else CHECK_EQ(part[r][c], full[r][c], "window: pixels inside the window are as without the window");
}
HARNESS(window_rows) {     // a window that starts later: rows before it are untouched, and what is before it has no effect
    verbosity = 0;
    Model m = make_model();
    int nr = sym_cfg("rows", 3);
    Image im = sym_image(nr, 1);
    int r0 = sym_choose("row_start", 0, nr);
    Image part = clock(m, im, r0, nr, 0, 1);
    REACH("window");
    obs_image(part);
    for (int r = 0; r < r0; r++) CHECK_EQ(part[r][0], im[r][0], "window: pixels outside the window are untouched");
    Image im2 = im;
    for (int r = 0; r < r0; r++) im2[r][0] = sym_range("other", 0, 900);
    Image part2 = clock(m, im2, r0, nr, 0, 1);
    for (int r = r0; r < nr; r++) CHECK_EQ(part2[r][0], part[r][0], "window: pixels before the window have no effect inside it");
}

// ---------------------------------------------------------------- causality
HARNESS(causal) {
    verbosity = 0;
    Model m = make_model();
    int nr = sym_cfg("rows", 2), k = sym_cfg("row", nr - 1);
    Image im = sym_image(nr, 1), im2 = im;
    im2[k][0] = sym_range("other", sym_cfg("lo", 0), 900);
    Image a = clock(m, im), b = clock(m, im2);
    REACH("clocked");
    obs_image(a);
    for (int r = 0; r < k; r++) CHECK_EQ(a[r][0], b[r][0], "causal: pixels read out earlier do not depend on pixels read out later");
}

// ---------------------------------------------------------------- columns
HARNESS(columns) {
    verbosity = 0;
    Model m = make_model();
    int nr = sym_cfg("rows", 2), nc = sym_cfg("cols", 2);
    Image im = sym_image(nr, nc);
    Image all = clock(m, im);
    REACH("clocked");
    obs_image(all);
    if (m.roe->empty_traps_between_columns) {
        for (int c = 0; c < nc; c++) {
            Image one = image(nr, 1);
            for (int r = 0; r < nr; r++) one[r][0] = im[r][c];
            Image o = clock(m, one);
            for (int r = 0; r < nr; r++) CHECK_EQ(all[r][c], o[r][0], "columns: each column is clocked as if it were alone");
        }
    } else {
        // charge injection with one transfer per pixel: columns in sequence are one long column
        Image one = image(nr * nc, 1);
        for (int c = 0; c < nc; c++) for (int r = 0; r < nr; r++) one[c * nr + r][0] = im[r][c];
        // (the number of transfers is fixed by where the overscan starts, whatever the number of rows)
        Model l = make_model();
        Image o = clock(l, one);
        for (int c = 0; c < nc; c++)
            for (int r = 0; r < nr; r++) CHECK_EQ(all[r][c], o[c * nr + r][0], "columns: traps that are not emptied carry their electrons into the next column");
    }
}

// ---------------------------------------------------------------- no effect
HARNESS(nothing) {
    verbosity = 0;
    Model m = make_model();
    int nr = sym_cfg("rows", 3), nc = sym_cfg("cols", 2);
    int what = sym_cfg("what", 0);
    if (what == 0) {                                  // no traps at all
        make_traps(m, "");
        Image im = image(nr, nc);
        for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) im[r][c] = sym_range("pix", -1e6, 1e6);
        Image out = clock(m, im);
        REACH("clocked"); obs_image(out);
        check_same(out, im, "nothing: an image without traps is unchanged");
        Image o2 = add_cti(im, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr);
        check_same(o2, im, "nothing: an image without any readout is unchanged");
        Image o3 = add_cti(im, m.roe, &m.ccd, nullptr, nullptr, nullptr, nullptr);
        check_same(o3, im, "nothing: an image without traps is unchanged");
    } else if (what == 1) {                           // traps of zero density
        for (auto& t : m.ic) t.density = 0;
        for (auto& t : m.sc) t.density = 0;
        for (auto& t : m.icco) t.density = 0;
        for (auto& t : m.scco) t.density = 0;
        Image im = sym_image(nr, nc);
        Image out = clock(m, im);
        REACH("clocked"); obs_image(out);
        check_same(out, im, "nothing: traps of zero density change nothing");
    } else if (what == 2) {                           // empty image
        Image im = image(nr, nc);
        Image out = clock(m, im);
        REACH("clocked"); obs_image(out);
        check_same(out, im, "nothing: an empty image stays empty");
    } else {                                          // charge inside the notch is never captured
        Image im = image(nr, nc);
        for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) im[r][c] = sym_range("pix", 0, 100);
        Image out = clock(m, im);
        REACH("clocked"); obs_image(out);
        check_same(out, im, "nothing: clouds inside the supplementary notch meet no traps");
    }
}

// ---------------------------------------------------------------- offsets and padding
HARNESS(offsets) {
    verbosity = 0;
    int nr = sym_cfg("rows", 2), k = sym_cfg("k", 1);
    Model a = make_model(), b = make_model(), c = make_model();
    Image im = sym_image(nr, 1);
    a.offset = k;
    b.roe->prescan_offset += k;
    if (b.roe->overscan_start > k) b.roe->overscan_start -= k;      // (counted from the end of the prescan)
    Image A = clock(a, im), B = clock(b, im);
    REACH("clocked");
    obs_image(A);
    check_same(A, B, "offset: a window offset and a prescan of the same length are equivalent");
    Image pad = image(nr + k, 1);
    for (int r = 0; r < nr; r++) pad[r + k][0] = im[r][0];
    if (a.express == 0) {
        Image P = clock(c, pad);
        for (int r = 0; r < nr; r++) CHECK_EQ(P[r + k][0], A[r][0], "offset: an offset is equivalent to that many empty rows nearer the readout");
        for (int r = 0; r < k; r++) CHECK_EQ(P[r][0], 0.0, "offset: empty rows nearer the readout stay empty");
    }
}

// ---------------------------------------------------------------- units and lists
template <class T> static void times_density(std::valarray<T>& ts, double k) { for (auto& t : ts) t.density *= k; }
template <class T> static void split(std::valarray<T>& ts, bool halves) {
    size_t n = ts.size(), c = halves ? 2 : 1;
    if (!n) return;
    std::valarray<T> out(ts[0], n * c);
    for (size_t i = 0; i < n * c; i++) { out[i] = ts[n - 1 - i % n]; out[i].density /= c; }
    ts.resize(n * c, out[0]);
    for (size_t i = 0; i < n * c; i++) ts[i] = out[i];
}

HARNESS(units) {
    verbosity = 0;
    int what = sym_cfg("what", 0), nr = sym_cfg("rows", 2), nc = sym_cfg("cols", 1), neg = sym_cfg("neg", 1);
    double k = sym_cfg("k", 2);
    if (sym_cfg("inverse", 0)) k = 1 / k;
    Model a = make_model(), b = make_model("", "i", what == 1 ? k : 1.0);
    Image im = sym_image(nr, nc), im2 = im;
    if (what == 0) {                  // charge in other units
        for (int p = 0; p < b.ccd.n_phases; p++) {
            CCDPhase& q = b.ccd.phases[p];
            q = CCDPhase(q.full_well_depth * k, q.well_notch_depth * k, q.well_fill_power, q.first_electron_fill);
        }
        times_density(b.ic, k); times_density(b.sc, k); times_density(b.icco, k); times_density(b.scco, k);
        b.prune_n *= k;
        for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) im2[r][c] = im[r][c] * k;
    } else if (what >= 2) {           // the same traps listed otherwise
        split(b.ic, what == 3); split(b.sc, what == 3); split(b.icco, what == 3); split(b.scco, what == 3);
    }
    Image A = clock(a, im, 0, -1, 0, -1, neg), B = clock(b, im2, 0, -1, 0, -1, neg);
    REACH("clocked");
    obs_image(A);
    if (what == 0) for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) A[r][c] *= k;
    check_same(B, A, what == 0 ? "units: the result does not depend on the unit of charge" : what == 1 ? "units: the result does not depend on the unit of time"
                               : "units: the result does not depend on how equal traps are listed");
}

// ---------------------------------------------------------------- charge is only ever delayed
HARNESS(delayed) {
    verbosity = 0;
    Model m = make_model();
    int nr = sym_cfg("rows", 2);
    Image im = sym_image(nr, 1);
    Image out = clock(m, im);
    REACH("clocked");
    obs_image(out);
    double in = 0, got = 0;
    for (int r = 0; r < nr; r++) {
        in += im[r][0]; got += out[r][0];
        CHECK_LE(got, in, "delay: no more charge arrives by any moment than was sent by then");
        CHECK_LE(0.0, out[r][0], "delay: no pixel becomes negative");
    }
}
