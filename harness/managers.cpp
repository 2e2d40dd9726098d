// One release/capture step of each kind of trap population, from an arbitrary
// valid trap state; short histories from the empty state; pruning; store/restore.
#include "common.hpp"

// ---------------------------------------------------------------- trap populations
static double cfgd(const char* n, double d) { const char* s = sym_cfg_str(n, ""); return *s ? atof(s) : d; }

template <class T> struct Make;
template <> struct Make<TrapManagerInstantCapture> {
    typedef TrapInstantCapture Trap;
    static Trap trap(double d, int j) { return Trap(d, 1.0 + j); }
    static void prepare(TrapManagerInstantCapture& m) {
        m.initialise_trap_states();
        m.empty_probabilities_from_release = std::valarray<double>(0.0, m.n_traps);
        for (int j = 0; j < m.n_traps; j++)
            m.empty_probabilities_from_release[j] = sym_cfg("probs", 0) ? 0.25 + 0.25 * j : sym_range("p_release", 0, 1);
    }
};
template <> struct Make<TrapManagerSlowCapture> {
    typedef TrapSlowCapture Trap;
    static Trap trap(double d, int j) { return Trap(d, 1.0 + j, 0.5); }
    static void prepare(TrapManagerSlowCapture& m) {
        m.initialise_trap_states();
        m.empty_probabilities_from_release = std::valarray<double>(0.0, m.n_traps);
        m.fill_probabilities_from_empty = std::valarray<double>(0.0, m.n_traps);
        m.fill_probabilities_from_full = std::valarray<double>(0.0, m.n_traps);
        for (int j = 0; j < m.n_traps; j++) {
            if (sym_cfg("probs", 0)) {  // fixed probabilities
                m.empty_probabilities_from_release[j] = 0.25 + 0.25 * j;
                m.fill_probabilities_from_empty[j] = 0.5;
                m.fill_probabilities_from_full[j] = 0.875 - 0.125 * j;
                continue;
            }
            m.empty_probabilities_from_release[j] = sym_range("p_release", 0, 1);
            double pe = sym_range("p_fill_empty", 0, 1), pf = sym_range("p_fill_full", 0, 1);
            ASSUME_LE(pe, pf);
            m.fill_probabilities_from_empty[j] = pe;
            m.fill_probabilities_from_full[j] = pf;
        }
    }
};
template <> struct Make<TrapManagerInstantCaptureContinuum> {
    typedef TrapInstantCaptureContinuum Trap;
    static Trap trap(double d, int j) { return Trap(d, cfgd("tau", 2.0) + j, cfgd("sigma", 0.5)); }
    static void prepare(TrapManagerInstantCaptureContinuum& m) { m.n_intp = sym_cfg("intp", 3); m.setup(); }
};
template <> struct Make<TrapManagerSlowCaptureContinuum> {
    typedef TrapSlowCaptureContinuum Trap;
    static Trap trap(double d, int j) { return Trap(d, cfgd("tau", 2.0) + j, cfgd("sigma", 0.5), cfgd("tauc", 0.7)); }
    static void prepare(TrapManagerSlowCaptureContinuum& m) { m.n_intp = sym_cfg("intp", 3); m.setup(); }
};

// exposure of a volume interval to trap species j (1 for uniform traps)
template <class M> double exposed(M&, int, double, double) { return 1.0; }
template <> double exposed(TrapManagerInstantCapture& m, int j, double lo, double hi) {
    if (m.traps[j].fractional_volume_full_exposed == 0.0) return 1.0;
    return m.traps[j].fraction_traps_exposed_per_fractional_volume(lo, hi);
}

// electrons held: sum over active levels of volume * (fill * exposure)
template <class M> double held(M& m) {
    double t = 0, lo = 0;
    for (int i = m.i_first_active_wmk; i < m.i_first_active_wmk + m.n_active_watermarks; i++) {
        double s = 0, v = m.watermark_volumes[i];
        for (int j = 0; j < m.n_traps; j++) s += m.watermark_fills[i * m.n_traps + j] * exposed(m, j, lo, lo + v);
        t += s * v;
        lo += v;
    }
    return t;
}

// arbitrary valid state with n levels starting at index f; entries above are empty,
// entries below hold superseded values.  mono: fills do not increase with height.
static void arbitrary_state(TrapManagerBase& m, int f, int n, bool mono) {
    m.i_first_active_wmk = f;
    m.n_active_watermarks = n;
    double tot = 0;
    for (int i = 0; i < f + n; i++) {
        double v = sym_range("vol", 0, 1);
        if (i >= f) tot += v;
        m.watermark_volumes[i] = v;
        for (int j = 0; j < m.n_traps; j++) {
            double x = sym_range("fill", 0, 1e4);
            ASSUME_LE(x, m.trap_densities[j]);
            if (mono && i > f) ASSUME_LE(x, m.watermark_fills[(i - 1) * m.n_traps + j]);
            m.watermark_fills[i * m.n_traps + j] = x;
        }
    }
    if (n) ASSUME_LE(tot, 1.0);
}

static void check_state(TrapManagerBase& m, double top) {
    CHECK(m.n_active_watermarks >= 0 && m.i_first_active_wmk >= 0 &&
              m.i_first_active_wmk + m.n_active_watermarks <= (int)m.watermark_volumes.size(),
          "state: trap levels stay inside the storage");
    double tot = 0;
    for (int i = m.i_first_active_wmk; i < m.i_first_active_wmk + m.n_active_watermarks; i++) {
        CHECK_LE(0.0, m.watermark_volumes[i], "state: level volume not negative");
        tot += m.watermark_volumes[i];
        for (int j = 0; j < m.n_traps; j++) {
            CHECK_LE(0.0, m.watermark_fills[i * m.n_traps + j], "state: fill not negative");
            CHECK_LE(m.watermark_fills[i * m.n_traps + j], m.trap_densities[j], "state: fill not above density");
        }
    }
    CHECK_LE(tot, top, "state: levels occupy at most the whole pixel");
}

template <class M> M build(int cap, CCDPhase ph, bool nonuni = false) {
    typedef typename Make<M>::Trap Trap;
    int nt = sym_cfg("traps", 1);
    std::valarray<Trap> traps(Make<M>::trap(1.0, 0), nt);
    for (int j = 0; j < nt; j++) traps[j] = Make<M>::trap(sym_cfg("dens", 0) ? sym_cfg("dens", 0) + 3.0 * j : 1.0, j);
    M m(traps, cap, ph, 1.0);
    for (int j = 0; j < nt; j++)
        if (!sym_cfg("dens", 0)) {
            double d = sym_range("density", 0, 1e4);
            if (!sym_cfg("zerodens", 0)) ASSUME_LT(0.0, d);
            m.trap_densities[j] = d;
        }
    (void)nonuni;
    return m;
}

// ---------------------------------------------------------------- one step, arbitrary state
template <class M> void step() {
    CCDPhase ph = sym_phase(sym_cfg("phase", 3));
    int maxlev = sym_cfg("maxlev", 2);
    M m = build<M>(sym_cfg("cap", maxlev + 2), ph);
    Make<M>::prepare(m);
    int n = sym_choose("levels", 0, maxlev);
    int f = n ? sym_choose("first", 0, sym_cfg("maxfirst", 1)) : 0;
    arbitrary_state(m, f, n, sym_cfg("mono", 0));
    double nf = sym_range("n_free", 0, 1e5);
    double before = held(m);
    double out = m.n_electrons_released_and_captured(nf);
    REACH("step done");
    OBS("out", out);
    OBS("held", held(m));
    OBS("levels", m.n_active_watermarks);
    CHECK_EQ(held(m) + out, before, "conserve: free plus trapped electrons unchanged by a transfer");
    CHECK_LE(0.0, nf + out, "state: never captures more electrons than are available");
    CHECK_EQ(m.n_trapped_electrons_total(), held(m), "conserve: reported trapped electrons are the ones held");
    check_state(m, 1.0);
    if (sym_cfg("mono", 0)) {
        for (int i = m.i_first_active_wmk + 1; i < m.i_first_active_wmk + m.n_active_watermarks; i++)
            for (int j = 0; j < m.n_traps; j++)
                CHECK_LE(m.watermark_fills[i * m.n_traps + j], m.watermark_fills[(i - 1) * m.n_traps + j],
                         "state: fills do not increase with height");
    }
}
HARNESS(ic_step) { step<TrapManagerInstantCapture>(); }
HARNESS(sc_step) { step<TrapManagerSlowCapture>(); }
HARNESS(icco_step) { step<TrapManagerInstantCaptureContinuum>(); }
HARNESS(scco_step) { step<TrapManagerSlowCaptureContinuum>(); }

// surface-like traps: exposure grows with height
HARNESS(ic_nonuniform) {
    CCDPhase ph = sym_phase(sym_cfg("phase", 3));
    double a = cfgd("none", 0.25), b = cfgd("full", 0.5);
    std::valarray<TrapInstantCapture> traps(TrapInstantCapture(10.0, 1.0, a, b), 1);
    int maxlev = sym_cfg("maxlev", 1);
    TrapManagerInstantCapture m(traps, maxlev + 2, ph, 1.0);
    Make<TrapManagerInstantCapture>::prepare(m);
    int n = sym_choose("levels", 0, maxlev);
    arbitrary_state(m, 0, n, false);
    for (int i = 0; i < n; i++) ASSUME_LT(0.0, m.watermark_volumes[i]);
    double nf = sym_range("n_free", 0, 1e5);
    double before = held(m);
    double out = m.n_electrons_released_and_captured(nf);
    REACH("step done");
    OBS("out", out);
    OBS("held", held(m));
    CHECK_EQ(held(m) + out, before, "conserve: free plus trapped electrons unchanged by a transfer");
    CHECK_LE(0.0, nf + out, "state: never captures more electrons than are available");
    check_state(m, 1.0);
}

// ---------------------------------------------------------------- histories from empty traps
template <class M> void history() {
    CCDPhase ph = sym_phase(sym_cfg("phase", 3));
    int k = sym_cfg("steps", 3);
    M m = build<M>(k, ph);
    Make<M>::prepare(m);
    double trapped = 0;
    const char* ops = sym_cfg_str("ops", "tttt");
    double thr = sym_cfg("thrpos", 1) ? sym_range("threshold", 0, 100) : 0;
    if (sym_cfg("thrneg", 0)) thr = -sym_range("threshold", 0, 100);
    double top = 0;
    for (const char* p = ops; *p; p++) {
        if (*p == 't') {
            double nf = sym_range("n_free", 0, 1e5);
            double out = m.n_electrons_released_and_captured(nf);
            trapped -= out;
            OBS("out", out);
            CHECK_LE(0.0, nf + out, "state: never captures more electrons than are available");
        } else if (*p == 'p') {
            m.prune_watermarks(thr);
        } else if (*p == 's') {
            m.store_trap_states();
        } else if (*p == 'x') {
            m.reset_trap_states();
            trapped = 0;
        }
        CHECK_EQ(held(m), trapped, "conserve: electrons held equal net captured so far");
        check_state(m, 1.0);
    }
    (void)top;
    REACH("history done");
}
HARNESS(ic_history) { history<TrapManagerInstantCapture>(); }
HARNESS(sc_history) { history<TrapManagerSlowCapture>(); }
HARNESS(icco_history) { history<TrapManagerInstantCaptureContinuum>(); }
HARNESS(scco_history) { history<TrapManagerSlowCaptureContinuum>(); }

// ---------------------------------------------------------------- pruning
template <class M> void prune() {
    CCDPhase ph = sym_phase(3);
    int maxlev = sym_cfg("maxlev", 3);
    M m = build<M>(maxlev + 2, ph);
    Make<M>::prepare(m);
    int n = sym_choose("levels", 0, maxlev);
    int f = n ? sym_choose("first", 0, 1) : 0;
    arbitrary_state(m, f, n, sym_cfg("mono", 1));
    double thr = sym_range("threshold", 0, 1e4);
    int neg = sym_cfg("neg", 0);
    if (neg) thr = -thr;
    double before = held(m), tot = 0;
    for (int i = f; i < f + n; i++) tot += m.watermark_volumes[i];
    m.prune_watermarks(thr);
    REACH("pruned");
    OBS("held", held(m));
    OBS("levels", m.n_active_watermarks);
    CHECK_EQ(held(m), before, "conserve: pruning keeps the number of trapped electrons");
    CHECK(m.n_active_watermarks <= n, "state: pruning never adds levels");
    CHECK(n == 0 || m.n_active_watermarks >= 1, "state: pruning keeps at least one level");
    check_state(m, 1.0);
    // levels whose content is not below the threshold survive: with a zero threshold nothing changes
    if (sym_cfg("thenstep", 0)) {
        double h = held(m);
        double nf = sym_range("n_free", 0, 1e5);
        double out = m.n_electrons_released_and_captured(nf);
        OBS("out", out);
        CHECK_EQ(held(m) + out, h, "conserve: free plus trapped electrons unchanged by a transfer after pruning");
        CHECK_LE(0.0, nf + out, "state: never captures more electrons than are available");
        check_state(m, 1.0);
    }
}
HARNESS(ic_prune) { prune<TrapManagerInstantCapture>(); }
HARNESS(sc_prune) { prune<TrapManagerSlowCapture>(); }

// what pruning may and may not dissolve
HARNESS(prune_select) {
    TrapManagerInstantCapture m = build<TrapManagerInstantCapture>(5, CCDPhase(1000, 0, 1));
    Make<TrapManagerInstantCapture>::prepare(m);
    int n = sym_choose("levels", 1, sym_cfg("maxlev", 3));
    arbitrary_state(m, 0, n, true);
    double thr = sym_range("threshold", 0, 1e4);
    std::valarray<double> v = m.watermark_volumes, fl = m.watermark_fills;
    bool any = false;
    for (int i = 1; i < n; i++) {
        double e = 0;
        for (int j = 0; j < m.n_traps; j++) e += fl[i * m.n_traps + j];
        if (e * v[i] < thr) any = true;
    }
    m.prune_watermarks(thr);
    if (!any) {
        REACH("nothing to prune");
        CHECK(m.n_active_watermarks == n, "select: levels at or above the threshold are kept");
        for (int i = 0; i < n; i++) {
            CHECK_EQ(m.watermark_volumes[i], v[i], "select: volumes untouched when nothing is below the threshold");
            for (int j = 0; j < m.n_traps; j++)
                CHECK_EQ(m.watermark_fills[i * m.n_traps + j], fl[i * m.n_traps + j], "select: fills untouched when nothing is below the threshold");
        }
    } else REACH("something to prune");
}

// ---------------------------------------------------------------- store / restore / reset
template <class M> void storer() {
    int nt = sym_cfg("traps", 1);
    CCDPhase ph(1000, 0, 1);
    int maxlev = sym_cfg("maxlev", 2);
    M a = build<M>(maxlev + 3, ph);
    Make<M>::prepare(a);
    int n = sym_choose("levels", 0, maxlev);
    int f = n ? sym_choose("first", 0, 1) : 0;
    arbitrary_state(a, f, n, false);
    a.store_trap_states();
    M b = a;                      // the state as it is now
    double q = sym_range("n_free", 0, 1e5);
    if (sym_cfg("reset", 0)) a.reset_trap_states(); else a.n_electrons_released_and_captured(q);
    a.restore_trap_states();
    REACH("restored");
    CHECK(a.n_active_watermarks == b.n_active_watermarks && a.i_first_active_wmk == b.i_first_active_wmk, "restore: same active levels");
    for (int i = 0; i < (int)a.watermark_volumes.size(); i++) {
        CHECK_EQ(a.watermark_volumes[i], b.watermark_volumes[i], "restore: volumes come back");
        for (int j = 0; j < nt; j++)
            CHECK_EQ(a.watermark_fills[i * nt + j], b.watermark_fills[i * nt + j], "restore: fills come back");
    }
    // restoring twice gives the same again, and the stored copy is not an alias
    a.n_electrons_released_and_captured(q);
    a.restore_trap_states();
    CHECK_EQ(held(a), held(b), "restore: a second restore gives the same state");
    a.reset_trap_states();
    CHECK(a.n_active_watermarks == 0, "restore: reset empties the traps");
    CHECK_EQ(held(a), 0.0, "restore: reset empties the traps");
    double r = a.n_electrons_released_and_captured(0.0);
    CHECK_EQ(r, 0.0, "restore: empty traps release nothing");
}
HARNESS(ic_store) { storer<TrapManagerInstantCapture>(); }
HARNESS(sc_store) { storer<TrapManagerSlowCapture>(); }
HARNESS(icco_store) { storer<TrapManagerInstantCaptureContinuum>(); }
HARNESS(scco_store) { storer<TrapManagerSlowCaptureContinuum>(); }

// ---------------------------------------------------------------- C35: what happens to the traps at one depth
// The laws of release and capture of one trap, apart from any levels.
struct Laws {
    bool slow, continuum;
    virtual ~Laws() {}
    virtual double after_release(int j, double fill, double dens) = 0;  // traps that electrons cannot reach
    virtual double after_contact(int j, double fill, double dens) = 0;  // traps within the cloud, with electrons enough
};
template <class M> struct LawsOf;
template <> struct LawsOf<TrapManagerInstantCapture> : Laws {
    TrapManagerInstantCapture& m;
    LawsOf(TrapManagerInstantCapture& m) : m(m) { slow = continuum = false; }
    double after_release(int j, double f, double) { return f * (1.0 - m.empty_probabilities_from_release[j]); }
    double after_contact(int, double, double d) { return d; }
};
template <> struct LawsOf<TrapManagerSlowCapture> : Laws {
    TrapManagerSlowCapture& m;
    LawsOf(TrapManagerSlowCapture& m) : m(m) { slow = true; continuum = false; }
    double after_release(int j, double f, double) { return f * (1.0 - m.empty_probabilities_from_release[j]); }
    double after_contact(int j, double f, double d) { return m.fill_probabilities_from_full[j] * f + m.fill_probabilities_from_empty[j] * (d - f); }
};
template <class M> struct ContinuumLaws : Laws {
    M& m;
    ContinuumLaws(M& m) : m(m) { continuum = true; }
    double elapsed(int j, double f, double d) { return m.traps[j].time_elapsed_from_fill_fraction_table(f / d); }
    double after_release(int j, double f, double d) { return d * m.traps[j].fill_fraction_from_time_elapsed_table(elapsed(j, f, d) + m.dwell_time); }
};
template <> struct LawsOf<TrapManagerInstantCaptureContinuum> : ContinuumLaws<TrapManagerInstantCaptureContinuum> {
    LawsOf(TrapManagerInstantCaptureContinuum& m) : ContinuumLaws<TrapManagerInstantCaptureContinuum>(m) { slow = false; }
    double after_contact(int, double, double d) { return d; }
};
template <> struct LawsOf<TrapManagerSlowCaptureContinuum> : ContinuumLaws<TrapManagerSlowCaptureContinuum> {
    LawsOf(TrapManagerSlowCaptureContinuum& m) : ContinuumLaws<TrapManagerSlowCaptureContinuum>(m) { slow = true; }
    double after_contact(int j, double f, double d) { return d * m.traps[j].fill_fraction_after_slow_capture_table(elapsed(j, f, d)); }
};

// traps filled at depth x
static double fill_at(TrapManagerBase& m, int j, double x) {
    double top = 0;
    for (int i = m.i_first_active_wmk; i < m.i_first_active_wmk + m.n_active_watermarks; i++) {
        top += m.watermark_volumes[i];
        if (x < top) return m.watermark_fills[i * m.n_traps + j];
    }
    return 0.0;
}

template <class M> void profile() {
    CCDPhase ph = sym_phase(sym_cfg("phase", 3));
    int maxlev = sym_cfg("maxlev", 1), nt = sym_cfg("traps", 1);
    M m = build<M>(sym_cfg("cap", maxlev + 2), ph);
    Make<M>::prepare(m);
    LawsOf<M> law(m);
    int n = sym_choose("levels", sym_cfg("minlev", 0), maxlev);
    int f = n ? sym_choose("first", 0, sym_cfg("maxfirst", 0)) : 0;
    arbitrary_state(m, f, n, sym_cfg("mono", 0));
    double nf = sym_range("n_free", 0, 1e5), x = sym_range("depth", 0, 1);
    ASSUME_LT(x, 1.0);
    // the state before, as intervals
    std::valarray<double> lo(0.0, n + 1), hi(0.0, n + 1), fill(0.0, (n + 1) * nt);
    double top = 0;
    for (int i = 0; i <= n; i++) {
        lo[i] = top;
        if (i < n) top += m.watermark_volumes[f + i]; else top = 1.0;
        hi[i] = top;
        for (int j = 0; j < nt; j++) fill[i * nt + j] = i < n ? m.watermark_fills[(f + i) * nt + j] : 0.0;
    }
    int at = n;
    for (int i = n - 1; i >= 0; i--) if (x < hi[i]) at = i;

    // the law
    double reach0 = law.slow ? ph.cloud_fractional_volume_from_electrons(nf) : 0.0;  // traps above this release first
    double released = 0;
    std::valarray<double> mid(0.0, 2 * (n + 1) * nt);  // below, above reach0
    for (int i = 0; i <= n; i++)
        for (int j = 0; j < nt; j++) {
            double a = fill[i * nt + j], d = m.trap_densities[j], r = i < n ? law.after_release(j, a, d) : 0.0;
            if (i < n) {
                if (!(hi[i] > reach0)) mid[(2 * i) * nt + j] = a;
                else {
                    double from = lo[i];
                    if (reach0 > lo[i]) from = reach0;
                    released += (a - r) * (hi[i] - from);
                    mid[(2 * i) * nt + j] = law.slow ? a : r;
                    mid[(2 * i + 1) * nt + j] = r;
                }
            }
        }
    double now = nf + released, reach = ph.cloud_fractional_volume_from_electrons(now), need = 0;
    for (int i = 0; i <= n; i++)
        for (int part = 0; part < 2; part++) {
            double a = lo[i], b = hi[i];
            if (part == 0) { if (!(reach0 > a)) continue; if (b > reach0) b = reach0; }
            else { if (!(b > reach0)) continue; if (reach0 > a) a = reach0; }
            if (!(reach > a)) continue;
            if (b > reach) b = reach;
            for (int j = 0; j < nt; j++) {
                double was = mid[(2 * i + part) * nt + j];
                need += (law.after_contact(j, was, m.trap_densities[j]) - was) * (b - a);
            }
        }
    int part = x < reach0 ? 0 : 1;
    bool inside = x < reach, scarce = need > now;

    double out = m.n_electrons_released_and_captured(nf);
    REACH("depth");
    OBS("out", out);
    for (int j = 0; j < nt; j++) {
        double d = m.trap_densities[j], was = mid[(2 * at + part) * nt + j], got = fill_at(m, j, x);
        OBS("fill", got);
        if (!inside) { CHECK_EQ(got, was, "depth: traps above the cloud only release"); continue; }
        double full = law.after_contact(j, was, d);
        if (scarce) CHECK_EQ(got, was + (full - was) * (now / need), "depth: traps share electrons that are not enough for all of them");
        else CHECK_EQ(got, full, "depth: traps within the cloud capture");
    }
    if (scarce) CHECK_EQ(out, -nf, "depth: all electrons are captured when they are not enough for the traps");
    else CHECK_EQ(out, released - need, "depth: electrons released and captured are those of the traps at all depths");
}
HARNESS(ic_profile) { profile<TrapManagerInstantCapture>(); }
HARNESS(sc_profile) { profile<TrapManagerSlowCapture>(); }
HARNESS(icco_profile) { profile<TrapManagerInstantCaptureContinuum>(); }
HARNESS(scco_profile) { profile<TrapManagerSlowCaptureContinuum>(); }
