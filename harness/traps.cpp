// Volumes, exposure, probabilities and continuum tables: the physics every step rests on.
#include "common.hpp"
#include <float.h>
#include <limits>

static double cfgd(const char* n, double d) { const char* s = sym_cfg_str(n, ""); return *s ? atof(s) : d; }
// volume in hundredths, e.g. 25 -> 0.25; negative: symbolic
static double pos(const char* n, double lo, double hi) { return sym_range(n, lo, hi); }

// ---------------------------------------------------------------- C16
static double ref_volume(double n, double full, double notch, double beta, double fef) {
    double x = (n - notch) / (full - notch);
    if (x <= 0.0) return fef;
    if (x >= 1.0) return 1.0;
    return fef + (1.0 - fef) * pow(x, beta);
}

HARNESS(volume) {
    int mode = sym_cfg("mode", 0);
    double full = pos("full_well", 100, 1e6), notch = pos("notch", 0, 90);
    double fef = pos("first_electron_fill", 0, 1);
    double beta = mode == 0 ? 1.0 : mode == 1 ? pos("fill_power", 0.01, 10) : mode == 2 ? 0.5 : 2.0;
    if (sym_cfg("nofef", 0)) ASSUME_EQ(fef, 0.0);
    CCDPhase one(full, notch, beta, fef);
    CCD ccd(one);
    CCDPhase& ph = sym_cfg("viaccd", 0) ? ccd.phases[0] : one;
    double a = pos("cloud", -1e6, 2e6), b = pos("cloud", -1e6, 2e6);
    double va = ph.cloud_fractional_volume_from_electrons(a), vb = ph.cloud_fractional_volume_from_electrons(b);
    CHECK_LE(fef, va, "volume: at least the volume the first electron fills");
    CHECK_LE(va, 1.0, "volume: at most the whole pixel");
    ASSUME_LE(a, b);
    CHECK_LE(va, vb, "volume: a larger cloud never occupies less");
    CHECK_EQ(va, ref_volume(a, full, notch, beta, fef), "volume: follows the power law between notch and full well");
    if (a <= notch) CHECK_EQ(va, fef, "volume: charge inside the notch occupies none but the first electron's volume");
    if (b >= full) CHECK_EQ(vb, 1.0, "volume: a full well fills the pixel");
    REACH("volume");
    OBS("va", va); OBS("vb", vb);
}

HARNESS(ccd_phases) {
    int n = sym_choose("n_phases", 1, sym_cfg("max", 3));
    std::valarray<CCDPhase> ph(CCDPhase(1, 0, 1), n);
    std::valarray<double> frac(0.0, n), full(0.0, n), notch(0.0, n);
    for (int i = 0; i < n; i++) {
        full[i] = pos("full_well", 100, 1e6); notch[i] = pos("notch", 0, 90); frac[i] = pos("fraction", 0, 1);
        ph[i] = CCDPhase(full[i], notch[i], 1.0);
    }
    CCD ccd(ph, frac);
    CHECK(ccd.n_phases == (unsigned)n && ccd.phases.size() == (size_t)n, "phases: as many as given");
    double c = pos("cloud", 0, 1e6);
    for (int i = 0; i < n; i++) {
        CHECK_EQ(ccd.fraction_of_traps_per_phase[i], frac[i], "phases: each with its share of the traps");
        CHECK_EQ(ccd.phases[i].cloud_fractional_volume_from_electrons(c), ref_volume(c, full[i], notch[i], 1.0, 0.0), "phases: each with its own well");
    }
    // the managers of each phase
    std::valarray<TrapInstantCapture> ic(TrapInstantCapture(1, 1), 1);
    std::valarray<TrapSlowCapture> sc(TrapSlowCapture(1, 1, 1), 1);
    std::valarray<TrapInstantCaptureContinuum> icc;
    std::valarray<TrapSlowCaptureContinuum> scc;
    double d0 = pos("density", 0, 1e4), d1 = pos("density", 0, 1e4);
    ic[0].density = d0; sc[0].density = d1;
    std::valarray<double> dwell(0.0, n);
    for (int i = 0; i < n; i++) dwell[i] = pos("dwell", 0.01, 10);
    TrapManagerManager mm(ic, sc, icc, scc, 5, ccd, dwell);
    CHECK((int)mm.trap_managers_ic.size() == n && (int)mm.trap_managers_sc.size() == n, "phases: one set of traps each");
    for (int i = 0; i < n; i++) {
        CHECK_EQ(mm.trap_managers_ic[i].dwell_time, dwell[i], "phases: traps of each phase see that phase's dwell time");
        CHECK_EQ(mm.trap_managers_sc[i].dwell_time, dwell[i], "phases: traps of each phase see that phase's dwell time");
        CHECK_EQ(mm.trap_managers_ic[i].trap_densities[0], d0 * frac[i], "phases: each holds its share of the density");
        CHECK_EQ(mm.trap_managers_sc[i].trap_densities[0], d1 * frac[i], "phases: each holds its share of the density");
        CHECK_EQ(mm.trap_managers_ic[i].ccd_phase.cloud_fractional_volume_from_electrons(c), ref_volume(c, full[i], notch[i], 1.0, 0.0), "phases: traps of each phase see that phase's well");
        CHECK_EQ(mm.trap_managers_sc[i].ccd_phase.cloud_fractional_volume_from_electrons(c), ref_volume(c, full[i], notch[i], 1.0, 0.0), "phases: traps of each phase see that phase's well");
    }
    REACH("volume");
}

// the same for traps with a continuum of lifetimes, whose tables need concrete times
template <class T> static void co_phases(std::valarray<TrapInstantCaptureContinuum> icc, std::valarray<TrapSlowCaptureContinuum> scc, T managers) {
    int n = sym_cfg("n", 2);
    std::valarray<CCDPhase> ph(CCDPhase(1, 0, 1), n);
    std::valarray<double> frac(0.0, n), full(0.0, n), notch(0.0, n), dwell(0.0, n);
    for (int i = 0; i < n; i++) {
        full[i] = pos("full_well", 100, 1e6); notch[i] = pos("notch", 0, 90); frac[i] = pos("fraction", 0, 1);
        ph[i] = CCDPhase(full[i], notch[i], 1.0);
        dwell[i] = 0.5 + 0.25 * i;
    }
    double c = pos("cloud", 0, 1e6), d = pos("density", 0, 1e4);
    for (auto& t : icc) t.density = d;
    for (auto& t : scc) t.density = d;
    std::valarray<TrapInstantCapture> ic;
    std::valarray<TrapSlowCapture> sc;
    TrapManagerManager mm(ic, sc, icc, scc, 3, CCD(ph, frac), dwell);
    auto& ms = managers(mm);
    CHECK((int)ms.size() == n, "phases: one set of traps each");
    for (int i = 0; i < n; i++) {
        CHECK_EQ(ms[i].dwell_time, dwell[i], "phases: traps of each phase see that phase's dwell time");
        CHECK_EQ(ms[i].trap_densities[0], d * frac[i], "phases: each holds its share of the density");
        CHECK_EQ(ms[i].ccd_phase.cloud_fractional_volume_from_electrons(c), ref_volume(c, full[i], notch[i], 1.0, 0.0), "phases: traps of each phase see that phase's well");
    }
    REACH("volume");
}
HARNESS(co_phases) {
    if (sym_cfg("slow", 0)) co_phases({}, {TrapSlowCaptureContinuum(1, 1, 0.5, 0.2)}, [](TrapManagerManager& m) -> std::valarray<TrapManagerSlowCaptureContinuum>& { return m.trap_managers_sc_co; });
    else co_phases({TrapInstantCaptureContinuum(1, 1, 0.5)}, {}, [](TrapManagerManager& m) -> std::valarray<TrapManagerInstantCaptureContinuum>& { return m.trap_managers_ic_co; });
}

struct CcdArg { int np, nf; };
static void mk_ccd(void* p) {
    CcdArg* a = (CcdArg*)p;
    std::valarray<CCDPhase> ph(CCDPhase(1000, 0, 1), a->np);
    std::valarray<double> f(1.0, a->nf);
    CCD c(ph, f);
}
HARNESS(ccd_sizes) {
    CcdArg a = {sym_choose("np", 1, 4), sym_choose("nf", 1, 4)};
    int r = sym_guard(mk_ccd, &a);
    CHECK(r == (a.np == a.nf ? 0 : 1), "phases: refused exactly when there is not one share of the traps for each");
    REACH("volume");
}

// ---------------------------------------------------------------- C17
// integral of the exposed fraction from 0 to v
static double ref_exposed(double v, double a, double b) {
    if (v <= a) return 0.0;
    if (v >= b) return v - 0.5 * (a + b);
    return 0.5 * (v - a) * (v - a) / (b - a);
}

HARNESS(exposure) {
    int kind = sym_cfg("kind", 0);  // 0 ramp, 1 step, 2 uniform, 3 ramp with concrete limits
    double a = 0, b = 0;
    if (kind == 0) { a = pos("none_exposed", 0, 1); b = pos("full_exposed", 0, 1); ASSUME_LT(a, b); }
    if (kind == 1) { a = pos("exposed", 0, 1); ASSUME_LT(a, 1.0); ASSUME_LT(0.0, a); b = a; }
    if (kind == 3) { a = 0.25; b = 0.75; }
    double d = pos("density", 0, 1e4);
    TrapInstantCapture t(d, 1.0, a, b);
    double lo = pos("v", 0, 1), mid = pos("v", 0, 1), hi = pos("v", 0, 1);
    ASSUME_LT(lo, mid); ASSUME_LT(mid, hi);
    double e = t.fraction_traps_exposed_per_fractional_volume(lo, hi);
    CHECK_LE(0.0, e, "exposure: not negative");
    CHECK_LE(e, 1.0, "exposure: at most all traps");
    CHECK_EQ(e * (hi - lo), ref_exposed(hi, a, b) - ref_exposed(lo, a, b), "exposure: the integral of the linear ramp over the volumes");
    if (sym_cfg("split", 1)) {
        double e1 = t.fraction_traps_exposed_per_fractional_volume(lo, mid), e2 = t.fraction_traps_exposed_per_fractional_volume(mid, hi);
        CHECK_EQ(e1 * (mid - lo) + e2 * (hi - mid), e * (hi - lo), "exposure: two adjoining volumes together expose what the whole exposes");
        CHECK_LE(e1, e2, "exposure: higher volumes expose at least the fraction lower ones do");
        OBS("e1", e1);
    }
    REACH("exposed");
    OBS("e", e);
}

HARNESS(exposed_total) {
    int kind = sym_cfg("kind", 0);
    double a = 0, b = 0;
    if (kind == 0) { a = pos("none_exposed", 0, 1); b = pos("full_exposed", 0, 1); ASSUME_LT(a, b); }
    if (kind == 1) { a = pos("exposed", 0, 1); ASSUME_LT(a, 1.0); ASSUME_LT(0.0, a); b = a; }
    double d = pos("density", 0, 1e4);
    TrapInstantCapture t(d, pos("tau", 0.01, 100), a, b);
    CHECK_EQ(t.density * t.fraction_traps_exposed_per_fractional_volume(0.0, 1.0), d, "exposure: the density of traps in the whole pixel is as declared");
    double v = pos("v", 0, 1);
    double e = t.fraction_traps_exposed_per_fractional_volume(v, v);
    CHECK_LE(0.0, e, "exposure: not negative");
    CHECK_LE(e, 1.0, "exposure: at most all traps");
    // the traps the whole pixel can hold are the declared ones
    std::valarray<TrapInstantCapture> ts(t, 1);
    if (kind == 2) {
        CHECK_EQ(t.density, d, "exposure: uniform traps keep their density");
        CHECK_EQ(t.fraction_traps_exposed_per_fractional_volume(v * 0.5, v), 1.0, "exposure: uniform traps are all exposed");
    }
    REACH("exposed");
    OBS("e", e);
}

// ---------------------------------------------------------------- C18
HARNESS(prob_instant) {
    int nt = sym_cfg("traps", 1);
    std::valarray<TrapInstantCapture> ts(TrapInstantCapture(1, 1), nt);
    std::valarray<double> tau(0.0, nt);
    for (int j = 0; j < nt; j++) { tau[j] = pos("release", 1e-3, 1e3); ts[j] = TrapInstantCapture(10.0 + j, tau[j]); }
    double t1 = pos("dwell", 0, 100), t2 = pos("dwell", 0, 100);
    ASSUME_LE(t1, t2);
    TrapManagerInstantCapture m1(ts, 4, CCDPhase(1000, 0, 1), t1), m2(ts, 4, CCDPhase(1000, 0, 1), t2);
    m1.setup(); m2.setup();
    for (int j = 0; j < nt; j++) {
        double p = m1.empty_probabilities_from_release[j], q = m2.empty_probabilities_from_release[j];
        CHECK_EQ(p, 1.0 - exp(-t1 / tau[j]), "probability: release follows the exponential law");
        CHECK_LE(0.0, p, "probability: not negative");
        CHECK_LE(p, 1.0, "probability: at most one");
        CHECK_LE(p, q, "probability: longer dwells release at least as much");
        CHECK_EQ(ts[j].fill_fraction_from_time_elapsed(t2), exp(-t2 / tau[j]), "probability: filled fraction after a time");
        OBS("p", p);
    }
    REACH("probabilities");
}

HARNESS(prob_slow) {
    int nt = sym_cfg("traps", 1), inst = sym_cfg("instant", 0);
    std::valarray<TrapSlowCapture> ts(TrapSlowCapture(1, 1, 1), nt);
    std::valarray<double> tau(0.0, nt), tc(0.0, nt);
    std::valarray<int> in(inst, nt);
    for (int j = 0; j < nt; j++) {
        tau[j] = pos("release", 1e-3, 1e3);
        if (inst == 2) in[j] = sym_choose("instant_capture", 0, 1);
        tc[j] = in[j] ? 0.0 : pos("capture", 1e-3, 1e3);
        ts[j] = TrapSlowCapture(10.0 + j, tau[j], tc[j]);
    }
    double t = pos("dwell", 0, 100);
    TrapManagerSlowCapture m(ts, 4, CCDPhase(1000, 0, 1), t);
    m.setup();
    for (int j = 0; j < nt; j++) {
        double pe = m.fill_probabilities_from_empty[j], pf = m.fill_probabilities_from_full[j], pr = m.empty_probabilities_from_release[j];
        double r = 1.0 / tau[j];
        CHECK_EQ(pr, 1.0 - exp(-t * r), "probability: release follows the exponential law");
        CHECK_LE(0.0, pe, "probability: not negative");
        CHECK_LE(0.0, pr, "probability: not negative");
        CHECK_LE(pf, 1.0, "probability: at most one");
        CHECK_LE(pe, pf, "probability: a filled trap is at least as likely to end filled as an empty one");
        if (in[j]) {
            CHECK_EQ(pe, 1.0, "probability: instant capture fills every trap");
            CHECK_EQ(pf, 1.0, "probability: instant capture fills every trap");
        } else {
            double c = 1.0 / tc[j], e = (1.0 - exp(-(c + r) * t)) / (c + r);
            CHECK_EQ(pe, c * e, "probability: capture by empty traps (Lindegren 1998, eq. 20)");
            CHECK_EQ(pf, 1.0 - r * e, "probability: filled traps staying filled (Lindegren 1998, eq. 21)");
            // the equilibrium between capture and release is stationary
            double f = c / (c + r);
            CHECK_EQ(f * pf + (1.0 - f) * pe, f, "probability: the equilibrium of capture and release is stationary");
        }
        OBS("pe", pe); OBS("pf", pf);
    }
    REACH("probabilities");
}

// ---------------------------------------------------------------- integrands of the continuum traps
struct IntArg { int which; double mu, sigma, tauc, t, dwell, res; };
static void integrate(void* p) {
    IntArg* a = (IntArg*)p;
    if (a->which == 0) a->res = TrapInstantCaptureContinuum(1.0, a->mu, a->sigma).fill_fraction_from_time_elapsed(a->t);
    else if (a->which == 1) a->res = TrapSlowCaptureContinuum(1.0, a->mu, a->sigma, a->tauc).fill_fraction_from_time_elapsed(a->t);
    else a->res = TrapSlowCaptureContinuum(1.0, a->mu, a->sigma, a->tauc).fill_fraction_after_slow_capture(a->t, a->dwell);
}
// The quadrature, over standard deviations from the logarithm of the median lifetime, is replaced by the value of
// the integrand at one arbitrary lifetime.
HARNESS(integrand) {
    IntArg a;
    a.which = sym_cfg("which", 0);
    a.mu = sym_cfg("mu", 0) ? 1.5 : pos("mu", 0.1, 100); a.sigma = sym_cfg("sigma", 0) ? 0.5 : pos("sigma", 0.01, 5);
    a.tauc = sym_cfg("instant", 0) ? 0.0 : pos("capture", 0.01, 10);
    double z = sym_range("deviations", -5, 5), tau = a.mu * exp(a.sigma * z);
    a.dwell = pos("dwell", 0.01, 10);
    int tcase = sym_cfg("tcase", 0);
    a.t = tcase == 0 ? pos("elapsed", 0.001, 1000) : tcase == 1 ? 0.0 : DBL_MAX;
    a.res = -5;
    sym_quadrature(1, z);
    int rc = sym_guard(integrate, &a);
    int calls = sym_quad_calls();
    double lo = sym_quad_limit(0), hi = sym_quad_limit(1);
    sym_quadrature(0, 0);
    REACH("integrand");
    if (rc) return;
    double r = 1.0 / tau, n = exp(-z * z / 2.0) / sqrt(2.0 * M_PI);
    if (a.which < 2 && tcase == 1) { CHECK_EQ(a.res, 1.0, "continuum: traps just filled are full"); return; }
    if (a.which < 2 && tcase == 2) { CHECK_EQ(a.res, 0.0, "continuum: traps never filled are empty"); return; }
    if (calls != 1) return;  // not computed as one integral
    CHECK_LE(lo, -5.0, "continuum: all lifetimes from far below the median");
    CHECK_LE(5.0, hi, "continuum: up to far beyond the median lifetime");
    double f0 = tcase == 1 ? 1.0 : tcase == 2 ? 0.0 : exp(-a.t / tau);
    double want;
    if (a.which < 2) want = n * f0;
    else {
        double pe = 1.0, pf = 1.0;
        if (!sym_cfg("instant", 0)) {
            double c = 1.0 / a.tauc, e = (1.0 - exp(-(c + r) * a.dwell)) / (c + r);
            pe = c * e; pf = 1.0 - r * e;
        }
        want = n * (f0 * pf + (1.0 - f0) * pe);
    }
    CHECK_EQ(a.res, want, "continuum: the contribution of every lifetime is its density times its own filled fraction");
    OBS("integrand", a.res);
}

// The time since traps of a given filled fraction were full, found by a root finder that is replaced by one
// converging to an arbitrary time.
struct InvArg { int which; double mu, sigma, t, tmax, f, res; };
static void invert(void* p) {
    InvArg* a = (InvArg*)p;
    if (a->which == 0) a->res = TrapInstantCaptureContinuum(1.0, a->mu, a->sigma).time_elapsed_from_fill_fraction(a->f, a->tmax);
    else a->res = TrapSlowCaptureContinuum(1.0, a->mu, a->sigma, 0.5).time_elapsed_from_fill_fraction(a->f, a->tmax);
}
HARNESS(inverse) {
    InvArg a;
    a.which = sym_cfg("which", 0);
    a.mu = pos("mu", 0.1, 100); a.sigma = pos("sigma", 0.01, 5);
    a.tmax = pos("limit", 1, 1000); a.t = pos("elapsed", 0.01, 1000);
    ASSUME_LE(a.t, a.tmax);
    double z = sym_range("deviations", -5, 5);
    sym_quadrature(1, z);
    int fcase = sym_cfg("fcase", 0);
    if (fcase) a.f = fcase == 1 ? 1.0 : 0.0;
    else a.f = a.which == 0 ? TrapInstantCaptureContinuum(1.0, a.mu, a.sigma).fill_fraction_from_time_elapsed(a.t)
                            : TrapSlowCaptureContinuum(1.0, a.mu, a.sigma, 0.5).fill_fraction_from_time_elapsed(a.t);
    a.res = -5;
    sym_root(1, a.t);
    int rc = sym_guard(invert, &a), sets = sym_root_sets();
    double residual = sym_root_get(0), lo = sym_root_get(1), hi = sym_root_get(2), tol = sym_root_get(3);
    sym_root(0, 0);
    sym_quadrature(0, 0);
    REACH("inverse");
    if (rc) return;
    OBS("time", a.res);
    if (fcase == 1) { CHECK_EQ(a.res, 0.0, "inverse: full traps have just been filled"); return; }
    if (fcase == 2) { CHECK_LE(a.tmax, a.res, "inverse: empty traps were filled before all else"); return; }
    if (sets != 1) return;  // not found by one such search
    CHECK_EQ(residual, 0.0, "inverse: the search is for the time that leads to the filled fraction");
    CHECK_EQ(a.res, a.t, "inverse: the time found is the result");
    CHECK_LE(lo, a.t, "inverse: all times are searched");
    CHECK_LE(a.t, hi, "inverse: all times are searched");
    CHECK_LE(tol, 1e-3, "inverse: the search is precise");
}

// ---------------------------------------------------------------- C19
template <class T> struct Cont;
template <> struct Cont<TrapInstantCaptureContinuum> {
    static TrapInstantCaptureContinuum make() { return TrapInstantCaptureContinuum(10.0, cfgd("tau", 2.0), cfgd("sigma", 0.5)); }
};
template <> struct Cont<TrapSlowCaptureContinuum> {
    static TrapSlowCaptureContinuum make() { return TrapSlowCaptureContinuum(10.0, cfgd("tau", 2.0), cfgd("sigma", 0.5), cfgd("tauc", 0.7)); }
};

// The average over a log-normal distribution of lifetimes, summed directly.
template <class F> static double average(double mu, double sigma, F f) {
    double s = 0, w = 0;
    for (int i = -200; i <= 200; i++) {
        double z = i * 0.045, g = exp(-z * z / 2);
        s += g * f(mu * exp(sigma * z));
        w += g;
    }
    return s / w;
}
static double ref_filled(double t) { return average(cfgd("tau", 2.0), cfgd("sigma", 0.5), [t](double tau) { return exp(-t / tau); }); }
static double ref_captured(double t, double dwell) {
    double c = 1.0 / cfgd("tauc", 0.7);
    return average(cfgd("tau", 2.0), cfgd("sigma", 0.5), [=](double tau) {
        double r = 1.0 / tau, e = (1.0 - exp(-(c + r) * dwell)) / (c + r), f = exp(-t / tau);
        return f * (1.0 - r * e) + (1.0 - f) * c * e;
    });
}

template <class T> static void fill_table() {
    T t = Cont<T>::make();
    int n = sym_cfg("n", 4);
    double tmin = cfgd("tmin", 1.0), tmax = cfgd("tmax", 6.0);
    t.prep_fill_fraction_and_time_elapsed_tables(tmin, tmax, n);
    CHECK_EQ(t.fill_fraction_from_time_elapsed_table(0.0), 1.0, "table: traps just filled are full");
    CHECK_EQ(t.fill_fraction_from_time_elapsed_table(DBL_MAX), 0.0, "table: traps never filled are empty");
    CHECK_EQ(t.time_elapsed_from_fill_fraction_table(1.0), 0.0, "table: full traps have just been filled");
    CHECK_LE(DBL_MAX, t.time_elapsed_from_fill_fraction_table(0.0), "table: empty traps have never been filled");
    int what = sym_cfg("what", 0);
    if (what == 0) {  // any two times, inside the table or beyond it
        double a = pos("elapsed", cfgd("lo", 0.05), cfgd("hi", 100)), b = pos("elapsed", cfgd("lo", 0.05), cfgd("hi", 100));
        ASSUME_LE(a, b);
        double fa = t.fill_fraction_from_time_elapsed_table(a), fb = t.fill_fraction_from_time_elapsed_table(b);
        CHECK_LE(0.0, fb, "table: filled fraction not negative");
        CHECK_LE(fa, 1.0, "table: filled fraction at most one");
        CHECK_LE(fb, fa, "table: filled traps only empty with time");
        OBS("fa", fa); OBS("fb", fb);
    } else if (what == 1) {  // time -> fraction -> time
        double a = pos("elapsed", tmin, tmax);
        double f = t.fill_fraction_from_time_elapsed_table(a);
        double back = t.time_elapsed_from_fill_fraction_table(f);
        CHECK_LE(log(back), log(a) + 1e-6, "table: the time that leads to a filled fraction is found again");
        CHECK_LE(log(a) - 1e-6, log(back), "table: the time that leads to a filled fraction is found again");
        OBS("f", f); OBS("back", back);
    } else if (what == 2) {  // between grid points the exact values bracket the table
        double a = pos("elapsed", tmin, tmax);
        double f = t.fill_fraction_from_time_elapsed_table(a);
        for (int i = 0; i + 1 < n; i++) {
            double x0 = exp(log(tmin) + i * (log(tmax) - log(tmin)) / (n - 1)), x1 = exp(log(tmin) + (i + 1) * (log(tmax) - log(tmin)) / (n - 1));
            double g0 = ref_filled(x0), g1 = ref_filled(x1);
            if (a >= x0 && a <= x1) { CHECK_LE(f, g0 + 1e-5, "table: agrees with the integral at the grid times"); CHECK_LE(g1 - 1e-5, f, "table: agrees with the integral at the grid times"); }
        }
        OBS("f", f);
    } else {  // fraction -> time -> fraction
        double f = sym_range("fraction", t.fill_fraction_from_time_elapsed_table(tmax), t.fill_fraction_from_time_elapsed_table(tmin));
        double a = t.time_elapsed_from_fill_fraction_table(f);
        CHECK_LE(log(tmin) - 1e-6, log(a), "table: times within the table");
        CHECK_LE(log(a), log(tmax) + 1e-6, "table: times within the table");
        double g = t.fill_fraction_from_time_elapsed_table(a);
        CHECK_LE(g, f + 1e-7, "table: a filled fraction is found again after its time");
        CHECK_LE(f - 1e-7, g, "table: a filled fraction is found again after its time");
        OBS("a", a);
    }
    REACH("table");
}
HARNESS(icco_table) { fill_table<TrapInstantCaptureContinuum>(); }
HARNESS(scco_table) { fill_table<TrapSlowCaptureContinuum>(); }

HARNESS(capture_table) {
    TrapSlowCaptureContinuum t = Cont<TrapSlowCaptureContinuum>::make();
    int n = sym_cfg("n", 4);
    double tmin = cfgd("tmin", 1.0), tmax = cfgd("tmax", 6.0), dwell = cfgd("dwell", 1.0);
    t.prep_fill_fraction_after_slow_capture_tables(dwell, tmin, tmax, n);
    double zero = t.fill_fraction_after_slow_capture_table(0.0), never = t.fill_fraction_after_slow_capture_table(DBL_MAX);
    CHECK_LE(fabs(zero - t.fill_fraction_after_slow_capture(0.0, dwell)), 1e-5, "capture table: traps just filled");
    CHECK_LE(fabs(never - ref_captured(DBL_MAX, dwell)), 1e-5, "capture table: traps never filled");
    CHECK_LE(fabs(zero - ref_captured(0.0, dwell)), 1e-5, "capture table: traps just filled");
    double a = pos("elapsed", cfgd("lo", 0.05), cfgd("hi", 100)), b = sym_cfg("what", 0) ? a : pos("elapsed", cfgd("lo", 0.05), cfgd("hi", 100));
    ASSUME_LE(a, b);
    double fa = t.fill_fraction_after_slow_capture_table(a), fb = t.fill_fraction_after_slow_capture_table(b);
    CHECK_LE(0.0, fb, "capture table: filled fraction not negative");
    CHECK_LE(fa, 1.0, "capture table: filled fraction at most one");
    CHECK_LE(fb, fa, "capture table: traps filled longer ago are not fuller");
    for (int i = 0; i + 1 < n; i++) {
        double x0 = exp(log(tmin) + i * (log(tmax) - log(tmin)) / (n - 1)), x1 = exp(log(tmin) + (i + 1) * (log(tmax) - log(tmin)) / (n - 1));
        double g0 = ref_captured(x0, dwell), g1 = ref_captured(x1, dwell);
        if (a >= x0 && a <= x1) { CHECK_LE(fa, g0 + 1e-5, "capture table: agrees with the integral at the grid times"); CHECK_LE(g1 - 1e-5, fa, "capture table: agrees with the integral at the grid times"); }
    }
    REACH("table");
    OBS("fa", fa); OBS("fb", fb);
}
