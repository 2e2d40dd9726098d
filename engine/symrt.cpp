// Symbolic runtime.  Every double of the rewritten program is either a plain
// double (a concrete, exact rational) or a boxed NaN carrying the index of a
// node: an exact rational constant or a Z3 real-sorted term.  Comparisons of
// symbolic values fork the path (depth-first, by re-execution of a decision
// prefix); proof obligations are decided by Z3 under the path condition.
#include "sym.h"

#include <gmp.h>
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <z3.h>

#include <algorithm>
#include <exception>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#ifndef VERIF_TSAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#else
static void __sanitizer_set_death_callback(void (*)(void)) {}
#endif

namespace {

struct PathAbort { const char* why; };
struct SymExit { int code; };

// ------------------------------------------------------------------ options
std::map<std::string, std::string> g_cfg;
std::string g_harness, g_out = "sym.json", g_dir = ".";
double g_wall = 600;          // wall-clock cap for the whole run
long g_max_paths = 1000000;
long g_max_viol = 6;          // distinct counterexamples kept
long g_traces = 12;           // paths written out for native validation
unsigned g_to_branch = 300, g_to_check = 8000, g_to_nl = 20000;  // ms
bool g_mem_abort = true;
std::set<std::string> g_labels;  // empty: all obligations

// ------------------------------------------------------------------ state
Z3_context ctx;
Z3_sort RS;
Z3_solver S = nullptr;

struct Node { bool cst; mpq_t q; Z3_ast a; };
std::vector<Node> nodes;
uint64_t epoch = 0;
int native_mode = 0;

struct Decision {
    int kind;       // 0 bool, 1 int
    int val, hi;    // current value; for ints: last value
    bool more;      // alternatives left
    long cv;
    Z3_model other; // model known for the alternative (bool only)
    std::string nm;
};
std::vector<Decision> dec;
size_t pos;
std::vector<Z3_ast> pc;
std::set<unsigned> pc_true, pc_false;  // ids of asserted atoms / negated atoms
Z3_model mdl = nullptr;
bool dead = false;  // path is infeasible/aborted but we cannot unwind (OpenMP region)
int in_region = 0;

struct Input { std::string name; bool isint; int ival; Z3_ast a; };
std::vector<Input> inputs;
std::map<std::string, int> name_count;
struct Obs { std::string name; double v; };
std::vector<Obs> obs;
std::vector<std::string> reached_now;
std::map<std::string, long> reached;
bool uf_used = false;

struct UF { std::string f; std::vector<Z3_ast> x; Z3_ast r; };
std::vector<UF> ufs;

// ------------------------------------------------------------------ stats
long n_paths, n_completed, n_killed, n_forks, n_forced, n_queries, n_sat, n_unsat, n_unknown;
long n_obl, n_obl_unsat, n_obl_concrete, n_obl_unknown, n_obl_syn, n_unknown_branch;
double t_solver;
double t_start;
bool truncated_run = false;
std::string truncated_why;
struct Viol { std::string what, kind, file, detail; };
std::vector<Viol> viols;
std::map<std::string, long> viol_count;
std::map<std::string, long> obl_by_label;
std::map<std::string, long> unk_by_label;
std::vector<std::string> trace_files;
std::string cur_where;

double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

// ------------------------------------------------------------------ boxing
inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline double unbits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
const uint64_t TAG = 0x7FFBull;
inline bool isbox(double d) { return (bits(d) >> 48) == TAG; }
inline bool isuninit(double d) { uint64_t u = bits(d); return (u >> 48) == 0xFFFF || u == 0xAAAAAAAAAAAAAAAAull; }
inline double box(size_t id) { return unbits((TAG << 48) | ((epoch & 0xFFF) << 36) | id); }

[[noreturn]] void path_abort(const char* why) { throw PathAbort{why}; }
void report_violation(const std::string& kind, const std::string& what, const std::string& detail, Z3_model m);
Z3_model ensure_model();

Node& node(double d) {
    uint64_t u = bits(d);
    uint64_t ep = (u >> 36) & 0xFFF, id = u & 0xFFFFFFFFFull;
    if (ep != (epoch & 0xFFF) || id >= nodes.size()) {
        fprintf(stderr, "ENGINE: stale symbolic value\n");
        static Node z; static bool init = false;
        if (!init) { mpq_init(z.q); z.cst = true; init = true; }
        truncated_run = true; truncated_why = "stale symbolic value";
        return z;
    }
    return nodes[id];
}

Z3_ast mk_num(const mpq_t q) {
    char* s = mpq_get_str(nullptr, 10, q);
    Z3_ast r = Z3_mk_numeral(ctx, s, RS);
    free(s);
    return r;
}

struct Q {
    mpq_t q;
    Q() { mpq_init(q); }
    explicit Q(double d) { mpq_init(q); mpq_set_d(q, d); }
    ~Q() { mpq_clear(q); }
};

double from_q(const mpq_t q) {
    double d = mpq_get_d(q);  // truncates
    if (isfinite(d)) {
        Q t(d);
        if (mpq_equal(t.q, q)) return d;
    }
    Node n; n.cst = true; mpq_init(n.q); mpq_set(n.q, q); n.a = nullptr;
    nodes.push_back(n);
    return box(nodes.size() - 1);
}

void chk_uninit(double d, const char* op) {
    if (isuninit(d) && !native_mode) {
        std::string w = std::string("use of an uninitialised or out-of-range value in ") + op;
        if (!dead) report_violation("memory", w, "", ensure_model());
        if (in_region) { dead = true; return; }
        path_abort("uninitialised");
    }
}

bool isconst(double d) { return !isbox(d) || node(d).cst; }
void getq(double d, mpq_t q) {
    if (isbox(d)) mpq_set(q, node(d).q); else mpq_set_d(q, d);
}
Z3_ast ast(double d) {
    if (isbox(d)) {
        Node& n = node(d);
        if (!n.cst) return n.a;
        if (!n.a) { n.a = mk_num(n.q); }
        return n.a;
    }
    Q q(d);
    return mk_num(q.q);
}

bool ast_numeral(Z3_ast a, mpq_t q) {
    if (Z3_get_ast_kind(ctx, a) != Z3_NUMERAL_AST) return false;
    Z3_string s = Z3_get_numeral_string(ctx, a);
    if (mpq_set_str(q, s, 10)) return false;
    mpq_canonicalize(q);
    return true;
}

double from_ast(Z3_ast a) {
    Q q;
    if (ast_numeral(a, q.q)) return from_q(q.q);
    Node n; n.cst = false; mpq_init(n.q); n.a = a;
    nodes.push_back(n);
    return box(nodes.size() - 1);
}

Z3_params simp_params;
Z3_ast simp(Z3_ast a) { return Z3_simplify_ex(ctx, a, simp_params); }
Z3_ast simp0(Z3_ast a) { return Z3_simplify(ctx, a); }

// ------------------------------------------------------------------ solver
void set_timeout(Z3_solver s, unsigned ms) {
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
}

void assert_pc(Z3_ast a) {
    pc.push_back(a);
    Z3_solver_assert(ctx, S, a);
    pc_true.insert(Z3_get_ast_id(ctx, a));
}

Z3_tactic nl_tactic;
long fresh_k = 0;
// names restart on every path so that models found on one path fit its re-execution
Z3_ast fresh(const char* p) {
    std::string n = std::string("!") + p + std::to_string(fresh_k++);
    return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), RS);
}

// returns 1 sat, -1 unsat, 0 unknown ; *out gets an owned model on sat
int solve(Z3_ast extra, unsigned ms, unsigned ms_nl, Z3_model* out) {
    double t0 = now();
    n_queries++;
    if (out) *out = nullptr;
    set_timeout(S, ms);
    Z3_lbool r;
    if (extra) {
        Z3_solver_push(ctx, S);
        Z3_solver_assert(ctx, S, extra);
    }
    r = Z3_solver_check(ctx, S);
    if (r == Z3_L_TRUE && out) {
        *out = Z3_solver_get_model(ctx, S);
        Z3_model_inc_ref(ctx, *out);
    }
    if (extra) Z3_solver_pop(ctx, S, 1);
    if (r == Z3_L_UNDEF && ms_nl) {
        Z3_solver T = Z3_mk_solver_from_tactic(ctx, nl_tactic);
        Z3_solver_inc_ref(ctx, T);
        set_timeout(T, ms_nl);
        for (Z3_ast a : pc) Z3_solver_assert(ctx, T, a);
        if (extra) Z3_solver_assert(ctx, T, extra);
        r = Z3_solver_check(ctx, T);
        if (r == Z3_L_TRUE && out) {
            *out = Z3_solver_get_model(ctx, T);
            Z3_model_inc_ref(ctx, *out);
        }
        Z3_solver_dec_ref(ctx, T);
    }
    t_solver += now() - t0;
    if (getenv("SYM_SLOW") && now() - t0 > 0.5) fprintf(stderr, "SLOW %.2fs r=%d pc=%zu %s: %s\n", now() - t0, (int)r, pc.size(), cur_where.c_str(), extra ? Z3_ast_to_string(ctx, extra) : "");
    if (r == Z3_L_TRUE) n_sat++; else if (r == Z3_L_FALSE) n_unsat++; else n_unknown++;
    return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? -1 : 0;
}

void set_model(Z3_model m) {
    if (m) Z3_model_inc_ref(ctx, m);
    if (mdl) Z3_model_dec_ref(ctx, mdl);
    mdl = m;
}

// value of a boolean under the cached model: 1 / 0 / -1 unknown
int eval_bool(Z3_ast a) {
    if (!mdl) return -1;
    Z3_ast r;
    if (!Z3_model_eval(ctx, mdl, a, true, &r)) return -1;
    Z3_lbool b = Z3_get_bool_value(ctx, r);
    return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}

bool model_ok() {
    if (!mdl) return false;
    for (Z3_ast a : pc) if (eval_bool(a) != 1) return false;
    return true;
}

void add_constraint(Z3_ast a) {
    assert_pc(a);
    if (mdl && eval_bool(a) != 1) set_model(nullptr);
}

Z3_model ensure_model() {
    if (mdl && model_ok()) return mdl;
    set_model(nullptr);
    Z3_model m;
    int r = solve(nullptr, g_to_check, g_to_nl, &m);
    if (r == 1) { set_model(m); Z3_model_dec_ref(ctx, m); return mdl; }
    return nullptr;
}

void do_abort(const char* why) {
    if (in_region) { dead = true; return; }
    path_abort(why);
}

bool decide(Z3_ast atom) {
    if (dead) return false;
    atom = simp0(atom);
    Z3_lbool bv = Z3_get_bool_value(ctx, atom);
    if (bv == Z3_L_TRUE) return true;
    if (bv == Z3_L_FALSE) return false;
    if (pc_true.count(Z3_get_ast_id(ctx, atom))) return true;
    Z3_ast neg = simp0(Z3_mk_not(ctx, atom));
    if (pc_true.count(Z3_get_ast_id(ctx, neg))) return false;
    if (pos < dec.size()) {
        Decision& d = dec[pos];
        if (d.kind != 0) { fprintf(stderr, "ENGINE: nondeterministic re-execution\n"); truncated_run = true; truncated_why = "nondeterminism"; path_abort("nondet"); }
        pos++;
        assert_pc(d.val ? atom : neg);
        if (pos == dec.size()) {
            // entering fresh territory: model was stored when the branch was found
            if (d.other) { set_model(d.other); Z3_model_dec_ref(ctx, d.other); d.other = nullptr; }
        }
        return d.val;
    }
    if (now() - t_start > g_wall) { truncated_run = true; truncated_why = "wall-clock cap"; do_abort("wall"); return false; }
    int v = eval_bool(atom);
    Decision d; d.kind = 0; d.other = nullptr; d.more = false; d.hi = 0;
    if (v < 0) {
        Z3_model m;
        int r = solve(atom, g_to_branch, g_to_branch * 4, &m);
        if (r == 1) { set_model(m); Z3_model_dec_ref(ctx, m); v = 1; }
        else if (r == -1) { d.val = 0; dec.push_back(d); pos++; n_forced++; assert_pc(neg); return false; }
        else { v = 1; set_model(nullptr); n_unknown_branch++; }
    }
    Z3_model m2;
    int r2 = solve(v ? neg : atom, g_to_branch, g_to_branch * 4, &m2);
    d.val = v;
    if (r2 == -1) { d.more = false; n_forced++; }
    else { d.more = true; n_forks++; if (r2 == 0) n_unknown_branch++; d.other = r2 == 1 ? m2 : nullptr; }
    dec.push_back(d);
    pos++;
    assert_pc(v ? atom : neg);
    return v;
}

int choose_int(const std::string& nm, int lo, int hi) {
    if (lo == hi) return lo;
    if (pos < dec.size()) { int v = dec[pos].val; pos++; 
        if (pos == dec.size()) set_model(nullptr);
        return v; }
    Decision d; d.kind = 1; d.val = lo; d.hi = hi; d.more = lo < hi; d.other = nullptr; d.nm = nm;
    dec.push_back(d); pos++; n_forks++;
    return lo;
}

// every value of an integer-valued term: one path per feasible value
long concretise(Z3_ast x) {
    if (dead) return 0;
    for (;;) {
        long v;
        if (pos < dec.size()) {
            Decision& d = dec[pos];
            if (d.kind != 2) { fprintf(stderr, "ENGINE: nondeterministic re-execution\n"); truncated_run = true; truncated_why = "nondeterminism"; path_abort("nondet"); }
            v = d.cv;
        } else {
            if (now() - t_start > g_wall) { truncated_run = true; truncated_why = "wall-clock cap"; do_abort("wall"); return 0; }
            if (!ensure_model()) { truncated_run = true; truncated_why = "no value for an integer"; do_abort("int"); return 0; }
            Z3_ast r; Q q;
            if (!Z3_model_eval(ctx, mdl, x, true, &r) || !ast_numeral(r, q.q)) { truncated_run = true; truncated_why = "no value for an integer"; do_abort("int"); return 0; }
            v = (long)mpq_get_d(q.q);
            Decision d; d.kind = 2; d.cv = v; d.val = 1; d.hi = 0; d.other = nullptr; d.more = false;
            char b[32]; snprintf(b, sizeof b, "%ld", v);
            Z3_model m2;
            int r2 = solve(simp0(Z3_mk_not(ctx, Z3_mk_eq(ctx, x, Z3_mk_numeral(ctx, b, RS)))), g_to_branch, g_to_branch * 4, &m2);
            if (r2 == -1) n_forced++;
            else { d.more = true; n_forks++; d.other = r2 == 1 ? m2 : nullptr; }
            dec.push_back(d);
        }
        char b[32]; snprintf(b, sizeof b, "%ld", v);
        Z3_ast eq = Z3_mk_eq(ctx, x, Z3_mk_numeral(ctx, b, RS));
        Decision& d = dec[pos];
        pos++;
        assert_pc(d.val ? eq : Z3_mk_not(ctx, eq));
        if (pos == dec.size() && !d.val && d.other) { set_model(d.other); Z3_model_dec_ref(ctx, d.other); d.other = nullptr; }
        if (d.val) return v;
    }
}

bool backtrack() {
    while (!dec.empty()) {
        Decision& d = dec.back();
        if (d.kind == 1 && d.val < d.hi) { d.val++; return true; }
        if ((d.kind == 0 || d.kind == 2) && d.more) { d.val = !d.val; d.more = false; return true; }
        if (d.other) Z3_model_dec_ref(ctx, d.other);
        dec.pop_back();
    }
    return false;
}

// ------------------------------------------------------------------ model output
std::string num_str(Z3_model m, Z3_ast a) {
    Z3_ast r;
    if (!Z3_model_eval(ctx, m, a, true, &r)) return "0";
    if (Z3_is_algebraic_number(ctx, r)) {
        Z3_ast lo = Z3_get_algebraic_number_lower(ctx, r, 25);
        return num_str(m, lo);
    }
    if (Z3_get_ast_kind(ctx, r) != Z3_NUMERAL_AST) {
        r = Z3_simplify(ctx, r);
        if (Z3_get_ast_kind(ctx, r) != Z3_NUMERAL_AST) return "0";
    }
    Q q;
    if (!ast_numeral(r, q.q)) return "0";
    char buf[64];
    // correctly rounded enough for replay
    mpf_t f; mpf_init2(f, 256); mpf_set_q(f, q.q);
    gmp_snprintf(buf, sizeof buf, "%.20Fe", f);
    mpf_clear(f);
    return buf;
}

void write_assign(const std::string& path, Z3_model m, const std::string& what, const std::string& kind, const std::string& detail, bool with_obs) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return;
    fprintf(f, "harness %s\n", g_harness.c_str());
    for (auto& kv : g_cfg) fprintf(f, "cfg %s %s\n", kv.first.c_str(), kv.second.c_str());
    fprintf(f, "what %s\n", what.c_str());
    fprintf(f, "kind %s\n", kind.c_str());
    if (!detail.empty()) fprintf(f, "detail %s\n", detail.c_str());
    if (uf_used) fprintf(f, "uf 1\n");
    for (auto& i : inputs) {
        if (i.isint) fprintf(f, "int %s %d\n", i.name.c_str(), i.ival);
        else fprintf(f, "real %s %s\n", i.name.c_str(), m ? num_str(m, i.a).c_str() : "0");
    }
    if (with_obs && m)
        for (auto& o : obs) {
            if (isbox(o.v)) fprintf(f, "obs %s %s\n", o.name.c_str(), num_str(m, ast(o.v)).c_str());
            else fprintf(f, "obs %s %.17g\n", o.name.c_str(), o.v);
        }
    fclose(f);
}

void report_violation(const std::string& kind, const std::string& what, const std::string& detail, Z3_model m) {
    long& c = viol_count[kind + ":" + what];
    c++;
    if (c > 3 || (long)viols.size() >= g_max_viol) return;
    std::string f = g_dir + "/cex_" + std::to_string(getpid()) + "_" + std::to_string(viols.size()) + ".txt";
    write_assign(f, m, what, kind, detail, false);
    viols.push_back({what, kind, f, detail});
}

std::string jesc(const std::string& s) {
    std::string r;
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
    return r;
}

}
static void dump_fns(FILE* f);
namespace {
void write_out(bool final_) {
    FILE* f = fopen(g_out.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"harness\":\"%s\",\"cfg\":{", g_harness.c_str());
    bool first = true;
    for (auto& kv : g_cfg) { fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", kv.first.c_str(), jesc(kv.second).c_str()); first = false; }
    fprintf(f, "},\"complete\":%s,\"truncated\":\"%s\",", (final_ && !truncated_run) ? "true" : "false", jesc(truncated_why).c_str());
    fprintf(f, "\"paths\":%ld,\"completed\":%ld,\"killed\":%ld,\"forks\":%ld,\"forced\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"unknown_branch\":%ld,",
            n_paths, n_completed, n_killed, n_forks, n_forced, n_queries, n_sat, n_unsat, n_unknown, n_unknown_branch);
    fprintf(f, "\"obligations\":%ld,\"obl_unsat\":%ld,\"obl_normalised\":%ld,\"obl_concrete\":%ld,\"obl_unknown\":%ld,\"solver_s\":%.3f,\"wall_s\":%.3f,",
            n_obl, n_obl_unsat, n_obl_syn, n_obl_concrete, n_obl_unknown, t_solver, now() - t_start);
    auto dump = [&](const char* n, std::map<std::string, long>& m) {
        fprintf(f, "\"%s\":{", n);
        bool first = true;
        for (auto& kv : m) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
        fprintf(f, "},");
    };
    dump_fns(f);
    dump("reached", reached); dump("labels", obl_by_label); dump("unknown_labels", unk_by_label); dump("violation_counts", viol_count);
    fprintf(f, "\"traces\":[");
    for (size_t i = 0; i < trace_files.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", trace_files[i].c_str());
    fprintf(f, "],\"violations\":[");
    for (size_t i = 0; i < viols.size(); i++)
        fprintf(f, "%s{\"what\":\"%s\",\"kind\":\"%s\",\"file\":\"%s\",\"detail\":\"%s\"}", i ? "," : "", jesc(viols[i].what).c_str(), viols[i].kind.c_str(), viols[i].file.c_str(), jesc(viols[i].detail).c_str());
    fprintf(f, "]}\n");
    fclose(f);
}

void on_asan_death() {
    // a memory error inside the code under test on the current path
    Z3_model m = ensure_model();
    report_violation("memory", "invalid memory access", cur_where, m);
    truncated_run = true; truncated_why = "memory error";
    n_paths++;
    write_out(true);
    _exit(0);
}

void assert_finite_const(double, double) {}

// ------------------------------------------------------------------ arithmetic
int sign_fork(double x) {  // sign of a finite symbolic/constant value
    if (isconst(x)) { Q q; getq(x, q.q); return mpq_sgn(q.q); }
    Z3_ast z = Z3_mk_numeral(ctx, "0", RS);
    if (decide(Z3_mk_gt(ctx, ast(x), z))) return 1;
    if (decide(Z3_mk_lt(ctx, ast(x), z))) return -1;
    return 0;
}

bool plain(double d) { return !isbox(d); }

double cval(double d);
double op2(int k, double a, double b) {
    if (native_mode) {
        if (isbox(a) && isconst(a)) a = cval(a);
        if (isbox(b) && isconst(b)) b = cval(b);
    }
    static const char* nm[] = {"+", "-", "*", "/"};
    if (native_mode && plain(a) && plain(b)) {
        switch (k) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; }
    }
    chk_uninit(a, nm[k]); chk_uninit(b, nm[k]);
    if (dead) return 0;
    bool pa = plain(a), pb = plain(b);
    if ((pa && isnan(a)) || (pb && isnan(b))) return NAN;
    bool ia = pa && isinf(a), ib = pb && isinf(b);
    if (ia || ib) {
        double fa = ia ? a : 0, fb = ib ? b : 0;
        switch (k) {
            case 0: return ia && ib ? a + b : (ia ? a : b);
            case 1: return ia && ib ? a - b : (ia ? a : -b);
            case 2: if (!ia) fa = sign_fork(a); if (!ib) fb = sign_fork(b); return fa * fb;
            default:
                if (ib && !ia) return 0.0;
                if (ia && ib) return NAN;
                fb = sign_fork(b); return fa / (fb == 0 ? 0.0 : fb);
        }
    }
    if (pa && pb) {
        double r;
        switch (k) {
            case 0: { r = a + b; double bb = r - a; double e = (a - (r - bb)) + (b - bb); if (e == 0 && isfinite(r)) return r; break; }
            case 1: { r = a - b; double bb = r - a; double e = (a - (r - bb)) - (b + bb); if (e == 0 && isfinite(r)) return r; break; }
            case 2: { r = a * b; if (isfinite(r) && fma(a, b, -r) == 0 && (r == 0 ? (a == 0 || b == 0) : fabs(r) > 1e-280)) return r; break; }
            default: { if (b == 0) return a / b; r = a / b; if (isfinite(r) && fma(r, b, -a) == 0 && fabs(r) > 1e-280) return r; if (a == 0) return 0.0; break; }
        }
    }
    if (isconst(a) && isconst(b)) {
        Q x, y, z; getq(a, x.q); getq(b, y.q);
        switch (k) {
            case 0: mpq_add(z.q, x.q, y.q); break;
            case 1: mpq_sub(z.q, x.q, y.q); break;
            case 2: mpq_mul(z.q, x.q, y.q); break;
            default:
                if (mpq_sgn(y.q) == 0) { int s = mpq_sgn(x.q); return s == 0 ? NAN : s > 0 ? INFINITY : -INFINITY; }
                mpq_div(z.q, x.q, y.q);
        }
        return from_q(z.q);
    }
    // at least one symbolic
    auto is = [&](double d, int v) { return plain(d) && d == v; };
    switch (k) {
        case 0: if (is(a, 0)) return b; if (is(b, 0)) return a; break;
        case 1: if (is(b, 0)) return a; if (!pa && !pb && ast(a) == ast(b)) return 0.0; break;
        case 2: if (is(a, 0) || is(b, 0)) return 0.0; if (is(a, 1)) return b; if (is(b, 1)) return a; break;
        default: if (is(b, 1)) return a; break;
    }
    Z3_ast x = ast(a), y = ast(b);
    Z3_ast v[2] = {x, y};
    switch (k) {
        case 0: return from_ast(Z3_mk_add(ctx, 2, v));
        case 1: return from_ast(Z3_mk_sub(ctx, 2, v));
        case 2: return from_ast(Z3_mk_mul(ctx, 2, v));
    }
    if (isconst(b)) {
        Q q; getq(b, q.q);
        if (mpq_sgn(q.q) == 0) { int s = sign_fork(a); return s == 0 ? NAN : s > 0 ? INFINITY : -INFINITY; }
        mpq_inv(q.q, q.q);
        Z3_ast w[2] = {x, mk_num(q.q)};
        return from_ast(Z3_mk_mul(ctx, 2, w));
    }
    // symbolic divisor
    Z3_ast zero = Z3_mk_numeral(ctx, "0", RS);
    Z3_ast ys = simp(y), xs = simp(x);
    Q cq;
    if (ast_numeral(ys, cq.q)) return op2(3, a, from_q(cq.q));
    if (decide(Z3_mk_eq(ctx, ys, zero))) {
        int s = sign_fork(a);
        return s == 0 ? NAN : s > 0 ? INFINITY : -INFINITY;
    }
    if (xs == ys) return 1.0;
    if (ast_numeral(xs, cq.q) && mpq_sgn(cq.q) == 0) return 0.0;
    for (auto& u : ufs) if (u.f == "/" && u.x[0] == xs && u.x[1] == ys) return from_ast(u.r);
    Z3_ast q = fresh("q");
    Z3_ast qy[2] = {q, ys};
    // extend the cached model so that it stays usable
    Z3_ast def = Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, qy), xs);
    assert_pc(def);
    if (mdl) {
        Z3_ast e;
        Z3_ast dv = Z3_mk_div(ctx, xs, ys);
        if (Z3_model_eval(ctx, mdl, dv, true, &e)) {
            Z3_func_decl fd = Z3_get_app_decl(ctx, Z3_to_app(ctx, q));
            Z3_add_const_interp(ctx, mdl, fd, e);
        } else set_model(nullptr);
    }
    UF u; u.f = "/"; u.x = {xs, ys}; u.r = q; ufs.push_back(u);
    return from_ast(q);
}

enum { OEQ, OGT, OGE, OLT, OLE, ONE };

bool cmp(int p, bool unord_true, double a, double b) {
    if (native_mode && plain(a) && plain(b)) {
        if (isnan(a) || isnan(b)) return unord_true;
        switch (p) { case OEQ: return a == b; case OGT: return a > b; case OGE: return a >= b; case OLT: return a < b; case OLE: return a <= b; default: return a != b; }
    }
    chk_uninit(a, "comparison"); chk_uninit(b, "comparison");
    if (dead) return false;
    bool pa = plain(a), pb = plain(b);
    if ((pa && isnan(a)) || (pb && isnan(b))) return unord_true;
    bool ia = pa && isinf(a), ib = pb && isinf(b);
    // constants at least as large as DBL_MAX act as +inf sentinels versus symbolic values
    if (ia || ib || (pa && pb)) {
        double x = ia ? a : (pa ? a : 0), y = ib ? b : (pb ? b : 0);
        switch (p) { case OEQ: return x == y; case OGT: return x > y; case OGE: return x >= y; case OLT: return x < y; case OLE: return x <= y; default: return x != y; }
    }
    if (isconst(a) && isconst(b)) {
        Q x, y; getq(a, x.q); getq(b, y.q);
        int c = mpq_cmp(x.q, y.q);
        switch (p) { case OEQ: return c == 0; case OGT: return c > 0; case OGE: return c >= 0; case OLT: return c < 0; case OLE: return c <= 0; default: return c != 0; }
    }
    Z3_ast v[2] = {ast(a), ast(b)};
    Z3_ast d = simp(Z3_mk_sub(ctx, 2, v));
    Q dq;
    if (ast_numeral(d, dq.q)) {
        int c = mpq_sgn(dq.q);
        switch (p) { case OEQ: return c == 0; case OGT: return c > 0; case OGE: return c >= 0; case OLT: return c < 0; case OLE: return c <= 0; default: return c != 0; }
    }
    Z3_ast z = Z3_mk_numeral(ctx, "0", RS);
    switch (p) {
        case OEQ: return decide(Z3_mk_eq(ctx, d, z));
        case OGT: return decide(Z3_mk_gt(ctx, d, z));
        case OGE: return decide(Z3_mk_ge(ctx, d, z));
        case OLT: return decide(Z3_mk_lt(ctx, d, z));
        case OLE: return decide(Z3_mk_le(ctx, d, z));
        default: return !decide(Z3_mk_eq(ctx, d, z));
    }
}

Z3_ast num(const char* s) { return Z3_mk_numeral(ctx, s, RS); }

void model_set_double(Z3_ast c, double approx) {
    (void)c; (void)approx;
    set_model(nullptr);
}

// known values of log (x, log x) on this path, tied to the uninterpreted ones
struct Anchor { double x, l; };
std::vector<Anchor> anchors;
void anchor_axiom(const UF& u, const Anchor& k) {
    bool lg = u.f == "log";
    double c = lg ? k.x : k.l, v = lg ? k.l : k.x, d = fabs(v) * 1e-12 + 1e-300;
    Z3_ast C = mk_num(Q(c).q), hi = mk_num(Q(v + d).q), lo = mk_num(Q(v - d).q);
    assert_pc(Z3_mk_implies(ctx, Z3_mk_le(ctx, u.x[0], C), Z3_mk_le(ctx, u.r, hi)));
    assert_pc(Z3_mk_implies(ctx, Z3_mk_ge(ctx, u.x[0], C), Z3_mk_ge(ctx, u.r, lo)));
}
void add_anchor(double x, double l) {
    if (native_mode || dead || !(x > 1e-200) || !(x < 1e200) || anchors.size() >= 24) return;
    for (auto& k : anchors) if (fabs(k.l - l) < 1e-9) return;
    anchors.push_back({x, l});
    bool any = false;
    for (auto& u : ufs) if (u.f == "log" || u.f == "exp") { anchor_axiom(u, anchors.back()); any = true; }
    if (any) set_model(nullptr);
}

// strictly increasing function of one argument, left uninterpreted
double uf_mono(const char* f, double xd) {
    uf_used = true;
    Z3_ast x = simp(ast(xd));
    std::string fn = f;
    for (auto& u : ufs) if (u.f == fn && u.x[0] == x) return from_ast(u.r);
    // inverse pairs
    for (auto& u : ufs) {
        if (fn == "log" && u.f == "exp" && u.r == x) return from_ast(u.x[0]);
        if (fn == "exp" && u.f == "log" && u.r == x) return from_ast(u.x[0]);
    }
    Z3_ast r = fresh(f);
    auto iff = [&](Z3_ast p, Z3_ast q) { assert_pc(Z3_mk_iff(ctx, p, q)); };
    if (fn == "exp") {
        assert_pc(Z3_mk_gt(ctx, r, num("0")));
        iff(Z3_mk_lt(ctx, x, num("0")), Z3_mk_lt(ctx, r, num("1")));
        iff(Z3_mk_eq(ctx, x, num("0")), Z3_mk_eq(ctx, r, num("1")));
    } else if (fn == "log") {
        iff(Z3_mk_lt(ctx, x, num("1")), Z3_mk_lt(ctx, r, num("0")));
        iff(Z3_mk_eq(ctx, x, num("1")), Z3_mk_eq(ctx, r, num("0")));
    }
    for (auto& u : ufs) {
        if (u.f == fn) {
            iff(Z3_mk_lt(ctx, u.x[0], x), Z3_mk_lt(ctx, u.r, r));
            iff(Z3_mk_eq(ctx, u.x[0], x), Z3_mk_eq(ctx, u.r, r));
        } else if ((fn == "exp" && u.f == "log") || (fn == "log" && u.f == "exp")) {
            // y = log(z), r = exp(x):  x < y <=> r < z
            iff(Z3_mk_lt(ctx, x, u.r), Z3_mk_lt(ctx, r, u.x[0]));
            iff(Z3_mk_eq(ctx, x, u.r), Z3_mk_eq(ctx, r, u.x[0]));
        }
    }
    UF u; u.f = fn; u.x = {x}; u.r = r; ufs.push_back(u);
    for (auto& k : anchors) anchor_axiom(u, k);
    set_model(nullptr);
    return from_ast(r);
}

double cval(double d) {  // double value of a constant
    if (!isbox(d)) return d;
    Node& n = node(d);
    return mpq_get_d(n.q);
}

double sym_floor_impl(double x, int* handled) {
    *handled = 1;
    if (isconst(x)) {
        if (plain(x)) return floor(x);
        Q q; getq(x, q.q);
        mpz_t z; mpz_init(z);
        mpz_fdiv_q(z, mpq_numref(q.q), mpq_denref(q.q));
        mpq_set_z(q.q, z);
        mpz_clear(z);
        return from_q(q.q);
    }
    // search the integer part by forking on comparisons, nearest to zero outwards
    static int lim = sym_cfg("floorlim", 200);
    for (int k = 0; k < lim; k++) {
        if (cmp(OGE, false, x, (double)k) && cmp(OLT, false, x, (double)k + 1)) return k;
        if (dead) return 0;
        if (k > 0 || true) {
            int j = -k - 1;
            if (cmp(OGE, false, x, (double)j) && cmp(OLT, false, x, (double)j + 1)) return j;
        }
    }
    if (lim == 200) { truncated_run = true; truncated_why = "floor of a value outside [-200,200]"; }
    do_abort("floor range");
    return 0;
}

std::map<std::string, void (*)()>& registry() {
    static std::map<std::string, void (*)()> r;
    return r;
}

std::string uniq(const char* n) {
    int k = name_count[n]++;
    return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}

}  // namespace

HarnessReg::HarnessReg(const char* name, void (*fn)()) { registry()[name] = fn; }

// ------------------------------------------------------------------ rewritten operations
extern "C" {

double sym_fadd(double a, double b) { return op2(0, a, b); }
double sym_fsub(double a, double b) { return op2(1, a, b); }
double sym_fmul(double a, double b) { return op2(2, a, b); }
double sym_fdiv(double a, double b) { return op2(3, a, b); }
double sym_frem(double a, double b) { if (isconst(a) && isconst(b)) return fmod(cval(a), cval(b)); truncated_run = true; truncated_why = "fmod"; do_abort("fmod"); return 0; }
double sym_fmod(double a, double b) { return sym_frem(a, b); }
double sym_fneg(double a) { if (plain(a) && !isuninit(a)) return -a; return op2(1, 0.0, a); }
double sym_fma(double a, double b, double c) { return op2(0, op2(2, a, b), c); }

bool sym_fcmp_oeq(double a, double b) { return cmp(OEQ, false, a, b); }
bool sym_fcmp_ogt(double a, double b) { return cmp(OGT, false, a, b); }
bool sym_fcmp_oge(double a, double b) { return cmp(OGE, false, a, b); }
bool sym_fcmp_olt(double a, double b) { return cmp(OLT, false, a, b); }
bool sym_fcmp_ole(double a, double b) { return cmp(OLE, false, a, b); }
bool sym_fcmp_one(double a, double b) { return cmp(ONE, false, a, b); }
bool sym_fcmp_ueq(double a, double b) { return cmp(OEQ, true, a, b); }
bool sym_fcmp_ugt(double a, double b) { return cmp(OGT, true, a, b); }
bool sym_fcmp_uge(double a, double b) { return cmp(OGE, true, a, b); }
bool sym_fcmp_ult(double a, double b) { return cmp(OLT, true, a, b); }
bool sym_fcmp_ule(double a, double b) { return cmp(OLE, true, a, b); }
bool sym_fcmp_une(double a, double b) { return cmp(ONE, true, a, b); }
bool sym_fcmp_ord(double a, double b) { return !(plain(a) && isnan(a)) && !(plain(b) && isnan(b)); }
bool sym_fcmp_uno(double a, double b) { return !sym_fcmp_ord(a, b); }
bool sym_is_fpclass(double a, int mask) {
    if (isbox(a)) {  // finite
        if (mask & 0x3 || mask == 0x204 || mask == 0x207) return (mask & 0x1F8) == 0x1F8;
        return (mask & 0x1F8) == 0x1F8;
    }
    bool nan_ = isnan(a), inf_ = isinf(a);
    if (nan_) return mask & 3;
    if (inf_) return a > 0 ? (mask & 0x200) : (mask & 4);
    if (a == 0) return mask & (signbit(a) ? 0x20 : 0x40);
    return mask & (a < 0 ? 0x8 : 0x100);
}
int sym_isnan(double a) { return plain(a) && isnan(a); }
int sym_isinf(double a) { return plain(a) && isinf(a); }

long sym_fptosi(double a) {
    chk_uninit(a, "conversion to integer");
    if (dead) return 0;
    if (isconst(a)) {
        if (plain(a)) return (long)a;
        double t = cval(a);  // truncation: exact value may round up to an integer
        Q q; getq(a, q.q);
        mpz_t z; mpz_init(z); mpz_tdiv_q(z, mpq_numref(q.q), mpq_denref(q.q));
        long r = mpz_get_si(z); mpz_clear(z); (void)t;
        return r;
    }
    int h;
    double f = sym_floor_impl(a, &h);
    long k = (long)f;
    if (k < 0 && !cmp(OEQ, false, a, (double)k)) k++;
    return k;
}
long sym_lround(double a) { return sym_fptosi(op2(0, a, 0.5)); }

double sym_fabs(double a) {
    if (plain(a)) { chk_uninit(a, "fabs"); return fabs(a); }
    return cmp(OLT, false, a, 0.0) ? op2(1, 0.0, a) : a;
}
double sym_fmin(double a, double b) { if (plain(a) && isnan(a) && !isuninit(a)) return b; if (plain(b) && isnan(b) && !isuninit(b)) return a; return cmp(OLT, false, b, a) ? b : a; }
double sym_fmax(double a, double b) { if (plain(a) && isnan(a) && !isuninit(a)) return b; if (plain(b) && isnan(b) && !isuninit(b)) return a; return cmp(OGT, false, b, a) ? b : a; }
double sym_fdim(double a, double b) { return cmp(OGT, false, a, b) ? op2(1, a, b) : 0.0; }
double sym_copysign(double a, double b) { double x = sym_fabs(a); bool neg = plain(b) ? signbit(b) : cmp(OLT, false, b, 0.0); return neg ? sym_fneg(x) : x; }
double sym_floor(double a) { chk_uninit(a, "floor"); int h; if (plain(a)) return floor(a); return sym_floor_impl(a, &h); }
double sym_ceil(double a) { if (plain(a)) return ceil(a); return sym_fneg(sym_floor(sym_fneg(a))); }
double sym_trunc(double a) { if (plain(a)) return trunc(a); return (double)sym_fptosi(a); }
double sym_round(double a) { if (plain(a)) return round(a); return sym_floor(op2(0, a, 0.5)); }
double sym_rint(double a) { return sym_round(a); }
double sym_nearbyint(double a) { return sym_round(a); }

double sym_exp(double a) { chk_uninit(a, "exp"); if (isconst(a)) { double r = exp(cval(a)); add_anchor(r, cval(a)); return r; } Z3_ast s = simp(ast(a)); Q q; if (ast_numeral(s, q.q)) return exp(mpq_get_d(q.q)); return uf_mono("exp", a); }
double sym_log(double a) {
    chk_uninit(a, "log");
    if (isconst(a)) { double r = log(cval(a)); add_anchor(cval(a), r); return r; }
    if (cmp(OLE, false, a, 0.0)) { if (cmp(OEQ, false, a, 0.0)) return -INFINITY; return NAN; }
    return uf_mono("log", a);
}
double sym_sqrt(double a) {
    chk_uninit(a, "sqrt");
    if (isconst(a)) return sqrt(cval(a));
    if (cmp(OLT, false, a, 0.0)) return NAN;
    Z3_ast x = simp(ast(a));
    for (auto& u : ufs) if (u.f == "sqrt" && u.x[0] == x) return from_ast(u.r);
    Z3_ast r = fresh("sqrt");
    Z3_ast m[2] = {r, r};
    assert_pc(Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, m), x));
    assert_pc(Z3_mk_ge(ctx, r, num("0")));
    UF u; u.f = "sqrt"; u.x = {x}; u.r = r; ufs.push_back(u);
    set_model(nullptr);
    return from_ast(r);
}
double sym_pow(double a, double b) {
    chk_uninit(a, "pow"); chk_uninit(b, "pow");
    if (isconst(a) && isconst(b)) {
        double e = cval(b);
        if (e == 1) return a;
        if (e == 0) return 1.0;
        if (e == 2) return op2(2, a, a);
        double av = cval(a);
        if (av == 0 || av == 1) return pow(av, e);
        return pow(av, e);
    }
    if (isconst(b)) {
        double e = cval(b);
        if (e == 1) return a;
        if (e == 0) return 1.0;
        if (e == 2) return op2(2, a, a);
        if (e == 3) return op2(2, a, op2(2, a, a));
        if (e == 0.5) return sym_sqrt(a);
    }
    // base in [0, inf), positive exponent: increasing in the base, fixes 0 and 1
    if (cmp(OLT, false, a, 0.0)) return NAN;
    if (cmp(OLE, false, b, 0.0)) { if (cmp(OEQ, false, b, 0.0)) return 1.0; truncated_run = true; truncated_why = "negative exponent"; do_abort("pow"); return 0; }
    if (cmp(OEQ, false, a, 0.0)) return 0.0;
    if (cmp(OEQ, false, a, 1.0)) return 1.0;
    uf_used = true;
    Z3_ast x = simp(ast(a)), y = simp(ast(b));
    for (auto& u : ufs) if (u.f == "pow" && u.x[0] == x && u.x[1] == y) return from_ast(u.r);
    Z3_ast r = fresh("pow");
    assert_pc(Z3_mk_gt(ctx, r, num("0")));
    assert_pc(Z3_mk_iff(ctx, Z3_mk_lt(ctx, x, num("1")), Z3_mk_lt(ctx, r, num("1"))));
    for (auto& u : ufs) if (u.f == "pow" && u.x[1] == y) {
        assert_pc(Z3_mk_iff(ctx, Z3_mk_lt(ctx, u.x[0], x), Z3_mk_lt(ctx, u.r, r)));
        assert_pc(Z3_mk_iff(ctx, Z3_mk_eq(ctx, u.x[0], x), Z3_mk_eq(ctx, u.r, r)));
    }
    UF u; u.f = "pow"; u.x = {x, y}; u.r = r; ufs.push_back(u);
    set_model(nullptr);
    return from_ast(r);
}
#define UNSUP1(f) double sym_##f(double a) { if (isconst(a)) return f(cval(a)); truncated_run = true; truncated_why = #f " of a symbolic value"; do_abort(#f); return 0; }
UNSUP1(log10) UNSUP1(log2) UNSUP1(log1p) UNSUP1(expm1) UNSUP1(cbrt) UNSUP1(exp2) UNSUP1(sin) UNSUP1(cos) UNSUP1(tan) UNSUP1(tanh) UNSUP1(erf) UNSUP1(erfc)
double sym_hypot(double a, double b) { return sym_sqrt(op2(0, op2(2, a, a), op2(2, b, b))); }
double sym_atan2(double a, double b) { if (isconst(a) && isconst(b)) return atan2(cval(a), cval(b)); do_abort("atan2"); return 0; }

// executed functions of the code under test, reported as the encoded functions
static std::map<const char*, long> fn_hits;
void sym_fn(const char* n) { fn_hits[n]++; }

void sym_exit(int code) { if (in_region) { dead = true; return; } throw SymExit{code}; }
void sym_abort() { throw SymExit{134}; }
int sym_printf(const char*, ...) { return 0; }
int sym_puts(const char*) { return 0; }
// Text files: a symbolic value is written as a token that stands for any value within the
// printed precision of it, and read back as that value.
const double TOKEN = 7777000000000.0;
static std::vector<double> tokens;
int sym_fprintf(FILE* f, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    int n = 0;
    for (const char* p = fmt; *p;) {
        if (*p != '%' || p[1] == '%') { if (*p == '%') p++; fputc(*p++, f); n++; continue; }
        std::string s = "%"; p++;
        while (*p && strchr("-+ #0123456789.hlLzjt", *p)) s += *p++;
        char c = *p; if (c) p++;
        if (strchr("fFeEgG", c)) {
            double v = va_arg(ap, double);
            if (!isbox(v)) { s += c; n += fprintf(f, s.c_str(), v); continue; }
            size_t dot = s.find('.');
            int prec = dot == std::string::npos ? 6 : atoi(s.c_str() + dot + 1);
            Z3_ast x = ast(v), r = fresh("printed"), e = Z3_mk_sub(ctx, 2, std::vector<Z3_ast>{r, x}.data());
            double eps = 0.5 * pow(10.0, -prec), rel = 0;
            if (c == 'g' || c == 'G') { rel = 5.0 * pow(10.0, -(prec ? prec : 1)); eps = 0; }
            if (c == 'e' || c == 'E') { rel = eps; eps = 0; }
            Z3_ast ax = Z3_mk_ite(ctx, Z3_mk_lt(ctx, x, num("0")), Z3_mk_unary_minus(ctx, x), x);
            Z3_ast m[2] = {mk_num(Q(rel).q), ax}, b = rel ? Z3_mk_mul(ctx, 2, m) : mk_num(Q(eps).q);
            assert_pc(Z3_mk_le(ctx, e, b)); assert_pc(Z3_mk_le(ctx, Z3_mk_unary_minus(ctx, e), b));
            set_model(nullptr);
            uf_used = true;
            tokens.push_back(from_ast(r));
            n += fprintf(f, "%.0f", TOKEN + (double)(tokens.size() - 1));
        } else if (strchr("diuxXoc", c)) {
            if (s.find('l') != std::string::npos || s.find('z') != std::string::npos) { s += c; n += fprintf(f, s.c_str(), va_arg(ap, long)); }
            else { s += c; n += fprintf(f, s.c_str(), va_arg(ap, int)); }
        } else if (c == 's') { s += c; n += fprintf(f, s.c_str(), va_arg(ap, const char*)); }
        else if (c == 'p') { s += c; n += fprintf(f, s.c_str(), va_arg(ap, void*)); }
    }
    va_end(ap);
    return n;
}
int sym_fscanf(FILE* f, const char* fmt, ...) {
    va_list ap, aq; va_start(ap, fmt); va_copy(aq, ap);
    int n = vfscanf(f, fmt, ap), k = 0;
    for (const char* p = fmt; *p && k < n; p++) {
        if (*p != '%') continue;
        p++;
        if (*p == '%') continue;
        bool skip = *p == '*';
        std::string s;
        while (*p && strchr("*0123456789hlLzjt", *p)) s += *p++;
        if (skip) continue;
        void* q = va_arg(aq, void*);
        k++;
        if (strchr("fFeEgG", *p) && s.find('l') != std::string::npos) {
            double v = *(double*)q, i = v - TOKEN;
            if (i >= 0 && i < tokens.size() && i == floor(i)) *(double*)q = tokens[(size_t)i];
        }
    }
    va_end(ap); va_end(aq);
    return n;
}
int sym_putchar(int) { return 0; }
int sym_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = 0; tv->tv_usec = 0; return 0; }

}
static void dump_fns(FILE* f) {
    fprintf(f, "\"functions\":[");
    bool first = true;
    std::set<std::string> u;
    for (auto& kv : fn_hits) u.insert(kv.first);
    for (auto& n : u) { fprintf(f, "%s\"%s\"", first ? "" : ",", n.c_str()); first = false; }
    fprintf(f, "],");
}

static int quad_on = 0, quad_calls = 0;
static double quad_node = 0, quad_lo = 0, quad_hi = 0;
extern "C" {
void sym_quadrature(int on, double node) { quad_on = on; quad_node = node; quad_calls = 0; }
double sym_quad_limit(int upper) { return upper ? quad_hi : quad_lo; }
int sym_quad_calls(void) { return quad_calls; }
// ------------------------------------------------------------------ GSL: real library, native mode
struct gsl_function_struct { double (*function)(double x, void* params); void* params; };
int __real_gsl_integration_qag(const gsl_function_struct* f, double a, double b, double epsabs, double epsrel, size_t limit, int key, void* ws, double* result, double* abserr);
int __wrap_gsl_integration_qag(const gsl_function_struct* f, double a, double b, double epsabs, double epsrel, size_t limit, int key, void* ws, double* result, double* abserr) {
    if (quad_on) { quad_calls++; quad_lo = a; quad_hi = b; *result = f->function(quad_node, f->params); *abserr = 0; return 0; }
    if (!isconst(a) || !isconst(b)) { truncated_run = true; truncated_why = "symbolic quadrature limits"; do_abort("gsl"); *result = 0; *abserr = 0; return 0; }
    native_mode++;
    int r = __real_gsl_integration_qag(f, cval(a), cval(b), epsabs, epsrel, limit, key, ws, result, abserr);
    native_mode--;
    return r;
}
}
#include "roots.inc"
extern "C" {

// ------------------------------------------------------------------ harness API
int sym_is_symbolic(void) { return 1; }
void sym_native_mode(int on) { native_mode = on; }
int sym_cfg(const char* name, int dflt) { auto it = g_cfg.find(name); return it == g_cfg.end() ? dflt : atoi(it->second.c_str()); }
const char* sym_cfg_str(const char* name, const char* dflt) { auto it = g_cfg.find(name); return it == g_cfg.end() ? dflt : it->second.c_str(); }

double sym_real(const char* name) {
    std::string n = uniq(name);
    Z3_ast a = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), RS);
    inputs.push_back({n, false, 0, a});
    return from_ast(a);
}
double sym_range(const char* name, double lo, double hi) {
    double x = sym_real(name);
    add_constraint(Z3_mk_ge(ctx, ast(x), ast(lo)));
    add_constraint(Z3_mk_le(ctx, ast(x), ast(hi)));
    return x;
}
double sym_open(const char* name, double lo, double hi) {
    double x = sym_real(name);
    add_constraint(Z3_mk_gt(ctx, ast(x), ast(lo)));
    add_constraint(Z3_mk_lt(ctx, ast(x), ast(hi)));
    return x;
}
long sym_concrete(double v) {
    if (isconst(v)) return sym_fptosi(v);
    Z3_ast a = simp(ast(v));
    Q q;
    long k;
    if (ast_numeral(a, q.q)) k = (long)mpq_get_d(q.q);
    else k = concretise(a);
    Node& n = node(v);
    mpq_set_si(n.q, k, 1); n.cst = true; n.a = nullptr;
    return k;
}
double sym_int(const char* name, double lo, double hi) {
    std::string n = uniq(name);
    auto it = g_cfg.find(n);
    if (it != g_cfg.end()) { double v = atof(it->second.c_str()); inputs.push_back({n, false, 0, mk_num(Q(v).q)}); return v; }
    Z3_ast i = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_int_sort(ctx));
    Z3_ast a = Z3_mk_int2real(ctx, i);
    inputs.push_back({n, false, 0, a});
    double x = from_ast(a);
    add_constraint(Z3_mk_ge(ctx, a, ast(lo)));
    add_constraint(Z3_mk_le(ctx, a, ast(hi)));
    return x;
}
int sym_choose(const char* name, int lo, int hi) {
    int v;
    std::string n = uniq(name);
    auto it = g_cfg.find(n);
    if (it != g_cfg.end()) v = atoi(it->second.c_str());
    else v = choose_int(n, lo, hi);
    inputs.push_back({n, true, v, nullptr});
    return v;
}
static Z3_ast cmp_ast(int op, double a, double b) {
    Z3_ast v[2] = {ast(a), ast(b)};
    Z3_ast d = simp(Z3_mk_sub(ctx, 2, v)), z = num("0");
    switch (op) {
        case 0: return Z3_mk_eq(ctx, d, z);
        case 1: return Z3_mk_le(ctx, d, z);
        case 2: return Z3_mk_lt(ctx, d, z);
        default: return Z3_mk_not(ctx, Z3_mk_eq(ctx, d, z));
    }
}
static bool special(double a) { return plain(a) && !isfinite(a); }
void sym_assume_bool(int b) { if (!b) do_abort("assumption"); }
void sym_assume_cmp(int op, double a, double b) {
    if (dead) return;
    if (special(a) || special(b)) {
        bool r = op == 0 ? cmp(OEQ, false, a, b) : op == 1 ? cmp(OLE, false, a, b) : op == 2 ? cmp(OLT, false, a, b) : cmp(ONE, false, a, b);
        if (!r) do_abort("assumption");
        return;
    }
    Z3_ast c = simp0(cmp_ast(op, a, b));
    Z3_lbool v = Z3_get_bool_value(ctx, c);
    if (v == Z3_L_TRUE) return;
    if (v == Z3_L_FALSE) { do_abort("assumption"); return; }
    add_constraint(c);
    if (!mdl && pos >= dec.size()) {
        Z3_model m;
        int r = solve(nullptr, g_to_branch, 0, &m);
        if (r == -1) { do_abort("assumption"); return; }
        if (r == 1) { set_model(m); Z3_model_dec_ref(ctx, m); }
    }
}
static bool selected(const char* what) {
    if (g_labels.empty()) return true;
    const char* c = strchr(what, ':');
    std::string p = c ? std::string(what, c - what) : std::string("*");
    return !c || g_labels.count(p);
}
void sym_check_bool(int b, const char* what) {
    if (dead || !selected(what)) return;
    n_obl++; obl_by_label[what]++;
    if (b) { n_obl_concrete++; return; }
    Z3_model m = ensure_model();
    if (!m) {
        Z3_model mm; int r = solve(nullptr, g_to_check, g_to_nl, &mm);
        if (r == -1) { do_abort("infeasible"); return; }
        n_obl_unknown++; unk_by_label[what]++;
        return;
    }
    report_violation("property", what, "", m);
}
void sym_check_cmp(int op, double a, double b, const char* what) {
    if (dead || !selected(what)) return;
    chk_uninit(a, what); chk_uninit(b, what);
    if (special(a) || special(b)) {
        bool r = op == 0 ? cmp(OEQ, false, a, b) : op == 1 ? cmp(OLE, false, a, b) : op == 2 ? cmp(OLT, false, a, b) : cmp(ONE, false, a, b);
        sym_check_bool(r, what);
        return;
    }
    n_obl++; obl_by_label[what]++;
    struct Where { Where(const char* w) { cur_where = w; } ~Where() { cur_where = ""; } } where_(what);
    Z3_ast c = simp0(cmp_ast(op, a, b));
    Z3_lbool v = Z3_get_bool_value(ctx, c);
    if (v == Z3_L_TRUE) { n_obl_syn++; return; }
    if (pc_true.count(Z3_get_ast_id(ctx, c))) { n_obl_syn++; return; }
    Z3_ast neg = Z3_mk_not(ctx, c);
    Z3_model m = nullptr;
    int r;
    int ev = eval_bool(c);
    if (ev == 0 && mdl && model_ok()) { r = 1; m = mdl; Z3_model_inc_ref(ctx, m); }
    else r = solve(neg, g_to_check, g_to_nl, &m);
    if (r == -1) { n_obl_unsat++; }
    else if (r == 0) { n_obl_unknown++; unk_by_label[what]++; }
    else {
        // ask for a counterexample with a clear margin, for a robust replay
        if (op <= 2) {
            for (const char* mg : {"1", "1/1000"}) {
                Z3_ast w[2] = {ast(a), ast(b)};
                Z3_ast d = simp(Z3_mk_sub(ctx, 2, w));
                Z3_ast big = Z3_mk_gt(ctx, d, num(mg));
                if (op == 0) { Z3_ast mgm[2] = {num("-1"), num(mg)}; Z3_ast o[2] = {big, Z3_mk_lt(ctx, d, Z3_mk_mul(ctx, 2, mgm))}; big = Z3_mk_or(ctx, 2, o); }
                Z3_model m2;
                if (solve(big, g_to_check, g_to_nl, &m2) == 1) { Z3_model_dec_ref(ctx, m); m = m2; break; }
            }
        }
        report_violation("property", what, "", m);
        Z3_model_dec_ref(ctx, m);
    }
    if (r != -1) {
        if (v == Z3_L_FALSE) { do_abort("property is false on the whole path"); return; }
        add_constraint(c);
        if (!ensure_model()) { Z3_model mm; if (solve(nullptr, g_to_branch, g_to_branch, &mm) == -1) { do_abort("infeasible"); return; } }
    }
}
double sym_name(double v) {
    if (isconst(v)) return v;
    Z3_ast q = fresh("n");
    Z3_ast e = simp(ast(v));
    assert_pc(Z3_mk_eq(ctx, q, e));
    if (mdl) {
        Z3_ast r;
        if (Z3_model_eval(ctx, mdl, e, true, &r)) Z3_add_const_interp(ctx, mdl, Z3_get_app_decl(ctx, Z3_to_app(ctx, q)), r);
        else set_model(nullptr);
    }
    return from_ast(q);
}
void sym_reach(const char* what) { if (!dead) reached_now.push_back(what); }
void sym_observe(const char* name, double v) { if (!dead) obs.push_back({uniq(name), v}); }

int sym_guard(void (*fn)(void*), void* arg) {
    try { fn(arg); return 0; }
    catch (SymExit&) { return 1; }
    catch (std::exception&) { return 2; }
}

// ------------------------------------------------------------------ OpenMP stand-in (see threads.inc)
}
#define SIM_FORK sym_kmpc_fork_call
#define SIM_REGION_END() do { if (dead) { dead = false; path_abort("aborted inside the parallel region"); } } while (0)
#include "threads.inc"
extern "C" {
double omp_get_wtime() { return 0; }
const char* __asan_default_options() { return "detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=255:allocator_may_return_null=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:quarantine_size_mb=16:print_legend=0"; }
}

static void nodes_clear() {
    for (auto& n : nodes) mpq_clear(n.q);
    nodes.clear();
}
static void make_context() {
    Z3_config c = Z3_mk_config();
    ctx = Z3_mk_context(c);
    Z3_del_config(c);
    Z3_set_error_handler(ctx, [](Z3_context cc, Z3_error_code e) { fprintf(stderr, "Z3: %s\n", Z3_get_error_msg(cc, e)); });
    RS = Z3_mk_real_sort(ctx);
    simp_params = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, simp_params);
    Z3_params_set_bool(ctx, simp_params, Z3_mk_string_symbol(ctx, "som"), true);
    nl_tactic = Z3_mk_tactic(ctx, "qfnra");
    Z3_tactic_inc_ref(ctx, nl_tactic);
}
static void reset_path() {
    nodes_clear();
    epoch++;
    pos = 0;
        pc.clear();
    pc_true.clear();
    fresh_k = 0;
    inputs.clear(); name_count.clear(); obs.clear(); ufs.clear(); anchors.clear(); tokens.clear(); reached_now.clear();
    uf_used = false; native_mode = 0; dead = false; in_region = 0; g_threads = 1; g_quantum = 0; g_tick = 0; g_phase = 0; g_raced = false;
    if (S) Z3_solver_dec_ref(ctx, S);
    S = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, S);
    set_model(nullptr);
}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--list") { for (auto& kv : registry()) printf("%s\n", kv.first.c_str()); return 0; }
        if (a == "--out") g_out = argv[++i];
        else if (a == "--dir") g_dir = argv[++i];
        else if (a == "--labels") { std::string l = argv[++i]; size_t p; while ((p = l.find(',')) != std::string::npos) { g_labels.insert(l.substr(0, p)); l = l.substr(p + 1); } g_labels.insert(l); }
        else if (a == "--wall") g_wall = atof(argv[++i]);
        else if (a == "--max-paths") g_max_paths = atol(argv[++i]);
        else if (a == "--traces") g_traces = atol(argv[++i]);
        else if (a == "--to-branch") g_to_branch = atoi(argv[++i]);
        else if (a == "--to-check") g_to_check = atoi(argv[++i]);
        else if (a == "--to-nl") g_to_nl = atoi(argv[++i]);
        else if (a.find('=') != std::string::npos) g_cfg[a.substr(0, a.find('='))] = a.substr(a.find('=') + 1);
        else g_harness = a;
    }
    auto it = registry().find(g_harness);
    if (it == registry().end()) { fprintf(stderr, "no harness %s\n", g_harness.c_str()); return 3; }
    Z3_global_param_set("smt.random_seed", "1");
    Z3_global_param_set("nlsat.seed", "1");
    make_context();
    __sanitizer_set_death_callback(on_asan_death);
    t_start = now();
    bool more = true;
    long stride = 1;
    while (more) {
        if (n_paths && n_paths % 3000 == 0) {  // bound the memory held by terms
            for (auto& d : dec) if (d.other) { Z3_model_dec_ref(ctx, d.other); d.other = nullptr; }
            set_model(nullptr);
            if (S) { Z3_solver_dec_ref(ctx, S); S = nullptr; }
            nodes_clear();
            Z3_del_context(ctx);
            make_context();
        }
        reset_path();
        bool ok = true;
        try { it->second(); }
        catch (PathAbort& e) { ok = false; n_killed++; }
        catch (SymExit& e) { report_violation("property", "the program terminated (exit or abort) on valid input", "", ensure_model()); ok = false; }
        catch (std::exception& e) { report_violation("property", std::string("uncaught exception: ") + e.what(), "", ensure_model()); ok = false; }
        n_paths++;
        if (ok) {
            n_completed++;
            if (!reached_now.empty()) for (auto& r : reached_now) reached[r]++;
            if ((long)trace_files.size() < g_traces && !obs.empty() && !uf_used && (n_completed % stride) == 0) {
                Z3_model m = ensure_model();
                if (m) {
                    std::string f = g_dir + "/trace_" + std::to_string(getpid()) + "_" + std::to_string(trace_files.size()) + ".txt";
                    write_assign(f, m, "trace", "trace", "", true);
                    trace_files.push_back(f);
                    if (trace_files.size() >= 4) stride = stride * 2;
                }
            }
        }
        if (now() - t_start > g_wall) { truncated_run = true; truncated_why = "wall-clock cap"; more = false; break; }
        if (n_paths >= g_max_paths) { if (backtrack()) { truncated_run = true; truncated_why = "path cap"; } break; }
        if ((long)viols.size() >= g_max_viol) { truncated_run = true; truncated_why = "enough counterexamples"; break; }
        more = backtrack();
        if (native_mode) native_mode = 0;
    }
    write_out(true);
    return 0;
}
