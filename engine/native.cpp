// Native implementation of the harness API: replays one assignment.
#include "sym.h"

#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>

#include <exception>
#include <map>
#include <string>
#include <vector>

static std::map<std::string, double> reals;
static std::map<std::string, int> ints;
static std::map<std::string, std::string> cfg;
static std::map<std::string, int> cnt;
static std::map<std::string, void (*)()>& registry() { static std::map<std::string, void (*)()> r; return r; }
HarnessReg::HarnessReg(const char* n, void (*f)()) { registry()[n] = f; }
static std::string uniq(const char* n) { int k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static FILE* R;  // result stream
struct Stop {};

extern "C" {
double sym_real(const char* n) { auto it = reals.find(uniq(n)); return it == reals.end() ? 0.0 : it->second; }
double sym_range(const char* n, double lo, double hi) { double v = sym_real(n); return v < lo ? lo : v > hi ? hi : v; }
double sym_open(const char* n, double, double) { return sym_real(n); }
long sym_concrete(double v) { return (long)floor(v + 0.5); }
double sym_int(const char* n, double, double) { return floor(sym_real(n) + 0.5); }
int sym_choose(const char* n, int lo, int) { std::string u = uniq(n); auto it = ints.find(u); return it == ints.end() ? lo : it->second; }
static bool holds(int op, double a, double b, double tol) {
    if (isnan(a) || isnan(b)) return false;
    if (isinf(a) || isinf(b)) return op == 0 ? a == b : op == 1 ? a <= b : op == 2 ? a < b : a != b;
    double t = tol * (1 + fmax(fabs(a), fabs(b)));
    switch (op) { case 0: return fabs(a - b) <= t; case 1: return a <= b + t; case 2: return a < b + t; default: return true; }
}
void sym_assume_bool(int b) { if (!b) { fprintf(R, "ASSUME-FAILED\n"); throw Stop(); } }
void sym_assume_cmp(int op, double a, double b) { if (!holds(op, a, b, 1e-7)) { fprintf(R, "ASSUME-FAILED %g %g\n", a, b); throw Stop(); } }
void sym_check_cmp(int op, double a, double b, const char* w) { if (!holds(op, a, b, 1e-7)) { fprintf(R, "FAIL %s | %.17g vs %.17g\n", w, a, b); fflush(R);} }
void sym_check_bool(int b, const char* w) { if (!b) { fprintf(R, "FAIL %s\n", w); fflush(R);} }
double sym_name(double v) { return v; }
void sym_reach(const char* w) { fprintf(R, "REACH %s\n", w); }
void sym_observe(const char* n, double v) { fprintf(R, "OBS %s %.17g\n", uniq(n).c_str(), v); }
int sym_cfg(const char* n, int d) { auto it = cfg.find(n); return it == cfg.end() ? d : atoi(it->second.c_str()); }
const char* sym_cfg_str(const char* n, const char* d) { auto it = cfg.find(n); return it == cfg.end() ? d : it->second.c_str(); }
int sym_is_symbolic(void) { return 0; }
void sym_native_mode(int) {}
#ifndef VERIF_TSAN
void omp_set_num_threads(int) __attribute__((weak));
void sym_threads(int n) { if (omp_set_num_threads) omp_set_num_threads(n); }
void sym_quantum(int) {}
void sym_first_switch(int) {}
int sym_raced(void) { return 0; }
#endif
static jmp_buf* jb = nullptr;
int sym_guard(void (*fn)(void*), void* arg) {
    jmp_buf mine; jmp_buf* old = jb;
    if (setjmp(mine)) { jb = old; return 1; }
    jb = &mine;
    int r = 0;
    try { fn(arg); } catch (Stop&) { jb = old; throw; } catch (std::exception&) { r = 2; }
    jb = old;
    return r;
}
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int code) {  // exit() called by the program under test
    if (jb) longjmp(*jb, 1);
    fprintf(R, "FAIL the program terminated (exit or abort) on valid input\n"); fclose(R);
    __real_exit(0);
}
}


static int quad_on = 0, quad_calls = 0;
static double quad_node = 0, quad_lo = 0, quad_hi = 0;
extern "C" {
void sym_quadrature(int on, double node) { quad_on = on; quad_node = node; quad_calls = 0; }
double sym_quad_limit(int upper) { return upper ? quad_hi : quad_lo; }
int sym_quad_calls(void) { return quad_calls; }
struct gsl_function_struct { double (*function)(double x, void* params); void* params; };
int __real_gsl_integration_qag(const gsl_function_struct* f, double a, double b, double epsabs, double epsrel, size_t limit, int key, void* ws, double* result, double* abserr);
int __wrap_gsl_integration_qag(const gsl_function_struct* f, double a, double b, double epsabs, double epsrel, size_t limit, int key, void* ws, double* result, double* abserr) {
    if (quad_on) { quad_calls++; quad_lo = a; quad_hi = b; *result = f->function(quad_node, f->params); *abserr = 0; return 0; }
    return __real_gsl_integration_qag(f, a, b, epsabs, epsrel, limit, key, ws, result, abserr);
}
}
#include "roots.inc"

#ifdef VERIF_TSAN
static int in_region = 0;
#define SIM_FORK __kmpc_fork_call
#define SIM_REGION_END() do {} while (0)
#include "threads.inc"
#endif

int main(int argc, char** argv) {
    if (argc < 3) return 3;
    FILE* f = fopen(argv[1], "r");
    R = fopen(argv[2], "w");
    if (!f || !R) return 3;
    char line[4096];
    std::string h;
    while (fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        char k[16], n[2048], v[2048]; v[0] = 0;
        int c = sscanf(line, "%15s %2047s %2047[^\n]", k, n, v);
        if (c < 2) continue;
        std::string key = k;
        if (key == "harness") h = n;
        else if (key == "cfg") { cfg[n] = v; char* e; long iv = strtol(v, &e, 10); if (*v && !*e) ints[n] = iv; }
        else if (key == "real") reals[n] = strtod(v, nullptr);
        else if (key == "int") ints[n] = atoi(v);
    }
    fclose(f);
    auto it = registry().find(h);
    if (it == registry().end()) { fprintf(R, "NO-HARNESS\n"); return 3; }
    try { it->second(); fprintf(R, "DONE\n"); }
    catch (Stop&) { fprintf(R, "STOPPED\n"); }
    catch (std::exception& e) { fprintf(R, "FAIL uncaught exception: %s\n", e.what()); }
    fclose(R);
    return 0;
}
