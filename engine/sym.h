// Harness API.  The same harness source is built twice:
//  * symbolically: compiled to LLVM IR, every floating-point operation of the IR
//    (harness and code under test alike) redirected to the symbolic runtime;
//  * natively: plain g++ build of the same sources, inputs read from an assignment
//    file, used to replay counterexamples and to validate explored paths.
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
#ifdef __cplusplus
extern "C" {
#endif
// --- symbolic inputs
double sym_real(const char* name);                            // any real
double sym_range(const char* name, double lo, double hi);     // lo <= x <= hi
double sym_open(const char* name, double lo, double hi);      // lo < x < hi
int sym_choose(const char* name, int lo, int hi);             // every int in [lo,hi], one path each
double sym_int(const char* name, double lo, double hi);       // integer-valued solver variable
long sym_concrete(double v);                                  // every value of an integer-valued term, one path each
// --- assumptions (no fork): op 0 ==, 1 <=, 2 <, 3 !=
void sym_assume_cmp(int op, double a, double b);
void sym_assume_bool(int b);
// --- proof obligations (no fork)
void sym_check_cmp(int op, double a, double b, const char* what);
void sym_check_bool(int b, const char* what);
// Replace a value by a fresh variable equal to it (keeps terms small).
double sym_name(double v);
// --- reachability witness / validation outputs
void sym_reach(const char* what);
void sym_observe(const char* name, double v);
// --- configuration given on the command line (concrete for one run)
int sym_cfg(const char* name, int dflt);
const char* sym_cfg_str(const char* name, const char* dflt);
int sym_is_symbolic(void);
void sym_quadrature(int on, double node); // stand-in quadrature: the value of the integrand at one node
double sym_quad_limit(int upper);           // limits of the last integral
int sym_quad_calls(void);
void sym_root(int on, double value);           // stand-in root finder: converges to this value
double sym_root_get(int what);                // function there; lower and upper limit; tolerance
int sym_root_sets(void);
void sym_threads(int n);   // number of OpenMP threads for later parallel regions
void sym_quantum(int n);   // simulated threads: switch after every n memory accesses (0: never)
void sym_first_switch(int n); // simulated threads: the first switch comes n accesses later
int sym_raced(void);       // has any access conflicted with another thread's? (and forget)
void sym_native_mode(int on);
// call fn(arg); returns 0 normally, 1 if the code called exit(), 2 if it threw
int sym_guard(void (*fn)(void*), void* arg);
#ifdef __cplusplus
}
#define CHECK_EQ(a, b, w) sym_check_cmp(0, (a), (b), w)
#define CHECK_LE(a, b, w) sym_check_cmp(1, (a), (b), w)
#define CHECK_LT(a, b, w) sym_check_cmp(2, (a), (b), w)
#define CHECK(b, w) sym_check_bool((b) ? 1 : 0, w)
#define ASSUME_EQ(a, b) sym_assume_cmp(0, (a), (b))
#define ASSUME_LE(a, b) sym_assume_cmp(1, (a), (b))
#define ASSUME_LT(a, b) sym_assume_cmp(2, (a), (b))
#define ASSUME_NE(a, b) sym_assume_cmp(3, (a), (b))
#define REACH(w) sym_reach(w)
#define OBS(n, v) sym_observe(n, v)

struct HarnessReg {
    HarnessReg(const char* name, void (*fn)());
};
#define HARNESS(name)                                   \
    static void harness_##name();                       \
    static HarnessReg reg_##name(#name, harness_##name); \
    static void harness_##name()
#endif
#endif
