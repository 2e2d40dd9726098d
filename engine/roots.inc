// Stand-in for the GSL root finders: the solver "converges" to one value chosen by the harness after ROOT_STEPS
// iterations, and the function is evaluated there.
static int root_on = 0, root_steps = 0, root_sets = 0;
static double root_value = 0, root_lo = 0, root_hi = 0, root_residual = 0, root_tol = 0;
enum { ROOT_STEPS = 12 };
extern "C" {
struct gsl_root_struct;
void sym_root(int on, double value) { root_on = on; root_value = value; root_steps = root_sets = 0; root_tol = 0; root_residual = 0; }
double sym_root_get(int what) { return what == 0 ? root_residual : what == 1 ? root_lo : what == 2 ? root_hi : root_tol; }
int sym_root_sets(void) { return root_sets; }
static const gsl_function_struct* root_f;
int __real_gsl_root_fsolver_set(gsl_root_struct* s, gsl_function_struct* f, double lo, double hi);
int __wrap_gsl_root_fsolver_set(gsl_root_struct* s, gsl_function_struct* f, double lo, double hi) {
    if (!root_on) return __real_gsl_root_fsolver_set(s, f, lo, hi);
    root_f = f; root_lo = lo; root_hi = hi; root_steps = 0; root_sets++;
    return 0;
}
int __real_gsl_root_fsolver_iterate(gsl_root_struct* s);
int __wrap_gsl_root_fsolver_iterate(gsl_root_struct* s) {
    if (!root_on) return __real_gsl_root_fsolver_iterate(s);
    if (++root_steps == ROOT_STEPS) root_residual = root_f->function(root_value, root_f->params);
    return 0;
}
double __real_gsl_root_fsolver_root(const gsl_root_struct* s);
double __wrap_gsl_root_fsolver_root(const gsl_root_struct* s) {
    if (!root_on) return __real_gsl_root_fsolver_root(s);
    return root_steps >= ROOT_STEPS ? root_value : (root_lo + root_hi) / 2;
}
double __real_gsl_root_fsolver_x_lower(const gsl_root_struct* s);
double __wrap_gsl_root_fsolver_x_lower(const gsl_root_struct* s) { return !root_on ? __real_gsl_root_fsolver_x_lower(s) : root_steps >= ROOT_STEPS ? root_value : root_lo; }
double __real_gsl_root_fsolver_x_upper(const gsl_root_struct* s);
double __wrap_gsl_root_fsolver_x_upper(const gsl_root_struct* s) { return !root_on ? __real_gsl_root_fsolver_x_upper(s) : root_steps >= ROOT_STEPS ? root_value : root_hi; }
static int root_test(double tol) { root_tol = tol; return root_steps >= ROOT_STEPS ? 0 : -2; }
int __real_gsl_root_test_interval(double lo, double hi, double epsabs, double epsrel);
int __wrap_gsl_root_test_interval(double lo, double hi, double epsabs, double epsrel) { return root_on ? root_test(epsabs + epsrel) : __real_gsl_root_test_interval(lo, hi, epsabs, epsrel); }
int __real_gsl_root_test_residual(double f, double epsabs);
int __wrap_gsl_root_test_residual(double f, double epsabs) { return root_on ? root_test(epsabs) : __real_gsl_root_test_residual(f, epsabs); }
int __real_gsl_root_test_delta(double a, double b, double epsabs, double epsrel);
int __wrap_gsl_root_test_delta(double a, double b, double epsabs, double epsrel) { return root_on ? root_test(epsabs + epsrel) : __real_gsl_root_test_delta(a, b, epsabs, epsrel); }
}
