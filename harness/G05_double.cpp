// Contracts of trees of floating point parameters.
// vs: bound trees of two nested collections with 7 parameters in 5 leaves of all kinds (loops over the elements of a collection are unrolled for these sizes)
// vs: set fpuf=["fmul_f64","fadd_f64","fsub_f64"]
// vs: set ufmemo=1
// vs: set ufnan=1
#include "tree.hpp"
using T = double;
using CO = GConstrainedDoubleObject; using UO = GDoubleObject; using CC = GConstrainedDoubleCollection; using UC = GDoubleCollection; using COC = GConstrainedDoubleObjectCollection; using COE = GConstrainedDoubleObject; using FOREIGN = GInt32Object;
static const double LO = -10., HI = 10.; 
#define FOREIGN_VALUE 7
#define ARGS_INIT , -3., 5.
#define CO_ARGS a, LO, HI
#define COE_ARGS c, LO, HI
#define COE_KIND K_CO
#define HAVE_CC(...) __VA_ARGS__
#define UB(l) ((l).kind == K_CO ? static_cast<CO *>((l).p.get())->getUpperBoundary() : static_cast<CC *>((l).p.get())->getUpperBoundary())
#define INIT_BOUNDS(lo, hi) (((lo) == -3.) & ((hi) == 5.) | ((lo) == e_lo()) & ((hi) == e_hi()))
static double e_lo() { return UO().getLowerInitBoundary(); }
static double e_hi() { return UO().getUpperInitBoundary(); }
static VS_NOINLINE double in_bounds(const char *n) { double x = vs_f64(n); vs_assume((x == 0.) | (x >= 1e-300) | (x <= -1e-300)); vs_assume((x >= -10.) & (x <= 9.)); return x; }
static VS_NOINLINE double any_value(const char *n) { double x = vs_f64(n); vs_assume((x > -1e300) & (x < 1e300)); return x; }
#define UB_OK(l) vs_assume((UB(l) > 9.5) & (UB(l) < 10.))
static double CONCRETE(int leaf) { static const double v[5] = {-4., 3., 2.5, 9., 1e6}; return v[leaf]; }
#define CONCRETE_OP 1.5
#define CONCRETE_RLO -1.5
#define CONCRETE_RHI 2.
#define RND_RESET (g_nreal = 0)
#define RND_N g_nreal
#define RND_VAL g_real
#define SCALE_CONCRETE false
#define SCALED(v, r) ((v) * (r))
static VS_NOINLINE double rnd_real(double lo, double hi) { double x = vs_f64("rnd"); vs_assume((x >= lo) & (x < hi) & ((x == 0.) | (x >= 1e-5) | (x <= -1e-5))); return x; }
using FT = std::int32_t;
#define TRANSFER_CC(l, x) static_cast<CC *>((l).p.get())->transfer(x)
static VS_NOINLINE double operand(const char *n) { double x = vs_f64(n); vs_assume((x > 1e-10) & (x < 1e10) | (x < -1e-10) & (x > -1e10)); return x; }
#include "tree_ops.hpp"
