// Contracts of trees of integer parameters.
// vs: bound multiplyByRandom without range: fixed values and random numbers from a table of five
// vs: bound trees of two nested collections with 5 parameters in 4 leaves of all kinds (loops over the elements of a collection are unrolled for these sizes)
#include "tree.hpp"
using T = std::int32_t;
using CO = GConstrainedInt32Object; using UO = GInt32Object; using UC = GInt32Collection; using CC = UC; using COC = GConstrainedInt32ObjectCollection; using COE = GConstrainedInt32Object; using FOREIGN = GDoubleObject;
static const T LO = -10, HI = 10;
#define FOREIGN_VALUE 7.
#define ARGS_INIT , -3, 5
#define CO_ARGS a, LO, HI
#define COE_ARGS c, LO, HI
#define COE_KIND K_CO
#define HAVE_CC(...)
#define UB(l) (static_cast<CO *>((l).p.get())->getUpperBoundary())
#define INIT_BOUNDS(lo, hi) (((lo) == -3) & ((hi) == 5) | ((lo) == e_lo()) & ((hi) == e_hi()))
static T e_lo() { return UO().getLowerInitBoundary(); }
static T e_hi() { return UO().getUpperInitBoundary(); }
static VS_NOINLINE T in_bounds(const char *n) { T x = vs_i32(n); vs_assume((x >= LO) & (x <= HI)); return x; }
static VS_NOINLINE T any_value(const char *n) { T x = vs_i32(n); vs_assume((x >= -1000) & (x <= 1000)); return x; }
#define UB_OK(l) vs_assume(UB(l) == HI)
static T CONCRETE(int leaf) { static const T v[5] = {-4, 3, 2, 9, 1000}; return v[leaf]; }
#define CONCRETE_OP 3
#define CONCRETE_RLO -2
#define CONCRETE_RHI 3
#define RND_RESET (g_nreal = 0, g_nint = 0)
#define RND_N g_nint
#define RND_VAL g_int
static VS_NOINLINE double rnd_real(double lo, double hi) { static const double t[5] = {0., .25, .5, .7, .999999}; static unsigned k; if (!g_nreal) k = unsigned(vs_choice("rnd", 5)); return t[(k + g_nreal) % 5]; }
#define SCALE_CONCRETE true
#define SCALED(v, r) T(double(v) * (r))
using FT = double;
#define TRANSFER_CC(l, x) (x)
static VS_NOINLINE T operand(const char *n) { T x = vs_i32(n); vs_assume((x >= -1000) & (x <= 1000)); return x; }
#include "tree_ops.hpp"
