// Contracts of trees of boolean parameters.
// vs: bound trees of two nested collections with 5 parameters in 4 leaves of all kinds (loops over the elements of a collection are unrolled for these sizes)
#include "tree.hpp"
using T = bool;
using CO = GBooleanObject; using UO = GBooleanObject; using UC = GBooleanCollection; using CC = UC; using COC = GBooleanObjectCollection; using COE = GBooleanObject; using FOREIGN = GDoubleObject;
#define FOREIGN_VALUE 7.
#define ARGS_INIT
static const T LO = false, HI = true;
#define CO_ARGS a
#define COE_ARGS c
#define COE_KIND K_UO
#define HAVE_CC(...)
#define UB(l) HI
#define INIT_BOUNDS(lo, hi) (((lo) == false) & ((hi) == true))
static VS_NOINLINE T in_bounds(const char *n) { return vs_bool(n); }
static VS_NOINLINE T any_value(const char *n) { return vs_bool(n); }
#define UB_OK(l)
static T CONCRETE(int leaf) { return leaf & 1; }
#define RND_RESET (g_nbern = 0)
static VS_NOINLINE double rnd_real(double lo, double hi) { double x = vs_f64("rnd"); vs_assume((x >= lo) & (x < hi)); return x; }
using FT = double;
#define TRANSFER_CC(l, x) (x)
#define BOOLEAN
#include "tree_body.hpp"
