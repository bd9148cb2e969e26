// Contracts of constrained integer parameters (GConstrainedIntT / GConstrainedNumT through GConstrainedInt32Object).
// vs: link src/common/GCommonHelperFunctions.cpp src/common/GCommonMathHelperFunctions.cpp src/geneva/GParameterBase.cpp src/geneva/GConstrainedInt32Object.cpp src/geneva/GObject.cpp
// vs: nlink src/common/GLogger.cpp src/common/GExpectationChecksT.cpp src/hap/GRandomBase.cpp src/hap/GRandomFactory.cpp src/common/GThreadGroup.cpp src/geneva/GenevaHelperFunctionsT.cpp src/geneva/GBooleanAdaptor.cpp src/geneva/GOptimizationEnums.cpp src/geneva/GInt32FlipAdaptor.cpp src/geneva/GDoubleGaussAdaptor.cpp
// vs: set divlem=1
// vs: ub
#include "geneva/GConstrainedInt32Object.hpp"
#include "vs.hpp"
using namespace Gem::Geneva;
#define NUM_T std::int32_t
#define NUM_O GConstrainedInt32Object
#define NUM_IN vs_i32
#define NUM_OK(l, u) ((l) < (u) & num_limit(l, u))
#define NUM_UB(u) (u)
#define NUM_FIN(v) true
#include "cnum.hpp"

VS_ENTRY(transfer_range) {
  NUM_T l = vs_i32("l"), u = vs_i32("u"), v = vs_i32("v");
  vs_assume(NUM_OK(l, u));
  NUM_O o(l, l, u);
  NUM_T r = o.transfer(v);
  vs_assert(r >= l & r <= u, "transfer maps every value into [lower, upper]");
  if (v >= l & v <= u) vs_assert(r == v, "transfer is the identity inside [lower, upper]");
}
VS_ENTRY(transfer_fold) {
  NUM_T l = vs_i32("l"), u = vs_i32("u"), v = vs_i32("v");
  vs_assume(NUM_OK(l, u));
  NUM_O o(l, l, u);
  NUM_T r = o.transfer(v);
  std::int64_t L = l, U = u, V = v, R = U - L + 1;
  if (V < L) {
    std::int64_t a = L - 1 - V, q = a / R, m = a % R;
    vs_assert(std::int64_t(r) == (q % 2 == 0 ? L + m : U - m), "values below the lower boundary are reflected");
  } else if (V > U) {
    std::int64_t a = V - U - 1, q = a / R, m = a % R;
    vs_assert(std::int64_t(r) == (q % 2 == 0 ? U - m : L + m), "values above the upper boundary are reflected");
  }
}
