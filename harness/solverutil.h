// Shared by the solver checks: configurations as text, solver-ready models.
#ifndef VERIF_SOLVERUTIL_H
#define VERIF_SOLVERUTIL_H

#include "refmodel.h"

#include "vara/Solver/ConfigurationFactory.h"

namespace su {
using namespace ref;
namespace vs = vara::solver;

inline std::string cfgStr(vf::Configuration &Cfg) {
  std::map<std::string, std::string> M;
  for (auto &O : Cfg) {
    auto &Opt = O.getValue();
    M[Opt->name().str()] = Opt->asString();
  }
  std::string S;
  for (auto &[K, V] : M) {
    S += K + "=" + V + ";";
  }
  return S;
}

inline GenOpts solverOpts(pbt::Case &C) {
  GenOpts O;
  O.MaxFeatures = 9;
  O.Locations = false;
  O.Outputs = false;
  O.Meta = false;
  O.RootOrBase = false;
  O.MixedChildren = C.chance(1, 4);
  O.NumericParents = C.chance(1, 3);
  O.WeirdNames = C.chance(1, 4);
  O.MaxConstraints = static_cast<int>(C.pick<int>({2, 0, 4, 5}));
  return O;
}

// A case is kept if brute force is cheap and its meaning is documented.
inline std::set<std::string> expected(pbt::Case &C, const Model &M, uint64_t Limit = 40000) {
  if (assignments(M) > Limit) {
    C.tag("too-big");
    C.discard();
  }
  bool Amb = false;
  auto S = configs(M, &Amb);
  if (Amb) {
    C.tag("ambiguous-division");
    C.discard();
  }
  return S;
}

inline std::string cmp(const std::set<std::string> &Want, const std::set<std::string> &Got) {
  std::string R;
  for (auto &X : Got) {
    if (!Want.count(X)) {
      R += "not valid: " + X + "\n";
      break;
    }
  }
  for (auto &X : Want) {
    if (!Got.count(X)) {
      R += "missing: " + X + "\n";
      break;
    }
  }
  return R;
}
} // namespace su
#endif
