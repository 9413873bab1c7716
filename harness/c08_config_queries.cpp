// C08: all configuration queries agree with each other.
#include "solverutil.h"

using namespace su;

namespace {
using CF = vs::ConfigurationFactory;

std::set<std::string> unique(pbt::Case &C, std::vector<std::unique_ptr<vf::Configuration>> V,
                             const char *What) {
  std::set<std::string> S;
  for (auto &X : V) {
    C.require(X != nullptr, "null-configuration", What);
    auto T = cfgStr(*X);
    C.requireF(S.insert(T).second, "duplicate", [&] { return std::string(What) + ": " + T; });
  }
  return S;
}
} // namespace

PROP(queries, 600, 9000) {
  Model M = genModel(C, solverOpts(C));
  C.describe(M.str());
  auto Want = expected(C, M);
  if (Want.size() > 120) {
    C.tag("too-many-configurations");
    C.discard();
  }
  auto FM = toFM(M);
  Model Before = fromFM(*FM);
  size_t Total = Want.size();
  C.tag(Total ? "satisfiable" : "unsatisfiable");
  if (Total >= 2 && M.F.size() >= 3) {
    C.nontrivial(M.str());
  }
  int Ops = static_cast<int>(C.range(1, 5));
  for (int I = 0; I < Ops; ++I) {
    switch (C.range(0, 4)) {
    case 0: {
      C.describe("isValid");
      C.eq(CF::isValid(*FM), Total > 0, "validity");
      break;
    }
    case 1: {
      C.describe("getNumConfigs");
      auto R = CF::getNumConfigs(*FM);
      if (R) {
        C.eq(R.extractValue(), static_cast<uint64_t>(Total), "number");
      } else {
        C.require(Total == 0 && R.getError() == vs::UNSAT, "number", "error for a valid model");
      }
      break;
    }
    case 2: {
      C.describe("getAllConfigs");
      auto R = CF::getAllConfigs(*FM);
      if (R) {
        auto D = cmp(Want, unique(C, R.extractValue(), "getAllConfigs"));
        C.requireF(D.empty(), "all", [&] { return D; });
      } else {
        C.require(Total == 0 && R.getError() == vs::UNSAT, "all", "error for a valid model");
      }
      break;
    }
    case 3: {
      unsigned N = static_cast<unsigned>(
          C.pick<uint64_t>({0, 1, Total, Total + 1, Total ? Total - 1 : 0, Total / 2, 2,
                            4000000000U}));
      C.describe("getNConfigs " + std::to_string(N));
      auto R = CF::getNConfigs(*FM, N);
      if (!R) {
        C.require(Total == 0 && R.getError() == vs::UNSAT, "n-configs", "error for a valid model");
        break;
      }
      auto S = unique(C, R.extractValue(), "getNConfigs");
      C.eq(S.size(), std::min<size_t>(N, Total), "n-configs", "for n=" + std::to_string(N));
      for (auto &X : S) {
        C.require(Want.count(X), "n-configs-invalid", X);
      }
      break;
    }
    default: {
      C.describe("lazy iteration");
      auto It = CF::getConfigIterator(*FM);
      std::set<std::string> S;
      size_t Errors = 0;
      for (auto R : It) {
        if (!R) {
          C.require(Total == 0 && R.getError() == vs::UNSAT && ++Errors <= 1, "lazy",
                    "error while iterating");
          continue;
        }
        auto T = cfgStr(*R.extractValue());
        C.requireF(S.insert(T).second, "lazy-duplicate", [&] { return T; });
      }
      auto D = cmp(Want, S);
      C.requireF(D.empty(), "lazy", [&] { return D; });
    }
    }
  }
  auto D = diff(Before, fromFM(*FM));
  C.requireF(D.empty(), "model-changed", [&] { return D; });
  requireInvariants(C, *FM, "after queries");
}

// several iterators over the same model do not disturb each other
PROP(interleaved, 200, 3000) {
  GenOpts O = solverOpts(C);
  O.MaxFeatures = 6;
  Model M = genModel(C, O);
  C.describe(M.str());
  auto Want = expected(C, M);
  if (Want.empty() || Want.size() > 60) {
    C.discard();
  }
  auto FM = toFM(M);
  auto A = CF::getConfigIterator(*FM);
  auto B = CF::getConfigIterator(*FM);
  auto IA = A.begin(), IB = B.begin();
  std::set<std::string> SA, SB;
  auto Step = [&](auto &It, auto &End, std::set<std::string> &S) {
    if (It == End) {
      return;
    }
    auto R = *It;
    C.require(bool(R), "lazy", "error while iterating");
    auto T = cfgStr(*R.extractValue());
    C.requireF(S.insert(T).second, "lazy-duplicate", [&] { return T; });
    // looking twice gives the same configuration
    auto R2 = *It;
    C.require(R2 && cfgStr(*R2.extractValue()) == T, "lazy-unstable", T);
    ++It;
  };
  auto EA = A.end(), EB = B.end();
  std::string Sched;
  while (IA != EA || IB != EB) {
    bool First = IB == EB || (IA != EA && C.flip());
    Sched += First ? 'a' : 'b';
    First ? Step(IA, EA, SA) : Step(IB, EB, SB);
  }
  auto D = cmp(Want, SA) + cmp(Want, SB);
  C.requireF(D.empty(), "lazy", [&] { return D; });
  if (Want.size() >= 2) {
    C.nontrivial(M.str() + Sched);
  }
}
