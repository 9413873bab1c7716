// C23: the incremental solver interface reports errors and stays sound.
#include "solverutil.h"

#include "vara/Solver/Z3Solver.h"

using namespace su;

namespace {
// What has been added so far: options and plain constraints over them. The
// tree rules are added as constraints, so no option has a parent here.
struct State {
  Model Now;
  std::set<std::string> Seen;
  bool Started = false;
  std::string Last;

  std::set<std::string> solutions(pbt::Case &C) const { return expected(C, Now, 20000); }
  void con(const E &X) { Now.C.push_back(Con{Cls::NONBOOL, X}); }
};

const char *code(vs::SolverErrorCode E) {
  switch (E) {
  case vs::NOT_IMPLEMENTED: return "NOT_IMPLEMENTED";
  case vs::NOT_SUPPORTED: return "NOT_SUPPORTED";
  case vs::UNSAT: return "UNSAT";
  case vs::ALREADY_PRESENT: return "ALREADY_PRESENT";
  case vs::NOT_ALL_CONSTRAINTS_PROCESSED: return "NOT_ALL_CONSTRAINTS_PROCESSED";
  case vs::PARENT_NOT_PRESENT: return "PARENT_NOT_PRESENT";
  case vs::ILLEGAL_STATE: return "ILLEGAL_STATE";
  }
  return "?";
}

template <class R> std::string res(R &&X) {
  return X ? "ok" : code(X.getError());
}

void expectOneOf(pbt::Case &C, const std::string &Got, std::set<std::string> Want,
                 const std::string &Ctx) {
  C.requireF(Want.count(Got), "result", [&] {
    std::string W;
    for (auto &X : Want) {
      W += X + " ";
    }
    return Ctx + ": expected " + W + "got " + Got;
  });
}
} // namespace

PROP(histories, 1600, 26000) {
  GenOpts O = solverOpts(C);
  O.MaxFeatures = 6;
  O.MixedChildren = false;
  O.Unknown = C.chance(1, 5);
  O.MaxConstraints = 4;
  Model M = genModel(C, O);
  auto FM = toFM(M);
  const vf::FeatureModel &CFM = *FM;
  C.describe(M.str());
  std::vector<std::string> Names;
  for (auto &N : M.topo()) {
    Names.push_back(N);
  }
  std::vector<vf::Relationship *> Groups;
  for (auto &R : CFM.relationships()) {
    Groups.push_back(R.get());
  }
  std::vector<std::pair<vf::Constraint *, size_t>> Cons;
  std::vector<const vf::FeatureModel::MixedConstraint *> Mixed;
  // constraints of the model in the order of M.C per class
  {
    std::vector<vf::Constraint *> B, N, X;
    for (const auto &K : CFM.booleanConstraints()) {
      B.push_back(K->constraint());
    }
    for (const auto &K : CFM.nonBooleanConstraints()) {
      N.push_back(K->constraint());
    }
    for (const auto &K : CFM.mixedConstraints()) {
      X.push_back(K->constraint());
    }
    size_t IB = 0, IN = 0, IX = 0;
    for (size_t I = 0; I < M.C.size(); ++I) {
      auto *K = M.C[I].C == Cls::BOOL ? B[IB++] : M.C[I].C == Cls::NONBOOL ? N[IN++] : X[IX++];
      Cons.emplace_back(K, I);
    }
  }
  auto Z3 = vs::Z3Solver::create();
  vs::Solver &S = *Z3;
  State T;
  auto Has = [&](const std::string &N) { return T.Now.F.count(N) > 0; };
  auto Declare = [&](const std::string &N, const Feat &X) {
    Feat D = X;
    D.Name = N;
    D.Parent = "";
    D.Group = -1;
    D.Opt = true;
    if (D.Kind != FK::NUM) {
      D.Kind = FK::BIN;
    }
    T.Now.F[N] = D;
  };
  // X if P is selected, or only if (Only); numeric options always have a value
  auto Below = [&](const std::string &P, const E &X, bool Only) {
    if (M.F[P].Kind == FK::NUM) {
      return Only ? bin(Op::OR, X, un(Op::NOT, X)) : X;
    }
    return Only ? bin(Op::IMPL, X, feat(P)) : bin(Op::IMPL, feat(P), X);
  };
  size_t NextInOrder = 0;
  int Accepted = 0, Refused = 0;
  int64_t Len = C.sized(4, 30);
  for (int64_t Step = 0; Step < Len; ++Step) {
    switch (C.weighted({10, 3, 3, 3, 6, 4, 5, 2, 1})) {
    case 0: { // a feature of the model
      if (T.Started) {
        break;
      }
      std::string N = C.chance(2, 3) && NextInOrder < Names.size() ? Names[NextInOrder++]
                                                                   : C.pick(Names);
      const Feat &X = M.F[N];
      bool Alt = X.Group >= 0 ? !C.chance(1, 8) : C.chance(1, 8);
      C.describe("addFeature(" + N + (Alt ? ", in group)" : ")"));
      std::set<std::string> Want;
      if (!X.Parent.empty() && !Has(X.Parent)) {
        Want.insert("PARENT_NOT_PRESENT");
      }
      if (Has(N)) {
        Want.insert("ALREADY_PRESENT");
      }
      if (X.Kind == FK::UNKNOWN) {
        Want.insert("NOT_SUPPORTED");
      }
      std::string R = res(S.addFeature(*FM->getFeature(N), Alt));
      if (!Want.empty()) {
        expectOneOf(C, R, Want, "addFeature " + N);
        ++Refused;
        break;
      }
      expectOneOf(C, R, {"ok"}, "addFeature " + N);
      ++Accepted;
      Declare(N, X);
      if (X.Kind == FK::ROOT) {
        T.con(feat(N));
      } else if (X.Kind == FK::BIN) {
        T.con(Below(X.Parent, feat(N), true));
        if (!Alt && !X.Opt) {
          T.con(Below(X.Parent, feat(N), false));
        }
      }
      break;
    }
    case 1: { // a free boolean option
      if (T.Started) {
        break;
      }
      std::string N = C.flip() ? "free" + std::to_string(C.range(0, 1)) : C.pick(Names);
      if (M.F.count(N) && M.F[N].Kind == FK::NUM) {
        break;
      }
      C.describe("addFeature(\"" + N + "\")");
      expectOneOf(C, res(S.addFeature(N)), {Has(N) ? "ALREADY_PRESENT" : "ok"}, N);
      if (!Has(N)) {
        Declare(N, Feat{N, FK::BIN});
        ++Accepted;
      } else {
        ++Refused;
      }
      break;
    }
    case 2: { // a free numeric option
      if (T.Started) {
        break;
      }
      std::string N = C.flip() ? "num" + std::to_string(C.range(0, 1)) : C.pick(Names);
      if (M.F.count(N) && M.F[N].Kind != FK::NUM) {
        break;
      }
      Feat X;
      X.Kind = FK::NUM;
      for (int64_t K = C.range(0, 3); K > 0; --K) {
        X.Vals.push_back(C.range(-3, 3));
      }
      std::string D;
      for (auto V : X.Vals) {
        D += " " + std::to_string(V);
      }
      C.describe("addFeature(\"" + N + "\"," + D + ")");
      expectOneOf(C, res(S.addFeature(N, X.Vals)), {Has(N) ? "ALREADY_PRESENT" : "ok"}, N);
      if (!Has(N)) {
        Declare(N, X);
        ++Accepted;
      } else {
        ++Refused;
      }
      break;
    }
    case 3: { // a group
      if (Groups.empty()) {
        break;
      }
      auto *R = C.pick(Groups);
      auto *P = llvm::cast<vf::Feature>(R->getParent());
      std::vector<std::string> Ms;
      bool All = Has(P->getName().str()), Bad = false;
      for (auto *K : R->children()) {
        Ms.push_back(llvm::cast<vf::Feature>(K)->getName().str());
        All &= Has(Ms.back());
        Bad |= M.F[Ms.back()].Kind == FK::UNKNOWN;
      }
      if (Ms.empty()) {
        break;
      }
      std::sort(Ms.begin(), Ms.end());
      C.describe("addRelationship of " + P->getName().str());
      std::string G = res(S.addRelationship(*R));
      if (!All) {
        C.require(G != "ok", "result", "a group with an option that is not present is accepted");
        ++Refused;
        break;
      }
      expectOneOf(C, G, {"ok"}, "addRelationship");
      ++Accepted;
      E Or = feat(Ms[0]);
      for (size_t I = 1; I < Ms.size(); ++I) {
        Or = bin(Op::OR, Or, feat(Ms[I]));
      }
      T.con(Below(P->getName().str(), Or, false));
      if (R->getKind() == vf::Relationship::RelationshipKind::RK_ALTERNATIVE) {
        for (size_t I = 0; I < Ms.size(); ++I) {
          for (size_t J = I + 1; J < Ms.size(); ++J) {
            T.con(Below(P->getName().str(), bin(Op::EXCL, feat(Ms[I]), feat(Ms[J])), false));
          }
        }
      }
      break;
    }
    case 4: { // a constraint
      if (Cons.empty()) {
        break;
      }
      auto [K, I] = C.pick(Cons);
      const Con &X = M.C[I];
      C.describe("addConstraint " + X.str());
      std::set<std::string> Fs;
      featuresOf(X.X, Fs);
      bool All = true;
      for (auto &N : Fs) {
        All &= Has(N);
      }
      std::string G =
          X.C == Cls::MIXED
              ? res(S.addMixedConstraint(
                    *K,
                    X.Neg ? vf::FeatureModel::MixedConstraint::ExprKind::NEG
                          : vf::FeatureModel::MixedConstraint::ExprKind::POS,
                    X.ReqAll ? vf::FeatureModel::MixedConstraint::Req::ALL
                             : vf::FeatureModel::MixedConstraint::Req::NONE))
              : res(S.addConstraint(*K));
      if (!All) {
        C.require(G != "ok", "result",
                  "a constraint over an option that is not present is accepted");
        ++Refused;
        break;
      }
      expectOneOf(C, G, {"ok"}, "addConstraint");
      ++Accepted;
      T.Now.C.push_back(X);
      break;
    }
    case 5: {
      C.describe("hasValidConfigurations");
      auto R = S.hasValidConfigurations();
      if (T.Started) {
        expectOneOf(C, res(R), {"ILLEGAL_STATE"}, "hasValidConfigurations");
        break;
      }
      C.require(bool(R), "result", "hasValidConfigurations failed");
      C.eq(R.extractValue(), !T.solutions(C).empty(), "satisfiability");
      break;
    }
    case 6:
    case 7: {
      bool Next = C.flip() || !T.Started;
      if (!T.Started && Step < Len / 2 && !C.chance(1, 4)) {
        break; // mostly add first
      }
      if (!Next) {
        C.describe("getCurrentConfiguration");
        auto R = S.getCurrentConfiguration();
        C.require(bool(R), "result", "no current configuration");
        C.eq(cfgStr(*R.extractValue()), T.Last, "current-changed");
        break;
      }
      bool Cur = !T.Started && C.flip();
      int64_t Times = C.range(1, 6);
      for (int64_t K = 0; K < Times; ++K) {
        C.describe(Cur ? "getCurrentConfiguration" : "getNextConfiguration");
        auto Sol = T.solutions(C);
        auto R = Cur ? S.getCurrentConfiguration() : S.getNextConfiguration();
        std::set<std::string> Left;
        std::set_difference(Sol.begin(), Sol.end(), T.Seen.begin(), T.Seen.end(),
                            std::inserter(Left, Left.end()));
        if (Left.empty()) {
          expectOneOf(C, res(R), {"UNSAT"}, "next configuration");
          C.tag("exhausted");
          break;
        }
        C.require(bool(R), "result", "no configuration although some are left");
        auto X = cfgStr(*R.extractValue());
        C.requireF(Left.count(X), "solution", [&] {
          return X + (T.Seen.count(X) ? " is repeated" : " is not a solution");
        });
        T.Seen.insert(X);
        T.Last = X;
        T.Started = true;
        Cur = false;
      }
      break;
    }
    default:
      C.describe("removeFeature");
      expectOneOf(C, res(S.removeFeature(*FM->getRoot())), {"NOT_SUPPORTED"}, "removeFeature");
    }
  }
  if (Accepted >= 3 && (T.Started || Refused)) {
    C.nontrivial(C.Desc);
  }
  C.tag(T.Started ? "enumerated" : "not-enumerated");
  if (Refused) {
    C.tag("refusals");
  }
}

// features that are in no model
PROP(detached, 100, 1000) {
  auto S = vs::Z3Solver::create();
  vf::BinaryFeature A("A", C.flip());
  vf::NumericFeature N("N", std::vector<int64_t>{1, 2});
  vf::Feature U("U");
  std::set<std::string> Want{""};
  std::set<std::string> Have;
  for (int64_t K = C.range(1, 5); K > 0; --K) {
    vf::Feature *F = C.pick<vf::Feature *>({&A, &N, &U});
    C.describe("add " + F->getName().str());
    std::string R = res(S->addFeature(*F, C.flip()));
    if (F == &U) {
      expectOneOf(C, R, {"NOT_SUPPORTED"}, "unknown kind");
    } else {
      expectOneOf(C, R, {Have.insert(F->getName().str()).second ? "ok" : "ALREADY_PRESENT"},
                  "feature without parent");
    }
  }
  if (Have.count("A")) {
    Want = {"A=false;", "A=true;"};
  }
  if (Have.count("N")) {
    std::set<std::string> W;
    for (auto &X : Want) {
      W.insert(X + "N=1;");
      W.insert(X + "N=2;");
    }
    Want = W;
  }
  std::set<std::string> Got;
  for (auto R = S->getNextConfiguration(); R; R = S->getNextConfiguration()) {
    C.require(Got.insert(cfgStr(*R.extractValue())).second, "duplicate");
    C.require(Got.size() < 10, "too-many");
  }
  auto D = cmp(Want, Got);
  C.requireF(D.empty(), "solutions", [&] { return D; });
  C.nontrivial(C.Desc);
}
