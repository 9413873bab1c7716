// C11: a clone is equal to its original and shares nothing with it.
#include "history.h"
#include "pbt.h"

using namespace hist;

static void same(pbt::Case &C, const Model &Sim, vf::FeatureModel &FM, const char *Kind,
                 const std::string &Ctx) {
  requireInvariants(C, FM, Ctx);
  auto D = diff(Sim, fromFM(FM));
  C.require(D.empty(), Kind, D + " (" + Ctx + ")");
}

static void collect(vf::Constraint *X, std::set<const void *> &Out) {
  Out.insert(X);
  if (auto *B = dynamic_cast<vf::BinaryConstraint *>(X)) {
    collect(B->getLeftOperand(), Out);
    collect(B->getRightOperand(), Out);
  } else if (auto *U = dynamic_cast<vf::UnaryConstraint *>(X)) {
    collect(U->getOperand(), Out);
  }
}

static std::set<const void *> objects(const vf::FeatureModel &FM) {
  std::set<const void *> S;
  for (auto *F : FM.unorderedFeatures()) {
    S.insert(F);
    if (auto *N = llvm::dyn_cast<vf::NumericFeature>(F)) {
      if (N->getStepFunction()) {
        S.insert(N->getStepFunction());
      }
    }
    for (auto &L : F->getLocations()) {
      S.insert(&L);
    }
  }
  for (const auto &R : FM.relationships()) {
    S.insert(R.get());
  }
  for (const auto &X : FM.booleanConstraints()) {
    collect(X->constraint(), S);
  }
  for (const auto &X : FM.nonBooleanConstraints()) {
    collect(X->constraint(), S);
  }
  for (const auto &X : FM.mixedConstraints()) {
    collect(X->constraint(), S);
  }
  return S;
}

PROP(clone_equal, 3000, 80000) {
  auto H = defaults();
  H.G.MaxFeatures = 14;
  H.G.PartialLocations = true;
  H.G.WeirdNames = C.chance(1, 3);
  Model M = genModel(C, H.G);
  C.describe(M.str());
  auto FM = toFM(M);
  if (C.chance(1, 4)) {
    C.tag("edited-before");
    for (int64_t K = C.range(1, 4); K > 0; --K) {
      Edit O = genOp(C, M, H, Ptrs{}, {});
      C.describe("before: " + O.str());
      auto T = vf::FeatureModelModifyTransaction::openTransaction(*FM);
      run(T, O, Objs(*FM));
      T.commit();
      apply(M, O);
    }
  }
  same(C, M, *FM, "original", "before the clone");
  auto Cl = FM->clone();
  C.require(Cl != nullptr, "no-clone");
  same(C, M, *FM, "original-changed", "after the clone");
  same(C, M, *Cl, "clone-differs", "the clone");
  auto A = objects(*FM), B = objects(*Cl);
  for (auto *X : A) {
    C.require(!B.count(X), "shared-object", "original and clone share an object");
  }
  auto Cl2 = Cl->clone();
  same(C, M, *Cl2, "clone-differs", "the clone of the clone");
  for (auto &[N, X] : M.F) {
    C.tag(X.Kind == FK::NUM ? (X.IsRange ? "range" : "values")
                            : X.Kind == FK::UNKNOWN ? "unknown" : "bool");
    if (X.Group >= 0) {
      C.tag("group");
    }
  }
  if (M.F.size() >= 4) {
    C.nontrivial(M.str());
  }
}

PROP(clone_independent, 2000, 50000) {
  auto H = defaults();
  Model M = genModel(C, H.G);
  C.describe(M.str());
  struct One {
    Model S;
    std::unique_ptr<vf::FeatureModel> FM;
  };
  std::vector<One> Ms;
  Ms.push_back({M, toFM(M)});
  std::string Desc = M.str();
  size_t Edits = 0;
  for (int64_t N = C.tailed(2, 15, 100, 60); N > 0; --N) {
    size_t I = C.draw(Ms.size() - 1);
    switch (C.weighted({6, 2, 1, 2})) {
    case 0: {
      auto &X = Ms[I];
      auto Pt = pointers(X.S, false);
      Edit O = genOp(C, X.S, H, Pt, {});
      C.describe(std::to_string(I) + ": " + O.str());
      Desc += std::to_string(I) + O.str() + "\n";
      auto T = vf::FeatureModelModifyTransaction::openTransaction(*X.FM);
      run(T, O, Objs(*X.FM));
      T.commit();
      apply(X.S, O);
      ++Edits;
      break;
    }
    case 1:
      if (Ms.size() < 4) {
        C.describe("clone of " + std::to_string(I));
        Desc += "clone" + std::to_string(I);
        Model S = Ms[I].S;
        auto Cl = Ms[I].FM->clone();
        Ms.push_back({S, std::move(Cl)});
      }
      break;
    case 2:
      if (Ms.size() > 1) {
        C.describe("destroy " + std::to_string(I));
        Desc += "destroy" + std::to_string(I);
        Ms.erase(Ms.begin() + static_cast<long>(I));
        C.tag("destroyed");
      }
      break;
    default: {
      // edits that need no transaction
      auto &X = Ms[I];
      std::vector<std::string> Names;
      for (auto &[K, V] : X.S.F) {
        Names.push_back(K);
      }
      auto Nm = C.pick(Names);
      Loc L = genLoc(C);
      C.describe(std::to_string(I) + ": add location to " + Nm);
      Desc += std::to_string(I) + Nm;
      X.FM->getFeature(Nm)->addLocation(toFSR(L));
      X.S.F[Nm].Locs.push_back(L);
      if (C.flip()) {
        auto It = X.FM->getFeature(Nm)->getLocationsBegin();
        It->setPath("changed");
        X.S.F[Nm].Locs[0].Path = "changed";
      }
      ++Edits;
    }
    }
    for (size_t K = 0; K < Ms.size(); ++K) {
      same(C, Ms[K].S, *Ms[K].FM, "not-independent", "model " + std::to_string(K));
    }
  }
  if (Edits >= 2 && M.F.size() >= 2) {
    C.nontrivial(Desc);
  }
}
