// C09: edits through transactions keep the model well formed, take effect as
// documented, and refused edits have no effect.
#include "history.h"
#include "pbt.h"

using namespace hist;

static void same(pbt::Case &C, const Model &Sim, vf::FeatureModel &FM, const std::string &Ctx) {
  requireInvariants(C, FM, Ctx);
  auto D = diff(Sim, fromFM(FM));
  C.require(D.empty(), "wrong-model", D + " (" + Ctx + ")");
}

static void interesting(pbt::Case &C, size_t Applied, size_t Refused, const Model &M,
                        const std::string &Desc) {
  if (Applied >= 3 || (Applied >= 1 && Refused >= 1)) {
    C.nontrivial(M.str() + Desc);
  }
}

PROP(modify_history, 2500, 60000) {
  auto H = defaults();
  Model Sim = genModel(C, H.G);
  const Model M0 = Sim;
  C.describe(Sim.str());
  auto FM = toFM(Sim);
  same(C, Sim, *FM, "start");
  std::vector<std::string> Extra;
  std::string Desc;
  size_t Applied = 0, Refused = 0;
  for (int64_t N = C.range(1, 5); N > 0; --N) {
    auto T = vf::FeatureModelModifyTransaction::openTransaction(*FM);
    Objs P(*FM);
    // group ids of the simulation are matched by the parent's name
    auto Pt = pointers(Sim, false);
    Model Next = Sim;
    bool Failed = false;
    Codes Want;
    for (int64_t K = C.tailed(1, 6, 80, 60); K > 0; --K) {
      Edit O = genOp(C, Next, H, Pt, Extra);
      Desc += O.str() + "\n";
      C.describe(O.str());
      run(T, O, P);
      if (Failed) {
        continue;
      }
      std::set<std::string> Gone;
      Codes E = apply(Next, O, &Gone);
      if (!E.empty()) {
        Failed = true;
        Want = E;
        C.tag("refused:" + codes(E));
        ++Refused;
        continue;
      }
      ++Applied;
      Extra.insert(Extra.end(), Gone.begin(), Gone.end());
      update(Pt, Next, Gone);
    }
    C.note("commit");
    C.describe("commit");
    Desc += "commit\n";
    auto R = T.commit();
    if (Failed) {
      C.require(!R, "accepted", "the commit succeeded, expected error " + codes(Want));
      auto Code = R.getError();
      C.require(Want.count(Code), "error-code",
                "expected one of " + codes(Want) + " got " + std::to_string(Code));
    } else {
      C.require(static_cast<bool>(R), "refused", "a valid history was refused");
    }
    Sim = Next;
    same(C, Sim, *FM, "after commit");
  }
  interesting(C, Applied, Refused, M0, Desc);
}

PROP(copy_history, 2500, 60000) {
  auto H = defaults();
  Model Sim = genModel(C, H.G);
  const Model M0 = Sim;
  C.describe(Sim.str());
  auto FM = toFM(Sim);
  std::vector<std::string> Extra;
  std::string Desc;
  size_t Applied = 0, Refused = 0;
  for (int64_t N = C.range(1, 3); N > 0; --N) {
    auto T = vf::FeatureModelCopyTransaction::openTransaction(*FM);
    struct Guard {
      vf::FeatureModelCopyTransaction &T;
      ~Guard() { T.abort(); } // an open copy may not be destroyed
    } G{T};
    Objs P(*FM);
    auto Pt = pointers(Sim, true);
    std::map<std::string, vf::Feature *> Added;
    for (int64_t K = C.tailed(1, 8, 80, 60); K > 0; --K) {
      Edit O = genOp(C, Sim, H, Pt, Extra);
      Desc += O.str() + "\n";
      C.describe(O.str());
      C.note(O.str());
      auto R = run(T, O, P);
      std::set<std::string> Gone;
      Codes E = apply(Sim, O, &Gone);
      Extra.insert(Extra.end(), Gone.begin(), Gone.end());
      for (auto &X : Gone) {
        Added.erase(X);
      }
      if (E.empty()) {
        ++Applied;
        C.require(!R.Reports || R.Ok, "refused", "a valid edit was refused: " + O.str());
        if (O.Kind == K::ADD_FEATURE) {
          C.require(R.NewFeature && R.NewFeature->getName() == O.F.Name, "returned-feature",
                    O.str());
          Added[O.F.Name] = R.NewFeature;
        }
      } else {
        ++Refused;
        C.tag("refused:" + codes(E));
        if (R.Reports) {
          C.require(!R.Ok, "accepted", O.str() + " succeeded, expected error " + codes(E));
          C.require(E.count(R.Code), "error-code",
                    O.str() + ": expected one of " + codes(E) + " got " +
                        std::to_string(R.Code));
        }
      }
    }
    C.note("commit");
    auto R = T.commit();
    C.require(static_cast<bool>(R), "refused", "the commit was refused");
    auto FM2 = R.extractValue();
    C.require(FM2 != nullptr && FM2.get() != FM.get(), "no-new-model");
    same(C, Sim, *FM2, "copy");
    for (auto &[Nm, F] : Added) {
      C.require(FM2->getFeature(Nm) == F, "returned-feature",
                "the pointer returned for " + Nm + " is not the feature of the new model");
    }
    FM = std::move(FM2);
  }
  interesting(C, Applied, Refused, M0, Desc);
}

// the one-edit helper functions
PROP(helpers, 2000, 40000) {
  auto H = defaults();
  H.SetRoot = false;
  Model Sim = genModel(C, H.G);
  const Model M0 = Sim;
  C.describe(Sim.str());
  auto FM = toFM(Sim);
  std::vector<std::string> Extra;
  std::string Desc;
  size_t Applied = 0, Refused = 0;
  for (int64_t N = C.sized(1, 8); N > 0; --N) {
    Objs P(*FM);
    auto Pt = pointers(Sim, false);
    Edit O = genOp(C, Sim, H, Pt, Extra);
    auto FV = [&]() -> vf::detail::FeatureVariantTy {
      if (O.APtr) {
        return P.F.at(O.A);
      }
      return O.A;
    };
    auto *Parent = O.Kind == K::ADD_FEATURE && O.HasParent ? P.F.at(O.A) : nullptr;
    Model Next = Sim;
    std::set<std::string> Gone;
    bool Done = true;
    C.note(O.str());
    switch (O.Kind) {
    case K::ADD_FEATURE: {
      if (C.flip()) {
        vf::addFeature(*FM, makeFeature(O.F), Parent);
        break;
      }
      // several at once: they take effect up to the first that is refused
      std::vector<std::pair<std::unique_ptr<vf::Feature>, vf::Feature *>> V;
      bool Failed = false;
      V.emplace_back(makeFeature(O.F), Parent);
      Failed |= !apply(Next, O, &Gone).empty();
      for (int64_t K2 = C.range(0, 3); K2 > 0; --K2) {
        Edit O2 = O;
        O2.F = genFeat(C, Next, H.G);
        if (C.chance(1, 6)) {
          O2.F.Name = O.F.Name;
        }
        Desc += O2.str() + "\n";
        C.describe("with " + O2.str());
        V.emplace_back(makeFeature(O2.F), Parent);
        if (!Failed) {
          Failed |= !apply(Next, O2, &Gone).empty();
        }
      }
      vf::addFeatures(*FM, std::move(V));
      Done = false;
      break;
    }
    case K::REMOVE_FEATURE:
      vf::removeFeature(*FM, FV(), O.Rec);
      break;
    case K::ADD_GROUP:
      vf::addRelationship(*FM, FV(), O.Or ? RK::RK_OR : RK::RK_ALTERNATIVE);
      break;
    case K::REMOVE_GROUP:
      vf::removeRelationship(*FM, FV());
      break;
    case K::SET_COMMIT:
      vf::setCommit(*FM, O.T);
      break;
    default:
      continue;
    }
    Desc += O.str() + "\n";
    C.describe(O.str());
    if (Done) {
      (apply(Next, O, &Gone).empty() ? Applied : Refused) += 1;
    }
    Extra.insert(Extra.end(), Gone.begin(), Gone.end());
    Sim = Next;
    same(C, Sim, *FM, O.str());
  }
  interesting(C, Applied, Refused, M0, Desc);
}
