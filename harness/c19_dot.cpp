// C19: the DOT export is well formed and shows the whole model.
#include "dotcheck.h"

#include "vara/Feature/FeatureModelTransaction.h"

#include "llvm/Support/GraphWriter.h"

using namespace ref;

static void check(pbt::Case &C, const Model &M, vf::FeatureModel &FM, const std::string &Title) {
  std::string T;
  {
    llvm::raw_string_ostream O(T);
    vf::FeatureModel *Ptr = &FM;
    llvm::WriteGraph(O, Ptr, false, Title);
    O.flush();
  }
  dot::checkText(C, M, FM, Title, T);
}

PROP(dot, 5000, 90000) {
  GenOpts O;
  O.MaxFeatures = static_cast<int>(C.sized(2, 12));
  O.Tails = true;
  O.MixedChildren = C.chance(1, 4);
  O.WeirdNames = C.flip();
  O.RootLocations = true;
  O.PartialLocations = C.flip();
  O.RootOrBase = C.flip();
  O.BigNumbers = C.flip();
  Model M = genModel(C, O);
  if (C.flip()) {
    M.Name = genText(C, 8);
  }
  std::string Title = C.chance(1, 3) ? "" : C.flip() ? "FeatureModel-" + M.Name : genText(C, 8);
  C.describe(M.str() + "\ntitle " + Title);
  auto FM = toFM(M);
  check(C, M, *FM, Title);
  bool Marked = false;
  for (auto &[N, X] : M.F) {
    Marked = Marked || (N + X.Out).find_first_of("<>&\"'{}|\\") != std::string::npos;
    for (auto &L : X.Locs) {
      Marked = Marked || L.Path.find_first_of("<>&\"'{}|\\") != std::string::npos;
    }
  }
  if (Marked) {
    C.tag("markup-characters");
  }
  if (!M.C.empty()) {
    C.tag("constraints");
  }
  if (M.F.size() >= 4 && (!M.G.empty() || !M.C.empty() || Marked)) {
    C.nontrivial(M.str() + Title);
  }
}

// the model of FM with the plain output strings
Model plain(vf::FeatureModel &FM) {
  Model M = fromFM(FM);
  for (auto &[N, X] : M.F) {
    X.Out = FM.getFeature(N)->getOutputString().str();
  }
  return M;
}

// after edits
PROP(edited, 1500, 20000) {
  GenOpts O;
  O.MaxFeatures = 8;
  O.WeirdNames = C.flip();
  Model M = genModel(C, O);
  auto FM = toFM(M);
  auto Clone = FM->clone();
  std::set<std::string> Leaves;
  for (auto &[N, X] : M.F) {
    if (N != M.Root && M.childrenOf(N).empty()) {
      Leaves.insert(N);
    }
  }
  C.describe(M.str());
  check(C, plain(*Clone), *Clone, "clone");
  if (!Leaves.empty()) {
    auto N = C.pick(std::vector<std::string>(Leaves.begin(), Leaves.end()));
    auto T = vf::FeatureModelCopyTransaction::openTransaction(*FM);
    vf::detail::FeatureVariantTy V = N;
    T.removeFeature(V);
    auto R = T.commit();
    if (R) {
      auto New = R.extractValue();
      check(C, plain(*New), *New, "");
    }
  }
  if (M.F.size() >= 4) {
    C.nontrivial(M.str());
  }
}
