// C26: the consistency rules accept exactly the models they describe, and no
// commit succeeds on a model that breaks one.
#include "history.h"
#include "refmodel.h"

#include "vara/Feature/FeatureModelTransaction.h"

using namespace ref;
using vf::Feature;
using vf::FeatureModel;
using vf::FeatureTreeNode;

namespace {

// Edits below the level of transactions, as the test suite of the library uses
// them.
struct Raw : protected vf::detail::FeatureModelModification {
  vara::Result<vf::FTErrorCode> exec(FeatureModel &) override { return {vf::ERROR}; }
  static void setParent(FeatureTreeNode &N, FeatureTreeNode &P) { FeatureModelModification::setParent(N, P); }
  static void removeParent(FeatureTreeNode &N) { FeatureModelModification::removeParent(N); }
  static void addEdge(FeatureTreeNode &A, FeatureTreeNode &B) { FeatureModelModification::addEdge(A, B); }
  static void removeEdge(FeatureTreeNode &A, FeatureTreeNode &B) { FeatureModelModification::removeEdge(A, B); }
  static Feature *add(FeatureModel &FM, std::unique_ptr<Feature> F) {
    return FeatureModelModification::addFeature(FM, std::move(F));
  }
  static void remove(FeatureModel &FM, Feature &F) { FeatureModelModification::removeFeature(FM, F); }
};

// What is known about the model, kept next to it.
struct Shadow {
  struct Node {
    std::string Parent; // key, "" for none
    std::set<std::string> Children;
    bool IsFeature = true, IsRoot = false;
  };
  std::map<std::string, Node> N; // features by name, groups as "<parent>"
  bool HasRoot = true;

  bool hasParentFeature(const std::string &K) const {
    std::string P = N.at(K).Parent;
    while (!P.empty()) {
      if (N.at(P).IsFeature) {
        return true;
      }
      P = N.at(P).Parent;
    }
    return false;
  }
  bool rule(int R) const {
    switch (R) {
    case 0: { // exactly one root
      int Roots = 0;
      for (auto &[K, X] : N) {
        Roots += X.IsFeature && X.IsRoot;
      }
      return HasRoot && Roots == 1;
    }
    case 1: // every other feature has a parent
      for (auto &[K, X] : N) {
        if (X.IsFeature && !X.IsRoot && !hasParentFeature(K)) {
          return false;
        }
      }
      return true;
    default: // and is one of its children
      for (auto &[K, X] : N) {
        if (X.IsFeature && !X.IsRoot && (X.Parent.empty() || !N.at(X.Parent).Children.count(K))) {
          return false;
        }
      }
      return true;
    }
  }
};

template <typename... R>
bool ask(pbt::Case &C, const FeatureModel &FM, bool Want, const char *Which) {
  auto E = vf::FeatureModelConsistencyChecker<R...>::isFeatureModelValid(FM);
  bool Got = static_cast<bool>(E);
  C.require(Got == Want, Got ? "accepted" : "refused", Which);
  if (!Got) {
    C.require(E.getError() == vf::INCONSISTENT, "error-code", Which);
  }
  return Got;
}

} // namespace

PROP(rules, 6000, 150000) {
  GenOpts O;
  O.MaxFeatures = static_cast<int>(C.sized(1, 12));
  O.Tails = true;
  O.NumericAnywhere = C.flip();
  O.MixedChildren = C.flip();
  O.Unknown = C.chance(1, 4);
  O.WeirdNames = C.chance(1, 4);
  Model M = genModel(C, O);
  auto FM = toFM(M);
  Shadow S;
  std::map<std::string, FeatureTreeNode *> At;
  for (auto &[N, X] : M.F) {
    At[N] = FM->getFeature(N);
    C.require(At[N] != nullptr, "built", N);
    S.N[N].IsRoot = N == M.Root;
  }
  for (auto &[Id, G] : M.G) {
    std::string K = "<" + G.Parent + ">";
    auto *F = FM->getFeature(M.members(Id).at(0));
    At[K] = F->getParent();
    S.N[K].IsFeature = false;
    S.N[K].Parent = G.Parent;
    S.N[G.Parent].Children.insert(K);
  }
  for (auto &[N, X] : M.F) {
    if (N == M.Root) {
      continue;
    }
    std::string P = X.Group >= 0 ? "<" + M.G.at(X.Group).Parent + ">" : X.Parent;
    S.N[N].Parent = P;
    S.N[P].Children.insert(N);
  }
  // opened while the model is consistent, which is its precondition
  auto T = vf::FeatureModelModifyTransaction::openTransaction(*FM);
  std::string D = M.str();
  auto Keys = [&](auto &&Pred) {
    std::vector<std::string> R;
    for (auto &[K, X] : S.N) {
      if (Pred(K, X)) {
        R.push_back(K);
      }
    }
    return R;
  };
  auto Below = [&](const std::string &Anc, std::string K) { // K at or below Anc by parents
    for (; !K.empty(); K = S.N[K].Parent) {
      if (K == Anc) {
        return true;
      }
    }
    return false;
  };
  int Steps = C.weighted({1, 4, 2, 1});
  int Done = 0;
  for (int I = 0; I < Steps; ++I) {
    auto NonRoot = Keys([](auto &, auto &X) { return !X.IsRoot; });
    switch (C.draw(6)) {
    case 0: { // forget the parent
      auto L = Keys([](auto &, auto &X) { return !X.Parent.empty(); });
      if (L.empty()) {
        break;
      }
      auto K = C.pick(L);
      D += "\nremove parent of " + K;
      Raw::removeParent(*At[K]);
      S.N[K].Parent.clear();
      ++Done;
      break;
    }
    case 1: { // forget a child
      auto L = Keys([](auto &, auto &X) { return !X.Children.empty(); });
      if (L.empty()) {
        break;
      }
      auto P = C.pick(L);
      auto K = C.pick(std::vector<std::string>(S.N[P].Children.begin(), S.N[P].Children.end()));
      D += "\nremove edge " + P + " to " + K;
      Raw::removeEdge(*At[P], *At[K]);
      S.N[P].Children.erase(K);
      ++Done;
      break;
    }
    case 2: { // another parent, which does not know
      if (NonRoot.empty()) {
        break;
      }
      auto K = C.pick(NonRoot);
      auto L = Keys([&](auto &X, auto &) { return !Below(K, X); });
      if (L.empty()) {
        break;
      }
      auto P = C.pick(L);
      D += "\nset parent of " + K + " to " + P;
      Raw::setParent(*At[K], *At[P]);
      S.N[K].Parent = P;
      ++Done;
      break;
    }
    case 3: { // one more edge
      if (NonRoot.empty()) {
        break;
      }
      auto K = C.pick(NonRoot);
      auto P = C.pick(Keys([](auto &, auto &) { return true; }));
      if (P == K) {
        break;
      }
      D += "\nadd edge " + P + " to " + K;
      Raw::addEdge(*At[P], *At[K]);
      S.N[P].Children.insert(K);
      ++Done;
      break;
    }
    case 4: { // one more feature
      bool Root = C.flip();
      std::string K = "added" + std::to_string(I);
      std::unique_ptr<Feature> F;
      if (Root) {
        F = std::make_unique<vf::RootFeature>(K);
      } else {
        F = std::make_unique<vf::BinaryFeature>(K);
      }
      D += std::string("\nadd ") + (Root ? "root " : "feature ") + K;
      At[K] = Raw::add(*FM, std::move(F));
      C.require(At[K] != nullptr, "added", K);
      S.N[K].IsRoot = Root;
      ++Done;
      break;
    }
    case 5: { // the root goes away
      if (!S.HasRoot || !C.chance(1, 2)) {
        break;
      }
      D += "\nremove the root";
      for (auto &[K, X] : S.N) {
        if (X.Parent == M.Root) {
          Raw::removeParent(*At[K]);
          X.Parent.clear();
        }
        if (K != M.Root && X.Children.count(M.Root)) {
          Raw::removeEdge(*At[K], *At[M.Root]);
          X.Children.erase(M.Root);
        }
      }
      while (!S.N[M.Root].Children.empty()) {
        auto K = *S.N[M.Root].Children.begin();
        Raw::removeEdge(*At[M.Root], *At[K]);
        S.N[M.Root].Children.erase(K);
      }
      Raw::remove(*FM, *FM->getRoot());
      S.N.erase(M.Root);
      At.erase(M.Root);
      S.HasRoot = false;
      ++Done;
      break;
    }
    default: { // a consistent change: move a leaf
      auto L = Keys([](auto &, auto &X) { return X.IsFeature && !X.IsRoot && X.Children.empty() && !X.Parent.empty(); });
      if (L.empty()) {
        break;
      }
      auto K = C.pick(L);
      auto P = C.pick(Keys([&](auto &X, auto &) { return !Below(K, X); }));
      D += "\nmove " + K + " to " + P;
      Raw::removeEdge(*At[S.N[K].Parent], *At[K]);
      S.N[S.N[K].Parent].Children.erase(K);
      Raw::addEdge(*At[P], *At[K]);
      Raw::setParent(*At[K], *At[P]);
      S.N[P].Children.insert(K);
      S.N[K].Parent = P;
      break;
    }
    }
  }
  C.describe(D);
  bool R0 = S.rule(0), R1 = S.rule(1), R2 = S.rule(2);
  using A = vf::ExactlyOneRootNode;
  using B = vf::EveryFeatureRequiresParent;
  using K = vf::CheckFeatureParentChildRelationShip;
  ask<>(C, *FM, true, "no rule");
  ask<A>(C, *FM, R0, "one root");
  ask<B>(C, *FM, R1, "parents");
  ask<K>(C, *FM, R2, "children");
  ask<A, B>(C, *FM, R0 && R1, "one root, parents");
  ask<B, A>(C, *FM, R0 && R1, "parents, one root");
  ask<A, K>(C, *FM, R0 && R2, "one root, children");
  ask<K, B>(C, *FM, R1 && R2, "children, parents");
  ask<A, B, K>(C, *FM, R0 && R1 && R2, "all");
  ask<K, B, A>(C, *FM, R0 && R1 && R2, "all, in reverse");
  // asking changed nothing
  size_t Features = 0;
  for (auto &[N, X] : S.N) {
    Features += X.IsFeature;
    C.require(At[N]->getParent() == (X.Parent.empty() ? nullptr : At[X.Parent]), "changed", N);
    std::set<FeatureTreeNode *> Want, Got(At[N]->begin(), At[N]->end());
    for (auto &Ch : X.Children) {
      Want.insert(At[Ch]);
    }
    C.require(Want == Got, "changed", N);
  }
  C.eq(FM->size(), static_cast<unsigned>(Features), "changed");
  // a commit succeeds only on a consistent model
  bool All = R0 && R1 && R2;
  bool Named = C.flip();
  if (Named) {
    T.setName("renamed");
  }
  auto E = T.commit();
  C.require(static_cast<bool>(E) == All, All ? "commit-refused" : "commit-accepted");
  if (!E) {
    C.require(E.getError() == vf::INCONSISTENT, "commit-code");
  }
  C.eq(FM->getName().str(), Named ? std::string("renamed") : M.Name, "name");
  auto Again = T.commit();
  C.require(!Again && Again.getError() == vf::ABORTED, "second-commit");
  C.tag(All ? "consistent" : "inconsistent");
  if (!R0) {
    C.tag("roots");
  }
  if (!R1) {
    C.tag("parents");
  }
  if (!R2) {
    C.tag("children");
  }
  if (M.F.size() >= 3 && (Done || S.N.size() >= 5)) {
    C.nontrivial(D);
  }
}
