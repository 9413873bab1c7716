// C14: one well-defined depth-first order, name lookup, tree accessors.
#include "history.h"
#include "pbt.h"

#include "vara/Feature/FeatureModelBuilder.h"
#include "vara/Feature/OrderedFeatureVector.h"

using namespace hist;
using vf::deprecated::OrderedFeatureVector;

static std::vector<std::string> kids(const Model &M, const std::string &P) {
  auto V = M.childrenOf(P);
  std::sort(V.begin(), V.end(), [](const std::string &A, const std::string &B) {
    return std::make_pair(lower(A), A) < std::make_pair(lower(B), B);
  });
  return V;
}

static void preorder(const Model &M, const std::string &N, std::vector<std::string> &Out) {
  Out.push_back(N);
  for (auto &K : kids(M, N)) {
    preorder(M, K, Out);
  }
}

static std::string join(const std::vector<std::string> &V) {
  std::string S;
  for (auto &X : V) {
    S += X + " ";
  }
  return S;
}

// names that sort differently with and without case, prefixes, and names that
// differ in case only
static Model genTree(pbt::Case &C) {
  auto H = defaults();
  H.G.MaxFeatures = 16;
  H.G.Tails = C.chance(1, 2);
  if (C.chance(1, 30)) {
    H.G.MaxFeatures = 60;
    H.G.Wide = C.flip();
    H.G.Deep = !H.G.Wide;
  }
  H.G.MaxConstraints = 1;
  H.G.Locations = false;
  H.G.WeirdNames = C.chance(1, 4);
  Model M = genModel(C, H.G);
  if (C.chance(1, 2)) {
    std::vector<std::string> Pool{"a", "A", "b", "B", "aa", "aA", "Ab", "AB", "a_", "A_", "_", "Z",
                                  "a1", "a10", "A2", "a2", "zz", "Zz"};
    auto Perm = C.permutation(Pool.size());
    Model R = M;
    R.C.clear();
    R.F.clear();
    std::map<std::string, std::string> To;
    size_t K = 0;
    for (auto &N : M.topo()) {
      To[N] = N == M.Root || K >= Pool.size() ? N + (N == M.Root ? "" : "_x") : Pool[Perm[K++]];
      if (To[N] != N && To[N] == M.Root) {
        To[N] += "_r";
      }
    }
    std::set<std::string> Used;
    for (auto &[N, X] : M.F) {
      Feat Y = X;
      Y.Name = To[N];
      Y.Parent = X.Parent.empty() ? "" : To[X.Parent];
      R.F[Y.Name] = Y;
    }
    for (auto &[I, G] : R.G) {
      G.Parent = To[G.Parent];
    }
    if (R.F.size() == M.F.size()) {
      M = R;
    }
  }
  return M;
}

static void check(pbt::Case &C, const Model &M, vf::FeatureModel &FM) {
  const vf::FeatureModel &CFM = FM;
  std::vector<std::string> Exp;
  preorder(M, M.Root, Exp);
  std::vector<vf::Feature *> Fs;
  std::vector<std::string> A;
  for (auto *F : CFM.features()) {
    C.require(A.size() <= Exp.size(), "order", "too many features are visited");
    A.push_back(F->getName().str());
    Fs.push_back(F);
  }
  C.require(A == Exp, "order", "expected " + join(Exp) + "got " + join(A));
  std::vector<std::string> B;
  for (auto It = CFM.begin(); It != CFM.end(); It++) {
    B.push_back((*It)->getName().str());
    C.require(B.size() <= Exp.size(), "order");
  }
  C.require(B == Exp, "order-const", join(B));
  B.clear();
  for (auto *F : CFM.features()) {
    B.push_back(F->getName().str());
  }
  C.require(B == Exp, "order-const", join(B));
  {
    // both increments
    auto It = CFM.begin();
    if (Exp.size() > 1) {
      auto Old = It++;
      C.eq((*Old)->getName().str(), Exp[0], "post-increment");
      C.eq((*It)->getName().str(), Exp[1], "post-increment");
      C.require(Old != It && !(Old == It), "iterator-equality");
    }
    // iterators are equal if they are at the same feature, copies are independent
    std::vector<vf::FeatureModel::const_ordered_feature_iterator> Its;
    Its.reserve(Exp.size());
    for (auto I = CFM.begin(); I != CFM.end() && Its.size() < Exp.size(); ++I) {
      Its.push_back(I);
    }
    C.eq(Its.size(), Exp.size(), "iterator-equality");
    for (size_t I = 0; I < Its.size(); ++I) {
      C.eq((*Its[I])->getName().str(), Exp[I], "iterator-copy");
      for (size_t J = 0; J < Its.size(); ++J) {
        C.require((Its[I] == Its[J]) == (I == J) && (Its[I] != Its[J]) == (I != J),
                  "iterator-equality", Exp[I] + " and " + Exp[J]);
      }
      C.require(Its[I] != CFM.end(), "iterator-equality", Exp[I]);
    }
    C.require(CFM.begin() == CFM.begin() && CFM.end() == CFM.end() && CFM.begin() != CFM.end(),
              "iterator-equality");
  }
  C.eq(FM.size(), Exp.size(), "size");
  std::multiset<std::string> U1, U2, UE(Exp.begin(), Exp.end());
  for (auto *F : CFM.unorderedFeatures()) {
    U1.insert(F->getName().str());
  }
  for (auto It = CFM.unorderedFeatures().begin(); It != CFM.unorderedFeatures().end(); It++) {
    U2.insert((*It)->getName().str());
  }
  C.require(U1 == UE && U2 == UE, "unordered-view");
  // operator< agrees with the order
  for (size_t I = 0; I < Fs.size(); ++I) {
    for (size_t J = 0; J < Fs.size(); ++J) {
      bool Less = *Fs[I] < *Fs[J];
      C.require(Less == (I < J), "comparison", Exp[I] + " < " + Exp[J] + " is " +
                                                   (Less ? "true" : "false"));
      bool Greater = *Fs[I] > *Fs[J];
      C.require(Greater == (I > J), "comparison", Exp[I] + " > " + Exp[J]);
      // features are the same if their names are, ignoring case
      bool Same = lower(Exp[I]) == lower(Exp[J]);
      C.require((*Fs[I] == *Fs[J]) == Same && (*Fs[I] != *Fs[J]) == !Same, "equality", Exp[I] + " == " + Exp[J]);
      C.require(!Same || Fs[I]->hash() == Fs[J]->hash(), "hash", Exp[I] + " and " + Exp[J]);
    }
  }
  // lookup
  for (auto &N : Exp) {
    auto *F = FM.getFeature(N);
    C.require(F && F->getName() == N && CFM.getFeature(N) == F, "lookup", N);
    for (auto &K : {N + "x", lower(N), N.substr(1), N + " "}) {
      auto *O = FM.getFeature(K);
      C.require(M.F.count(K) ? O && O->getName() == K : O == nullptr, "lookup", K);
    }
  }
  // accessors
  for (auto &[N, X] : M.F) {
    auto *F = FM.getFeature(N);
    auto *P = F->getParentFeature();
    C.require(X.Parent.empty() ? !P : P && P->getName() == X.Parent, "parent-feature", N);
    std::set<std::string> All, Direct, EAll, EDirect;
    for (auto *K : F->getChildren<vf::Feature>()) {
      All.insert(K->getName().str());
    }
    for (auto *K : F->getChildren<vf::Feature>(1)) {
      Direct.insert(K->getName().str());
    }
    for (auto &K : M.childrenOf(N)) {
      EAll.insert(K);
      if (M.F.at(K).Group < 0) {
        EDirect.insert(K);
      }
    }
    C.require(All == EAll && Direct == EDirect, "children", N);
    auto Rs = F->getChildren<vf::Relationship>(1);
    int G = M.groupOf(N);
    C.require(Rs.size() == (G >= 0 ? 1U : 0U), "groups", N);
    C.require(F->getChildren(1).size() == EDirect.size() + Rs.size(), "children", N);
    C.require(F->isLeaf() == (EAll.empty() && G < 0), "leaf", N);
    if (G >= 0) {
      auto *R = *Rs.begin();
      C.require((R->getKind() == RK::RK_OR) == M.G.at(G).Or, "group-kind", N);
      std::set<std::string> Ms;
      for (auto *K : R->getChildren<vf::Feature>()) {
        Ms.insert(K->getName().str());
        C.require(R->hasEdgeTo(*K) && K->hasEdgeFrom(*R) && !F->hasEdgeTo(*K), "edges", N);
      }
      auto E = M.members(G);
      C.require(Ms == std::set<std::string>(E.begin(), E.end()), "group-members", N);
      C.require(F->hasEdgeTo(*R) && R->hasEdgeFrom(*F), "edges", N);
    }
    for (auto *K : F->getChildren<vf::Feature>(1)) {
      C.require(F->hasEdgeTo(*K) && K->hasEdgeFrom(*F) && !K->hasEdgeTo(*F), "edges", N);
    }
  }
}

static std::unique_ptr<vf::FeatureModel> build(pbt::Case &C, const Model &M) {
  // declared in a random order, late children through transactions
  bool Mixed = false;
  for (auto &[N, X] : M.F) {
    Mixed |= X.Kind != FK::ROOT && X.Group < 0 && M.groupOf(X.Parent) >= 0;
  }
  if (Mixed) {
    return toFM(M);
  }
  vf::FeatureModelBuilder B;
  B.makeRoot(M.Root)->setVmName(M.Name)->setPath(M.Path)->setCommit(M.Commit);
  std::vector<std::string> Ns;
  for (auto &[N, X] : M.F) {
    if (N != M.Root) {
      Ns.push_back(N);
    }
  }
  for (auto I : C.permutation(Ns.size())) {
    B.makeFeature<vf::BinaryFeature>(Ns[I]);
    B.addEdge(M.F.at(Ns[I]).Parent, Ns[I]);
  }
  for (auto &[I, G] : M.G) {
    B.emplaceRelationship(G.Or ? RK::RK_OR : RK::RK_ALTERNATIVE, G.Parent);
  }
  auto FM = B.buildFeatureModel();
  C.require(FM != nullptr, "builder-refused");
  return FM;
}

PROP(order, 2500, 60000) {
  Model M = genTree(C);
  C.describe(M.str());
  auto FM = build(C, M);
  check(C, M, *FM);
  if (C.chance(1, 3)) {
    auto H = defaults();
    for (int64_t K = C.range(1, 5); K > 0; --K) {
      Edit O = genOp(C, M, H, Ptrs{}, {});
      C.describe(O.str());
      auto T = vf::FeatureModelModifyTransaction::openTransaction(*FM);
      run(T, O, Objs(*FM));
      T.commit();
      hist::apply(M, O);
    }
    check(C, M, *FM);
    C.tag("edited");
  }
  if (M.F.size() >= 5) {
    C.nontrivial(M.str());
  }
}

PROP(ordered_vector, 2000, 40000) {
  Model M = genTree(C);
  C.describe(M.str());
  auto FM = build(C, M);
  std::vector<std::string> Exp;
  preorder(M, M.Root, Exp);
  std::vector<vf::Feature *> Fs;
  for (auto &N : Exp) {
    Fs.push_back(FM->getFeature(N));
  }
  std::multiset<size_t> Ref; // positions
  std::unique_ptr<OrderedFeatureVector> V;
  std::string Desc;
  auto Some = [&] {
    std::vector<size_t> R;
    for (size_t K = C.draw(4); K > 0; --K) {
      R.push_back(C.draw(Fs.size() - 1));
    }
    return R;
  };
  auto Ptrs = [&](const std::vector<size_t> &I) {
    std::vector<vf::Feature *> R;
    for (auto K : I) {
      R.push_back(Fs[K]);
    }
    return R;
  };
  auto Init = Some();
  switch (C.draw(2)) {
  case 0:
    V = std::make_unique<OrderedFeatureVector>();
    Init.clear();
    break;
  case 1: {
    auto P = Ptrs(Init);
    V = std::make_unique<OrderedFeatureVector>(P.begin(), P.end());
    break;
  }
  default:
    Init.resize(2);
    V = std::make_unique<OrderedFeatureVector>(
        std::initializer_list<vf::Feature *>{Fs[Init[0]], Fs[Init[1]]});
  }
  Ref.insert(Init.begin(), Init.end());
  size_t Steps = 0;
  for (int64_t N = C.chance(1, 25) ? C.range(30, 300) : C.sized(1, 25); N > 0; --N) {
    switch (C.weighted({6, 3, 1, 1})) {
    case 0: {
      size_t K = C.draw(Fs.size() - 1);
      V->insert(Fs[K]);
      Ref.insert(K);
      Desc += "+" + std::to_string(K);
      break;
    }
    case 1: {
      size_t K = C.draw(Fs.size() - 1);
      V->remove(Fs[K]);
      Ref.erase(K);
      Desc += "-" + std::to_string(K);
      break;
    }
    case 2: {
      auto S = Some();
      auto P = Ptrs(S);
      if (C.flip()) {
        V->insert(P.begin(), P.end());
      } else {
        V->insert(llvm::make_range(P.begin(), P.end()));
      }
      Ref.insert(S.begin(), S.end());
      Desc += "*";
      break;
    }
    default:
      V->insert({Fs[0], Fs.back()});
      Ref.insert(0);
      Ref.insert(Fs.size() - 1);
      Desc += "i";
    }
    ++Steps;
    C.eq(V->size(), Ref.size(), "vector-size", Desc);
    C.eq(V->empty(), Ref.empty(), "vector-empty", Desc);
    std::vector<vf::Feature *> E, G(V->begin(), V->end());
    for (auto K : Ref) {
      E.push_back(Fs[K]);
    }
    C.require(G == E, "vector-order", Desc);
  }
  C.describe(Desc);
  if (Steps >= 4 && Fs.size() >= 4) {
    C.nontrivial(M.str() + Desc);
  }
}
