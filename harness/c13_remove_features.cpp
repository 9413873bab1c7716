// C13: removing a set of features.
#include "history.h"
#include "pbt.h"

using namespace hist;

static void same(pbt::Case &C, const Model &Sim, vf::FeatureModel &FM, const std::string &Ctx) {
  requireInvariants(C, FM, Ctx);
  auto D = diff(Sim, fromFM(FM));
  C.require(D.empty(), "wrong-model", D + " (" + Ctx + ")");
}

PROP(remove_features, 3000, 80000) {
  auto H = defaults();
  H.G.MaxFeatures = 16;
  Model M = genModel(C, H.G);
  // deep trees are rare otherwise
  if (C.chance(1, 3)) {
    std::vector<std::string> Names = M.topo();
    for (size_t K = 2; K < Names.size(); ++K) {
      auto &X = M.F[Names[K]];
      if (X.Group < 0 && M.groupOf(Names[K - 1]) < 0 && C.chance(2, 3)) {
        X.Parent = Names[K - 1];
      }
    }
  }
  C.describe(M.str());
  auto FM = toFM(M);
  Objs P(*FM);
  bool Rec = C.flip();
  std::vector<std::string> Names;
  for (auto &[N, X] : M.F) {
    Names.push_back(N);
  }
  bool Dup = C.chance(1, 4), Missing = C.chance(1, 4);
  std::vector<std::string> Req;
  size_t Want = C.draw(std::min<size_t>(Names.size() + 1, 12));
  if (C.chance(1, 3)) {
    // whole subtrees, so that parents become leaves
    auto S = M.subtree(C.pick(Names));
    Req.insert(Req.end(), S.begin(), S.end());
  }
  for (size_t K = 0; K < Want; ++K) {
    auto N = Missing && C.chance(1, 4) ? "Missing" + std::to_string(C.draw(2)) : C.pick(Names);
    if (Dup || std::find(Req.begin(), Req.end(), N) == Req.end()) {
      Req.push_back(N);
    }
  }
  auto Perm = C.permutation(Req.size());
  std::vector<vf::detail::FeatureVariantTy> List;
  std::set<std::string> Set(Req.begin(), Req.end());
  std::string Desc = M.str() + (Rec ? "recursive " : "plain ");
  for (auto I : Perm) {
    bool Ptr = M.F.count(Req[I]) && C.flip();
    if (Ptr) {
      List.emplace_back(P.F.at(Req[I]));
    } else {
      List.emplace_back(Req[I]);
    }
    Desc += (Ptr ? "*" : "") + Req[I] + " ";
  }
  C.describe(Desc.substr(M.str().size()));
  // what must go
  std::set<std::string> Go;
  for (auto &N : Set) {
    if (!M.F.count(N) || N == M.Root) {
      continue;
    }
    auto S = M.subtree(N);
    bool All = true;
    for (auto &K : S) {
      All &= Set.count(K) > 0;
    }
    if (Rec || All) {
      Go.insert(S.begin(), S.end());
    }
  }
  Model Exp = M;
  for (auto &N : Go) {
    dropFeature(Exp, N);
  }
  C.note("removeFeatures");
  auto Rest = C.flip() ? vf::removeFeatures(*FM, List, Rec)
                       : vf::removeFeatures(*FM, List.begin(), List.end(), Rec);
  same(C, Exp, *FM, "after removal");
  std::map<std::string, int> Got;
  std::map<vf::Feature *, std::string> Name;
  for (auto &[N, F] : P.F) {
    Name[F] = N;
  }
  for (auto &X : Rest) {
    if (auto *N = std::get_if<std::string>(&X)) {
      ++Got[*N];
    } else {
      ++Got[Name.at(std::get<vf::Feature *>(X))];
    }
  }
  for (auto &N : Set) {
    bool Removed = Go.count(N);
    C.require(Removed == (Got[N] == 0), "returned",
              pbt::quote(N) + (Removed ? " was removed but also returned" : " was not returned"));
    C.require(Got[N] <= std::count(Req.begin(), Req.end(), N), "returned",
              pbt::quote(N) + " was returned more often than requested");
    Got.erase(N);
  }
  for (auto &[N, K] : Got) {
    C.require(K == 0, "returned", "not requested: " + N);
  }
  size_t Inner = 0;
  for (auto &N : Set) {
    Inner += M.F.count(N) && !M.childrenOf(N).empty();
  }
  if (Set.size() >= 2 && Inner >= 1) {
    C.nontrivial(Desc);
  }
  C.tag(Rec ? "recursive" : "plain");
}

// removal after removal, as histories of edits do
PROP(repeated, 1000, 20000) {
  auto H = defaults();
  H.G.MaxFeatures = 14;
  Model M = genModel(C, H.G);
  C.describe(M.str());
  std::string Desc = M.str();
  auto FM = toFM(M);
  size_t Removed = 0;
  for (int64_t N = C.range(1, 5); N > 0; --N) {
    std::vector<std::string> Names;
    for (auto &[K, X] : M.F) {
      Names.push_back(K);
    }
    bool Rec = C.flip();
    std::vector<vf::detail::FeatureVariantTy> List;
    std::set<std::string> Set;
    for (size_t K = C.chance(1, 40) ? 5 + C.draw(60) : C.draw(4); K > 0; --K) {
      auto X = C.pick(Names);
      if (Set.insert(X).second) {
        List.emplace_back(X);
        Desc += X + " ";
      }
    }
    Desc += Rec ? "rec\n" : "plain\n";
    C.describe(Desc.substr(Desc.rfind('\n', Desc.size() - 2) + 1));
    vf::removeFeatures(*FM, List, Rec);
    std::set<std::string> Go;
    for (auto &X : Set) {
      auto S = M.subtree(X);
      bool All = X != M.Root;
      for (auto &K : S) {
        All &= Rec || Set.count(K) > 0;
      }
      if (All) {
        Go.insert(S.begin(), S.end());
      }
    }
    for (auto &X : Go) {
      dropFeature(M, X);
      ++Removed;
    }
    same(C, M, *FM, "after removal");
  }
  if (Removed >= 2) {
    C.nontrivial(Desc);
  }
}
