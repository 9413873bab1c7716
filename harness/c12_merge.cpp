// C12: merging two models.
#include "history.h"
#include "pbt.h"

using namespace hist;

static void same(pbt::Case &C, const Model &Sim, vf::FeatureModel &FM, const char *Kind,
                 const std::string &Ctx) {
  requireInvariants(C, FM, Ctx);
  auto D = diff(Sim, fromFM(FM));
  C.require(D.empty(), Kind, D + " (" + Ctx + ")");
}

static HistOpts opts() {
  auto H = defaults();
  H.G.MaxFeatures = 10;
  H.BadPct = 0;
  H.SetRoot = false;
  return H;
}

// One random divergence of M; Names keeps names of both models distinct.
static void diverge(pbt::Case &C, Model &M, const HistOpts &H, Model &Names, bool Additive,
                    const char *Who) {
  std::vector<std::string> Ns;
  for (auto &[N, X] : M.F) {
    Ns.push_back(N);
  }
  size_t W = Additive ? C.weighted({5, 3}) : C.weighted({3, 2, 2, 1, 1, 1, 1, 2, 1});
  auto &X = M.F[C.pick(Ns)];
  switch (W) {
  case 0: {
    Feat Y = genFeat(C, Names, H.G); // a name new to both
    Y.Parent = X.Name;
    Y.Group = C.flip() ? M.groupOf(X.Name) : -1;
    M.F[Y.Name] = Y;
    Names.F[Y.Name] = Y;
    C.describe(std::string(Who) + " adds " + Y.Name + " under " + Y.Parent);
    break;
  }
  case 1: {
    Loc L = !X.Locs.empty() && C.flip() ? varyLoc(C, C.pick(X.Locs)) : genLoc(C);
    X.Locs.push_back(L);
    if (C.chance(1, 4)) {
      X.Locs.push_back(L);
    }
    C.describe(std::string(Who) + " adds a location to " + X.Name);
    break;
  }
  case 2:
    if (X.Kind == FK::BIN || X.Kind == FK::NUM) {
      X.Out = genText(C, 3);
    }
    if (X.Kind == FK::NUM && C.flip()) {
      X.St.reset();
    }
    break;
  case 3:
    if (X.Kind == FK::BIN || X.Kind == FK::NUM) {
      X.Opt = !X.Opt;
      C.describe(std::string(Who) + " flips optional of " + X.Name);
    }
    break;
  case 4:
    if (X.Kind != FK::ROOT) {
      Feat Y = genFeat(C, Names, H.G);
      Y.Name = X.Name;
      Y.Parent = X.Parent;
      Y.Group = X.Group;
      Y.Opt = X.Opt && Y.Kind != FK::UNKNOWN;
      X = Y;
      C.describe(std::string(Who) + " replaces " + X.Name);
    }
    break;
  case 5:
    if (X.Kind == FK::NUM) {
      auto &V = X.IsRange ? X.Max : X.Vals[0];
      V = V == INT64_MAX ? V - 1 : V + 1;
      C.describe(std::string(Who) + " changes values of " + X.Name);
    }
    break;
  case 6: {
    auto P = C.pick(Ns);
    if (C.chance(1, 3)) {
      // features whose names differ in case only are different features
      for (auto &N : Ns) {
        if (N != X.Parent && llvm::StringRef(N).equals_insensitive(X.Parent)) {
          P = N;
          C.tag("parents differ in case only");
        }
      }
    }
    if (X.Kind != FK::ROOT && !M.isAncestor(X.Name, P)) {
      X.Parent = P;
      X.Group = -1;
      C.describe(std::string(Who) + " moves " + X.Name + " to " + P);
    }
    break;
  }
  case 7: {
    Edit O;
    O.A = X.Name;
    O.Kind = M.groupOf(X.Name) < 0 ? K::ADD_GROUP : K::REMOVE_GROUP;
    O.Or = C.flip();
    O.G = M.G.empty() ? 0 : M.G.rbegin()->first + 1;
    hist::apply(M, O);
    C.describe(std::string(Who) + " " + O.str());
    break;
  }
  default:
    if (X.Kind != FK::ROOT) {
      for (auto &N : M.subtree(X.Name)) {
        dropFeature(M, N);
      }
      C.describe(std::string(Who) + " removes a subtree");
    }
  }
}

static std::string valuesKey(const Feat &X) {
  std::string S = X.IsRange ? "r" : "v";
  if (X.IsRange) {
    return S + std::to_string(X.Min) + ":" + std::to_string(X.Max);
  }
  for (auto V : X.Vals) {
    S += std::to_string(V) + ",";
  }
  return S;
}

// Whether the models may be merged: shared features agree.
static bool mergeable(const Model &A, const Model &B, bool Strict) {
  for (auto &[N, Y] : B.F) {
    auto It = A.F.find(N);
    if (It == A.F.end()) {
      continue;
    }
    auto &X = It->second;
    if (X.Parent != Y.Parent) {
      return false;
    }
    if (!Strict) {
      continue;
    }
    if (X.Kind != Y.Kind || X.Opt != Y.Opt || (X.Group >= 0) != (Y.Group >= 0) ||
        (X.Kind == FK::NUM && valuesKey(X) != valuesKey(Y))) {
      return false;
    }
  }
  return true;
}

// Features of A, then those only in B; the group of the latter is left open.
static void checkMerged(pbt::Case &C, const Model &A, const Model &B, vf::FeatureModel &R) {
  requireInvariants(C, R, "merged");
  Model Got = fromFM(R);
  Model Exp = A;
  for (auto &[N, Y] : B.F) {
    auto It = Exp.F.find(N);
    if (It != Exp.F.end()) {
      for (auto &L : Y.Locs) {
        auto &V = It->second.Locs;
        if (std::find(V.begin(), V.end(), L) == V.end()) {
          V.push_back(L);
        }
      }
      continue;
    }
    Feat X = Y;
    X.Group = -1;
    Exp.F[N] = X;
  }
  for (auto &[N, X] : B.F) {
    if (!A.F.count(N) && Got.F.count(N)) {
      Got.F[N].Group = -1;
    }
  }
  // groups taken over from the second model would have no member left here
  for (auto It = Got.G.begin(); It != Got.G.end();) {
    bool New = !A.F.count(It->second.Parent);
    It = New ? Got.G.erase(It) : std::next(It);
  }
  // constraints of the first stay; whether those of the second are taken over
  // is left open
  DiffOpts O;
  O.Constraints = false;
  auto D = diff(Exp, Got, O);
  C.require(D.empty(), "wrong-merge", D);
  std::multiset<std::string> Cs;
  for (auto &X : Got.C) {
    Cs.insert(X.str());
  }
  for (auto &X : A.C) {
    auto It = Cs.find(X.str());
    C.require(It != Cs.end(), "lost-constraint", X.str());
    Cs.erase(It);
  }
  std::multiset<std::string> Bs;
  for (auto &X : B.C) {
    Bs.insert(X.str());
  }
  for (auto &X : Cs) {
    auto It = Bs.find(X);
    C.require(It != Bs.end(), "invented-constraint", X);
    Bs.erase(It);
  }
}

PROP(merge, 4000, 100000) {
  auto H = opts();
  Model Base = genModel(C, H.G);
  C.describe(Base.str());
  Model A = Base, B = Base, Names = Base;
  bool Additive = C.flip();
  for (size_t K = C.draw(4); K > 0; --K) {
    diverge(C, A, H, Names, Additive, "A");
  }
  for (size_t K = C.draw(4); K > 0; --K) {
    diverge(C, B, H, Names, Additive, "B");
  }
  if (C.chance(1, 6)) {
    // the same new name in both, possibly at different places
    for (Model *M : {&A, &B}) {
      std::vector<std::string> Ns;
      for (auto &[N, X] : M->F) {
        Ns.push_back(N);
      }
      Feat X;
      X.Name = "Shared";
      X.Parent = C.chance(2, 3) ? M->Root : C.pick(Ns);
      X.Opt = C.chance(1, 4);
      M->F[X.Name] = X;
    }
  }
  bool Strict = C.flip();
  C.describe("first:\n" + A.str() + "second:\n" + B.str() + (Strict ? "strict" : "non-strict"));
  auto FA = toFM(A), FB = toFM(B);
  C.note("merge");
  auto R = vf::mergeFeatureModels(*FA, *FB, Strict);
  same(C, A, *FA, "input-modified", "first");
  same(C, B, *FB, "input-modified", "second");
  bool Want = mergeable(A, B, Strict);
  C.require(!Want || R != nullptr, "refused", "compatible models were not merged");
  C.require(Want || R == nullptr, "accepted", "incompatible models were merged");
  C.tag(std::string(Strict ? "strict " : "non-strict ") + (Want ? "merged" : "refused"));
  if (R) {
    C.require(R.get() != FA.get() && R.get() != FB.get(), "no-new-model");
    checkMerged(C, A, B, *R);
    // the result does not depend on the inputs
    auto Snap = fromFM(*R);
    FA.reset();
    FB.reset();
    auto D = diff(Snap, fromFM(*R));
    C.require(D.empty(), "shares-input", D);
  }
  if (A.F.size() >= 3 && B.F.size() >= 3 && A.str() != B.str()) {
    C.nontrivial(A.str() + B.str() + (Strict ? "s" : "n"));
  }
}

PROP(merge_self, 1500, 30000) {
  auto H = opts();
  H.G.MaxFeatures = 14;
  H.G.Unknown = C.flip();
  Model A = genModel(C, H.G);
  bool Strict = C.flip();
  C.describe(A.str() + (Strict ? "strict" : "non-strict"));
  auto FA = toFM(A);
  auto FB = C.flip() ? FA->clone() : nullptr;
  auto R = vf::mergeFeatureModels(*FA, FB ? *FB : *FA, Strict);
  C.require(R != nullptr, "refused", "a model was not merged with itself");
  same(C, A, *R, "wrong-merge", "with itself");
  same(C, A, *FA, "input-modified", "with itself");
  if (A.F.size() >= 4) {
    C.nontrivial(A.str());
  }
}

// Unrelated models: different roots never merge
PROP(merge_roots, 800, 10000) {
  auto H = opts();
  H.G.MaxFeatures = 5;
  Model A = genModel(C, H.G), B = genModel(C, H.G);
  bool Strict = C.flip();
  C.describe(A.str() + B.str() + (Strict ? "strict" : "non-strict"));
  if (C.chance(1, 3)) {
    // the root of one is an ordinary feature of the other
    Model &M = C.flip() ? A : B;
    const std::string N = &M == &A ? B.Root : A.Root;
    if (!M.F.count(N)) {
      Feat X;
      X.Name = N;
      X.Parent = M.Root;
      X.Opt = C.flip();
      M.F[N] = X;
      C.describe("then adds " + N + " to the " + (&M == &A ? "first" : "second"));
    }
  }
  if (A.Root == B.Root) {
    C.discard();
  }
  auto FA = toFM(A), FB = toFM(B);
  C.note("merge");
  auto R = vf::mergeFeatureModels(*FA, *FB, Strict);
  C.require(R == nullptr, "accepted", "models with different roots were merged");
  same(C, A, *FA, "input-modified", "first");
  same(C, B, *FB, "input-modified", "second");
  C.nontrivial(A.str() + B.str());
}
