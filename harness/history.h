// Edit histories over feature models: generated operations, their meaning on
// the reference model, and their execution through transactions.
#ifndef VERIF_HISTORY_H
#define VERIF_HISTORY_H

#include "refmodel.h"

#include "vara/Feature/FeatureModelTransaction.h"

#include <map>
#include <set>
#include <string>
#include <vector>

namespace hist {
using namespace ref;
using RK = vf::Relationship::RelationshipKind;
using Codes = std::set<vf::FTErrorCode>; // empty: the edit succeeds

enum class K {
  ADD_FEATURE, REMOVE_FEATURE, ADD_GROUP, REMOVE_GROUP, ADD_LOC, REMOVE_LOC, ADD_CON,
  SET_NAME, SET_COMMIT, SET_PATH, SET_ROOT, ADD_CHILD, MOVE_GROUP
};

struct Edit {
  K Kind;
  Feat F;                // ADD_FEATURE, SET_ROOT
  std::string A;         // feature, or parent
  std::string B;         // child
  bool APtr = false;     // pass A as a pointer
  bool BPtr = false;
  bool HasParent = true; // ADD_FEATURE
  bool Or = false, Rec = false;
  bool ToGroup = false; // ADD_CHILD: the parent is the group below A
  int G = -1;           // id of that group, MOVE_GROUP: of the moved group
  Loc L;
  Con X;
  std::string T;

  std::string str() const {
    auto N = [](const std::string &S, bool P) { return (P ? "*" : "") + pbt::quote(S); };
    switch (Kind) {
    case K::ADD_FEATURE:
      return "addFeature " + pbt::quote(F.Name) +
             (F.Kind == FK::NUM ? " num" : F.Kind == FK::ROOT ? " root" : "") + " under " +
             (HasParent ? N(A, true) : "nothing");
    case K::REMOVE_FEATURE:
      return std::string("removeFeature ") + (Rec ? "recursive " : "") + N(A, APtr);
    case K::ADD_GROUP:
      return std::string("addRelationship ") + (Or ? "OR " : "ALT ") + N(A, APtr);
    case K::REMOVE_GROUP:
      return "removeRelationship " + N(A, APtr);
    case K::ADD_LOC:
      return "addLocation " + N(A, APtr) + " " + L.str();
    case K::REMOVE_LOC:
      return "removeLocation " + N(A, APtr) + " " + L.str();
    case K::ADD_CON:
      return "addConstraint " + X.str();
    case K::SET_NAME:
      return "setName " + pbt::quote(T);
    case K::SET_COMMIT:
      return "setCommit " + pbt::quote(T);
    case K::SET_PATH:
      return "setPath " + pbt::quote(T);
    case K::SET_ROOT:
      return "setRoot " + pbt::quote(F.Name);
    case K::ADD_CHILD:
      return "addChild " + (ToGroup ? "group of " + pbt::quote(A) : N(A, APtr)) + " <- " +
             N(B, BPtr);
    case K::MOVE_GROUP:
      return "addChild " + N(A, APtr) + " <- group of " + pbt::quote(B);
    }
    return "";
  }
};

inline E rename(const E &X, const std::string &From, const std::string &To) {
  if (!X) {
    return X;
  }
  auto R = std::make_shared<Expr>(*X);
  if (R->O == ref::Op::FEAT && R->N == From) {
    R->N = To;
  }
  R->L = rename(X->L, From, To);
  R->R = rename(X->R, From, To);
  return R;
}

// drops a feature with its constraints and the group below it
inline void dropFeature(Model &M, const std::string &N) {
  for (auto It = M.G.begin(); It != M.G.end();) {
    It = It->second.Parent == N ? M.G.erase(It) : std::next(It);
  }
  std::vector<Con> Keep;
  for (auto &X : M.C) {
    std::set<std::string> S;
    featuresOf(X.X, S);
    if (!S.count(N)) {
      Keep.push_back(X);
    }
  }
  M.C = Keep;
  M.F.erase(N);
}

// The documented meaning of one edit. Removed collects names whose object goes.
inline Codes apply(Model &M, const Edit &O, std::set<std::string> *Gone = nullptr) {
  using namespace vf;
  auto Go = [&](const std::string &N) {
    if (Gone) {
      Gone->insert(N);
    }
  };
  bool HasA = M.F.count(O.A);
  switch (O.Kind) {
  case K::ADD_FEATURE: {
    Codes E;
    if (M.F.count(O.F.Name)) {
      E.insert(ALREADY_PRESENT);
    }
    if (O.HasParent && !HasA) {
      E.insert(MISSING_PARENT);
    }
    if (O.F.Kind == FK::ROOT) {
      E.insert(INCONSISTENT);
      E.insert(ALREADY_PRESENT);
    }
    if (!E.empty()) {
      return E;
    }
    Feat X = O.F;
    X.Parent = O.HasParent ? O.A : M.Root;
    X.Group = -1;
    M.F[X.Name] = X;
    return {};
  }
  case K::REMOVE_FEATURE: {
    if (!HasA) {
      return {MISSING_FEATURE};
    }
    if (O.A == M.Root) {
      return {INCONSISTENT, NON_LEAF_NODE};
    }
    if (!O.Rec && !M.childrenOf(O.A).empty()) {
      return {NON_LEAF_NODE};
    }
    for (auto &N : M.subtree(O.A)) {
      Go(N);
      dropFeature(M, N);
    }
    return {};
  }
  case K::ADD_GROUP: {
    if (!HasA) {
      return {MISSING_PARENT};
    }
    if (M.groupOf(O.A) >= 0) {
      return {ALREADY_PRESENT};
    }
    int Id = 0;
    while (M.G.count(Id) || Id < O.G) { // O.G: a fresh id
      ++Id;
    }
    M.G[Id] = Group{O.Or, O.A};
    for (auto &N : M.childrenOf(O.A)) {
      M.F[N].Group = Id;
    }
    return {};
  }
  case K::REMOVE_GROUP: {
    if (!HasA) {
      return {MISSING_PARENT};
    }
    int Id = M.groupOf(O.A);
    if (Id < 0) {
      return {MISSING_CHILD};
    }
    for (auto &N : M.members(Id)) {
      M.F[N].Group = -1;
    }
    M.G.erase(Id);
    return {};
  }
  case K::ADD_LOC:
    if (!HasA) {
      return {MISSING_FEATURE};
    }
    M.F[O.A].Locs.push_back(O.L);
    return {};
  case K::REMOVE_LOC: {
    if (!HasA) {
      return {MISSING_FEATURE};
    }
    auto &V = M.F[O.A].Locs;
    for (size_t I = 0; I < V.size(); ++I) {
      if (V[I] == O.L) {
        V.erase(V.begin() + static_cast<long>(I));
        break;
      }
    }
    return {};
  }
  case K::ADD_CON: {
    std::set<std::string> S;
    featuresOf(O.X.X, S);
    for (auto &N : S) {
      if (!M.F.count(N)) {
        return {MISSING_FEATURE};
      }
    }
    M.C.push_back(O.X);
    return {};
  }
  case K::SET_NAME:
    M.Name = O.T;
    return {};
  case K::SET_COMMIT:
    M.Commit = O.T;
    return {};
  case K::SET_PATH:
    M.Path = O.T;
    return {};
  case K::SET_ROOT: {
    if (O.F.Name == M.Root) {
      return {};
    }
    if (M.F.count(O.F.Name)) {
      return {ALREADY_PRESENT};
    }
    std::string Old = M.Root;
    Go(Old);
    M.F.erase(Old);
    Feat R;
    R.Kind = FK::ROOT;
    R.Name = O.F.Name;
    M.F[R.Name] = R;
    M.Root = R.Name;
    for (auto &[N, X] : M.F) {
      if (X.Parent == Old) {
        X.Parent = R.Name;
      }
    }
    for (auto &[I, X] : M.G) {
      if (X.Parent == Old) {
        X.Parent = R.Name;
      }
    }
    for (auto &X : M.C) {
      X.X = rename(X.X, Old, R.Name);
    }
    return {};
  }
  case K::ADD_CHILD: {
    bool HasB = M.F.count(O.B);
    bool Group = O.ToGroup && M.G.count(O.G);
    std::string P = Group ? M.G[O.G].Parent : O.A;
    Codes E;
    if (!HasB) {
      E.insert(MISSING_CHILD);
    }
    if (O.ToGroup ? !Group : !HasA) {
      E.insert(MISSING_PARENT);
    }
    if (!E.empty()) {
      return E;
    }
    if (M.isAncestor(O.B, P)) {
      return {RECURSIVE_EDGE};
    }
    M.F[O.B].Parent = P;
    M.F[O.B].Group = Group ? O.G : -1;
    return {};
  }
  case K::MOVE_GROUP: {
    Codes E;
    if (!M.G.count(O.G)) {
      E.insert(MISSING_CHILD);
    }
    if (!HasA) {
      E.insert(MISSING_PARENT);
    }
    if (!E.empty()) {
      return E;
    }
    for (auto &N : M.members(O.G)) {
      if (M.isAncestor(N, O.A)) {
        return {RECURSIVE_EDGE};
      }
    }
    M.G[O.G].Parent = O.A;
    for (auto &N : M.members(O.G)) {
      M.F[N].Parent = O.A;
    }
    return {};
  }
  }
  return {};
}

// What the generator knows about pointers into the model that is edited.
struct Ptrs {
  std::set<std::string> Feats;       // names whose original object is alive
  std::map<int, std::string> Groups; // id -> parent name when taken
  bool Copy = false; // pointers are translated by name into the copy
};

struct HistOpts {
  GenOpts G;
  unsigned BadPct = 15; // chance of a reference to something missing
  bool SetRoot = true;
};

inline HistOpts defaults() {
  HistOpts H;
  H.G.MaxFeatures = 8;
  H.G.NumericAnywhere = true;
  H.G.MixedChildren = true;
  H.G.BigNumbers = true;
  H.G.RootLocations = true;
  H.G.Unknown = true;
  H.G.RootOrBase = false;
  H.G.Tails = true;
  return H;
}

// Cur: the reference state in which the edit will run
inline Edit genOp(pbt::Case &C, const Model &Cur, const HistOpts &H, const Ptrs &P,
                const std::vector<std::string> &Extra) {
  std::vector<std::string> Names;
  for (auto &[N, X] : Cur.F) {
    Names.push_back(N);
  }
  auto Name = [&]() -> std::string {
    if (C.chance(H.BadPct, 100)) {
      return C.chance(1, 2) || Extra.empty() ? "Missing" : C.pick(Extra);
    }
    return C.pick(Names);
  };
  auto Ptr = [&](const std::string &N) { return P.Feats.count(N) && C.flip(); };
  Edit O;
  O.Kind = static_cast<K>(C.weighted(
      {6, 4, 3, 2, 2, 2, 4, 1, 1, 1, H.SetRoot ? 1U : 0U, 5, Cur.G.empty() ? 0U : 1U}));
  switch (O.Kind) {
  case K::ADD_FEATURE: {
    O.F = genFeat(C, Cur, H.G);
    if (C.chance(H.BadPct, 100)) {
      O.F.Name = Name();
    } else if (!Extra.empty() && C.chance(1, 6)) {
      O.F.Name = C.pick(Extra); // a name that was used before
    }
    if (C.chance(1, 30)) {
      Feat R;
      R.Kind = FK::ROOT;
      R.Name = O.F.Name;
      O.F = R;
    }
    std::vector<std::string> Ps(P.Feats.begin(), P.Feats.end());
    O.HasParent = !Ps.empty() && C.chance(4, 5);
    if (O.HasParent) {
      O.A = C.pick(Ps);
    }
    break;
  }
  case K::REMOVE_FEATURE:
    O.A = Name();
    if (C.chance(1, 3)) { // prefer leaves
      for (auto &N : Names) {
        if (Cur.childrenOf(N).empty() && N != Cur.Root) {
          O.A = N;
        }
      }
    }
    O.APtr = Ptr(O.A);
    O.Rec = C.flip();
    break;
  case K::ADD_GROUP:
    O.A = Name();
    O.APtr = Ptr(O.A);
    O.Or = C.flip();
    O.G = Cur.G.empty() ? 0 : Cur.G.rbegin()->first + 1;
    for (auto &[Id, N] : P.Groups) {
      O.G = std::max(O.G, Id + 1);
    }
    break;
  case K::REMOVE_GROUP:
    O.A = Name();
    if (!Cur.G.empty() && C.chance(2, 3)) {
      auto It = Cur.G.begin();
      std::advance(It, C.draw(Cur.G.size() - 1));
      O.A = It->second.Parent;
    }
    O.APtr = Ptr(O.A);
    break;
  case K::ADD_LOC:
  case K::REMOVE_LOC: {
    O.A = Name();
    O.L = genLoc(C, true);
    std::vector<std::pair<std::string, Loc>> Have;
    for (auto &[N, X] : Cur.F) {
      for (auto &L : X.Locs) {
        Have.emplace_back(N, L);
      }
    }
    if (!Have.empty() && C.chance(2, 3)) {
      auto &Hv = C.pick(Have);
      O.A = Hv.first;
      O.L = C.chance(1, 3) ? varyLoc(C, Hv.second) : Hv.second;
    }
    O.APtr = Ptr(O.A);
    break;
  }
  case K::ADD_CON: {
    Model T = Cur;
    if (C.chance(H.BadPct, 100)) {
      Feat X;
      X.Name = "Missing";
      X.Parent = T.Root;
      T.F[X.Name] = X;
    }
    O.X = genCon(C, T, H.G);
    break;
  }
  case K::SET_NAME:
  case K::SET_COMMIT:
    O.T = genText(C, 4);
    break;
  case K::SET_PATH:
    O.T = C.pick<std::string>({"/p/q", "r", ""});
    break;
  case K::SET_ROOT: {
    O.F.Kind = FK::ROOT;
    O.F.Name = C.chance(2, 3) ? genName(C, Cur) : C.pick(Names);
    break;
  }
  case K::ADD_CHILD: {
    O.A = Name();
    O.B = Name();
    O.BPtr = Ptr(O.B);
    O.APtr = Ptr(O.A);
    std::vector<int> Gs;
    for (auto &[Id, N] : P.Groups) {
      if (P.Copy || Cur.G.count(Id)) {
        Gs.push_back(Id);
      }
    }
    if (!Gs.empty() && C.chance(1, 3)) {
      O.ToGroup = true;
      O.G = C.pick(Gs);
      O.A = P.Groups.at(O.G);
    }
    break;
  }
  case K::MOVE_GROUP: {
    std::vector<int> Gs;
    for (auto &[Id, N] : P.Groups) {
      if (P.Copy || Cur.G.count(Id)) {
        Gs.push_back(Id);
      }
    }
    std::vector<std::string> Free; // at most one group below a feature
    for (auto &N : Names) {
      if (Cur.groupOf(N) < 0) {
        Free.push_back(N);
      }
    }
    if (Gs.empty() || Free.empty()) {
      O.Kind = K::SET_NAME;
      O.T = "x";
      break;
    }
    O.G = C.pick(Gs);
    O.B = P.Groups.at(O.G);
    O.A = C.pick(Free);
    O.APtr = Ptr(O.A);
    break;
  }
  }
  if (P.Copy && (O.ToGroup || O.Kind == K::MOVE_GROUP)) {
    // resolved through the parent's name
    std::string N = P.Groups.at(O.G);
    O.G = Cur.F.count(N) ? Cur.groupOf(N) : -1;
    if (O.Kind == K::MOVE_GROUP && O.G >= 0 && Cur.G.at(O.G).Parent == O.A) {
      O.Kind = K::SET_NAME;
      O.T = "y";
    }
  }
  return O;
}

inline vf::Relationship *groupBelow(vf::Feature *F) {
  for (auto *X : F->children()) {
    if (auto *R = llvm::dyn_cast<vf::Relationship>(X)) {
      return R;
    }
  }
  return nullptr;
}

inline Ptrs pointers(const Model &M, bool Copy) {
  Ptrs P;
  P.Copy = Copy;
  for (auto &[N, X] : M.F) {
    P.Feats.insert(N);
  }
  for (auto &[Id, X] : M.G) {
    P.Groups[Id] = X.Parent;
  }
  return P;
}

// Objects of the original model, taken when the transaction is opened.
struct Objs {
  std::map<std::string, vf::Feature *> F;
  std::map<std::string, vf::Relationship *> G; // by the parent's name
  explicit Objs(vf::FeatureModel &FM) {
    const auto &CFM = FM;
    for (auto *X : CFM.unorderedFeatures()) {
      F[X->getName().str()] = X;
      if (auto *R = groupBelow(X)) {
        G[X->getName().str()] = R;
      }
    }
  }
};

template <class Fn> auto withConstraint(const Con &X, Fn &&F) {
  using FMd = vf::FeatureModel;
  switch (X.C) {
  case Cls::BOOL:
    return F(std::make_unique<FMd::BooleanConstraint>(toConstraint(X.X)));
  case Cls::NONBOOL:
    return F(std::make_unique<FMd::NonBooleanConstraint>(toConstraint(X.X)));
  default:
    return F(std::make_unique<FMd::MixedConstraint>(
        toConstraint(X.X), X.ReqAll ? FMd::MixedConstraint::Req::ALL
                                    : FMd::MixedConstraint::Req::NONE,
        X.Neg ? FMd::MixedConstraint::ExprKind::NEG : FMd::MixedConstraint::ExprKind::POS));
  }
}

// Runs the edit. Copying transactions: the reported error code, or nullopt if
// the call reports none; success is reported as Ok.
struct Report {
  bool Reports = false;
  bool Ok = true;
  vf::FTErrorCode Code = vf::ERROR;
  vf::Feature *NewFeature = nullptr;
};

template <class TransTy> Report run(TransTy &T, const Edit &O, const Objs &P) {
  constexpr bool Copy = std::is_same_v<TransTy, vf::FeatureModelCopyTransaction>;
  Report R;
  auto FV = [&](const std::string &N, bool Ptr) -> vf::detail::FeatureVariantTy {
    if (Ptr) {
      return P.F.at(N);
    }
    return N;
  };
  auto NV = [&](const std::string &N, bool Ptr) -> vf::detail::FeatureTreeNodeVariantTy {
    if (Ptr) {
      return static_cast<vf::FeatureTreeNode *>(P.F.at(N));
    }
    return N;
  };
  auto Set = [&](auto Res) {
    R.Reports = true;
    R.Ok = static_cast<bool>(Res);
    if (!R.Ok) {
      R.Code = Res.getError();
    }
  };
  auto Group = O.Or ? RK::RK_OR : RK::RK_ALTERNATIVE;
  switch (O.Kind) {
  case K::ADD_FEATURE: {
    auto *Parent = O.HasParent ? P.F.at(O.A) : nullptr;
    if constexpr (Copy) {
      auto Res = T.addFeature(makeFeature(O.F), Parent);
      if (Res) {
        R.NewFeature = *Res;
      }
      Set(std::move(Res));
    } else {
      T.addFeature(makeFeature(O.F), Parent);
    }
    break;
  }
  case K::REMOVE_FEATURE: {
    auto V = FV(O.A, O.APtr);
    T.removeFeature(V, O.Rec);
    break;
  }
  case K::ADD_GROUP:
    if constexpr (Copy) {
      Set(T.addRelationship(Group, FV(O.A, O.APtr)));
    } else {
      T.addRelationship(Group, FV(O.A, O.APtr));
    }
    break;
  case K::REMOVE_GROUP:
    T.removeRelationship(FV(O.A, O.APtr));
    break;
  case K::ADD_LOC:
    T.addLocation(FV(O.A, O.APtr), toFSR(O.L));
    break;
  case K::REMOVE_LOC: {
    auto V = FV(O.A, O.APtr);
    T.removeLocation(V, toFSR(O.L));
    break;
  }
  case K::ADD_CON:
    withConstraint(O.X, [&](auto X) {
      if constexpr (Copy) {
        Set(T.addConstraint(std::move(X)));
      } else {
        T.addConstraint(std::move(X));
      }
    });
    break;
  case K::SET_NAME:
    T.setName(O.T);
    break;
  case K::SET_COMMIT:
    T.setCommit(O.T);
    break;
  case K::SET_PATH:
    T.setPath(O.T);
    break;
  case K::SET_ROOT:
    if constexpr (Copy) {
      Set(T.setRoot(std::make_unique<vf::RootFeature>(O.F.Name)));
    } else {
      T.setRoot(std::make_unique<vf::RootFeature>(O.F.Name));
    }
    break;
  case K::ADD_CHILD:
  case K::MOVE_GROUP: {
    auto A = O.ToGroup ? vf::detail::FeatureTreeNodeVariantTy(
                             static_cast<vf::FeatureTreeNode *>(P.G.at(O.A)))
                       : NV(O.A, O.APtr);
    auto B = O.Kind == K::MOVE_GROUP ? vf::detail::FeatureTreeNodeVariantTy(
                                           static_cast<vf::FeatureTreeNode *>(P.G.at(O.B)))
                                     : NV(O.B, O.BPtr);
    if constexpr (Copy) {
      // the call may or may not report
      if constexpr (std::is_void_v<decltype(T.addChild(A, B))>) {
        T.addChild(A, B);
      } else {
        Set(T.addChild(A, B));
      }
    } else {
      T.addChild(A, B);
    }
    break;
  }
  }
  return R;
}

inline void update(Ptrs &P, const Model &Cur, const std::set<std::string> &Gone) {
  if (P.Copy) {
    return; // the objects of the original stay
  }
  for (auto &N : Gone) {
    P.Feats.erase(N);
  }
  for (auto It = P.Groups.begin(); It != P.Groups.end();) {
    It = Cur.G.count(It->first) ? std::next(It) : P.Groups.erase(It);
  }
}

inline std::string codes(const Codes &E) {
  std::string S;
  for (auto X : E) {
    S += std::to_string(static_cast<int>(X)) + " ";
  }
  return S;
}

} // namespace hist
#endif
