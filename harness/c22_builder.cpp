// C22: the model builder is order-independent and all-or-nothing.
#include "history.h"
#include "pbt.h"

#include "vara/Feature/FeatureModelBuilder.h"

using namespace hist;

namespace {
struct Decl {
  enum { FEAT, EDGE, ROOT, GROUP, CON, NAME, PATH, COMMIT } What = FEAT;
  Feat F;
  std::string A, B;
  bool Or = false;
  Con X;
  std::string str() const {
    switch (What) {
    case FEAT: return "feature " + F.Name;
    case EDGE: return "edge " + A + " -> " + B;
    case ROOT: return "root " + A;
    case GROUP: return std::string("group ") + (Or ? "OR " : "ALT ") + A;
    case CON: return "constraint " + X.str();
    default: return "meta " + A;
    }
  }
};

void declare(vf::FeatureModelBuilder &B, const Decl &D, bool Or0 = false) {
  auto Locs = [&] {
    std::vector<vf::FeatureSourceRange> R;
    for (auto &L : D.F.Locs) {
      R.push_back(toFSR(L));
    }
    return R;
  };
  switch (D.What) {
  case Decl::FEAT:
    if (D.F.Kind == FK::BIN) {
      B.makeFeature<vf::BinaryFeature>(D.F.Name, D.F.Opt, Locs(), D.F.Out);
    } else if (D.F.Kind == FK::UNKNOWN) {
      B.makeFeature<vf::Feature>(D.F.Name);
    } else if (D.F.IsRange) {
      B.makeFeature<vf::NumericFeature>(
          D.F.Name, vf::NumericFeature::ValueRangeType{D.F.Min, D.F.Max}, D.F.Opt, Locs(),
          D.F.Out, D.F.St ? toStep(*D.F.St) : std::unique_ptr<vf::StepFunction>());
    } else {
      B.makeFeature<vf::NumericFeature>(
          D.F.Name, D.F.Vals, D.F.Opt, Locs(), D.F.Out,
          D.F.St ? toStep(*D.F.St) : std::unique_ptr<vf::StepFunction>());
    }
    break;
  case Decl::EDGE:
    B.addEdge(D.A, D.B);
    break;
  case Decl::ROOT:
    B.makeRoot(D.A);
    break;
  case Decl::GROUP:
    B.emplaceRelationship(D.Or ? RK::RK_OR : RK::RK_ALTERNATIVE, D.A);
    break;
  case Decl::CON:
    withConstraint(D.X, [&](auto X) { B.addConstraint(std::move(X)); });
    break;
  case Decl::NAME:
    B.setVmName(D.A);
    break;
  case Decl::PATH:
    B.setPath(D.A);
    break;
  case Decl::COMMIT:
    B.setCommit(D.A);
    break;
  }
}

std::vector<Decl> decls(const Model &M) {
  std::vector<Decl> R;
  auto Put = [&](auto What) -> Decl & {
    R.emplace_back();
    R.back().What = What;
    return R.back();
  };
  for (auto &[N, X] : M.F) {
    if (N == M.Root) {
      Put(Decl::ROOT).A = N;
      continue;
    }
    auto &D = Put(Decl::FEAT);
    D.F = X;
    if (X.Kind == FK::UNKNOWN) {
      D.F.Locs.clear();
    }
    auto &E = Put(Decl::EDGE);
    E.A = X.Parent;
    E.B = N;
  }
  for (auto &[I, G] : M.G) {
    auto &D = Put(Decl::GROUP);
    D.A = G.Parent;
    D.Or = G.Or;
  }
  Put(Decl::NAME).A = M.Name;
  Put(Decl::PATH).A = M.Path;
  Put(Decl::COMMIT).A = M.Commit;
  return R;
}

Model gen(pbt::Case &C) {
  auto H = defaults();
  H.G.MaxFeatures = 12;
  H.G.MixedChildren = false;
  H.G.RootLocations = false;
  Model M = genModel(C, H.G);
  for (auto &[N, X] : M.F) {
    if (X.Kind == FK::UNKNOWN) {
      X.Locs.clear();
    }
  }
  if (C.chance(1, 4) && M.Root != "root" && !M.F.count("root") && M.F.size() > 1) {
    // the name of the default root is free if the root has another name
    std::string N = M.topo()[1];
    Feat X = M.F[N];
    M.F.erase(N);
    X.Name = "root";
    M.F["root"] = X;
    for (auto &[K, Y] : M.F) {
      if (Y.Parent == N) {
        Y.Parent = "root";
      }
    }
    for (auto &[I, G] : M.G) {
      if (G.Parent == N) {
        G.Parent = "root";
      }
    }
    for (auto &K : M.C) {
      K.X = rename(K.X, N, "root");
    }
  }
  return M;
}

// constraints keep their relative order, everything else is shuffled
std::vector<Decl> shuffle(pbt::Case &C, const std::vector<Decl> &Ds, const Model &M) {
  std::vector<Decl> R;
  for (auto I : C.permutation(Ds.size())) {
    R.push_back(Ds[I]);
  }
  size_t Pos = 0;
  for (auto &X : M.C) {
    Pos += C.draw(R.size() - Pos);
    Decl D;
    D.What = Decl::CON;
    D.X = X;
    R.insert(R.begin() + static_cast<long>(Pos), D);
    ++Pos;
  }
  return R;
}
} // namespace

PROP(any_order, 2500, 60000) {
  Model M = gen(C);
  C.describe(M.str());
  auto Ds = decls(M);
  // features without an edge end up below the root, whatever is said about
  // the default root
  std::vector<Decl> Keep;
  for (auto &D : Ds) {
    bool Drop = D.What == Decl::EDGE && D.A == M.Root && C.chance(1, 3);
    Drop |= D.What == Decl::ROOT && D.A == "root" && C.flip();
    if (!Drop) {
      Keep.push_back(D);
    }
  }
  auto Order = shuffle(C, Keep, M);
  std::string Desc = M.str();
  // of several edges for one feature the last one counts
  if (C.chance(1, 3)) {
    auto E = C.draw(Order.size() - 1);
    if (Order[E].What == Decl::EDGE) {
      auto Below = M.subtree(Order[E].B);
      std::vector<std::string> Other;
      for (auto &[N, X] : M.F) {
        if (N != Order[E].A &&
            std::find(Below.begin(), Below.end(), N) == Below.end()) {
          Other.push_back(N);
        }
      }
      if (!Other.empty()) {
        Decl D = Order[E];
        D.A = C.pick(Other);
        Order.insert(Order.begin() + static_cast<long>(C.draw(E)), D);
        C.tag("superseded-edge");
      }
    }
  }
  vf::FeatureModelBuilder B;
  for (auto &D : Order) {
    C.describe(D.str());
    Desc += D.str() + "\n";
    declare(B, D);
    if (D.What == Decl::EDGE && C.chance(1, 10)) {
      declare(B, D); // immediately repeating an edge changes nothing
    }
  }
  std::map<std::string, std::string> LastEdge;
  for (auto &D : Order) {
    if (D.What == Decl::EDGE) {
      LastEdge[D.B] = D.A;
    }
  }
  for (auto &[N, A] : LastEdge) {
    auto P = B.getParentName(N);
    C.require(P && *P == A, "parent-name", N);
  }
  C.require(!B.getParentName("Missing"), "parent-name", "Missing");
  C.note("build");
  if (C.chance(1, 6)) {
    vf::FeatureModelBuilder B2(std::move(B));
    auto FM = B2.buildFeatureModel();
    C.require(FM != nullptr, "refused");
    requireInvariants(C, *FM);
    auto D = diff(M, fromFM(*FM));
    C.require(D.empty(), "wrong-model", D);
    C.tag("moved");
  } else {
    auto FM = B.buildFeatureModel();
    C.require(FM != nullptr, "refused", "a valid model was refused");
    requireInvariants(C, *FM);
    auto D = diff(M, fromFM(*FM));
    C.require(D.empty(), "wrong-model", D);
  }
  if (M.F.size() >= 4) {
    C.nontrivial(Desc);
  }
}

PROP(invalid, 2000, 40000) {
  Model M = gen(C);
  C.describe(M.str());
  auto Ds = decls(M);
  std::vector<std::string> Ns;
  for (auto &[N, X] : M.F) {
    Ns.push_back(N);
  }
  auto N = C.pick(Ns);
  Decl D;
  std::string Why;
  switch (C.draw(6)) {
  case 0: {
    D.What = Decl::FEAT;
    D.F = genFeat(C, M, defaults().G);
    D.F.Name = N;
    D.F.Locs.clear();
    Why = "duplicate " + N;
    break;
  }
  case 1:
    D.What = Decl::EDGE;
    D.A = "Missing";
    D.B = N;
    if (N == M.Root) {
      C.discard();
    }
    Why = "missing parent";
    break;
  case 2:
    D.What = Decl::EDGE;
    D.A = N;
    D.B = "Missing";
    Why = "missing child";
    break;
  case 3: {
    // a cycle: an ancestor below its descendant
    D.What = Decl::EDGE;
    auto S = M.subtree(N);
    D.A = C.pick(S);
    D.B = N;
    if (D.A == M.F[N].Parent) {
      C.discard();
    }
    // the edge replaces the one that is declared for this feature
    std::vector<Decl> Keep;
    for (auto &X : Ds) {
      if (!(X.What == Decl::EDGE && X.B == N)) {
        Keep.push_back(X);
      }
    }
    Ds = Keep;
    Why = "cycle";
    break;
  }
  case 4:
    D.What = Decl::GROUP;
    D.A = "Missing";
    Why = "group below a missing feature";
    break;
  case 5: {
    D.What = Decl::GROUP;
    if (M.G.empty()) {
      C.discard();
    }
    D.A = M.G.begin()->second.Parent;
    D.Or = C.flip();
    Why = "second group";
    break;
  }
  default: {
    D.What = Decl::CON;
    Model T = M;
    Feat X;
    X.Name = "Missing";
    X.Parent = T.Root;
    T.F[X.Name] = X;
    D.X = genCon(C, T, defaults().G);
    std::set<std::string> S;
    featuresOf(D.X.X, S);
    if (!S.count("Missing")) {
      D.X.X = bin(ref::Op::AND, D.X.X, feat("Missing"));
    }
    Why = "constraint over a missing feature";
  }
  }
  auto Order = shuffle(C, Ds, M);
  Order.insert(Order.begin() + static_cast<long>(C.draw(Order.size())), D);
  C.describe(Why);
  C.tag(Why.substr(0, Why.find(' ')));
  std::string Desc;
  {
    vf::FeatureModelBuilder B;
    for (auto &X : Order) {
      C.describe(X.str());
      Desc += X.str() + "\n";
      declare(B, X);
    }
    C.note("build");
    auto FM = B.buildFeatureModel();
    C.require(FM == nullptr, "accepted", Why);
  }
  C.nontrivial(Desc);
}
