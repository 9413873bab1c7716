// C07: enumeration yields exactly the valid configurations.
#include "solverutil.h"

using namespace su;

namespace {
std::set<std::string> enumerate(pbt::Case &C, vf::FeatureModel &FM, size_t Limit) {
  std::set<std::string> S;
  auto R = vs::ConfigurationFactory::getAllConfigs(FM);
  if (!R) {
    C.requireF(R.getError() == vs::UNSAT, "error", [&] {
      return "enumeration failed with error " + std::to_string(static_cast<int>(R.getError()));
    });
    return S;
  }
  auto V = R.extractValue();
  for (auto &X : V) {
    C.require(X != nullptr, "null-configuration");
    auto T = cfgStr(*X);
    C.requireF(S.insert(T).second, "duplicate", [&] { return "enumerated twice: " + T; });
    C.require(S.size() <= Limit, "too-many", "more configurations than assignments");
  }
  return S;
}

void check(pbt::Case &C, const Model &M) {
  C.describe(M.str());
  auto Want = expected(C, M);
  if (Want.size() > 400) {
    C.tag("too-many-configurations");
    C.discard();
  }
  auto FM = toFM(M);
  auto Got = enumerate(C, *FM, 1000000);
  auto R = cmp(Want, Got);
  C.requireF(R.empty(), "configurations", [&] { return R; });
  C.tag(Want.empty() ? "unsatisfiable" : "satisfiable");
  for (auto &[N, X] : M.F) {
    if (X.Kind == FK::NUM) {
      C.tag(X.IsRange ? (X.St ? "range+step" : "range") : "values");
    }
  }
  for (auto &[N, X] : M.G) {
    C.tag(X.Or ? "or-group" : "alternative-group");
  }
  for (auto &X : M.C) {
    C.tag(X.C == Cls::BOOL ? "boolean" : X.C == Cls::NONBOOL ? "non-boolean" : "mixed");
  }
  if (M.F.size() >= 4 && (!M.G.empty() || !M.C.empty())) {
    C.nontrivial(M.str());
  }
}
} // namespace

PROP(enumeration, 1000, 16000) { check(C, genModel(C, solverOpts(C))); }

// larger groups, several of them, beside other options
PROP(groups, 900, 12000) {
  Model M;
  M.Name = "TestVM";
  M.Path = "/tmp";
  M.Root = "root";
  M.F["root"] = Feat{"root", FK::ROOT};
  int Next = 0, Id = 0;
  auto Add = [&](const std::string &Parent, bool Opt) {
    static const std::vector<std::string> P{"a", "m", "z"};
    std::string N = C.pick(P) + std::to_string(Next++);
    Feat X;
    X.Name = N;
    X.Parent = Parent;
    X.Opt = Opt;
    M.F[N] = X;
    return N;
  };
  std::vector<std::string> Parents;
  for (int64_t K = C.range(0, 5); K > 0; --K) {
    Parents.push_back(Add("root", C.chance(2, 3)));
  }
  for (int64_t K = C.range(1, 2); K > 0; --K) {
    std::string P = Add(Parents.empty() || C.flip() ? "root" : C.pick(Parents), C.flip());
    M.G[Id] = Group{C.chance(1, 4), P};
    for (int64_t L = C.range(3, 7); L > 0; --L) {
      auto N = Add(P, C.chance(1, 4));
      M.F[N].Group = Id;
      if (C.chance(1, 8)) {
        Add(N, C.flip());
      }
    }
    ++Id;
  }
  GenOpts O;
  for (int64_t K = C.range(0, 2); K > 0; --K) {
    if (C.chance(1, 3)) {
      M.C.push_back(genCon(C, M, O));
    }
  }
  check(C, M);
}

// one constraint of every form over a fixed small tree: more weight on the
// translation of expressions
PROP(constraints, 1200, 24000) {
  Model M;
  M.Name = "TestVM";
  M.Path = "/tmp";
  M.Root = "root";
  auto Add = [&](const std::string &N, FK K) {
    Feat X;
    X.Name = N;
    X.Kind = K;
    if (K != FK::ROOT) {
      X.Parent = "root";
      X.Opt = true;
    }
    return &(M.F[N] = X);
  };
  Add("root", FK::ROOT);
  Add("A", FK::BIN);
  Add("B", FK::BIN);
  Add("C", FK::BIN);
  Add("N", FK::NUM)->Vals = {-2, 0, 1, 2};
  auto *X = Add("R", FK::NUM);
  X->IsRange = true;
  X->Min = -1;
  X->Max = 3;
  X->St = Step{0, 2, true};
  GenOpts O;
  for (int64_t K = C.range(1, 2); K > 0; --K) {
    M.C.push_back(genCon(C, M, O));
  }
  check(C, M);
}

// numeric domains: lists and ranges, also at the ends of the 64-bit range
PROP(domains, 800, 12000) {
  Model M;
  M.Name = "TestVM";
  M.Path = "/tmp";
  M.Root = "root";
  M.F["root"] = Feat{"root", FK::ROOT};
  int64_t Count = C.range(1, 2);
  for (int64_t K = Count; K > 0; --K) {
    Feat X;
    X.Kind = FK::NUM;
    X.Name = "N" + std::to_string(K);
    X.Parent = "root";
    X.Opt = C.flip();
    if (Count == 1 && C.chance(1, 12)) { // many values
      int64_t L = C.range(30, 400);
      if (C.flip()) {
        X.IsRange = true;
        X.Min = C.range(-300, 300);
        X.Max = X.Min + L;
        if (C.flip()) {
          X.St = Step{0, static_cast<double>(C.range(1, 3)), true};
        }
      } else {
        int64_t V = C.range(-1000, 1000);
        for (; L > 0; --L) {
          X.Vals.push_back(V);
          V += C.range(1, 90) - 20;
        }
      }
    } else if (C.flip()) {
      for (int64_t L = C.range(1, 6); L > 0; --L) {
        X.Vals.push_back(C.int64());
      }
    } else {
      X.IsRange = true;
      int Form = static_cast<int>(C.range(0, 4));
      Step S;
      S.VarLeft = !C.flip();
      S.Op = static_cast<int>(C.range(0, 1));
      switch (Form) {
      case 0: // small, any progress
        X.Min = C.range(-20, 20);
        X.Max = X.Min + C.range(-1, 30);
        S.Op = 0;
        S.Num = static_cast<double>(C.range(1, 9));
        break;
      case 1: // steps that do not advance end the range
        X.Min = C.range(-5, 5);
        X.Max = X.Min + C.range(0, 9);
        S.Num = static_cast<double>(C.range(-2, 1));
        break;
      case 2: // up to the largest value
        X.Min = C.range(1, 3);
        X.Max = INT64_MAX - C.range(0, 3);
        S.Op = 1;
        S.Num = static_cast<double>(C.range(2, 9));
        break;
      case 3: // multiplication from larger values
        X.Min = C.range(2, 1000);
        X.Max = X.Min * C.range(1, 5000);
        S.Op = 1;
        S.Num = static_cast<double>(C.range(2, 5));
        break;
      default:
        X.Min = C.range(2, 9);
        X.Max = C.range(2, 1LL << 40);
        S.Op = 2;
        S.Num = static_cast<double>(C.range(2, 3));
      }
      X.St = S;
      if (Form <= 1 && C.chance(1, 3)) {
        X.St.reset();
      }
    }
    M.F[X.Name] = X;
  }
  C.describe(M.str());
  auto Want = expected(C, M);
  auto FM = toFM(M);
  auto R = cmp(Want, enumerate(C, *FM, 1000000));
  C.requireF(R.empty(), "configurations", [&] { return R; });
  C.nontrivial(M.str());
}

// larger models: the enumeration of a model splits into those satisfying a
// further constraint and those satisfying its negation
PROP(partition, 240, 3000) {
  GenOpts O = solverOpts(C);
  O.MaxFeatures = 14;
  O.MaxConstraints = 6;
  Model M = genModel(C, O);
  std::vector<std::string> Bins;
  for (auto &[N, X] : M.F) {
    if (X.Kind != FK::NUM) {
      Bins.push_back(N);
    }
  }
  E X = genBool(C, Bins, {}, 2, false, false);
  Model P = M, Q = M;
  P.C.push_back(Con{Cls::BOOL, X});
  Q.C.push_back(Con{Cls::BOOL, un(Op::NOT, X)});
  C.describe(M.str() + "\nsplit " + str(X));
  auto FM = toFM(M);
  auto All = vs::ConfigurationFactory::getNConfigs(*FM, 301);
  C.require(bool(All), "error");
  if (All.extractValue().size() > 300) {
    C.tag("too-many-configurations");
    C.discard();
  }
  auto S = enumerate(C, *FM, 1000000);
  auto FP = toFM(P), FQ = toFM(Q);
  auto A = enumerate(C, *FP, 1000000), B = enumerate(C, *FQ, 1000000);
  size_t N = A.size() + B.size();
  A.insert(B.begin(), B.end());
  C.require(N == A.size(), "partition", "a configuration satisfies a constraint and its negation");
  auto R = cmp(S, A);
  C.requireF(R.empty(), "partition", [&] { return R; });
  if (S.size() >= 4) {
    C.nontrivial(M.str());
  }
}

// large models: all options but a few are fixed by further constraints, which
// leaves the configurations that the reference accepts one by one
PROP(fixed, 1500, 20000) {
  GenOpts O = solverOpts(C);
  O.MaxFeatures = static_cast<int>(C.pick<int>({8, 14, 30, 60}));
  O.Tails = true;
  O.Wide = C.chance(1, 6);
  O.Deep = !O.Wide && C.chance(1, 6);
  O.MaxConstraints = static_cast<int>(C.pick<int>({0, 1, 2, 4}));
  Model M = genModel(C, O);
  std::map<std::string, int64_t> A;
  std::vector<std::string> Bins, Nums;
  std::map<int, std::vector<std::string>> Members;
  auto Topo = M.topo();
  for (auto &N : Topo) {
    if (M.F[N].Group >= 0) {
      Members[M.F[N].Group].push_back(N);
    }
  }
  std::set<int> Done;
  for (auto &N : Topo) {
    auto &X = M.F[N];
    if (X.Kind == FK::ROOT) {
      A[N] = 1;
      continue;
    }
    if (X.Kind == FK::NUM) {
      auto D = domain(X);
      if (D.empty()) {
        C.discard();
      }
      A[N] = C.pick(D);
      Nums.push_back(N);
      continue;
    }
    Bins.push_back(N);
    bool P = M.F[X.Parent].Kind == FK::NUM || A[X.Parent] != 0;
    if (X.Group < 0) {
      A[N] = P && (!X.Opt || C.flip());
      continue;
    }
    if (!Done.insert(X.Group).second) {
      continue;
    }
    auto &Ms = Members[X.Group];
    // often only the last members are selected
    size_t One = C.flip() ? Ms.size() - 1 : C.draw(Ms.size() - 1);
    bool More = M.G[X.Group].Or && C.flip();
    for (size_t I = 0; I < Ms.size(); ++I) {
      A[Ms[I]] = P && (I == One || (More && C.flip()));
    }
  }
  // usually not a configuration any more
  for (int64_t K = C.flip() ? C.range(1, 2) : 0; K > 0; --K) {
    if (!Nums.empty() && C.chance(1, 3)) {
      A[C.pick(Nums)] += C.pick<int64_t>({1, -1, 100});
    } else if (!Bins.empty()) {
      auto &V = A[C.pick(Bins)];
      V = !V;
    }
  }
  std::set<std::string> Free;
  for (int64_t K = C.range(0, 4); K > 0 && !Bins.empty(); --K) {
    Free.insert(C.pick(Bins));
  }
  std::vector<std::string> Fs(Free.begin(), Free.end());
  std::set<std::string> Want;
  bool Amb = false;
  for (unsigned B = 0; B < 1U << Fs.size(); ++B) {
    for (size_t I = 0; I < Fs.size(); ++I) {
      A[Fs[I]] = B >> I & 1;
    }
    if (isValid(M, A, &Amb)) {
      std::string S;
      for (auto &[N, V] : A) {
        S += N + "=" + (M.F[N].Kind == FK::NUM ? std::to_string(V) : V ? "true" : "false") + ";";
      }
      Want.insert(S);
    }
  }
  if (Amb) {
    C.tag("ambiguous-division");
    C.discard();
  }
  Model P = M;
  std::string Fix;
  for (auto &[N, V] : A) {
    if (Free.count(N) || N == M.Root) {
      continue;
    }
    Fix += " " + N + "=" + std::to_string(V);
    bool Num = M.F[N].Kind == FK::NUM;
    P.C.push_back(Con{Num ? Cls::NONBOOL : Cls::BOOL,
                      Num ? bin(Op::EQ, feat(N), num(V)) : V ? feat(N) : un(Op::NOT, feat(N))});
  }
  C.describe(M.str() + "\nfixed" + Fix);
  auto FM = toFM(P);
  auto Got = enumerate(C, *FM, 1000);
  auto R = cmp(Want, Got);
  C.requireF(R.empty(), "configurations", [&] { return R; });
  C.eq(vs::ConfigurationFactory::isValid(*FM), !Want.empty(), "is-valid");
  C.tag(Want.empty() ? "unsatisfiable" : "satisfiable");
  if (M.F.size() > 20) {
    C.tag("large");
  }
  if (M.F.size() >= 6) {
    C.nontrivial(M.str() + Fix);
  }
}
