#include "refmodel.h"

#include "vara/Feature/FeatureModelBuilder.h"
#include "vara/Feature/FeatureModelTransaction.h"

#include <cmath>
#include <cstring>

namespace ref {
using namespace vara::feature;
using llvm::dyn_cast;
using llvm::isa;
using pbt::quote;

std::string lower(std::string S) {
  for (auto &Ch : S) {
    if (Ch >= 'A' && Ch <= 'Z') {
      Ch = static_cast<char>(Ch - 'A' + 'a');
    }
  }
  return S;
}

// ---- locations -------------------------------------------------------------
std::string Loc::str() const {
  std::ostringstream S;
  S << (Inessential ? "inessential " : "necessary ") << quote(Path);
  if (Start) {
    S << " s" << Start->first << ":" << Start->second;
  }
  if (End) {
    S << " e" << End->first << ":" << End->second;
  }
  if (Member) {
    S << " m" << quote(*Member);
  }
  if (Intro) {
    S << " i" << quote(*Intro);
  }
  if (Removed) {
    S << " r" << quote(*Removed);
  }
  return S.str();
}

Loc genLoc(pbt::Case &C, bool FullPositions, bool PlainText) {
  Loc L;
  switch (C.weighted({5, 2, 1})) {
  case 0:
    L.Path = C.pick<std::string>({"main.cpp", "src/a.c", "a b.cpp", "/abs/x.h", "x&y.c", "p"});
    break;
  case 1:
    L.Path = "d" + std::to_string(C.range(0, 3)) + "/f" + std::to_string(C.range(0, 3)) + ".cpp";
    break;
  default:
    L.Path = PlainText ? "q.c" : "";
  }
  auto Num = [&]() -> unsigned {
    return static_cast<unsigned>(C.chance(1, 8) ? C.range(0, 2147483647) : C.range(0, 40));
  };
  if (FullPositions || !C.chance(1, 4)) {
    L.Start = std::make_pair(Num(), Num());
  }
  if (FullPositions || !C.chance(1, 4)) {
    L.End = std::make_pair(Num(), Num());
  }
  L.Inessential = C.chance(1, 3);
  if (C.chance(1, 3)) {
    std::string M;
    for (int64_t I = C.range(0, 2); I > 0; --I) {
      M += C.pick<std::string>({"ns", "Cls", "Outer", "x"});
      M += "::";
    }
    if (M.empty()) {
      M = C.flip() ? "Foo::" : "Bar::";
    }
    L.Member = M + C.pick<std::string>({"field", "m", "val_1"});
  }
  if (C.chance(1, 3)) {
    L.Intro = C.pick<std::string>({"94fe792df46e64f438720295742b3b72c407cab6", "a1", "deadbeef"});
    if (C.flip()) {
      L.Removed = C.pick<std::string>({"fe1a471fc9b6b0b2a2b4b1ee7a0b3e2a58c9d4c1", "b2", "cafe"});
    }
  }
  return L;
}

Loc varyLoc(pbt::Case &C, Loc L, bool FullPositions) {
  auto Pos = [&](std::optional<std::pair<unsigned, unsigned>> &P) {
    if (!P) {
      P = std::make_pair(1U, 1U);
    } else if (!FullPositions && C.chance(1, 3)) {
      P.reset();
    } else {
      ++(C.flip() ? P->first : P->second);
    }
  };
  switch (C.draw(6)) {
  case 0:
    L.Inessential = !L.Inessential;
    break;
  case 1:
    Pos(L.Start);
    break;
  case 2:
    Pos(L.End);
    break;
  case 3:
    L.Path += C.pick<std::string>({"x", ".c", "/y"});
    break;
  case 4:
    if (L.Member && C.flip()) {
      L.Member.reset();
    } else {
      L.Member = L.Member ? *L.Member + "2" : "Cls::m";
    }
    break;
  case 5:
    if (L.Intro && C.flip()) {
      L.Intro.reset();
      L.Removed.reset();
    } else {
      L.Intro = L.Intro ? *L.Intro + "0" : "a1";
    }
    break;
  default:
    if (L.Removed) {
      L.Removed.reset();
    } else {
      L.Intro = L.Intro ? *L.Intro : "a1";
      L.Removed = "b2";
    }
  }
  return L;
}

FeatureSourceRange toFSR(const Loc &L) {
  using FSR = FeatureSourceRange;
  std::optional<FSR::FeatureSourceLocation> S, E;
  if (L.Start) {
    S.emplace(L.Start->first, L.Start->second);
  }
  if (L.End) {
    E.emplace(L.End->first, L.End->second);
  }
  std::optional<FSR::FeatureMemberOffset> M;
  if (L.Member) {
    M = FSR::FeatureMemberOffset::createFeatureMemberOffset(*L.Member);
  }
  std::optional<FSR::FeatureRevisionRange> R;
  if (L.Intro) {
    if (L.Removed) {
      R.emplace(*L.Intro, *L.Removed);
    } else {
      R.emplace(*L.Intro);
    }
  }
  return FSR(fs::path(L.Path), S, E,
             L.Inessential ? FSR::Category::inessential : FSR::Category::necessary, M, R);
}

Loc fromFSR(const FeatureSourceRange &Const) {
  FeatureSourceRange F = Const;
  Loc L;
  L.Path = F.getPath().string();
  if (F.hasStart()) {
    L.Start = {F.getStart()->getLineNumber(), F.getStart()->getColumnOffset()};
  }
  if (F.hasEnd()) {
    L.End = {F.getEnd()->getLineNumber(), F.getEnd()->getColumnOffset()};
  }
  L.Inessential = F.getCategory() == FeatureSourceRange::Category::inessential;
  if (F.hasMemberOffset()) {
    L.Member = F.getMemberOffset()->toString();
  }
  if (F.hasRevisionRange()) {
    L.Intro = F.revisionRange()->introducingCommit().str();
    if (F.revisionRange()->hasRemovingCommit()) {
      L.Removed = F.revisionRange()->removingCommit().str();
    }
  }
  return L;
}

// ---- step functions --------------------------------------------------------
double Step::next(double V) const {
  switch (Op) {
  case 0:
    return V + Num;
  case 1:
    return V * Num;
  default:
    return VarLeft ? std::pow(V, Num) : std::pow(Num, V);
  }
}

std::string stepKey(const std::function<double(double)> &F) {
  std::string R;
  char B[64];
  for (double V : {0.0, 1.0, 2.0, 3.0, 7.0, 2.5, 10.0, 1000.0}) {
    snprintf(B, sizeof B, "%a,", F(V));
    R += B;
  }
  return R;
}
std::string Step::key() const {
  return stepKey([this](double V) { return next(V); });
}

std::unique_ptr<StepFunction> toStep(const Step &S) {
  auto O = S.Op == 0   ? StepFunction::StepOperation::ADDITION
           : S.Op == 1 ? StepFunction::StepOperation::MULTIPLICATION
                       : StepFunction::StepOperation::EXPONENTIATION;
  return S.VarLeft ? std::make_unique<StepFunction>(O, S.Num)
                   : std::make_unique<StepFunction>(S.Num, O);
}

// ---- constraints -----------------------------------------------------------
E feat(const std::string &N) { return std::make_shared<Expr>(Expr{Op::FEAT, 0, N, {}, {}}); }
E num(int64_t V) { return std::make_shared<Expr>(Expr{Op::INT, V, "", {}, {}}); }
E un(Op O, E L) { return std::make_shared<Expr>(Expr{O, 0, "", std::move(L), {}}); }
E bin(Op O, E L, E R) {
  return std::make_shared<Expr>(Expr{O, 0, "", std::move(L), std::move(R)});
}
bool isBinary(Op O) {
  return O != Op::FEAT && O != Op::INT && O != Op::NEG && O != Op::NOT;
}
const char *opText(Op O) {
  switch (O) {
  case Op::ADD: return "+";
  case Op::AND: return "&";
  case Op::DIV: return "/";
  case Op::EQ: return "=";
  case Op::EQUIV: return "<=>";
  case Op::EXCL: return "excludes";
  case Op::GT: return ">";
  case Op::GE: return ">=";
  case Op::IMPL: return "=>";
  case Op::LT: return "<";
  case Op::LE: return "<=";
  case Op::MUL: return "*";
  case Op::NEG: return "~";
  case Op::NOT: return "!";
  case Op::NE: return "!=";
  case Op::OR: return "|";
  case Op::SUB: return "-";
  case Op::XOR: return "^";
  default: return "?";
  }
}
std::string str(const E &X) {
  switch (X->O) {
  case Op::FEAT:
    return X->N;
  case Op::INT:
    return std::to_string(X->V);
  case Op::NEG:
  case Op::NOT:
    return std::string("[") + opText(X->O) + " " + str(X->L) + "]";
  default:
    return std::string("[") + opText(X->O) + " " + str(X->L) + " " + str(X->R) + "]";
  }
}
std::string infix(const E &X) {
  switch (X->O) {
  case Op::FEAT:
    return X->N;
  case Op::INT:
    return std::to_string(X->V);
  case Op::NEG:
  case Op::NOT:
    return opText(X->O) + infix(X->L);
  case Op::EXCL:
    return "(" + infix(X->L) + " => !" + infix(X->R) + ")";
  default:
    return "(" + infix(X->L) + " " + opText(X->O) + " " + infix(X->R) + ")";
  }
}
E normText(const E &X) {
  switch (X->O) {
  case Op::FEAT:
  case Op::INT:
    return X;
  case Op::NEG:
  case Op::NOT:
    return un(X->O, normText(X->L));
  case Op::EXCL:
    return bin(Op::IMPL, normText(X->L), un(Op::NOT, normText(X->R)));
  default:
    return bin(X->O, normText(X->L), normText(X->R));
  }
}
void featuresOf(const E &X, std::set<std::string> &Out) {
  if (X->O == Op::FEAT) {
    Out.insert(X->N);
  }
  if (X->L) {
    featuresOf(X->L, Out);
  }
  if (X->R) {
    featuresOf(X->R, Out);
  }
}
size_t depthOf(const E &X) {
  return 1 + std::max(X->L ? depthOf(X->L) : 0, X->R ? depthOf(X->R) : 0);
}

std::unique_ptr<Constraint> toConstraint(const E &X) {
  auto L = [&] { return toConstraint(X->L); };
  auto R = [&] { return toConstraint(X->R); };
  switch (X->O) {
  case Op::FEAT:
    return std::make_unique<PrimaryFeatureConstraint>(std::make_unique<Feature>(X->N));
  case Op::INT:
    return std::make_unique<PrimaryIntegerConstraint>(X->V);
  case Op::ADD:
    return std::make_unique<AdditionConstraint>(L(), R());
  case Op::AND:
    return std::make_unique<AndConstraint>(L(), R());
  case Op::DIV:
    return std::make_unique<DivisionConstraint>(L(), R());
  case Op::EQ:
    return std::make_unique<EqualConstraint>(L(), R());
  case Op::EQUIV:
    return std::make_unique<EquivalenceConstraint>(L(), R());
  case Op::EXCL:
    return std::make_unique<ExcludesConstraint>(L(), R());
  case Op::GT:
    return std::make_unique<GreaterConstraint>(L(), R());
  case Op::GE:
    return std::make_unique<GreaterEqualConstraint>(L(), R());
  case Op::IMPL:
    return std::make_unique<ImpliesConstraint>(L(), R());
  case Op::LT:
    return std::make_unique<LessConstraint>(L(), R());
  case Op::LE:
    return std::make_unique<LessEqualConstraint>(L(), R());
  case Op::MUL:
    return std::make_unique<MultiplicationConstraint>(L(), R());
  case Op::NEG:
    return std::make_unique<NegConstraint>(L());
  case Op::NOT:
    return std::make_unique<NotConstraint>(L());
  case Op::NE:
    return std::make_unique<NotEqualConstraint>(L(), R());
  case Op::OR:
    return std::make_unique<OrConstraint>(L(), R());
  case Op::SUB:
    return std::make_unique<SubtractionConstraint>(L(), R());
  case Op::XOR:
    return std::make_unique<XorConstraint>(L(), R());
  }
  return nullptr;
}

E fromConstraint(Constraint *C) {
  using K = Constraint::ConstraintKind;
  if (!C) {
    return feat("<null>");
  }
  auto B = [&](Op O) {
    auto *X = static_cast<BinaryConstraint *>(C);
    return bin(O, fromConstraint(X->getLeftOperand()), fromConstraint(X->getRightOperand()));
  };
  auto U = [&](Op O) {
    return un(O, fromConstraint(static_cast<UnaryConstraint *>(C)->getOperand()));
  };
  switch (C->getKind()) {
  case K::CK_FEATURE:
    return feat(static_cast<PrimaryFeatureConstraint *>(C)->getFeature()->getName().str());
  case K::CK_INTEGER:
    return num(static_cast<PrimaryIntegerConstraint *>(C)->getValue());
  case K::CK_ADDITION: return B(Op::ADD);
  case K::CK_AND: return B(Op::AND);
  case K::CK_DIVISION: return B(Op::DIV);
  case K::CK_EQUAL: return B(Op::EQ);
  case K::CK_EQUIVALENCE: return B(Op::EQUIV);
  case K::CK_EXCLUDES: return B(Op::EXCL);
  case K::CK_GREATER: return B(Op::GT);
  case K::CK_GREATER_EQUAL: return B(Op::GE);
  case K::CK_IMPLIES: return B(Op::IMPL);
  case K::CK_LESS: return B(Op::LT);
  case K::CK_LESS_EQUAL: return B(Op::LE);
  case K::CK_MULTIPLICATION: return B(Op::MUL);
  case K::CK_NEG: return U(Op::NEG);
  case K::CK_NOT: return U(Op::NOT);
  case K::CK_NOT_EQUAL: return B(Op::NE);
  case K::CK_OR: return B(Op::OR);
  case K::CK_SUBTRACTION: return B(Op::SUB);
  case K::CK_XOR: return B(Op::XOR);
  default:
    return feat("<unknown-kind>");
  }
}

std::string Con::str() const {
  std::string P = C == Cls::BOOL ? "bool " : C == Cls::NONBOOL ? "nonbool " : "mixed ";
  if (C == Cls::MIXED) {
    P += std::string(ReqAll ? "all " : "none ") + (Neg ? "neg " : "pos ");
  }
  return P + ref::str(X);
}

// ---- model helpers ---------------------------------------------------------
std::vector<std::string> Model::childrenOf(const std::string &P) const {
  std::vector<std::string> R;
  for (auto &[N, X] : F) {
    if (X.Kind != FK::ROOT && X.Parent == P) {
      R.push_back(N);
    }
  }
  return R;
}
std::vector<std::string> Model::members(int Id) const {
  std::vector<std::string> R;
  for (auto &[N, X] : F) {
    if (X.Group == Id) {
      R.push_back(N);
    }
  }
  return R;
}
bool Model::isAncestor(const std::string &A, const std::string &D) const {
  std::string X = D;
  for (size_t I = 0; I <= F.size(); ++I) {
    if (X == A) {
      return true;
    }
    auto It = F.find(X);
    if (It == F.end() || It->second.Kind == FK::ROOT) {
      return false;
    }
    X = It->second.Parent;
  }
  return false;
}
std::vector<std::string> Model::subtree(const std::string &P) const {
  std::vector<std::string> R;
  for (auto &[N, X] : F) {
    if (isAncestor(P, N)) {
      R.push_back(N);
    }
  }
  return R;
}
std::vector<std::string> Model::topo() const {
  std::vector<std::string> R{Root};
  for (size_t I = 0; I < R.size(); ++I) {
    for (auto &N : childrenOf(R[I])) {
      R.push_back(N);
    }
  }
  return R;
}
int Model::groupOf(const std::string &P) const {
  for (auto &[Id, X] : G) {
    if (X.Parent == P) {
      return Id;
    }
  }
  return -1;
}

static std::string featStr(const Feat &X) {
  std::ostringstream S;
  const char *K[] = {"root", "bin", "num", "unknown"};
  S << K[static_cast<int>(X.Kind)] << " " << quote(X.Name);
  if (X.Kind != FK::ROOT) {
    S << " parent=" << quote(X.Parent);
  }
  if (X.Group >= 0) {
    S << " group#" << X.Group;
  }
  if (X.Opt) {
    S << " optional";
  }
  if (!X.Out.empty()) {
    S << " out=" << quote(X.Out);
  }
  if (X.Kind == FK::NUM) {
    if (X.IsRange) {
      S << " range=" << X.Min << ".." << X.Max;
    } else {
      S << " values=";
      for (auto V : X.Vals) {
        S << V << ";";
      }
    }
    if (X.St) {
      S << " step=" << (X.St->VarLeft ? "x" : "") << (X.St->Op < 0 ? "?" : std::string(1, "+*^"[X.St->Op])) << X.St->Num;
    }
  }
  for (auto &L : X.Locs) {
    S << " loc{" << L.str() << "}";
  }
  return S.str();
}

std::string Model::str() const {
  std::ostringstream S;
  S << "model " << quote(Name) << " path=" << quote(Path) << " commit=" << quote(Commit) << "\n";
  for (auto &N : topo()) {
    S << "  " << featStr(F.at(N)) << "\n";
  }
  for (auto &[Id, X] : G) {
    S << "  group#" << Id << " " << (X.Or ? "OR" : "ALTERNATIVE") << " of " << quote(X.Parent)
      << "\n";
  }
  for (auto &X : C) {
    S << "  constraint " << X.str() << "\n";
  }
  return S.str();
}

// ---- generation ------------------------------------------------------------
std::string genText(pbt::Case &C, int MaxLen, bool TrimBoth) {
  static const std::vector<std::string> Atoms = {
      "a", "b", "Z", "0", "-", "_", ".", "/", "=", " ", "&", "<", ">", "\"", "'", "%", "\\",
      "$", "#", "é", "漢", "🙂", ";", ":", "{", "}", "|", "]]>", "&amp;", "--", "\t", "\n"};
  std::string S;
  int64_t N = C.range(0, MaxLen);
  for (int64_t I = 0; I < N; ++I) {
    S += C.pick(Atoms);
  }
  auto Sp = [](char Ch) { return Ch == ' ' || Ch == '\t' || Ch == '\n'; };
  while (!S.empty() && Sp(S.front())) {
    S.erase(S.begin());
  }
  while (TrimBoth && !S.empty() && Sp(S.back())) {
    S.pop_back();
  }
  return S;
}

std::string genName(pbt::Case &C, const Model &M, bool Weird) {
  static const std::vector<std::string> Base = {"a", "b", "c", "F", "opt", "Num", "x_1", "k",
                                                "feature_A", "B2", "e5", "Or", "q", "and"};
  std::string N;
  if (Weird && C.chance(1, 4)) {
    static const std::vector<std::string> W = {"a-b", "1st", "_u", "with space", "x&y", "<t>",
                                               "é", "q\"q", "a.b", "漢字", "p'q", "a;b", "c++"};
    N = C.pick(W);
  } else {
    N = C.pick(Base);
    if (C.flip()) {
      N += C.pick<std::string>({"_", "1", "A", "b", "_2"});
    }
  }
  auto Used = [&](const std::string &S) {
    std::string L = lower(S);
    if (L == "root" || L == "base" || L == "or" || L == "x") {
      return true;
    }
    for (auto &[K, X] : M.F) {
      if (lower(K) == L) {
        return true;
      }
    }
    return false;
  };
  if (!M.F.empty() && C.chance(1, 10)) {
    // a different feature whose name differs from another's in case only
    std::vector<std::string> Ns;
    for (auto &[K, X] : M.F) {
      if (X.Kind != FK::ROOT) {
        Ns.push_back(K);
      }
    }
    if (!Ns.empty()) {
      std::string V = C.pick(Ns);
      bool Up = C.flip();
      for (auto &Ch : V) {
        if (Up ? (Ch >= 'a' && Ch <= 'z') : (Ch >= 'A' && Ch <= 'Z')) {
          Ch ^= 0x20;
          if (C.flip()) {
            break;
          }
        }
      }
      if (!M.F.count(V)) {
        return V;
      }
    }
  }
  int I = 0;
  std::string R = N;
  while (Used(R)) {
    R = N + std::to_string(++I);
  }
  return R;
}

Feat genFeat(pbt::Case &C, const Model &M, const GenOpts &O) {
  Feat X;
  X.Name = genName(C, M, O.WeirdNames);
  bool Tail = O.Tails && C.chance(1, 40);
  if (Tail && C.flip()) { // a long name
    std::string L = X.Name + std::string(static_cast<size_t>(C.range(20, C.chance(1, 4) ? 2000 : 200)), C.flip() ? 'n' : 'Q');
    bool New = true;
    for (auto &[K, Y] : M.F) {
      New &= lower(K) != lower(L);
    }
    if (New) {
      X.Name = L;
    }
  }
  X.Kind = FK::BIN;
  if (O.Numeric && C.chance(1, 4)) {
    X.Kind = FK::NUM;
  } else if (O.Unknown && C.chance(1, 12)) {
    X.Kind = FK::UNKNOWN;
  }
  X.Opt = X.Kind != FK::UNKNOWN && C.flip();
  if (O.Outputs && X.Kind != FK::UNKNOWN && C.flip()) {
    X.Out = C.flip() ? "-" + X.Name : genText(C, Tail ? (C.chance(1, 4) ? 3000 : 300) : 6, false);
  }
  if (O.Locations && C.chance(1, 3)) {
    for (int64_t K = C.range(1, Tail ? (C.chance(1, 6) ? 100 : 20) : 3); K > 0; --K) {
      X.Locs.push_back(!X.Locs.empty() && C.chance(1, 3)
                           ? varyLoc(C, C.pick(X.Locs), !O.PartialLocations)
                           : genLoc(C, !O.PartialLocations));
    }
  }
  if (X.Kind == FK::NUM) {
    X.IsRange = C.flip();
    if (O.BigNumbers) {
      if (X.IsRange) {
        X.Min = C.int64();
        X.Max = C.int64();
      } else {
        for (int64_t K = C.range(1, Tail ? (C.chance(1, 4) ? 400 : 40) : 4); K > 0; --K) {
          X.Vals.push_back(C.int64());
        }
      }
    } else if (X.IsRange) {
      X.Min = C.range(-3, 4);
      X.Max = X.Min + C.range(0, 5);
    } else {
      for (int64_t K = C.range(1, Tail ? (C.chance(1, 4) ? 400 : 40) : 4); K > 0; --K) {
        X.Vals.push_back(C.range(-4, 9));
      }
    }
    if (O.Steps && (O.BigNumbers ? C.flip() : X.IsRange ? C.chance(3, 4) : C.chance(1, 4))) {
      Step S;
      S.Op = static_cast<int>(C.range(0, 2));
      S.VarLeft = !C.flip();
      if (O.BigNumbers) {
        S.Num = static_cast<double>(C.range(0, 100000)) / C.pick<double>({1, 2, 3, 10, 1000});
      } else {
        // small steps that make progress from every start value
        S.Num = static_cast<double>(C.range(1, 3));
        if (S.Op != 0) {
          S.Num += 1;
          if (X.IsRange) {
            X.Min = C.range(2, 4);
            X.Max = X.Min + C.range(0, 14);
          }
        }
      }
      X.St = S;
    }
  }
  return X;
}

static E genAnyRec(pbt::Case &C, const std::vector<std::string> &Names, int Depth, bool AllOps);
E genAny(pbt::Case &C, const std::vector<std::string> &Names, int Depth, bool AllOps) {
  E X = genAnyRec(C, Names, Depth, AllOps);
  if (!C.chance(1, 50)) {
    return X;
  }
  // a tall one, leaning to the left, the right or both
  unsigned Side = static_cast<unsigned>(C.range(0, 2));
  for (int64_t K = C.range(10, 300); K > 0; --K) {
    E Y = genAnyRec(C, Names, 1, AllOps);
    if (!isBinary(Y->O) || !Y->L || !Y->R) {
      X = Y->O == Op::NOT || Y->O == Op::NEG ? un(Y->O, X) : bin(Op::AND, X, Y);
    } else if (Side == 0 || (Side == 2 && C.flip())) {
      X = bin(Y->O, X, Y->R);
    } else {
      X = bin(Y->O, Y->L, X);
    }
  }
  return X;
}
static E genAnyRec(pbt::Case &C, const std::vector<std::string> &Names, int Depth, bool AllOps) {
  if (Depth <= 0 || C.chance(1, 4)) {
    if (C.chance(1, 4)) {
      int64_t V = C.int64();
      return num(AllOps ? V : (V < 0 ? -(V + 1) : V));
    }
    return feat(C.pick(Names));
  }
  static const std::vector<Op> Ops = {Op::AND, Op::OR, Op::NOT, Op::IMPL, Op::EQUIV, Op::ADD,
                                      Op::SUB, Op::MUL, Op::LT, Op::GT, Op::LE, Op::GE, Op::EQ,
                                      Op::NE, Op::NEG, Op::EXCL, Op::XOR, Op::DIV};
  Op O = AllOps ? C.pick(Ops) : Ops[C.draw(14)];
  if (!isBinary(O)) {
    return un(O, genAnyRec(C, Names, Depth - 1, AllOps));
  }
  E L = genAnyRec(C, Names, Depth - 1, AllOps);
  return bin(O, L, genAnyRec(C, Names, Depth - 1, AllOps));
}

static E genIntE(pbt::Case &C, const std::vector<std::string> &Bins,
                 const std::vector<std::string> &Nums, int Depth, bool Mixed, bool Big) {
  if (Depth <= 0 || C.chance(2, 5)) {
    bool HaveB = Mixed && !Bins.empty();
    switch (C.weighted({Nums.empty() ? 0U : 4U, HaveB ? 4U : 0U, 2U})) {
    case 0:
      return feat(C.pick(Nums));
    case 1:
      return feat(C.pick(Bins));
    default:
      return num(Big ? C.int64() : C.range(-3, 9));
    }
  }
  Op O = C.pick<Op>({Op::ADD, Op::SUB, Op::MUL, Op::NEG, Op::DIV});
  if (O == Op::NEG) {
    return un(O, genIntE(C, Bins, Nums, Depth - 1, Mixed, Big));
  }
  E L = genIntE(C, Bins, Nums, Depth - 1, Mixed, Big);
  if (O == Op::DIV) {
    return bin(O, L, num(C.range(1, 4)));
  }
  return bin(O, L, genIntE(C, Bins, Nums, Depth - 1, Mixed, Big));
}

E genBool(pbt::Case &C, const std::vector<std::string> &Bins,
          const std::vector<std::string> &Nums, int Depth, bool Mixed, bool Big) {
  bool Leaf = Depth <= 0 || C.chance(1, 4);
  bool Comp = Mixed || Bins.empty() || (!Nums.empty() && C.chance(1, 3));
  if (Leaf || (Mixed && C.chance(1, 2))) {
    if (!Comp) {
      return feat(C.pick(Bins));
    }
    Op O = C.pick<Op>({Op::EQ, Op::NE, Op::LT, Op::GT, Op::LE, Op::GE});
    E L = genIntE(C, Bins, Nums, std::min(Depth, 2), Mixed, Big);
    return bin(O, L, genIntE(C, Bins, Nums, std::min(Depth, 2), Mixed, Big));
  }
  Op O = C.pick<Op>({Op::AND, Op::OR, Op::NOT, Op::IMPL, Op::EXCL, Op::EQUIV, Op::XOR, Op::EQ,
                     Op::NE});
  E L = genBool(C, Bins, Nums, Depth - 1, Mixed, Big);
  if (O == Op::NOT) {
    return un(O, L);
  }
  return bin(O, L, genBool(C, Bins, Nums, Depth - 1, Mixed, Big));
}

static bool identifier(const std::string &S) {
  if (S.empty() || !isalpha(static_cast<unsigned char>(S[0])) || S == "or") {
    return false;
  }
  for (unsigned char Ch : S) {
    if (Ch >= 128 || !(isalnum(Ch) || Ch == '_')) {
      return false;
    }
  }
  return true;
}

Con genCon(pbt::Case &C, const Model &M, const GenOpts &O) {
  std::vector<std::string> Bins, Nums;
  for (auto &[N, X] : M.F) {
    if (!identifier(N)) {
      continue;
    }
    if (X.Kind == FK::NUM) {
      Nums.push_back(N);
    } else if (X.Kind != FK::UNKNOWN) {
      Bins.push_back(N);
    }
  }
  Con X;
  if (!M.C.empty() && C.chance(1, 8)) {
    // one that is already there, or its converse
    X = C.pick(M.C);
    if (isBinary(X.X->O) && C.flip()) {
      X.X = bin(X.X->O, X.X->R, X.X->L);
    }
    return X;
  }
  if (!M.G.empty() && C.chance(1, 10)) {
    // relate members of a group
    auto It = M.G.begin();
    std::advance(It, C.draw(M.G.size() - 1));
    std::vector<std::string> Ms;
    for (auto &N : M.members(It->first)) {
      if (std::find(Bins.begin(), Bins.end(), N) != Bins.end()) {
        Ms.push_back(N);
      }
    }
    if (!Ms.empty()) {
      X.X = bin(C.chance(2, 3) ? Op::EXCL : Op::IMPL, feat(C.pick(Ms)), feat(C.pick(Ms)));
      return X;
    }
  }
  size_t Which = C.weighted({4, 3, 3, Nums.empty() ? 0U : 3U, O.MixedConstraints ? 3U : 0U});
  switch (Which) {
  case 0:
    X.X = bin(Op::IMPL, feat(C.pick(Bins)), feat(C.pick(Bins)));
    break;
  case 1:
    X.X = bin(Op::EXCL, feat(C.pick(Bins)), feat(C.pick(Bins)));
    break;
  case 2:
    X.X = genBool(C, Bins, {}, static_cast<int>(C.range(1, 3)), false, O.BigNumbers);
    break;
  case 3:
    X.C = Cls::NONBOOL;
    X.X = genBool(C, Bins, Nums, static_cast<int>(C.range(0, 2)), false, O.BigNumbers);
    break;
  default:
    X.C = Cls::MIXED;
    X.X = genBool(C, Bins, Nums, static_cast<int>(C.range(0, 2)), true, O.BigNumbers);
    X.ReqAll = !C.flip();
    X.Neg = C.flip();
  }
  if (C.chance(1, 10) && X.C == Cls::BOOL) {
    X.C = Cls::NONBOOL;
  }
  return X;
}

Model genModel(pbt::Case &C, const GenOpts &Opts) {
  GenOpts O = Opts;
  bool Huge = false;
  if (O.Tails && C.chance(1, 40)) {
    O.MaxFeatures *= 5;
    O.MaxConstraints *= 3;
    O.Deep = C.flip();
    O.Wide = !O.Deep && C.flip();
    Huge = C.chance(1, 6);
  }
  Model M;
  if (O.Meta) {
    M.Name = genText(C, 4);
    if (M.Name.empty()) {
      M.Name = "TestVM";
    }
    M.Path = C.pick<std::string>({"/tmp", "rel/dir", "a b", "p&q", "x"});
    M.Commit = C.pick<std::string>({"", "94fe792df46e64f438720295742b3b72c407cab6", "abc", "c&d"});
  } else {
    M.Name = "TestVM";
    M.Path = "/tmp";
  }
  Feat R;
  R.Kind = FK::ROOT;
  R.Name = O.RootOrBase ? C.pick<std::string>({"root", "base"})
                        : C.pick<std::string>({"root", "base", "Car", "SystemRoot"});
  if (O.RootLocations && C.chance(1, 4)) {
    for (int64_t K = C.range(1, 2); K > 0; --K) {
      R.Locs.push_back(genLoc(C, !O.PartialLocations));
    }
  }
  M.Root = R.Name;
  M.F[R.Name] = R;
  int64_t N = Huge ? C.range(60, 320) : C.sized(0, O.MaxFeatures);
  if (Huge) {
    O.Locations = O.Locations && C.flip();
  }
  std::vector<std::string> Can{M.Root};
  int NextGroup = 0;
  // a feature, possibly a group of features, at a time
  int64_t Left = N;
  while (Left > 0) {
    std::string P = Can[Can.size() - 1 - (O.Deep ? C.draw(std::min<size_t>(1, Can.size() - 1)) : C.draw(Can.size() - 1))];
    if (O.Wide && C.chance(7, 8)) { // many siblings
      P = Can[std::min<size_t>(Can.size() - 1, 1)];
    }
    bool HasGroup = M.groupOf(P) >= 0, HasDirect = false;
    for (auto &K : M.childrenOf(P)) {
      HasDirect |= M.F[K].Group < 0;
    }
    bool MakeGroup = O.Groups && !HasGroup && (!HasDirect || O.MixedChildren) && C.chance(1, 3);
    if (!MakeGroup && HasGroup && !O.MixedChildren) {
      // only full groups: choose another parent
      std::vector<std::string> Free;
      for (auto &K : Can) {
        if (M.groupOf(K) < 0) {
          Free.push_back(K);
        }
      }
      if (Free.empty()) {
        break;
      }
      P = C.pick(Free);
    }
    int64_t Size = MakeGroup ? C.range(O.SingleGroups ? 1 : 2, O.Tails && C.chance(1, 20) ? (C.chance(1, 6) ? 70 : 12) : 4) : 1;
    int Id = -1;
    if (MakeGroup) {
      Id = NextGroup++;
      M.G[Id] = Group{O.OrGroups && C.flip(), P};
    }
    for (int64_t K = 0; K < Size; ++K) {
      GenOpts O2 = O;
      if (MakeGroup && !O.NumericAnywhere) {
        O2.Numeric = false;
      }
      Feat X = genFeat(C, M, O2);
      X.Parent = P;
      X.Group = Id;
      if (Id >= 0 && !O.OptInGroups) {
        X.Opt = false;
      }
      M.F[X.Name] = X;
      if ((X.Kind == FK::BIN) || ((O.NumericAnywhere || O.NumericParents) && X.Kind == FK::NUM)) {
        Can.push_back(X.Name);
      }
      --Left;
    }
  }
  for (int64_t K = C.range(0, O.MaxConstraints); K > 0; --K) {
    M.C.push_back(genCon(C, M, O));
  }
  return M;
}

// ---- building --------------------------------------------------------------
static std::vector<FeatureSourceRange> fsrs(const Feat &X) {
  std::vector<FeatureSourceRange> R;
  for (auto &L : X.Locs) {
    R.push_back(toFSR(L));
  }
  return R;
}

std::unique_ptr<Feature> makeFeature(const Feat &X) {
  switch (X.Kind) {
  case FK::ROOT:
    return std::make_unique<RootFeature>(X.Name);
  case FK::BIN:
    return std::make_unique<BinaryFeature>(X.Name, X.Opt, fsrs(X), X.Out);
  case FK::NUM: {
    NumericFeature::ValuesVariantType V;
    if (X.IsRange) {
      V = NumericFeature::ValueRangeType{X.Min, X.Max};
    } else {
      V = X.Vals;
    }
    return std::make_unique<NumericFeature>(X.Name, V, X.Opt, fsrs(X), X.Out,
                                            X.St ? toStep(*X.St) : nullptr);
  }
  case FK::UNKNOWN: {
    auto R = std::make_unique<Feature>(X.Name);
    for (auto &L : X.Locs) {
      R->addLocation(toFSR(L));
    }
    return R;
  }
  }
  return nullptr;
}

template <class T> static void addCon(T &B, const Con &X) {
  switch (X.C) {
  case Cls::BOOL:
    B.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(toConstraint(X.X)));
    break;
  case Cls::NONBOOL:
    B.addConstraint(std::make_unique<FeatureModel::NonBooleanConstraint>(toConstraint(X.X)));
    break;
  case Cls::MIXED:
    B.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
        toConstraint(X.X),
        X.ReqAll ? FeatureModel::MixedConstraint::Req::ALL
                 : FeatureModel::MixedConstraint::Req::NONE,
        X.Neg ? FeatureModel::MixedConstraint::ExprKind::NEG
              : FeatureModel::MixedConstraint::ExprKind::POS));
    break;
  }
}

std::unique_ptr<FeatureModel> toFM(const Model &M) {
  // features that sit beside a group (with their subtrees) can only be added
  // once the group exists
  std::set<std::string> Late;
  for (auto &N : M.topo()) {
    const Feat &X = M.F.at(N);
    if (X.Kind == FK::ROOT) {
      continue;
    }
    if (Late.count(X.Parent) || (X.Group < 0 && M.groupOf(X.Parent) >= 0)) {
      Late.insert(N);
    }
  }
  FeatureModelBuilder B;
  B.setVmName(M.Name)->setPath(M.Path)->setCommit(M.Commit);
  B.makeRoot(M.Root);
  for (auto &N : M.topo()) {
    const Feat &X = M.F.at(N);
    if (X.Kind == FK::ROOT || Late.count(N)) {
      continue;
    }
    switch (X.Kind) {
    case FK::BIN:
      B.makeFeature<BinaryFeature>(X.Name, X.Opt, fsrs(X), X.Out);
      break;
    case FK::NUM:
      if (X.IsRange) {
        B.makeFeature<NumericFeature>(
            X.Name, NumericFeature::ValueRangeType{X.Min, X.Max}, X.Opt, fsrs(X), X.Out,
            X.St ? toStep(*X.St) : std::unique_ptr<StepFunction>());
      } else {
        B.makeFeature<NumericFeature>(X.Name, X.Vals, X.Opt, fsrs(X), X.Out,
                                      X.St ? toStep(*X.St) : std::unique_ptr<StepFunction>());
      }
      break;
    default:
      B.makeFeature<Feature>(X.Name);
    }
    B.addEdge(X.Parent, X.Name);
  }
  for (auto &[Id, X] : M.G) {
    if (Late.count(X.Parent)) {
      continue;
    }
    B.emplaceRelationship(X.Or ? Relationship::RelationshipKind::RK_OR
                               : Relationship::RelationshipKind::RK_ALTERNATIVE,
                          X.Parent);
  }
  if (Late.empty()) {
    for (auto &X : M.C) {
      addCon(B, X);
    }
  }
  auto FM = B.buildFeatureModel();
  if (!FM) {
    throw pbt::Failure{"builder-refused", "the builder refused a valid model\n" + M.str()};
  }
  if (!Late.empty()) {
    std::set<int> Done;
    for (auto &[Id, X] : M.G) {
      if (!Late.count(X.Parent)) {
        Done.insert(Id);
      }
    }
    // parents first, members of a group before the children beside it
    std::vector<std::string> Todo;
    for (auto &N : M.topo()) {
      if (Late.count(N)) {
        Todo.push_back(N);
      }
    }
    for (size_t I = 0; I < Todo.size(); ++I) {
      const std::string N = Todo[I];
      const Feat &X = M.F.at(N);
      int Sibling = X.Group < 0 ? M.groupOf(X.Parent) : -1;
      if (!FM->getFeature(X.Parent) || (Sibling >= 0 && !Done.count(Sibling))) {
        Todo.push_back(N);
        continue;
      }
      auto T = FeatureModelModifyTransaction::openTransaction(*FM);
      T.addFeature(makeFeature(X), FM->getFeature(X.Parent));
      T.commit();
      for (auto &[Id, G] : M.G) {
        if (G.Parent == N && M.members(Id).empty()) {
          Done.insert(Id);
          addRelationship(*FM, N, G.Or ? Relationship::RelationshipKind::RK_OR
                                       : Relationship::RelationshipKind::RK_ALTERNATIVE);
        }
      }
      // a late parent's group is formed as soon as all its members are there
      if (X.Group >= 0 && !Done.count(X.Group)) {
        bool All = true;
        for (auto &K : M.members(X.Group)) {
          All &= FM->getFeature(K) != nullptr;
        }
        if (All) {
          Done.insert(X.Group);
          addRelationship(*FM, X.Parent,
                          M.G.at(X.Group).Or ? Relationship::RelationshipKind::RK_OR
                                             : Relationship::RelationshipKind::RK_ALTERNATIVE);
        }
      }
    }
    auto T = FeatureModelModifyTransaction::openTransaction(*FM);
    for (auto &X : M.C) {
      addCon(T, X);
    }
    if (!T.commit()) {
      throw pbt::Failure{"constraints-refused", "valid constraints refused\n" + M.str()};
    }
  }
  for (auto &[N, X] : M.F) {
    auto *F = FM->getFeature(N);
    if (X.Kind == FK::ROOT || (X.Kind == FK::UNKNOWN && !F->hasLocations())) {
      for (auto &L : X.Locs) {
        F->addLocation(toFSR(L));
      }
    }
  }
  return FM;
}

Model fromFM(FeatureModel &FM) {
  Model M;
  M.Name = FM.getName().str();
  M.Path = FM.getPath().string();
  M.Commit = FM.getCommit().str();
  M.Root = FM.getRoot() ? FM.getRoot()->getName().str() : "<none>";
  const FeatureModel &CFM = FM;
  std::map<const FeatureTreeNode *, int> Ids;
  // group ids in an order independent of addresses
  {
    std::vector<std::pair<std::string, Relationship *>> Rs;
    for (auto &R : CFM.relationships()) {
      std::string K = R->getKind() == Relationship::RelationshipKind::RK_OR ? "O" : "A";
      auto *P = R->getParent() ? dyn_cast<Feature>(R->getParent()) : nullptr;
      K += P ? P->getName().str() : "<none>";
      std::set<std::string> Ms;
      for (auto *X : R->children()) {
        if (auto *XF = dyn_cast<Feature>(X)) {
          Ms.insert(XF->getName().str());
        }
      }
      for (auto &X : Ms) {
        K += "|" + X;
      }
      Rs.emplace_back(K, R.get());
    }
    std::sort(Rs.begin(), Rs.end(), [](auto &A, auto &B) { return A.first < B.first; });
    int Next = 0;
    for (auto &[K, R] : Rs) {
      auto *P = R->getParent() ? dyn_cast<Feature>(R->getParent()) : nullptr;
      M.G[Next] = Group{R->getKind() == Relationship::RelationshipKind::RK_OR,
                        P ? P->getName().str() : "<none>"};
      Ids[R] = Next++;
    }
  }
  for (auto *F : CFM.unorderedFeatures()) {
    Feat X;
    X.Name = F->getName().str();
    X.Opt = F->isOptional();
    X.Out = F->getOutputString().str();
    for (auto &L : F->getLocations()) {
      X.Locs.push_back(fromFSR(L));
    }
    switch (F->getKind()) {
    case Feature::FeatureKind::FK_ROOT:
      X.Kind = FK::ROOT;
      break;
    case Feature::FeatureKind::FK_BINARY:
      X.Kind = FK::BIN;
      break;
    case Feature::FeatureKind::FK_NUMERIC: {
      X.Kind = FK::NUM;
      auto *NF = static_cast<NumericFeature *>(F);
      auto V = NF->getValues();
      if (std::holds_alternative<NumericFeature::ValueRangeType>(V)) {
        X.IsRange = true;
        std::tie(X.Min, X.Max) = std::get<NumericFeature::ValueRangeType>(V);
      } else {
        X.Vals = std::get<NumericFeature::ValueListType>(V);
      }
      if (auto *S = NF->getStepFunction()) {
        // behaviour only: kept in the Num/Op fields if it matches, see diff
        Step St;
        St.Op = -1;
        X.St = St;
        X.Out += std::string("\1") + stepKey([S](double D) { return S->next<double>(D); });
      }
      break;
    }
    default:
      X.Kind = FK::UNKNOWN;
    }
    if (auto *P = F->getParentFeature()) {
      X.Parent = P->getName().str();
    }
    if (auto *P = F->getParent(); P && isa<Relationship>(P)) {
      auto It = Ids.find(P);
      X.Group = It == Ids.end() ? 999 : It->second;
    }
    M.F[X.Name] = X;
  }
  for (const auto &C : CFM.booleanConstraints()) {
    M.C.push_back({Cls::BOOL, fromConstraint(C->constraint())});
  }
  for (const auto &C : CFM.nonBooleanConstraints()) {
    M.C.push_back({Cls::NONBOOL, fromConstraint(C->constraint())});
  }
  for (const auto &C : CFM.mixedConstraints()) {
    M.C.push_back({Cls::MIXED, fromConstraint(C->constraint()),
                   C->req() == FeatureModel::MixedConstraint::Req::ALL,
                   C->exprKind() == FeatureModel::MixedConstraint::ExprKind::NEG});
  }
  return M;
}

// A feature with its step function reduced to behaviour, for comparison.
static std::string cmpStr(const Model &M, const Feat &In, const DiffOpts &O) {
  Feat X = In;
  std::string StepK;
  if (X.St) {
    if (X.St->Op >= 0) {
      StepK = X.St->key();
    } else {
      auto P = X.Out.find('\1');
      StepK = X.Out.substr(P + 1);
      X.Out = X.Out.substr(0, P);
    }
    X.St.reset();
  }
  if (!O.OrMemberOpt && X.Group >= 0) {
    X.Opt = false;
  }
  int G = X.Group;
  X.Group = -1;
  std::string R = featStr(X);
  if (!StepK.empty()) {
    R += " stepfn=" + StepK;
  }
  if (O.Groups && G >= 0) {
    auto It = M.G.find(G);
    R += It == M.G.end() ? " group=?" : It->second.Or ? " group=OR{" : " group=ALT{";
    for (auto &K : M.members(G)) {
      R += quote(K);
    }
    R += "}";
  }
  return R;
}

std::string diff(const Model &A, const Model &B, const DiffOpts &O) {
  auto Two = [](const std::string &What, const std::string &X, const std::string &Y) {
    return What + ": expected " + X + ", got " + Y;
  };
  if (A.Name != B.Name) {
    return Two("model name", quote(A.Name), quote(B.Name));
  }
  if (A.Path != B.Path) {
    return Two("path", quote(A.Path), quote(B.Path));
  }
  if (A.Commit != B.Commit) {
    return Two("commit", quote(A.Commit), quote(B.Commit));
  }
  if (A.Root != B.Root) {
    return Two("root", quote(A.Root), quote(B.Root));
  }
  for (auto &[N, X] : A.F) {
    auto It = B.F.find(N);
    if (It == B.F.end()) {
      return "feature missing: " + featStr(X);
    }
    std::string P = cmpStr(A, X, O), Q = cmpStr(B, It->second, O);
    if (P != Q) {
      return Two("feature", P, Q);
    }
  }
  for (auto &[N, X] : B.F) {
    if (!A.F.count(N)) {
      return "unexpected feature: " + featStr(X);
    }
  }
  if (O.Groups) {
    auto Gs = [](const Model &M) {
      std::multiset<std::string> R;
      for (auto &[Id, X] : M.G) {
        std::string S = std::string(X.Or ? "OR of " : "ALT of ") + quote(X.Parent) + ":";
        for (auto &K : M.members(Id)) {
          S += quote(K);
        }
        R.insert(S);
      }
      std::string S;
      for (auto &X : R) {
        S += X + " ";
      }
      return S;
    };
    if (Gs(A) != Gs(B)) {
      return Two("groups", Gs(A), Gs(B));
    }
  }
  if (O.Constraints) {
    for (Cls K : {Cls::BOOL, Cls::NONBOOL, Cls::MIXED}) {
      auto Cs = [&](const Model &M) {
        std::vector<std::string> R;
        for (auto X : M.C) {
          if (X.C == K) {
            if (O.Normalise) {
              X.X = normText(X.X);
            }
            R.push_back(X.str());
          }
        }
        if (!O.ConstraintOrder || O.Normalise) {
          std::sort(R.begin(), R.end());
        }
        if (O.Normalise) {
          R.erase(std::unique(R.begin(), R.end()), R.end());
        }
        std::string S;
        for (auto &X : R) {
          S += "{" + X + "} ";
        }
        return S;
      };
      std::string P = Cs(A), Q = Cs(B);
      if (P != Q) {
        return Two("constraints", P, Q);
      }
    }
  }
  return "";
}

namespace {
struct Leaves : ConstraintVisitor {
  std::vector<PrimaryFeatureConstraint *> L;
  bool visit(PrimaryFeatureConstraint *C) override {
    L.push_back(C);
    return true;
  }
};

std::string checkParents(Constraint *C, Constraint *P) {
  if (C->getParent() != P) {
    return "constraint node has a wrong parent: " + C->toString();
  }
  if (auto *B = dynamic_cast<BinaryConstraint *>(C)) {
    auto R = checkParents(B->getLeftOperand(), C);
    return R.empty() ? checkParents(B->getRightOperand(), C) : R;
  }
  if (auto *U = dynamic_cast<UnaryConstraint *>(C)) {
    return checkParents(U->getOperand(), C);
  }
  return "";
}
} // namespace

std::string checkInvariants(FeatureModel &FM) {
  const FeatureModel &M = FM;
  std::set<const FeatureTreeNode *> Live;
  std::set<Feature *> Feats;
  size_t Roots = 0;
  for (auto *F : M.unorderedFeatures()) {
    Live.insert(F);
    Feats.insert(F);
    Roots += F->getKind() == Feature::FeatureKind::FK_ROOT;
    if (M.getFeature(F->getName()) != F) {
      return "feature is not found under its name: " + F->getName().str();
    }
  }
  if (M.size() != Feats.size()) {
    return "size() disagrees with the number of features";
  }
  for (auto &R : M.relationships()) {
    Live.insert(R.get());
  }
  if (!M.getRoot() || !Live.count(M.getRoot())) {
    return "no root, or root is not a feature of the model";
  }
  if (Roots != 1 || M.getRoot()->getKind() != Feature::FeatureKind::FK_ROOT) {
    return "not exactly one root";
  }
  if (M.getRoot()->getParent()) {
    return "root has a parent";
  }
  std::map<const FeatureTreeNode *, int> Listed;
  auto Node = [&](FeatureTreeNode *N, const std::string &Name) -> std::string {
    if (N != M.getRoot()) {
      if (!N->getParent()) {
        return Name + " has no parent";
      }
      if (!Live.count(N->getParent())) {
        return Name + " has a parent outside the model";
      }
      if (!N->getParent()->hasEdgeTo(*N)) {
        return Name + " is not listed by its parent";
      }
    }
    for (auto *K : N->children()) {
      if (!Live.count(K)) {
        return Name + " lists a child outside the model";
      }
      ++Listed[K];
      if (K->getParent() != N) {
        return Name + " lists a child that has another parent";
      }
    }
    return "";
  };
  for (auto *F : Feats) {
    auto R = Node(F, "feature " + F->getName().str());
    if (!R.empty()) {
      return R;
    }
  }
  for (auto &Rel : M.relationships()) {
    auto R = Node(Rel.get(), "group");
    if (!R.empty()) {
      return R;
    }
    if (!isa<Feature>(Rel->getParent())) {
      return "a group's parent is not a feature";
    }
    for (auto *K : Rel->children()) {
      if (!isa<Feature>(K)) {
        return "a group contains a group";
      }
    }
  }
  for (auto &[N, Cnt] : Listed) {
    if (Cnt != 1) {
      return "a node is listed more than once";
    }
  }
  // everything reachable, no cycles
  std::set<const FeatureTreeNode *> Seen{M.getRoot()};
  std::vector<FeatureTreeNode *> Todo{M.getRoot()};
  while (!Todo.empty()) {
    auto *N = Todo.back();
    Todo.pop_back();
    for (auto *K : N->children()) {
      if (!Seen.insert(K).second) {
        return "a node is reachable twice (cycle or sharing)";
      }
      Todo.push_back(K);
    }
  }
  if (Seen.size() != Live.size()) {
    return "not everything is reachable from the root";
  }
  // constraints
  std::map<Feature *, std::multiset<Constraint *>> Reg;
  std::map<Feature *, std::set<Constraint *>> Impl, Excl;
  std::string Bad;
  auto Con = [&](Constraint *C) {
    if (!C) {
      Bad = "null constraint";
      return;
    }
    Leaves L;
    C->accept(L);
    for (auto *P : L.L) {
      auto *F = P->getFeature();
      if (!Feats.count(F)) {
        Bad = "a constraint refers to a feature outside the model";
        return;
      }
      Reg[F].insert(P);
      if (C->getKind() == Constraint::ConstraintKind::CK_IMPLIES) {
        Impl[F].insert(C);
      }
      if (C->getKind() == Constraint::ConstraintKind::CK_EXCLUDES) {
        Excl[F].insert(C);
      }
    }
    auto R = checkParents(C, nullptr);
    if (!R.empty()) {
      Bad = R;
    }
  };
  for (const auto &C : M.booleanConstraints()) {
    Con(C->constraint());
  }
  for (const auto &C : M.nonBooleanConstraints()) {
    Con(C->constraint());
  }
  for (const auto &C : M.mixedConstraints()) {
    Con(C->constraint());
  }
  if (!Bad.empty()) {
    return Bad;
  }
  for (auto *F : Feats) {
    std::multiset<Constraint *> Cs(F->constraints().begin(), F->constraints().end());
    if (Cs != Reg[F]) {
      return "the constraints registered with " + F->getName().str() +
             " are not those it occurs in";
    }
    std::set<Constraint *> Is(F->implications().begin(), F->implications().end());
    std::set<Constraint *> Es(F->excludes().begin(), F->excludes().end());
    if (Is != Impl[F] || Es != Excl[F]) {
      return "the implications/excludes registered with " + F->getName().str() +
             " are not those it occurs in";
    }
  }
  return "";
}

void requireInvariants(pbt::Case &C, FeatureModel &FM, const std::string &Ctx) {
  auto R = checkInvariants(FM);
  if (!R.empty()) {
    C.fail("malformed-model", R + (Ctx.empty() ? "" : " (" + Ctx + ")"));
  }
}

// ---- semantics -------------------------------------------------------------
std::vector<int64_t> domain(const Feat &X) {
  if (!X.IsRange) {
    std::set<int64_t> S(X.Vals.begin(), X.Vals.end());
    return {S.begin(), S.end()};
  }
  std::set<int64_t> S;
  int64_t V = X.Min;
  while (V <= X.Max && S.size() < 10000) {
    S.insert(V);
    int64_t N = X.St ? static_cast<int64_t>(X.St->next(static_cast<double>(V))) : V + 1;
    if (N <= V) {
      break;
    }
    V = N;
  }
  return {S.begin(), S.end()};
}

uint64_t assignments(const Model &M) {
  uint64_t N = 1;
  for (auto &[K, X] : M.F) {
    uint64_t D = X.Kind == FK::NUM ? domain(X).size() : X.Kind == FK::BIN ? 2 : 1;
    if (D == 0) {
      return 0;
    }
    N = std::min<uint64_t>(N * D, 1ULL << 40);
  }
  return N;
}

namespace {
struct Ev {
  const Model &M;
  std::map<std::string, int64_t> A;
  bool Mixed = false;
  bool Ambiguous = false;
  bool AnyUnselected = false;

  using I = __int128;
  I val(const E &X) {
    switch (X->O) {
    case Op::FEAT: {
      auto &F = M.F.at(X->N);
      if (F.Kind != FK::NUM && A[X->N] == 0) {
        AnyUnselected = true;
      }
      return A[X->N];
    }
    case Op::INT:
      return X->V;
    case Op::NEG:
      return -val(X->L);
    case Op::NOT:
      return !val(X->L);
    default:
      break;
    }
    I L = val(X->L), R = val(X->R);
    switch (X->O) {
    case Op::ADD: return L + R;
    case Op::SUB: return L - R;
    case Op::MUL: return L * R;
    case Op::DIV:
      if (R == 0 || (L % R != 0 && (L < 0 || R < 0))) {
        Ambiguous = true;
        return 0;
      }
      return L / R;
    case Op::AND: return L && R;
    case Op::OR: return L || R;
    case Op::XOR: return !L != !R;
    case Op::IMPL: return !L || R;
    case Op::EXCL: return !L || !R;
    case Op::EQUIV: return !L == !R;
    case Op::EQ: return L == R;
    case Op::NE: return L != R;
    case Op::LT: return L < R;
    case Op::LE: return L <= R;
    case Op::GT: return L > R;
    case Op::GE: return L >= R;
    default: return 0;
    }
  }
};
} // namespace

static bool valid(const Model &M, Ev &Val, bool *Ambiguous) {
  // numeric options have a value in every configuration
  auto Selected = [&](const std::string &N) { return M.F.at(N).Kind == FK::NUM || Val.A[N] != 0; };
  for (auto &[K, X] : M.F) {
    if (X.Kind != FK::BIN || X.Parent.empty()) {
      continue; // free option
    }
    bool P = Selected(X.Parent), S = Val.A[K] != 0;
    if (S && !P) {
      return false;
    }
    if (P && !S && !X.Opt && X.Group < 0) {
      return false;
    }
  }
  if (!M.G.empty()) {
    std::map<int, int> N;
    for (auto &[K, X] : M.F) {
      if (X.Group >= 0) {
        N[X.Group] += Val.A[K] != 0;
      }
    }
    for (auto &[Id, G] : M.G) {
      if (Selected(G.Parent) && (N[Id] == 0 || (!G.Or && N[Id] != 1))) {
        return false;
      }
    }
  }
  for (auto &X : M.C) {
    Val.AnyUnselected = false;
    Val.Ambiguous = false;
    bool V = Val.val(X.X) != 0;
    if (Val.Ambiguous && Ambiguous) {
      *Ambiguous = true;
    }
    if (X.C == Cls::MIXED) {
      if (X.Neg) {
        V = !V;
      }
      if (X.ReqAll && Val.AnyUnselected) {
        V = true;
      }
    }
    if (!V) {
      return false;
    }
  }
  return true;
}

bool isValid(const Model &M, const std::map<std::string, int64_t> &A, bool *Ambiguous) {
  for (auto &[N, X] : M.F) {
    if (X.Kind == FK::NUM) {
      auto D = domain(X);
      if (std::find(D.begin(), D.end(), A.at(N)) == D.end()) {
        return false;
      }
    } else if (X.Kind == FK::ROOT && A.at(N) == 0) {
      return false;
    }
  }
  Ev Val{M};
  Val.A = A;
  return valid(M, Val, Ambiguous);
}

std::set<std::string> configs(const Model &M, bool *Ambiguous) {
  std::set<std::string> Out;
  std::vector<std::pair<const Feat *, std::vector<int64_t>>> Vars;
  for (auto &[K, X] : M.F) {
    if (X.Kind == FK::NUM) {
      Vars.emplace_back(&X, domain(X));
    } else if (X.Kind == FK::BIN) {
      Vars.emplace_back(&X, std::vector<int64_t>{0, 1});
    } else {
      Vars.emplace_back(&X, std::vector<int64_t>{1});
    }
    if (Vars.back().second.empty()) {
      return Out;
    }
  }
  std::vector<size_t> Idx(Vars.size(), 0);
  Ev Val{M};
  while (true) {
    for (size_t I = 0; I < Vars.size(); ++I) {
      Val.A[Vars[I].first->Name] = Vars[I].second[Idx[I]];
    }
    bool Ok = valid(M, Val, Ambiguous);
    if (Ok) {
      std::string S;
      for (auto &[N, V] : Val.A) {
        auto Kind = M.F.at(N).Kind;
        S += N + "=" + (Kind == FK::NUM ? std::to_string(V) : V ? "true" : "false") + ";";
      }
      Out.insert(S);
    }
    size_t I = 0;
    for (; I < Idx.size(); ++I) {
      if (++Idx[I] < Vars[I].second.size()) {
        break;
      }
      Idx[I] = 0;
    }
    if (I == Idx.size()) {
      break;
    }
  }
  return Out;
}

} // namespace ref
