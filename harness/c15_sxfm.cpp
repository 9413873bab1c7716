// C15: the SXFM reader loads exactly what the document says, refuses what the
// format does not allow, and never crashes.
#include "pbt.h"
#include "solverutil.h"
#include "xmldoc.h"

#include "vara/Feature/FeatureModelParser.h"

using namespace ref;

namespace {

struct Line {
  int Level;
  char Kind; // r m o g ' '
  std::string Name, Id;
  bool Or = false;
  bool CardFirst = true;
  bool Artificial = false; // a group without a name
  std::string Parent;
};

struct Lit {
  bool Neg;
  std::string Feature;
};
using Clause = std::vector<Lit>;

struct Doc {
  std::optional<std::string> Name;
  std::optional<std::string> Indent;
  int Base = 0;
  std::vector<Line> L;
  std::vector<std::vector<Clause>> C; // each line is a conjunction of clauses
  std::string indent() const { return Indent.value_or("\t"); }
};

bool identChar(char Ch) { return isalnum(static_cast<unsigned char>(Ch)) || Ch == '_'; }

// Identifiers and names come from overlapping alphabets, so that one is often a
// part of another one, and an identifier is often the name of another feature.
std::string word(pbt::Case &C) {
  static const std::vector<std::string> T{"a", "b", "c", "f", "id", "or", "r", "x1", "and", "A", "e1", "Z_"};
  std::string S;
  for (int64_t I = C.range(1, 3); I > 0; --I) {
    S += C.pick(T);
    if (I > 1 && C.chance(1, 4)) {
      S += "_";
    }
  }
  return S;
}

struct Gen {
  pbt::Case &C;
  int MaxFeatures;
  Doc D{};
  std::set<std::string> Names, Ids;
  int Unnamed = 0;

  std::string name() {
    for (int T = 0; T < 20; ++T) {
      auto N = word(C);
      auto Lo = lower(N);
      if (N != "or" && N != "and" && Lo.rfind("group_", 0) != 0 && !Names.count(Lo)) {
        Names.insert(Lo);
        return N;
      }
    }
    std::string N = "n" + std::to_string(Names.size());
    Names.insert(N);
    return N;
  }
  // An identifier that is not part of the feature's own name (unless equal).
  std::string id(const std::string &Name) {
    switch (C.draw(4)) {
    case 0:
      return "";
    case 1:
      if (!Ids.count(Name)) {
        Ids.insert(Name);
        return Name;
      }
      return "";
    default:
      break;
    }
    for (int T = 0; T < 10; ++T) {
      auto I = C.flip() ? word(C)
                        : C.pick<std::string>({"_r", "_r_1", "_r_1_2", "_r_1_20", "1", "12", "id_" + Name});
      if (I != "or" && I != "and" && !Ids.count(I) && (Name.find(I) == std::string::npos)) {
        Ids.insert(I);
        return I;
      }
    }
    return "";
  }
  void add(int Level, char Kind, const std::string &Parent) {
    if (static_cast<int>(D.L.size()) >= MaxFeatures && Kind != ' ') {
      return;
    }
    Line X{};
    X.Level = Level;
    X.Kind = Kind;
    X.Parent = Parent;
    X.Or = Kind == 'g' && C.flip();
    X.CardFirst = C.flip();
    X.Artificial = Kind == 'g' && C.flip();
    X.Name = X.Artificial ? "group_" + std::to_string(++Unnamed) : name();
    X.Id = id(X.Name);
    D.L.push_back(X);
    const std::string Me = X.Name;
    if (Kind == 'g') {
      for (int64_t N = C.chance(1, 80) ? C.range(5, 80) : C.range(1, 4); N > 0; --N) {
        add(Level + 1, ' ', Me);
      }
      return;
    }
    int64_t N = Kind == 'r' ? C.range(0, 5) : (Level > D.Base + Depth ? 0 : std::max<int64_t>(Deep, C.range(-3, 3)));
    if (Many && C.chance(1, 3)) {
      N = C.range(5, MaxFeatures);
    }
    for (; N > 0; --N) {
      add(Level + 1, C.pick<char>({'m', 'o', 'g', 'o'}), Me);
    }
  }
  bool Many = false;
  int Depth = 5, Deep = 0;
  Doc run() {
    Many = MaxFeatures > 25;
    if (Many && C.flip()) {
      Depth = 300;
      Deep = 1;
    }
    if (C.chance(3, 4)) {
      D.Name = C.flip() ? word(C) : genText(C, 8);
    }
    if (C.flip()) {
      D.Indent = C.pick<std::string>({"\t", " ", "  ", "    ", " \t", "..", "-", "ab", "<", "|  "});
    }
    D.Base = static_cast<int>(C.pick<int>({0, 0, 0, 1, 2, 3}));
    add(D.Base, 'r', "");
    int64_t N = Many && C.flip() ? C.range(5, 120) : C.range(0, 4);
    for (; N > 0; --N) {
      std::vector<Clause> Conj;
      for (int64_t K = C.chance(1, 6) ? 2 : 1; K > 0; --K) {
        Clause Cl;
        for (int64_t L = Many && C.chance(1, 10) ? C.range(5, 60) : C.range(1, 4); L > 0; --L) {
          Cl.push_back({C.flip(), C.pick(D.L).Name});
        }
        Conj.push_back(Cl);
      }
      D.C.push_back(Conj);
    }
    return D;
  }
};

std::string reference(pbt::Case &C, const Doc &D, const std::string &Feature) {
  const Line *Me = nullptr;
  bool Shadowed = false; // another feature has this name as its identifier
  for (auto &X : D.L) {
    if (X.Name == Feature) {
      Me = &X;
    } else if (X.Id == Feature) {
      Shadowed = true;
    }
  }
  if (!Me->Id.empty() && (Shadowed || C.chance(3, 4))) {
    return Me->Id;
  }
  return Shadowed ? "" : Feature;
}

std::string lineText(const Doc &D, const Line &X, pbt::Case &C, bool Plain) {
  std::string S;
  for (int I = 0; I < X.Level; ++I) {
    S += D.indent();
  }
  S += ':';
  if (X.Kind != ' ') {
    S += X.Kind;
  }
  S += ' ';
  std::string Card = X.Or ? "[1,*]" : "[1,1]";
  std::string Sp = !Plain && C.flip() ? "" : " ";
  std::string N = X.Artificial ? "" : X.Name;
  std::string Id = X.Id.empty() ? "" : "(" + X.Id + ")";
  if (X.Kind == 'g') {
    if (X.CardFirst) {
      S += Card;
      S += N.empty() && Id.empty() ? "" : " " + N + (Id.empty() ? "" : (N.empty() ? "" : Sp) + Id);
    } else {
      S += N + (Id.empty() ? "" : (N.empty() ? "" : Sp) + Id) + (N.empty() && Id.empty() ? "" : Sp) + Card;
    }
  } else {
    S += N + (Id.empty() ? "" : Sp + Id);
  }
  if (!Plain && C.chance(1, 6)) {
    S += " ";
  }
  return S;
}

E expr(const std::vector<Clause> &Conj) {
  E R;
  for (auto &Cl : Conj) {
    E X;
    for (auto &L : Cl) {
      E Y = L.Neg ? un(Op::NOT, feat(L.Feature)) : feat(L.Feature);
      X = X ? bin(Op::OR, X, Y) : Y;
    }
    R = R ? bin(Op::AND, R, X) : X;
  }
  return R;
}

std::string clauseText(pbt::Case &C, const Doc &D, const std::vector<Clause> &Conj, size_t N) {
  std::string S = C.pick<std::string>({"c" + std::to_string(N), "Constraint_" + std::to_string(N), "", "or", "a b"}) + ":" +
                  C.pick<std::string>({"", " ", "  "});
  bool First = true;
  for (auto &Cl : Conj) {
    S += First ? "" : " and ";
    First = false;
    bool Par = Conj.size() > 1 || C.chance(1, 8);
    S += Par ? "(" : "";
    for (size_t I = 0; I < Cl.size(); ++I) {
      auto R = reference(C, D, Cl[I].Feature);
      if (R.empty()) {
        C.discard();
      }
      S += (I ? " or " : "") + std::string(Cl[I].Neg ? "~" : "") + R;
    }
    S += Par ? ")" : "";
  }
  return S;
}

std::string xmlEsc(const std::string &T, bool Attr) {
  std::string R;
  for (char Ch : T) {
    switch (Ch) {
    case '<':
      R += "&lt;";
      break;
    case '&':
      R += "&amp;";
      break;
    case '>':
      R += "&gt;";
      break;
    case '"':
      R += "&quot;";
      break;
    case '\r':
      R += "&#13;";
      break;
    case '\t':
      R += Attr ? "&#9;" : "\t";
      break;
    case '\n':
      R += Attr ? "&#10;" : "\n";
      break;
    default:
      R += Ch;
    }
  }
  return R;
}

struct Texts {
  std::vector<std::string> Tree, Cons;
  bool HasCons = true, Meta = false;
  std::string NL = "\n";
  std::string str(const Doc &D) const {
    std::string S = "<feature_model";
    if (D.Name) {
      S += " name=\"" + xmlEsc(*D.Name, true) + "\"";
    }
    S += ">\n";
    if (Meta) {
      S += "<meta><data name=\"creator\">:r x</data>\n<data name=\"date\"/></meta>\n";
    }
    S += "<feature_tree";
    if (D.Indent) {
      S += " indentation_string=\"" + xmlEsc(*D.Indent, true) + "\"";
    }
    S += ">" + NL;
    for (auto &L : Tree) {
      S += xmlEsc(L, false) + NL;
    }
    S += "</feature_tree>\n";
    if (HasCons) {
      S += "<constraints>" + NL;
      for (auto &L : Cons) {
        S += xmlEsc(L, false) + NL;
      }
      S += "</constraints>";
    }
    return S + "</feature_model>\n";
  }
};

Texts print(pbt::Case &C, const Doc &D, bool Plain) {
  Texts T;
  auto Blank = [&](std::vector<std::string> &V) {
    if (!Plain && C.chance(1, 12)) {
      V.push_back(C.pick<std::string>({"", " ", "\t", "   "}));
    }
  };
  for (auto &X : D.L) {
    Blank(T.Tree);
    T.Tree.push_back(lineText(D, X, C, Plain));
  }
  size_t N = 0;
  for (auto &X : D.C) {
    Blank(T.Cons);
    T.Cons.push_back((Plain ? "" : C.pick<std::string>({"", " ", "\t", "    "})) + clauseText(C, D, X, N++));
  }
  T.HasCons = !D.C.empty() || C.flip();
  T.Meta = C.chance(1, 4);
  if (!Plain && C.chance(1, 10)) {
    T.NL = "\r\n";
  }
  return T;
}

Model expected(const Doc &D) {
  Model M;
  M.Name = D.Name.value_or("");
  for (auto &X : D.L) {
    Feat F;
    F.Name = X.Name;
    F.Kind = X.Kind == 'r' ? FK::ROOT : FK::BIN;
    F.Opt = X.Kind == 'o';
    F.Parent = X.Parent;
    if (X.Kind == 'r') {
      M.Root = X.Name;
    }
    M.F[X.Name] = F;
  }
  int Id = 0;
  for (auto &X : D.L) {
    if (X.Kind == 'g') {
      M.G[Id] = Group{X.Or, X.Name};
      for (auto &Y : D.L) {
        if (Y.Parent == X.Name) {
          M.F[Y.Name].Group = Id;
        }
      }
      ++Id;
    }
  }
  for (auto &X : D.C) {
    M.C.push_back({Cls::BOOL, expr(X), true, false});
  }
  return M;
}

// "" if X is not a boolean formula over binary features
bool evalBool(pbt::Case &C, const E &X, const std::set<std::string> &On) {
  switch (X->O) {
  case Op::FEAT:
    return On.count(X->N) > 0;
  case Op::NOT:
    return !evalBool(C, X->L, On);
  case Op::AND: {
    bool L = evalBool(C, X->L, On), R = evalBool(C, X->R, On);
    return L && R;
  }
  case Op::OR: {
    bool L = evalBool(C, X->L, On), R = evalBool(C, X->R, On);
    return L || R;
  }
  case Op::IMPL: {
    bool L = evalBool(C, X->L, On), R = evalBool(C, X->R, On);
    return !L || R;
  }
  default:
    C.fail("not-a-clause", str(X));
  }
}

std::unique_ptr<vf::FeatureModel> load(const std::string &T) {
  return vf::FeatureModelSxfmParser(T).buildFeatureModel();
}

void check(pbt::Case &C, const Doc &D, const std::string &T) {
  C.require(static_cast<bool>(vf::FeatureModelSxfmParser(T).verifyFeatureModel()), "not-verified", T);
  auto FM = load(T);
  C.require(FM != nullptr, "refused", T);
  requireInvariants(C, *FM, T);
  Model Got = fromFM(*FM), Want = expected(D);
  if (!D.Name) {
    Want.Name = Got.Name; // no name is described
  }
  DiffOpts O;
  O.Constraints = false;
  auto Diff = diff(Want, Got, O);
  C.require(Diff.empty(), "model", Diff + "\n" + T);
  C.eq(Got.C.size(), Want.C.size(), "constraint-count", T);
  for (size_t I = 0; I < Want.C.size(); ++I) {
    C.require(Got.C[I].C == Cls::BOOL, "constraint-class", T);
    std::set<std::string> Names, GotNames;
    featuresOf(Want.C[I].X, Names);
    featuresOf(Got.C[I].X, GotNames);
    C.require(Names == GotNames, "constraint-features", str(Want.C[I].X) + " vs " + str(Got.C[I].X) + "\n" + T);
    std::vector<std::string> V(Names.begin(), Names.end());
    auto Same = [&](const std::set<std::string> &On) {
      C.require(evalBool(C, Want.C[I].X, On) == evalBool(C, Got.C[I].X, On), "constraint-meaning",
                str(Want.C[I].X) + " vs " + str(Got.C[I].X) + "\n" + T);
    };
    if (V.size() > 10) {
      // the one assignment that a clause excludes, and its neighbours
      for (auto &Cl : D.C[I]) {
        std::set<std::string> On;
        for (auto &N : V) {
          if (C.flip()) {
            On.insert(N);
          }
        }
        for (auto &[Neg, N] : Cl) {
          if (Neg) {
            On.insert(N);
          } else {
            On.erase(N);
          }
        }
        Same(On);
        for (auto &[Neg, N] : Cl) {
          auto On2 = On;
          if (!On2.erase(N)) {
            On2.insert(N);
          }
          Same(On2);
        }
      }
      continue;
    }
    for (unsigned B = 0; B < (1U << V.size()); ++B) {
      std::set<std::string> On;
      for (size_t K = 0; K < V.size(); ++K) {
        if (B >> K & 1) {
          On.insert(V[K]);
        }
      }
      Same(On);
    }
  }
}

} // namespace

PROP(loads, 6000, 120000) {
  Gen G{C, static_cast<int>(C.tailed(3, 25, 400, 60))};
  Doc D = G.run();
  auto T = print(C, D, false).str(D);
  C.describe(T);
  if (D.L.size() >= 4) {
    C.nontrivial(T);
  }
  check(C, D, T);
}

PROP(configurations, 250, 4000) {
  Gen G{C, static_cast<int>(C.sized(3, 9))};
  Doc D = G.run();
  auto T = print(C, D, false).str(D);
  C.describe(T);
  auto FM = load(T);
  C.require(FM != nullptr, "refused", T);
  auto Want = su::expected(C, expected(D), 5000);
  if (Want.size() > 150) {
    C.discard();
  }
  if (!D.C.empty() && D.L.size() >= 4) {
    C.nontrivial(T);
  }
  auto R = su::vs::ConfigurationFactory::getAllConfigs(*FM);
  if (!R) {
    C.require(Want.empty(), "no-configurations", T);
    return;
  }
  std::set<std::string> Got;
  auto All = R.extractValue();
  for (auto &X : All) {
    Got.insert(su::cfgStr(*X));
  }
  auto Diff = su::cmp(Want, Got);
  C.require(Diff.empty(), "configurations", Diff + "\n" + T);
}

// One thing is made wrong in an otherwise correct document.
PROP(refused, 4000, 60000) {
  Gen G{C, static_cast<int>(C.sized(3, 14))};
  Doc D = G.run();
  Texts T = print(C, D, true);
  size_t At = C.draw(D.L.size() - 1);
  auto Repl = [&](std::string &S, const std::string &A, const std::string &B) {
    auto P = S.find(A);
    if (P == std::string::npos) {
      C.discard();
    }
    S.replace(P, A.size(), B);
  };
  std::string What, S;
  bool Raw = false;
  switch (C.draw(15)) {
  case 0: {
    What = "cardinality";
    while (At < D.L.size() && D.L[At].Kind != 'g') {
      ++At;
    }
    if (At == D.L.size()) {
      C.discard();
    }
    Repl(T.Tree[At], D.L[At].Or ? "[1,*]" : "[1,1]",
         C.pick<std::string>({"[0,1]", "[2,2]", "[1,2]", "[0,*]", "[2,*]", "[1,3]", "[*,1]", "[*,*]", "[x,1]", "[1,y]", "[1,]",
                              "[,1]", "[]", "[1]", "", "[-1,1]", "[1,-2]", "[1,0]", "[1,99999999999]", "[11,1]", "[1,11]", "[1,1*]"}));
    break;
  }
  case 1:
    What = "indented too far";
    if (!At) {
      C.discard();
    }
    T.Tree[At] = T.Tree[At - 1];
    T.Tree[At].replace(0, D.L[At - 1].Level * D.indent().size(), "");
    {
      std::string P;
      for (int I = 0; I < D.L[At - 1].Level + static_cast<int>(C.range(2, 4)); ++I) {
        P += D.indent();
      }
      T.Tree[At] = P + ":m " + G.name();
    }
    break;
  case 2: {
    What = "a second root";
    std::string P;
    int Lv = C.flip() ? D.Base : D.L[At].Level + 1;
    for (int I = 0; I < Lv; ++I) {
      P += D.indent();
    }
    T.Tree.insert(T.Tree.begin() + static_cast<long>(At) + 1, P + ":r " + G.name());
    break;
  }
  case 3: {
    What = "beside the root";
    std::string P;
    for (int I = 0; I < D.Base; ++I) {
      P += D.indent();
    }
    T.Tree.insert(T.Tree.begin() + static_cast<long>(At) + 1, P + std::string(C.flip() ? ":o " : ":m ") + G.name());
    break;
  }
  case 4: {
    What = "left of the root";
    if (!D.Base) {
      C.discard();
    }
    std::string P;
    for (int64_t I = C.range(0, D.Base - 1); I > 0; --I) {
      P += D.indent();
    }
    T.Tree.insert(T.Tree.begin() + static_cast<long>(At) + 1, P + std::string(C.flip() ? ":o " : ":m ") + G.name());
    break;
  }
  case 5: {
    What = "type";
    auto &L = T.Tree[At];
    auto P = D.L[At].Level * D.indent().size() + 1;
    L.replace(P, D.L[At].Kind == ' ' ? 0 : 1, std::string(1, C.pick<char>({'x', 'R', 'a', 'M', '1', 'k', '[', '('})));
    break;
  }
  case 6: {
    What = "no colon";
    auto &L = T.Tree[At];
    L.erase(std::remove(L.begin(), L.end(), ':'), L.end());
    if (D.indent().find(':') != std::string::npos) {
      C.discard();
    }
    break;
  }
  case 7: {
    What = "other indentation";
    // the indentation of one line is not made of indentation strings
    std::string X = C.pick<std::string>({"#", "+", "_"});
    size_t P = C.draw(D.L[At].Level * D.indent().size());
    T.Tree[At].insert(P, X);
    break;
  }
  case 8:
    What = "the same name twice";
    if (!At || D.L[At].Artificial) {
      C.discard();
    }
    {
      Doc E = D;
      E.L[At].Name = E.L[C.draw(At - 1)].Name;
      if (E.L[At].Name.rfind("group_", 0) == 0) {
        C.discard();
      }
      E.L[At].Id = "";
      T.Tree[At] = lineText(E, E.L[At], C, true);
    }
    break;
  case 9: {
    What = "unknown option in a clause";
    std::string U = C.pick<std::string>({"nope", "idX", "Rr", "zz"});
    T.Cons.insert(T.Cons.begin() + static_cast<long>(C.draw(T.Cons.size())),
                  "c9: " + C.pick<std::string>({"", "~", D.L[0].Name + " or ", "~" + D.L[0].Name + " or ~"}) + U);
    T.HasCons = true;
    for (auto &X : D.L) {
      if (X.Id == D.L[0].Name && X.Name != X.Id) {
        C.discard();
      }
    }
    break;
  }
  case 10: {
    What = "no colon in a clause";
    T.Cons.insert(T.Cons.begin() + static_cast<long>(C.draw(T.Cons.size())), D.L[At].Name);
    T.HasCons = true;
    break;
  }
  case 11: {
    What = "not a clause";
    std::string A = D.L[0].Name;
    T.Cons.insert(T.Cons.begin() + static_cast<long>(C.draw(T.Cons.size())),
                  "c9: " + C.pick<std::string>({"", "(" + A, A + ")", A + " " + A, "or " + A, A + " or", "~", A + " or or " + A,
                                                "%", A + " or $", A + " ~ " + A, "()", "[" + A + "]", A + " ; " + A}));
    T.HasCons = true;
    break;
  }
  case 12: {
    What = "not schema-valid";
    S = T.str(D);
    Raw = true;
    switch (C.draw(6)) {
    case 0:
      Repl(S, "<feature_tree", "<features");
      Repl(S, "</feature_tree", "</features");
      break;
    case 1:
      Repl(S, "</feature_tree>", "</feature_tree><feature_tree>:r x</feature_tree>");
      break;
    case 2:
      Repl(S, "</feature_tree>", "<x/></feature_tree>");
      break;
    case 3:
      Repl(S, "<feature_model", "<feature_model extra='1'");
      break;
    case 4:
      Repl(S, "<feature_tree", "<constraints></constraints><feature_tree");
      break;
    case 5:
      Repl(S, "<feature_tree", "text <feature_tree");
      break;
    default:
      Repl(S, "</feature_model>", "<constraints>\n</constraints><constraints>\n</constraints></feature_model>");
    }
    break;
  }
  case 13:
    What = "not XML";
    S = T.str(D);
    Raw = true;
    switch (C.draw(4)) {
    case 0:
      S.resize(C.draw(S.rfind('>') - 1));
      break;
    case 1:
      Repl(S, "</feature_tree>", "</feature_model>");
      break;
    case 2:
      S += C.pick<std::string>({"x", "<feature_model/>", "&amp;"});
      break;
    case 3:
      S = C.pick<std::string>({"", " ", "x", ":r root", "<", "<feature_model>"});
      break;
    default:
      Repl(S, "</feature_tree>", C.pick<std::string>({"<", "&", "&x;", "\x01", "\xff"}) + "</feature_tree>");
    }
    break;
  case 14: {
    What = "name contains identifier";
    if (D.L[At].Name.size() < 2 || D.L[At].Artificial) {
      C.discard();
    }
    Doc E = D;
    E.L[At].Id = D.L[At].Name.substr(C.flip() ? 0 : 1, D.L[At].Name.size() - 1);
    T.Tree[At] = lineText(E, E.L[At], C, true);
    break;
  }
  default: {
    What = "no root";
    std::string P;
    for (int I = 0; I < D.Base; ++I) {
      P += D.indent();
    }
    T.Tree[0] = P + C.pick<std::string>({":m ", ":o ", ":g [1,1] ", ": "}) + D.L[0].Name;
    break;
  }
  }
  if (!Raw) {
    S = T.str(D);
  }
  C.describe(What + "\n" + S);
  C.tag(What);
  C.nontrivial(S);
  auto FM = load(S);
  C.requireF(!FM, "accepted", [&] { return What + "\n" + S; });
  if (Raw) {
    C.require(!vf::FeatureModelSxfmParser(S).verifyFeatureModel(), "verified", What + "\n" + S);
  } else {
    C.require(static_cast<bool>(vf::FeatureModelSxfmParser(S).verifyFeatureModel()), "not-verified", What + "\n" + S);
  }
}

PROP(robust, 5000, 120000) {
  static const std::vector<std::string> Tok{
      "\n", "\t", " ", ":", ":r ", ":m ", ":o ", ":g ", ": ", "[1,1]", "[1,*]", "[", "]", ",", "(", ")", "(a)", "()", "a", "b",
      "or", " or ", " and ", "~", "!", "&amp;", "|", "*", "-", "1", "x", "\n\t:m a", "\n\t\t:o b (a)", "\n:", "\n\t", "\n\t:",
      "\n\t:g", "\n\t:g [1,1]", "<!--", "-->", "<![CDATA[", "]]>", "&lt;", "&#9;", "<feature_tree>", "</feature_tree>",
      "<constraints>", "</constraints>", "<feature_model>", "</feature_model>", "<meta/>", " indentation_string=\"\"",
      " indentation_string=\" \"", " indentation_string=\":\"", " name=\"\"", "\xC3", "\r", "\0"};
  std::string S;
  if (C.chance(1, 5)) {
    S = "<feature_model><feature_tree" + C.pick<std::string>({"", " indentation_string=\"\"", " indentation_string=\":\""}) + ">";
    for (int64_t N = C.sized(0, 30); N > 0; --N) {
      S += C.pick(Tok);
    }
    S += "</feature_tree><constraints>";
    for (int64_t N = C.sized(0, 10); N > 0; --N) {
      S += C.pick(Tok);
    }
    S += "</constraints></feature_model>";
  } else {
    Gen G{C, static_cast<int>(C.sized(2, 10))};
    Doc D = G.run();
    S = print(C, D, false).str(D);
    for (int64_t N = C.range(1, 5); N > 0; --N) {
      size_t P = C.draw(S.size());
      switch (C.draw(4)) {
      case 0:
        S.insert(P, C.pick(Tok));
        break;
      case 1:
        S.erase(P, C.draw(4));
        break;
      case 2: {
        size_t Q = C.draw(S.size());
        S.insert(P, S.substr(Q, C.draw(20)));
        break;
      }
      case 3: { // a line is dropped
        auto Q = S.find('\n', P);
        auto R = Q == std::string::npos ? Q : S.find('\n', Q + 1);
        if (R != std::string::npos) {
          S.erase(Q, R - Q);
        }
        break;
      }
      default:
        if (P < S.size()) {
          S[P] = static_cast<char>(C.draw(255));
        }
      }
    }
  }
  C.describe(S);
  bool V = static_cast<bool>(vf::FeatureModelSxfmParser(S).verifyFeatureModel());
  auto FM = load(S);
  C.require(V || !FM, "unverified-model", "the verifier rejects the text, the reader accepts it");
  if (FM) {
    requireInvariants(C, *FM, S);
    C.tag("loaded");
  } else {
    C.tag(V ? "refused" : "invalid");
  }
  if (V) {
    C.nontrivial(S);
  }
}

// very long words, lines, clauses, and trees
PROP(large, 160, 1600) {
  int64_t N = C.pick<int64_t>({1000, 60000, 200000});
  std::string Long(static_cast<size_t>(N), C.pick<char>({'a', '1', '_', ' ', '(', ')', '[', ',', ':', '\t', '~'}));
  std::string Tree = ":r r\n", Cons;
  bool Good = false;
  switch (C.draw(6)) {
  case 0:
    Tree += "\t:m b (" + Long + ")\n";
    break;
  case 1:
    Tree += "\t:m " + Long + "\n";
    break;
  case 2:
    Tree += "\t:g " + Long + "[1,1] x\n\t\t: a\n";
    break;
  case 3:
    Tree += "\t:g [1," + Long + "] x\n\t\t: a\n";
    break;
  case 4:
    Tree += Long + ":m x\n";
    break;
  case 5: {
    Cons = "c: " + Long + "\n";
    if (Long[0] == '~' || Long[0] == '(') {
      C.discard(); // nested operators are limited by design
    }
    break;
  }
  default: // wide trees
    Good = true;
    for (int64_t I = 0; I < N / 500; ++I) {
      Tree += "\t:o n" + std::to_string(I) + "(x" + std::to_string(I) + ")\n";
      Cons += "c: ~x" + std::to_string(I) + " or r\n";
    }
  }
  std::string T = "<feature_model name=\"x\"><feature_tree>\n" + Tree + "</feature_tree><constraints>" + Cons +
                  "</constraints></feature_model>";
  C.describe(std::to_string(N) + "\n" + T.substr(0, 300));
  auto FM = load(T);
  C.require(!Good || FM, "refused");
  if (FM) {
    requireInvariants(C, *FM);
    if (Good) {
      C.eq(FM->size(), static_cast<size_t>(N / 500 + 1), "size");
    }
  }
  C.nontrivial(T.substr(0, 300) + std::to_string(N));
}
