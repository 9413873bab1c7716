// Model documents and a printer for them that shares nothing with the code
// under test.
#ifndef VERIF_XMLDOC_H
#define VERIF_XMLDOC_H

#include "refmodel.h"

#include <algorithm>

namespace xmldoc {
using namespace ref;

struct Doc {
  Model M; // no groups; constraints that have a text form
  std::map<std::string, std::vector<std::string>> Imp, Exc;
  bool RootAttr = true;
  bool RootOption = true; // the root is written as an option
};

// Siblings that are all mandatory and all mutually excluded form one
// alternative group.
inline Model expected(const Doc &D) {
  Model M = D.M;
  std::vector<Con> Lists;
  for (auto &[N, L] : D.Imp) {
    for (auto &X : L) {
      Lists.push_back({Cls::BOOL, bin(Op::IMPL, feat(N), feat(X)), true, false});
    }
  }
  std::set<std::pair<std::string, std::string>> Ex;
  for (auto &[N, L] : D.Exc) {
    for (auto &X : L) {
      Lists.push_back({Cls::BOOL, bin(Op::EXCL, feat(N), feat(X)), true, false});
      Ex.insert({N, X});
    }
  }
  M.C.insert(M.C.begin(), Lists.begin(), Lists.end());
  int Id = 0;
  for (auto &[P, X] : D.M.F) {
    auto Ch = D.M.childrenOf(P);
    bool Alt = Ch.size() > 1;
    for (auto &A : Ch) {
      Alt = Alt && !D.M.F.at(A).Opt;
      for (auto &B : Ch) {
        Alt = Alt && (A == B || Ex.count({A, B}));
      }
    }
    if (Alt) {
      M.G[Id] = Group{false, P};
      for (auto &A : Ch) {
        M.F[A].Group = Id;
      }
      ++Id;
    }
  }
  return M;
}

struct Printer {
  pbt::Case &C;
  bool Plain;
  std::string S;
  Printer(pbt::Case &C, bool Plain) : C(C), Plain(Plain) {}

  std::string ws() {
    return Plain ? ""
                 : C.pick<std::string>({"", "", " ", "\n", "\n\t ", "  \n"});
  }
  std::string gap() { // between elements
    if (Plain) {
      return "\n";
    }
    std::string R = ws();
    if (C.chance(1, 14)) {
      R += C.pick<std::string>({"<!-- comment -->", "<!-- <name>x</name> & -->", "<?pi data?>", "<!---->"}) + ws();
    }
    return R;
  }
  std::string esc(const std::string &T, char Quote = 0) {
    std::string R;
    if (!Quote && !Plain && !T.empty() && T.find("]]>") == std::string::npos && C.chance(1, 10)) {
      return "<![CDATA[" + T + "]]>";
    }
    for (size_t I = 0; I < T.size(); ++I) {
      char Ch = T[I];
      bool Must = Ch == '<' || Ch == '&' || (Ch == '>' && I >= 2 && T[I - 1] == ']') || Ch == '\r' ||
                  (Quote && (Ch == Quote || Ch == '\n' || Ch == '\t'));
      bool May = Must || (!Plain && static_cast<unsigned char>(Ch) < 0x80 && C.chance(1, 25));
      if (!May) {
        R += Ch;
        continue;
      }
      std::string Ent;
      switch (Ch) {
      case '<':
        Ent = "&lt;";
        break;
      case '>':
        Ent = "&gt;";
        break;
      case '&':
        Ent = "&amp;";
        break;
      case '"':
        Ent = "&quot;";
        break;
      case '\'':
        Ent = "&apos;";
        break;
      default:
        break;
      }
      if (Ent.empty() || (!Plain && C.chance(1, 3))) {
        char Buf[16];
        snprintf(Buf, sizeof(Buf), !Plain && C.flip() ? "&#x%x;" : "&#%d;", Ch);
        Ent = Buf;
      }
      R += Ent;
    }
    return R;
  }
  // what is no text may be anywhere within a text
  std::string broken(const std::string &T) {
    if (Plain || !C.chance(1, 20)) {
      return esc(T);
    }
    auto Break = [&] {
      return C.pick<std::string>({"<!-- c -->", "<!---->", "<?pi 7?>", "<![CDATA[]]>", "<!-- 12 & <name> -->"});
    };
    size_t At = C.draw(T.size());
    while (At < T.size() && (static_cast<unsigned char>(T[At]) & 0xC0) == 0x80) {
      ++At; // not within a character
    }
    auto Blank = [](const std::string &X) { return !X.empty() && X.find_first_not_of(" \t\r\n") == std::string::npos; };
    if (Blank(T) || Blank(T.substr(0, At)) || Blank(T.substr(At))) {
      return esc(T); // nodes of white space only are dropped
    }
    std::string R = Break() + esc(T.substr(0, At));
    return C.flip() ? R + Break() + esc(T.substr(At)) + (C.flip() ? Break() : "")
                    : esc(T.substr(0, At)) + Break() + esc(T.substr(At));
  }
  // <Tag>text</Tag> whose surrounding white space does not matter
  void elem(const std::string &Tag, const std::string &T, bool Lead = true, bool Trail = true) {
    S += "<" + Tag + ">";
    if (Lead) {
      S += ws();
    }
    S += broken(T);
    if (Trail) {
      S += ws();
    }
    S += "</" + Tag + ">" + gap();
  }
  void open(const std::string &Tag) { S += "<" + Tag + (Plain ? "" : C.pick<std::string>({"", "", " "})) + ">" + gap(); }
  void close(const std::string &Tag) { S += "</" + Tag + ">" + gap(); }
  std::string attr(const std::string &N, const std::string &V, bool Pad = true) {
    char Q = !Plain && C.flip() ? '\'' : '"';
    std::string P = Pad && !Plain && C.chance(1, 6) ? " " : "";
    return " " + N + "=" + Q + P + esc(V, Q) + P + Q;
  }
  void list(const std::string &Tag, const std::vector<std::string> &L) {
    if (L.empty() && (Plain || !C.chance(1, 12))) {
      return;
    }
    open(Tag);
    for (auto &X : L) {
      elem("options", X);
    }
    close(Tag);
  }
  static std::string stepText(const Step &X) {
    char Buf[64];
    snprintf(Buf, sizeof(Buf), "%.6f", X.Num);
    std::string N = Buf;
    const char *O[] = {" + ", " * ", " ^ "};
    return X.VarLeft ? std::string("x") + O[X.Op] + N : N + O[X.Op] + "x";
  }
  void position(const std::string &Tag, std::pair<unsigned, unsigned> P) {
    open(Tag);
    elem("line", std::to_string(P.first));
    elem("column", std::to_string(P.second));
    close(Tag);
  }
  void location(const Loc &L) {
    S += "<sourceRange";
    if (L.Inessential || Plain || C.flip()) {
      S += attr("category", L.Inessential ? "inessential" : "necessary", false);
    }
    S += ">" + gap();
    if (L.Intro) {
      open("revisionRange");
      elem("introduced", *L.Intro);
      if (L.Removed) {
        elem("removed", *L.Removed);
      }
      close("revisionRange");
    }
    elem("path", L.Path);
    position("start", *L.Start);
    position("end", *L.End);
    if (L.Member) {
      elem("memberOffset", *L.Member);
    }
    close("sourceRange");
  }
  // how edges are stated: per child 0 none (children of the root only),
  // 1 parent element, 2 children element, 3 both
  std::map<std::string, int> Style;
  void option(const Doc &D, const Feat &X) {
    open("configurationOption");
    elem("name", X.Name);
    if (!X.Out.empty()) {
      // trailing white space belongs to the output string
      elem("outputString", X.Out, true, false);
    } else if (!Plain && C.chance(1, 12)) {
      elem("outputString", "");
    }
    if (!Plain && C.chance(1, 10)) {
      elem(C.pick<std::string>({"prefix", "preFix"}), C.pick<std::string>({"", "--", "p"}));
    }
    if (!Plain && C.chance(1, 10)) {
      elem(C.pick<std::string>({"postfix", "postFix"}), "q");
    }
    if (!X.Parent.empty() && (Style[X.Name] & 1)) {
      elem("parent", X.Parent);
    } else if (!Plain && C.chance(1, 12)) {
      elem("parent", "");
    }
    std::vector<std::string> Ch;
    for (auto &K : D.M.childrenOf(X.Name)) {
      if (Style[K] & 2) {
        Ch.push_back(K);
      }
    }
    if (Ch.size() > 1 && !Plain) {
      std::vector<std::string> P;
      for (auto I : C.permutation(Ch.size())) {
        P.push_back(Ch[I]);
      }
      Ch = P;
    }
    list("children", Ch);
    auto It = D.Imp.find(X.Name);
    list("impliedOptions", It == D.Imp.end() ? std::vector<std::string>{} : It->second);
    It = D.Exc.find(X.Name);
    list("excludedOptions", It == D.Exc.end() ? std::vector<std::string>{} : It->second);
    if (!Plain && C.chance(1, 10)) {
      elem("defaultValue", C.pick<std::string>({"Selected", "3", "Deselected"}));
    }
    if (X.Opt || Plain || C.flip()) {
      elem("optional", X.Opt ? "True" : "False");
    }
    if (X.Kind == FK::NUM) {
      if (X.IsRange) {
        elem("minValue", std::to_string(X.Min));
        elem("maxValue", std::to_string(X.Max));
      } else {
        std::string V;
        std::string Sep = Plain ? ";" : C.pick<std::string>({";", ";", "; ", " ; "});
        for (auto K : X.Vals) {
          V += (V.empty() ? "" : Sep) + std::to_string(K);
        }
        elem("values", V);
      }
      if (X.St) {
        elem("stepFunction", stepText(*X.St));
      }
    }
    if (!X.Locs.empty() || (!Plain && C.chance(1, 15))) {
      open("locations");
      for (auto &L : X.Locs) {
        location(L);
      }
      close("locations");
    }
    close("configurationOption");
  }
  void constraints(const Doc &D, Cls K, const std::string &Tag) {
    std::vector<const Con *> L;
    for (auto &X : D.M.C) {
      if (X.C == K) {
        L.push_back(&X);
      }
    }
    if (L.empty() && (Plain || !C.chance(1, 6))) {
      return;
    }
    open(Tag);
    for (auto *X : L) {
      S += "<constraint";
      if (K == Cls::MIXED) {
        std::string A = attr("req", X->ReqAll ? "all" : "none", false);
        std::string B = attr("exprKind", X->Neg ? "neg" : "pos", false);
        // what is left out has the first value
        if (!Plain && X->ReqAll && C.chance(1, 8)) {
          A.clear();
        }
        if (!Plain && !X->Neg && C.chance(1, 8)) {
          B.clear();
        }
        S += !Plain && C.flip() ? B + A : A + B;
      }
      S += ">" + ws() + broken(infix(X->X)) + ws() + "</constraint>" + gap();
    }
    close(Tag);
  }
  std::string print(const Doc &D) {
    S.clear();
    bool Ascii = true;
    switch (Plain ? 0 : C.draw(3)) {
    case 0:
      S += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
      break;
    case 1:
      S += "<?xml version=\"1.0\"?>\n";
      break;
    case 2:
      S += "<?xml version='1.0' encoding='utf-8' standalone='no' ?>";
      break;
    default:
      break;
    }
    (void)Ascii;
    if (Plain || C.flip()) {
      S += "<!DOCTYPE vm SYSTEM \"vm.dtd\">\n";
    }
    S += Plain ? "" : gap();
    std::vector<std::string> A{attr("name", D.M.Name)};
    if (D.RootAttr) {
      A.push_back(attr("root", D.M.Path));
    }
    if (!D.M.Commit.empty() || (!Plain && C.chance(1, 8))) {
      A.push_back(attr("commit", D.M.Commit));
    }
    S += "<vm";
    for (auto I : C.permutation(A.size())) {
      S += A[I];
    }
    S += ">" + gap();
    std::vector<const Feat *> B, N;
    for (auto &[Name, X] : D.M.F) {
      if (X.Kind == FK::NUM) {
        N.push_back(&X);
      } else if (X.Kind != FK::ROOT || D.RootOption) {
        B.push_back(&X);
      }
      Style[Name] = X.Parent.empty() ? 0
                    : Plain          ? 3
                    : X.Parent == D.M.Root
                        ? static_cast<int>(D.RootOption ? C.draw(3) : C.draw(1))
                        : static_cast<int>(C.range(1, 3));
    }
    auto Section = [&](const std::vector<const Feat *> &L, const std::string &Tag) {
      open(Tag);
      for (auto I : C.permutation(L.size())) {
        option(D, *L[I]);
      }
      close(Tag);
    };
    Section(B, "binaryOptions");
    if (!N.empty() || Plain || C.flip()) {
      Section(N, "numericOptions");
    }
    constraints(D, Cls::BOOL, "booleanConstraints");
    constraints(D, Cls::NONBOOL, "nonBooleanConstraints");
    constraints(D, Cls::MIXED, "mixedConstraints");
    S += "</vm>" + (Plain ? "\n" : gap());
    return S;
  }
};

// Solvable: small numbers, numeric options have no part in the structure.
inline Doc genDoc(pbt::Case &C, int MaxFeatures = 10, bool Solvable = false) {
  GenOpts O;
  O.MaxFeatures = MaxFeatures;
  O.Groups = false;
  O.NumericAnywhere = !Solvable;
  O.TextConstraints = true;
  O.BigNumbers = !Solvable && C.chance(1, 3);
  O.RootLocations = true;
  O.WeirdNames = C.chance(1, 3);
  O.Tails = !Solvable;
  Doc D;
  D.M = genModel(C, O);
  for (auto &X : D.M.C) {
    X.X = normText(X.X); // what its text says
  }
  for (auto &[N, X] : D.M.F) {
    if (X.St) { // as printed
      char Buf[64];
      snprintf(Buf, sizeof(Buf), "%.6f", X.St->Num);
      X.St->Num = strtod(Buf, nullptr);
    }
  }
  std::vector<std::string> Ns;
  for (auto &[N, X] : D.M.F) {
    Ns.push_back(N);
  }
  for (int64_t K = C.chance(1, 2) ? C.range(0, 4) : 0; K > 0; --K) {
    (C.flip() ? D.Imp : D.Exc)[C.pick(Ns)].push_back(C.pick(Ns));
  }
  // siblings that (nearly) form alternatives
  for (auto &P : Ns) {
    auto Ch = D.M.childrenOf(P);
    if (Ch.size() < 2 || !C.chance(1, 2)) {
      continue;
    }
    int Flaw = C.chance(1, 3) ? static_cast<int>(C.range(1, 3)) : 0;
    for (auto &A : Ch) {
      D.M.F[A].Opt = false;
      for (auto &B : Ch) {
        if (A != B) {
          D.Exc[A].push_back(B);
        }
      }
    }
    switch (Flaw) {
    case 1: { // one direction is missing
      auto &L = D.Exc[C.pick(Ch)];
      L.erase(L.begin() + static_cast<long>(C.draw(L.size() - 1)));
      break;
    }
    case 2:
      D.M.F[C.pick(Ch)].Opt = true;
      break;
    case 3: // one sibling takes no part
      D.Exc[Ch[C.draw(Ch.size() - 1)]].clear();
      break;
    default:
      break;
    }
  }
  // order within the lists is free
  for (auto *Mp : {&D.Imp, &D.Exc}) {
    for (auto &[N, L] : *Mp) {
      std::vector<std::string> P;
      for (auto I : C.permutation(L.size())) {
        P.push_back(L[I]);
      }
      L = P;
    }
  }
  if (Solvable) {
    for (auto *Mp : {&D.Imp, &D.Exc}) {
      for (auto &[N, L] : *Mp) {
        bool Num = D.M.F.at(N).Kind == FK::NUM;
        L.erase(std::remove_if(L.begin(), L.end(),
                               [&](auto &X) { return Num || D.M.F.at(X).Kind == FK::NUM; }),
                L.end());
      }
    }
  }
  D.RootAttr = !C.chance(1, 10);
  D.RootOption = D.M.Root != "root" || !D.M.F[D.M.Root].Locs.empty() || D.Imp.count("root") ||
                 D.Exc.count("root") || !C.chance(1, 8);
  return D;
}

} // namespace xmldoc

#endif
