// C03: no input crashes the XML reader; what it returns is consistent.
#include "pbt.h"
#include "xmldoc.h"

#include "vara/Feature/FeatureModelParser.h"

using namespace xmldoc;

static bool check(pbt::Case &C, const std::string &Text) {
  bool V = static_cast<bool>(vf::FeatureModelXmlParser(Text).verifyFeatureModel());
  auto FM = vf::FeatureModelXmlParser(Text).buildFeatureModel();
  C.require(V || !FM, "unverified-model", "the verifier rejects the text, the reader accepts it");
  if (FM) {
    requireInvariants(C, *FM);
    const vf::FeatureModel &CFM = *FM;
    size_t N = 0;
    for (auto *F : CFM.features()) {
      (void)F->toString();
      ++N;
    }
    C.eq(N, CFM.size(), "reachable");
    C.tag("loaded");
  } else {
    C.tag(V ? "inconsistent" : "invalid");
  }
  return V;
}

static const std::vector<std::string> &tokens() {
  static const std::vector<std::string> T{
      "<vm name=\"x\">", "<vm name=\"x\" root=\"/\">", "<vm>", "</vm>", "<binaryOptions>",
      "</binaryOptions>", "<binaryOptions/>", "<numericOptions>", "</numericOptions>",
      "<configurationOption>", "</configurationOption>", "<name>", "</name>", "<name>root</name>",
      "<name>a</name>", "<name>b</name>", "<name/>", "<parent>a</parent>", "<parent>root</parent>",
      "<parent/>", "<children><options>a</options></children>", "<children>", "</children>",
      "<options>", "</options>", "<optional>True</optional>", "<optional>False</optional>",
      "<impliedOptions><options>a</options></impliedOptions>",
      "<excludedOptions><options>b</options></excludedOptions>", "<minValue>1</minValue>",
      "<maxValue>3</maxValue>", "<values>1;2</values>", "<values/>", "<values>;</values>",
      "<stepFunction>x + 1</stepFunction>", "<stepFunction>)</stepFunction>", "<locations>",
      "</locations>", "<sourceRange>", "<sourceRange category=\"necessary\">", "</sourceRange>",
      "<path>p</path>", "<start><line>1</line><column>2</column></start>",
      "<end><line>1</line><column>2</column></end>", "<memberOffset>A::b</memberOffset>",
      "<memberOffset>b</memberOffset>", "<revisionRange><introduced>a</introduced></revisionRange>",
      "<booleanConstraints>", "</booleanConstraints>", "<mixedConstraints>", "</mixedConstraints>",
      "<nonBooleanConstraints>", "</nonBooleanConstraints>", "<constraint>", "</constraint>",
      "<constraint>a | b</constraint>", "<constraint>a &amp; (b</constraint>", "<constraint/>",
      "a", "b", "root", "base", "=", "<", ">", "/", "&", ";", "\"", "'", "<!--", "-->", "<![CDATA[",
      "]]>", "<?x", "?>", "&lt;", "&#0;", "&#x10FFFF;", "&e;", "<!DOCTYPE vm SYSTEM \"vm.dtd\">",
      "<!DOCTYPE vm [<!ENTITY e \"a\">]>", "<?xml version=\"1.0\"?>",
      "<?xml version=\"1.0\" encoding=\"UTF-16\"?>", "\xEF\xBB\xBF", "\xFF\xFE", "\xC3", " ", "\n"};
  return T;
}

static std::string value(pbt::Case &C) {
  switch (C.draw(5)) {
  case 0:
    return C.pick<std::string>({"", " ", "root", "base", "a", "0", "-1", "x", "True", "\n"});
  case 1:
    return std::to_string(C.int64());
  case 2:
    return C.pick<std::string>({"99999999999999999999999", "-99999999999999999999999", "1e999", "1e9",
                                "4294967296", "2147483648", "-2147483649", "0x10", "1.5", "+3", "--3",
                                "1;;2;", ";", "1-2", "a::b::", "::", "::a", "x ^ ", "x + x", "x", "nan",
                                "inf * x", "1e400 + x"});
  case 3:
    return genText(C, 8);
  case 4: {
    auto S = C.pick<std::string>({"(", "!", "a => ", "a + ", "((a) ", "~", "a"});
    std::string R;
    for (int64_t K = C.range(1, 40); K > 0; --K) {
      R += S;
    }
    return R + "a";
  }
  default:
    return std::string(static_cast<size_t>(C.range(1, 2000)), C.pick<char>({'a', ' ', '9', '\xC3', ';'}));
  }
}

static std::string escaped(const std::string &S) {
  std::string R;
  for (char Ch : S) {
    R += Ch == '<' ? "&lt;" : Ch == '&' ? "&amp;" : Ch == '>' ? "&gt;" : Ch == '"' ? "&quot;" : std::string(1, Ch);
  }
  return R;
}

// Splits into tags and text.
static std::vector<std::string> pieces(const std::string &S) {
  std::vector<std::string> R;
  std::string Cur;
  for (char Ch : S) {
    if (Ch == '<' && !Cur.empty()) {
      R.push_back(Cur);
      Cur.clear();
    }
    Cur += Ch;
    if (Ch == '>') {
      R.push_back(Cur);
      Cur.clear();
    }
  }
  if (!Cur.empty()) {
    R.push_back(Cur);
  }
  return R;
}

// the piece that closes the element opened by piece I
static size_t closing(const std::vector<std::string> &P, size_t I) {
  int D = 0;
  for (size_t K = I; K < P.size(); ++K) {
    const std::string &X = P[K];
    if (X.size() < 3 || X[0] != '<' || X[1] == '!' || X[1] == '?') {
      continue;
    }
    if (X[1] == '/') {
      --D;
    } else if (X[X.size() - 2] != '/') {
      ++D;
    }
    if (D <= 0) {
      return K;
    }
  }
  return P.size() - 1;
}

// mutations that keep the text well formed
static std::string structural(pbt::Case &C, const std::string &Text, const std::string &Other) {
  auto P = pieces(Text);
  std::vector<size_t> Opens, Texts;
  for (size_t I = 0; I < P.size(); ++I) {
    if (P[I].size() > 2 && P[I][0] == '<' && P[I][1] != '/' && P[I][1] != '!' && P[I][1] != '?') {
      Opens.push_back(I);
    } else if (P[I][0] != '<' || P[I].find_first_not_of(" \n\t") == std::string::npos) {
      if (P[I].find_first_not_of(" \n\t") != std::string::npos) {
        Texts.push_back(I);
      }
    }
  }
  auto Join = [](const std::vector<std::string> &V) {
    std::string S;
    for (auto &X : V) {
      S += X;
    }
    return S;
  };
  if (Opens.empty()) {
    return Text;
  }
  size_t I = C.pick(Opens), E = closing(P, I);
  auto At = [&](size_t K) { return P.begin() + static_cast<long>(K); };
  switch (C.weighted({4, 2, 2, 2, 2, 2, 1})) {
  case 0: // another text
    if (!Texts.empty()) {
      size_t K = C.pick(Texts);
      P[K] = C.flip() ? escaped(value(C)) : P[C.pick(Texts)];
    }
    break;
  case 1: // drop an element
    P.erase(At(I), At(E + 1));
    break;
  case 2: { // repeat an element
    std::vector<std::string> X(At(I), At(E + 1));
    P.insert(At(E + 1), X.begin(), X.end());
    break;
  }
  case 3: { // copy or move an element somewhere else
    std::vector<std::string> X(At(I), At(E + 1));
    if (C.flip()) {
      P.erase(At(I), At(E + 1));
    }
    P.insert(At(C.draw(P.size())), X.begin(), X.end());
    break;
  }
  case 4: { // an element of another document
    auto Q = pieces(Other);
    std::vector<size_t> Os;
    for (size_t K = 0; K < Q.size(); ++K) {
      if (Q[K].size() > 2 && Q[K][0] == '<' && Q[K][1] != '/' && Q[K][1] != '!' && Q[K][1] != '?') {
        Os.push_back(K);
      }
    }
    if (!Os.empty()) {
      size_t A = C.pick(Os), B = closing(Q, A);
      if (C.flip()) {
        P.erase(At(I), At(E + 1));
      }
      P.insert(At(std::min(I, P.size())), Q.begin() + static_cast<long>(A),
               Q.begin() + static_cast<long>(B) + 1);
    }
    break;
  }
  case 5: { // attributes
    std::string &T = P[I];
    size_t Eq = T.find('=');
    if (Eq != std::string::npos && C.flip()) {
      size_t B = T.rfind(' ', Eq), Q1 = T.find('"', Eq), Q2 = Q1 == std::string::npos ? Q1 : T.find('"', Q1 + 1);
      if (Q2 != std::string::npos) {
        if (C.flip()) {
          T.erase(B, Q2 - B + 1);
        } else {
          T = T.substr(0, Q1 + 1) + escaped(value(C)) + T.substr(Q2);
        }
      }
    } else {
      size_t End = T.size() - (T[T.size() - 2] == '/' ? 2 : 1);
      T.insert(End, C.pick<std::string>({" name=\"n\"", " req=\"none\"", " exprKind=\"neg\"", " req=\"\"", " category=\"inessential\"", " category=\"\"", " root=\"\"", " x=\"y\""}));
    }
    break;
  }
  default: { // rename an element
    std::string N = C.pick<std::string>({"vm", "name", "options", "configurationOption", "values", "binaryOptions", "path", "start", "zzz"});
    size_t S = P[I].find_first_of(" />");
    P[I] = "<" + N + P[I].substr(S);
    if (E != I) {
      P[E] = "</" + N + ">";
    }
  }
  }
  return Join(P);
}

static std::string bytes(pbt::Case &C, std::string T) {
  for (int64_t K = C.range(1, 4); K > 0; --K) {
    size_t At = C.draw(T.size());
    switch (C.draw(4)) {
    case 0:
      if (At < T.size()) {
        T[At] = static_cast<char>(C.draw(255));
      }
      break;
    case 1:
      T.insert(At, C.pick(tokens()));
      break;
    case 2:
      T.erase(At, C.draw(20));
      break;
    case 3:
      T.insert(At, T.substr(C.draw(T.size()), C.draw(60)));
      break;
    default:
      T.insert(At, 1, static_cast<char>(C.draw(255)));
    }
  }
  return T;
}

PROP(mutants, 5000, 150000) {
  Doc D = genDoc(C, 7);
  Printer P(C, C.flip());
  std::string Text = P.print(D);
  std::string Other = C.flip() ? Printer(C, true).print(genDoc(C, 4)) : Text;
  for (int64_t K = C.range(1, 4); K > 0; --K) {
    Text = structural(C, Text, Other);
  }
  if (C.chance(1, 5)) {
    Text = bytes(C, Text);
  }
  C.describe(Text);
  check(C, Text);
  C.nontrivial(Text);
}

PROP(bytes, 3000, 80000) {
  std::string Text = Printer(C, C.flip()).print(genDoc(C, 4));
  Text = bytes(C, Text);
  if (C.chance(1, 20)) {
    Text.insert(C.draw(Text.size()), 1, '\0');
  }
  C.describe(pbt::quote(Text));
  check(C, Text);
  C.nontrivial(Text);
}

PROP(soup, 2500, 60000) {
  std::string Text;
  bool Frame = C.flip();
  for (int64_t K = C.sized(0, 40); K > 0; --K) {
    Text += C.chance(1, 12) ? value(C) : C.pick(tokens());
  }
  if (Frame) {
    Text = "<vm name=\"x\"><binaryOptions>" + Text + "</binaryOptions></vm>";
  }
  C.describe(pbt::quote(Text));
  check(C, Text);
  if (Text.size() > 10) {
    C.nontrivial(Text);
  }
}

PROP(raw, 1500, 40000) {
  std::string Text;
  for (int64_t K = C.sized(0, 120); K > 0; --K) {
    Text += static_cast<char>(C.flip() ? C.draw(255) : C.range(32, 126));
  }
  C.describe(pbt::quote(Text));
  check(C, Text);
  // files that are not there
  if (C.chance(1, 10)) {
    C.require(!vf::loadFeatureModel("/nonexistent/" + std::to_string(C.draw(9))), "missing-file");
    C.require(!vf::verifyFeatureModel("/nonexistent/x"), "missing-file");
    C.require(!vf::loadFeatureModel("/"), "directory");
    C.require(!vf::verifyFeatureModel(""), "missing-file");
  }
  if (Text.size() > 3) {
    C.nontrivial(Text);
  }
}

// one text or attribute is very long
PROP(large, 240, 2000) {
  auto P = pieces(Printer(C, true).print(genDoc(C, 4)));
  std::vector<size_t> Texts;
  for (size_t I = 1; I < P.size(); ++I) {
    // nested operators of expressions are limited by design
    if (P[I][0] != '<' && P[I - 1].rfind("<constraint", 0) != 0 && P[I - 1].rfind("<stepFunction", 0) != 0) {
      Texts.push_back(I);
    }
  }
  std::string Unit = C.pick<std::string>({"1", "a", "9;", "-1;", "a::", " ", "::", "a ", "-", "\xC3\xA9", "&lt;", "1e", "0", ";"});
  int64_t N = C.pick<int64_t>({2000, 60000, 200000});
  std::string Long;
  for (int64_t I = 0; I < N; ++I) {
    Long += Unit;
  }
  size_t At = Texts.empty() || C.chance(1, 4) ? 0 : C.pick(Texts);
  if (C.chance(1, 3)) {
    for (size_t I : Texts) { // rare in documents
      At = P[I - 1].rfind("<values", 0) == 0 ? I : At;
    }
  }
  if (At) {
    P[At] = Long;
  } else {
    for (auto &X : P) {
      if (X.rfind("<vm", 0) == 0) {
        X = "<vm name=\"" + Long + "\" root=\"/\">";
      }
    }
  }
  std::string Text;
  for (auto &X : P) {
    Text += X;
  }
  C.describe(std::to_string(N) + " * " + Unit + " in piece " + std::to_string(At) + " of\n" + Text.substr(0, 2000));
  check(C, Text);
  C.nontrivial(std::to_string(N) + Unit + std::to_string(At) + Text.substr(0, 400));
}
