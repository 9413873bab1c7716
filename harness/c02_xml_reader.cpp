// C02: the XML reader loads exactly what the document says.
#include "pbt.h"
#include "xmldoc.h"

#include "vara/Feature/FeatureModelParser.h"

#include <cstdio>
#include <filesystem>
#include <fstream>
#include <unistd.h>

using namespace xmldoc;

static std::unique_ptr<vf::FeatureModel> load(pbt::Case &C, const std::string &Text, bool &Verified) {
  switch (C.weighted({6, 1})) {
  case 0: {
    Verified = static_cast<bool>(vf::FeatureModelXmlParser(Text).verifyFeatureModel());
    return vf::FeatureModelXmlParser(Text).buildFeatureModel();
  }
  default: {
    std::string P = std::filesystem::temp_directory_path() / ("c02-" + std::to_string(getpid()) + ".xml");
    {
      std::ofstream F(P, std::ios::binary);
      F << Text;
    }
    Verified = vf::verifyFeatureModel(P);
    auto FM = vf::loadFeatureModel(P);
    std::filesystem::remove(P);
    return FM;
  }
  }
}

PROP(load, 4000, 120000) {
  Doc D = genDoc(C, 12);
  Model X = expected(D);
  if (!D.RootAttr) {
    X.Path = std::filesystem::current_path().string();
  }
  Printer P(C, C.chance(1, 10));
  std::string Text = P.print(D);
  C.describe(Text);
  bool Verified = false;
  auto FM = load(C, Text, Verified);
  C.require(Verified, "valid-refused", "the verifier refused a valid document");
  C.require(FM != nullptr, "valid-refused", "the reader refused a valid document");
  requireInvariants(C, *FM, Text);
  DiffOpts O;
  O.ConstraintOrder = false;
  std::string R = diff(X, fromFM(*FM), O);
  C.require(R.empty(), "loaded", R);
  if (!X.G.empty()) {
    C.tag("alternative");
  }
  if (X.F.size() >= 4) {
    C.nontrivial(Text);
  }
}

// two spellings of one document give the same model
PROP(same, 1500, 40000) {
  Doc D = genDoc(C, 10);
  D.RootAttr = true;
  std::string A = Printer(C, true).print(D);
  std::string B = Printer(C, false).print(D);
  C.describe(A + "\n----\n" + B);
  auto X = vf::FeatureModelXmlParser(A).buildFeatureModel();
  auto Y = vf::FeatureModelXmlParser(B).buildFeatureModel();
  C.require(X && Y, "valid-refused");
  DiffOpts O;
  O.ConstraintOrder = false;
  std::string R = diff(fromFM(*X), fromFM(*Y), O);
  C.require(R.empty(), "spelling", R);
  if (D.M.F.size() >= 4) {
    C.nontrivial(B);
  }
}

static std::string replaced(const std::string &S, const std::string &A, const std::string &B) {
  size_t I = S.find(A);
  return I == std::string::npos ? S : S.substr(0, I) + B + S.substr(I + A.size());
}

PROP(refuse, 2500, 60000) {
  Doc D = genDoc(C, 8);
  D.RootOption = true;
  while (D.M.F.size() < 3) {
    GenOpts O;
    O.Numeric = false;
    Feat X = genFeat(C, D.M, O);
    X.Parent = D.M.Root;
    D.M.F[X.Name] = X;
  }
  std::vector<std::string> Ns, Kids;
  for (auto &[N, X] : D.M.F) {
    Ns.push_back(N);
    if (N != D.M.Root) {
      Kids.push_back(N);
    }
  }
  Printer P(C, true);
  std::string What, Text;
  bool Schema = false; // the verifier refuses too
  auto Opt = [](const std::string &N) {
    return "<configurationOption>\n<name>" + N + "</name>\n";
  };
  std::string N = C.pick(Kids);
  Text = P.print(D);
  std::string Esc = P.esc(N);
  C.require(Text.find(Opt(Esc)) != std::string::npos, "harness", Text);
  switch (C.draw(17)) {
  case 0: { // the parent element names another feature than the children element
    What = "two parents";
    std::string Pa = "<parent>" + P.esc(D.M.F[N].Parent) + "</parent>";
    std::string Other = C.pick(Ns);
    if (Other == D.M.F[N].Parent) {
      C.discard();
    }
    size_t I = Text.find(Opt(Esc));
    size_t J = Text.find(Pa, I);
    C.require(J != std::string::npos, "harness");
    Text = Text.substr(0, J) + "<parent>" + P.esc(Other) + "</parent>" + Text.substr(J + Pa.size());
    break;
  }
  case 1: { // two children elements
    What = "child of two features";
    std::string Other = C.pick(Ns);
    if (Other == D.M.F[N].Parent) {
      C.discard();
    }
    D.M.C.clear();
    D.Imp.clear();
    D.Exc.clear();
    Text = Printer(C, true).print(D);
    // drop the parent element in some cases
    if (C.flip()) {
      size_t I = Text.find(Opt(Esc));
      size_t J = Text.find("<parent>", I), K = Text.find("</parent>", I);
      Text = Text.substr(0, J) + Text.substr(K + 9);
    }
    std::string O = Opt(P.esc(Other));
    size_t I = Text.find(O);
    size_t End = Text.find("</configurationOption>", I);
    size_t Ch = Text.find("<children>", I);
    std::string L = "<options>" + Esc + "</options>";
    if (Ch != std::string::npos && Ch < End) {
      Text.insert(Ch + 10, L);
    } else {
      size_t At = Text.find("<optional>", I);
      Text.insert(At, "<children>" + L + "</children>");
    }
    break;
  }
  case 2:
  case 3: {
    What = "unreadable constraint";
    std::string Bad = C.pick<std::string>({"", "&amp;", "(", ")", "root |", "| root", "root root", "root &gt;", "((root)", "!", "root => ", "1 2", "\"root\""});
    std::string Sec = C.pick<std::string>({"booleanConstraints", "nonBooleanConstraints", "mixedConstraints"});
    Doc E = D;
    E.M.C.clear();
    Text = Printer(C, true).print(E);
    Text = replaced(Text, "</vm>", "<" + Sec + "><constraint" + (Sec[0] == 'm' ? " req=\"all\" exprKind=\"pos\"" : "") + ">" + Bad + "</constraint></" + Sec + "></vm>");
    break;
  }
  case 4:
  case 5: {
    What = "constraint over an undefined option";
    std::string Sec = C.pick<std::string>({"booleanConstraints", "nonBooleanConstraints", "mixedConstraints"});
    Doc E = D;
    E.M.C.clear();
    Text = Printer(C, true).print(E);
    std::string T = C.pick<std::string>({"undefined_f", "!undefined_f", D.M.Root + " | undefined_f", "(undefined_f = 1) =&gt; " + D.M.Root});
    Text = replaced(Text, "</vm>", "<" + Sec + "><constraint" + (Sec[0] == 'm' ? " req=\"all\" exprKind=\"pos\"" : "") + ">" + T + "</constraint></" + Sec + "></vm>");
    break;
  }
  case 6:
    What = "undefined implied option";
    D.Imp[C.pick(Ns)].push_back("undefined_f");
    Text = Printer(C, false).print(D);
    break;
  case 7:
    What = "undefined excluded option";
    D.Exc[C.pick(Ns)].push_back("undefined_f");
    Text = Printer(C, false).print(D);
    break;
  case 8: {
    What = "undefined parent";
    Doc E = D;
    E.M.F[N].Parent = "undefined_f";
    Text = Printer(C, true).print(E);
    break;
  }
  case 9: {
    What = "undefined child";
    Feat X = D.M.F[N];
    Text = replaced(Text, "</configurationOption>", "</configurationOption>"); // unchanged
    size_t I = Text.find(Opt(P.esc(C.pick(Ns))));
    size_t End = Text.find("</configurationOption>", I), Ch = Text.find("<children>", I);
    if (Ch == std::string::npos || Ch > End) {
      C.discard();
    }
    Text.insert(Ch + 10, "<options>undefined_f</options>");
    break;
  }
  case 10: {
    What = "duplicate option";
    std::string O = "<configurationOption><name>" + Esc + "</name>";
    if (C.flip()) {
      O += "<parent>" + P.esc(D.M.F[N].Parent) + "</parent>";
    }
    O += "<optional>True</optional></configurationOption>";
    std::string Sec = C.pick<std::string>({"binaryOptions", "numericOptions"});
    Text = replaced(Text, "</" + Sec + ">", O + "</" + Sec + ">");
    break;
  }
  case 11: {
    What = "cycle";
    // some ancestor becomes a child of its descendant
    std::vector<std::string> Sub = D.M.subtree(N);
    std::string Desc = C.pick(Sub);
    D.M.F[N].Parent = Desc;
    Text = Printer(C, false).print(D);
    break;
  }
  case 12: {
    What = "root below a feature";
    size_t I = Text.find(Opt(D.M.Root));
    size_t At = I + Opt(D.M.Root).size();
    Text.insert(At, "<parent>" + Esc + "</parent>");
    if (!D.M.F[D.M.Root].Out.empty()) {
      C.discard();
    }
    break;
  }
  case 13: {
    What = "schema: " + std::to_string(0);
    Schema = true;
    std::string At = C.pick<std::string>({"</vm>", "<binaryOptions>", "</binaryOptions>", "</configurationOption>", "<name>", "</name>"});
    std::string Bad = C.pick<std::string>({"<unknown/>", "<name>n</name>", "<vm/>", "<configurationOption><name>zz</name></configurationOption><bad/>"});
    size_t I = Text.find(At);
    Text.insert(At[1] == '/' ? I : I, Bad);
    break;
  }
  case 14:
    What = "schema: no name";
    Schema = true;
    Text = replaced(Text, " name=\"" + P.esc(D.M.Name, '"') + "\"", "");
    if (C.flip()) {
      Text = replaced(Text, "<name>" + P.esc(N) + "</name>", "");
    }
    break;
  case 15: {
    What = "truncated";
    Schema = true;
    size_t E = Text.rfind("</vm>");
    Text = Text.substr(0, C.draw(E + 4));
    break;
  }
  case 16: {
    What = "bad category";
    Schema = true;
    if (Text.find("category=\"") == std::string::npos) {
      C.discard();
    }
    Text = replaced(Text, "category=\"", C.pick<std::string>({"category=\"x", "category=\"Necessary\" x=\"", "kind=\""}));
    break;
  }
  default:
    What = "elements out of order";
    Schema = true;
    switch (C.draw(2)) {
    case 0:
      Text = replaced(Text, "<optional>", "<locations></locations><optional>");
      break;
    case 1:
      Text = replaced(Text, "</numericOptions>", "</numericOptions><numericOptions></numericOptions>");
      break;
    default:
      Text = replaced(Text, "<binaryOptions>", "<booleanConstraints></booleanConstraints><binaryOptions>");
    }
  }
  C.describe(What + "\n" + Text);
  C.note(What);
  C.tag(What.substr(0, 6));
  bool Verified = false;
  auto FM = load(C, Text, Verified);
  C.require(!FM, "accepted", What);
  C.require(!Schema || !Verified, "verified", What);
  C.nontrivial(Text);
}
