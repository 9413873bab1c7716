// C01: writing a model as XML and reading it back yields the same model.
#include "pbt.h"
#include "refmodel.h"

#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"

#include "libxml/parser.h"
#include "libxml/valid.h"

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <unistd.h>

using namespace ref;

// The published schema.
static const char *Dtd = R"(<!ELEMENT vm (binaryOptions, numericOptions?, booleanConstraints?, nonBooleanConstraints?, mixedConstraints?)>
<!ATTLIST vm name CDATA #REQUIRED root CDATA #IMPLIED commit CDATA #IMPLIED>
<!ELEMENT binaryOptions (configurationOption*)>
<!ELEMENT numericOptions (configurationOption*)>
<!ELEMENT booleanConstraints (constraint*)>
<!ELEMENT nonBooleanConstraints (constraint*)>
<!ELEMENT mixedConstraints (constraint*)>
<!ELEMENT configurationOption (name, outputString?, (prefix | preFix)?, (postfix | postFix)?, parent?, children?, impliedOptions?, excludedOptions?, optional?, ((minValue, maxValue) | values)?, stepFunction?, defaultValue?, locations?)>
<!ELEMENT constraint (#PCDATA)>
<!ATTLIST constraint req CDATA #IMPLIED exprKind CDATA #IMPLIED>
<!ELEMENT name (#PCDATA)>
<!ELEMENT outputString (#PCDATA)>
<!ELEMENT prefix (#PCDATA)>
<!ELEMENT preFix (#PCDATA)>
<!ELEMENT postfix (#PCDATA)>
<!ELEMENT postFix (#PCDATA)>
<!ELEMENT parent (#PCDATA)>
<!ELEMENT children (options*)>
<!ELEMENT impliedOptions (options*)>
<!ELEMENT excludedOptions (options*)>
<!ELEMENT defaultValue (#PCDATA)>
<!ELEMENT options (#PCDATA)>
<!ELEMENT optional (#PCDATA)>
<!ELEMENT minValue (#PCDATA)>
<!ELEMENT maxValue (#PCDATA)>
<!ELEMENT values (#PCDATA)>
<!ELEMENT stepFunction (#PCDATA)>
<!ELEMENT locations (sourceRange*)>
<!ELEMENT sourceRange (revisionRange?, path, start, end, memberOffset?)>
<!ATTLIST sourceRange category (necessary|inessential) "necessary">
<!ELEMENT revisionRange (introduced, removed?)>
<!ELEMENT introduced (#PCDATA)>
<!ELEMENT removed (#PCDATA)>
<!ELEMENT path (#PCDATA)>
<!ELEMENT start (line, column)>
<!ELEMENT end (line, column)>
<!ELEMENT line (#PCDATA)>
<!ELEMENT column (#PCDATA)>
<!ELEMENT memberOffset (#PCDATA)>
)";

static bool validates(const std::string &Text) {
  auto *Ctxt = xmlNewParserCtxt();
  auto *Doc = xmlCtxtReadMemory(Ctxt, Text.data(), static_cast<int>(Text.size()), nullptr, nullptr, 0);
  bool Ok = false;
  if (Doc) {
    auto *D = xmlIOParseDTD(nullptr,
                            xmlParserInputBufferCreateMem(Dtd, static_cast<int>(strlen(Dtd)),
                                                          XML_CHAR_ENCODING_UTF8),
                            XML_CHAR_ENCODING_UTF8);
    auto *V = xmlNewValidCtxt();
    Ok = D && xmlValidateDtd(V, Doc, D) &&
         !xmlStrcmp(xmlDocGetRootElement(Doc)->name, reinterpret_cast<const xmlChar *>("vm"));
    xmlFreeValidCtxt(V);
    xmlFreeDtd(D);
    xmlFreeDoc(Doc);
  }
  xmlFreeParserCtxt(Ctxt);
  return Ok;
}

// XML spells an alternative group as siblings that are all mandatory and all
// exclude each other.
static bool xmlAlternative(const Model &M, int G) {
  auto Ms = M.members(G);
  return !M.G.at(G).Or && Ms.size() > 1 && M.childrenOf(M.G.at(G).Parent).size() == Ms.size();
}

// Siblings outside a group that spell an alternative group.
static bool spellsAlternative(const Model &M) {
  std::set<std::pair<std::string, std::string>> Ex;
  for (auto &X : M.C) {
    if (X.X->O == Op::EXCL && X.X->L->O == Op::FEAT && X.X->R->O == Op::FEAT) {
      Ex.insert({X.X->L->N, X.X->R->N});
    }
  }
  for (auto &[P, F] : M.F) {
    auto Ch = M.childrenOf(P);
    bool Alt = Ch.size() > 1, Grouped = true;
    for (auto &A : Ch) {
      Grouped = Grouped && M.F.at(A).Group >= 0 && xmlAlternative(M, M.F.at(A).Group);
      int G = M.F.at(A).Group; // a group of one makes its member mandatory
      Alt = Alt && (G < 0 ? !M.F.at(A).Opt : M.members(G).size() == 1 || xmlAlternative(M, G));
      for (auto &B : Ch) {
        Alt = Alt && (A == B || Ex.count({A, B}));
      }
    }
    if (Alt && !Grouped) {
      return true;
    }
  }
  return false;
}

static std::string conKey(const Con &X) {
  Con Y = X;
  Y.X = normText(X.X);
  return Y.str();
}

// everything but the encoding of groups, which is compared by meaning
static void compare(pbt::Case &C, const Model &M, vf::FeatureModel &Re, const std::string &Ctx) {
  requireInvariants(C, Re, Ctx);
  Model R = fromFM(Re), X = M;
  std::set<std::string> Free; // members of groups have no flag of their own
  for (auto It = X.G.begin(); It != X.G.end();) {
    bool Keep = xmlAlternative(M, It->first);
    for (auto &N : M.members(It->first)) {
      Free.insert(N);
      if (!Keep) {
        X.F[N].Group = -1;
      }
    }
    It = Keep ? std::next(It) : X.G.erase(It);
  }
  Model Q = R;
  for (auto &N : Free) {
    X.F[N].Opt = false;
    if (Q.F.count(N)) {
      Q.F[N].Opt = false;
    }
  }
  DiffOpts O;
  O.Constraints = false;
  std::string D = diff(X, Q, O);
  C.require(D.empty(), "round-trip", D + "\n" + Ctx);
  std::set<std::string> A, B;
  for (auto &K : M.C) {
    A.insert(conKey(K));
  }
  for (auto &K : R.C) {
    std::string S = conKey(K);
    B.insert(S);
    if (A.count(S)) {
      continue;
    }
    // otherwise it may only speak about one group
    std::set<std::string> Fs;
    featuresOf(K.X, Fs);
    bool Ok = false;
    for (auto &[Id, G] : M.G) {
      auto Ms = M.members(Id);
      bool In = K.C == Cls::BOOL;
      for (auto &N : Fs) {
        In = In && (N == G.Parent || std::count(Ms.begin(), Ms.end(), N));
      }
      Ok |= In;
    }
    C.require(Ok, "round-trip", "unexpected constraint " + S + "\n" + Ctx);
  }
  for (auto &S : A) {
    C.require(B.count(S), "round-trip", "constraint is lost: " + S + "\n" + Ctx);
  }
}

static std::string write(pbt::Case &C, vf::FeatureModel &FM) {
  auto T = vf::FeatureModelXmlWriter(FM).writeFeatureModel();
  C.require(T.has_value(), "write-failed");
  return *T;
}

static GenOpts opts(pbt::Case &C) {
  GenOpts O;
  O.RootLocations = true;
  O.MixedChildren = true;
  O.NumericAnywhere = C.chance(1, 3);
  return O;
}

PROP(round_trip, 3000, 80000) {
  GenOpts O = opts(C);
  O.MaxFeatures = 14;
  O.Tails = true;
  O.BigNumbers = C.flip();
  O.MaxConstraints = 5;
  if (C.chance(1, 3)) {
    // names that cannot occur in the text of a constraint
    O.WeirdNames = true;
    O.OrGroups = O.MixedChildren = false;
  }
  Model M = genModel(C, O);
  std::vector<std::string> Ns;
  for (auto &[N, X] : M.F) {
    Ns.push_back(N);
  }
  for (int64_t K = C.chance(1, 3) ? C.range(1, 6) : 0; K > 0; --K) {
    Con X;
    X.X = bin(C.flip() ? Op::EXCL : Op::IMPL, feat(C.pick(Ns)), feat(C.pick(Ns)));
    M.C.push_back(X);
  }
  if (spellsAlternative(M)) {
    C.discard();
  }
  C.describe(M.str());
  auto FM = toFM(M);
  std::string T = write(C, *FM);
  C.require(validates(T), "schema", T);
  C.require(static_cast<bool>(vf::FeatureModelXmlParser(T).verifyFeatureModel()), "schema", T);
  auto Re = vf::FeatureModelXmlParser(T).buildFeatureModel();
  C.require(Re != nullptr, "unreadable", T);
  compare(C, M, *Re, T);
  // the original is unchanged
  std::string D = diff(M, fromFM(*FM));
  C.require(D.empty(), "writing-changed-model", D);
  std::string T2 = write(C, *Re);
  C.requireF(T == T2, "unstable", [&] { return T + "\n----\n" + T2; });
  C.require(write(C, *FM) == T, "unstable");
  if (C.chance(1, 8)) {
    std::string P = std::filesystem::temp_directory_path() / ("c01-" + std::to_string(getpid()) + ".xml");
    int RC = vf::FeatureModelXmlWriter(*FM).writeFeatureModel(P);
    C.require(RC >= 0, "write-failed");
    auto L = vf::loadFeatureModel(P);
    std::filesystem::remove(P);
    C.require(L != nullptr, "unreadable-file");
    compare(C, M, *L, "file");
    C.tag("file");
  }
  if (M.F.size() >= 4) {
    C.nontrivial(M.str());
  }
}

PROP(same_configurations, 1500, 40000) {
  GenOpts O = opts(C);
  O.MaxFeatures = 8;
  O.NumericParents = O.NumericAnywhere;
  O.NumericAnywhere = false; // such groups have no documented configurations
  if (O.NumericParents) {
    // groups written as constraints would use numeric options as truth values
    O.OrGroups = O.MixedChildren = false;
  }
  O.Locations = O.Outputs = false;
  Model M = genModel(C, O);
  if (spellsAlternative(M) || assignments(M) > 6000) {
    C.discard();
  }
  C.describe(M.str());
  auto FM = toFM(M);
  std::string T = write(C, *FM);
  auto Re = vf::FeatureModelXmlParser(T).buildFeatureModel();
  C.require(Re != nullptr, "unreadable", T);
  compare(C, M, *Re, T);
  bool Amb = false;
  auto A = configs(M, &Amb);
  if (Amb) {
    C.discard();
  }
  Model R = fromFM(*Re);
  for (auto &[N, X] : M.F) {
    R.F[N].St = X.St; // compared above
  }
  auto B = configs(R, &Amb);
  C.requireF(A == B, "configurations", [&] {
    for (auto &X : A) {
      if (!B.count(X)) {
        return "lost " + X + "\n" + T;
      }
    }
    for (auto &X : B) {
      if (!A.count(X)) {
        return "gained " + X + "\n" + T;
      }
    }
    return std::string();
  });
  if (M.F.size() >= 4 && (!M.G.empty() || !M.C.empty())) {
    C.nontrivial(M.str());
  }
}

// What the format cannot express is refused.
PROP(refused, 500, 8000) {
  GenOpts O = opts(C);
  O.MaxFeatures = 6;
  O.PartialLocations = true;
  Model M = genModel(C, O);
  bool Bad = false;
  for (auto &[N, X] : M.F) {
    for (auto &L : X.Locs) {
      Bad |= !L.Start || !L.End;
    }
    if (X.Kind == FK::NUM && !X.IsRange && C.chance(1, 6)) {
      X.Vals.clear();
      Bad = true;
    }
  }
  if (!Bad || spellsAlternative(M)) {
    C.discard();
  }
  C.describe(M.str());
  auto FM = toFM(M);
  auto T = vf::FeatureModelXmlWriter(*FM).writeFeatureModel();
  C.requireF(!T, "not-refused", [&] { return *T; });
  std::string P = std::filesystem::temp_directory_path() / ("c01-" + std::to_string(getpid()) + ".xml");
  int RC = vf::FeatureModelXmlWriter(*FM).writeFeatureModel(P);
  std::filesystem::remove(P);
  C.require(RC < 0, "not-refused", std::to_string(RC));
  C.require(vf::FeatureModelXmlWriter(*FM).writeFeatureModel("/nonexistent/dir/file.xml") < 0, "no-file");
  C.nontrivial(M.str());
}

// A file is either written completely, under exactly the given name, or the
// failure is reported.
PROP(files, 400, 6000) {
  GenOpts O = opts(C);
  O.MaxFeatures = C.chance(1, 10) ? 60 : 8;
  Model M = genModel(C, O);
  if (spellsAlternative(M)) {
    C.discard();
  }
  C.describe(M.str());
  auto FM = toFM(M);
  std::string T = write(C, *FM);
  static const std::vector<std::string> Parts = {"a",  "%41", "%",  "%2F", "%zz", "#b", "?c",   " ",       "..",     "&amp;",
                                "\xc3\xa4", ":",   "file:", "~",   "+",   "\\", "'\"", "$(x)", "http:", ".xml"};
  auto Dir = std::filesystem::temp_directory_path() / ("c01-" + std::to_string(getpid()) + ".d");
  std::filesystem::remove_all(Dir);
  std::filesystem::create_directory(Dir);
  std::string Name;
  for (int64_t K = C.range(1, 4); K > 0; --K) {
    Name += C.pick(Parts);
  }
  if (Name == "." || Name == "..") {
    Name += "x";
  }
  C.describe("file name '" + Name + "'");
  auto P = Dir / Name;
  if (C.chance(1, 3)) {
    // the rest of an earlier file does not stay
    std::ofstream(P) << std::string(C.range(1, 20000), 'x');
  }
  int RC = vf::FeatureModelXmlWriter(*FM).writeFeatureModel(P.string());
  C.require(RC >= 0, "write-failed", Name);
  size_t Files = std::distance(std::filesystem::directory_iterator(Dir), std::filesystem::directory_iterator());
  C.require(Files == 1 && std::filesystem::exists(P), "file-name", Name);
  std::ifstream In(P, std::ios::binary);
  std::string Got((std::istreambuf_iterator<char>(In)), std::istreambuf_iterator<char>());
  In.close();
  auto Re = vf::FeatureModelXmlParser(Got).buildFeatureModel();
  C.require(Re != nullptr, "file-unreadable", Got);
  compare(C, M, *Re, "file " + Name);
  auto L = vf::loadFeatureModel(P.string());
  std::filesystem::remove_all(Dir);
  C.require(L != nullptr, "file-unreadable", Name);
  compare(C, M, *L, "file " + Name);
  // no file could be written here
  C.require(vf::FeatureModelXmlWriter(*FM).writeFeatureModel("/dev/full") < 0, "lost-file");
  C.require(vf::FeatureModelXmlWriter(*FM).writeFeatureModel(std::filesystem::temp_directory_path().string()) < 0, "lost-file");
  C.nontrivial(Name + (T.size() > 4096 ? " large" : " small"));
}
