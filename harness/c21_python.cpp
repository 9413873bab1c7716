// C21: the Python bindings show the same model as the C++ library. The binding
// sources are linked into this program, which runs an embedded interpreter.
#include "history.h"
#include "pbt.h"
#include "xmldoc.h"

#include "vara/Feature/ConstraintBuilder.h"
#include "vara/Feature/FeatureModelBuilder.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelTransaction.h"
#include "vara/Feature/FeatureModelWriter.h"

#include "llvm/ADT/StringExtras.h"

#include <pybind11/embed.h>
#include <pybind11/stl.h>

#include <filesystem>
#include <fstream>
#include <unistd.h>

using namespace ref;
namespace py = pybind11;
namespace fs = std::filesystem;

extern "C" PyObject *PyInit_vara_feature();

namespace {

const char *Prelude = R"py(
import gc
import vara_feature as v
import vara_feature.feature as F
import vara_feature.feature_model as FM
import vara_feature.feature_model_builder as B
import vara_feature.constraint as K
import vara_feature.fm_writer as W
from pathlib import Path

def S(x):
    return "%d:%s" % (len(x.encode("utf-8", "surrogateescape")), x)
def N(f):
    return S(f.name.str()) if isinstance(f, F.Feature) else "group"
def pos(p):
    return "-" if p is None else "%d,%d" % (p.line_number, p.column_offset)
def loc(l):
    return "loc " + S(l.path) + " " + pos(l.start) + " " + pos(l.end) + " " + \
        ("inessential" if l.category == F.Location.Category.inessential else "necessary") + " " + S(str(l))
def dump(f):
    # the order of children that were merged is not specified
    s = str(f)
    i = s.rfind("children: [") + 11
    return S(s if i < 11 else s[:i] + ",".join(sorted(s[i:].split(","))))
def feature(f):
    o = ["%s %s out %s optional %d root %d" % (type(f).__name__, S(f.name.str()), S(f.output_string.str()), f.is_optional(), f.is_root())]
    p = f.parent()
    if p is None:
        o.append("parent none")
    else:
        o.append("parent %s%s %d %d" % (N(p), "" if isinstance(p, F.Feature) else " of " + N(p.parent()), p.is_child(f), f.is_parent(p)))
    o += sorted("child " + N(c) for c in f.children())
    if sorted(map(N, f)) != sorted(N(c) for c in f.children()):
        o.append("children() and iter() differ")
    o.append("locations %d" % f.hasLocations())
    o += [loc(l) for l in f.locations]
    o.append(dump(f))
    if type(f) in (F.BinaryFeature, F.NumericFeature, F.RootFeature) and f.to_string() != str(f):
        o.append("to_string() and str() differ")
    return o
def mixed(c):
    return S(str(c)) + " " + ("all" if c.req == FM.Req.ALL else "none") + " " + ("pos" if c.exprKind == FM.ExprKind.POS else "neg")
def observe(m):
    if m is None:
        return "no model"
    o = ["name " + S(m.name.str()), "path " + S(m.path), "commit " + S(m.commit), "root " + N(m.get_root()),
         "size %d %d" % (m.size(), len(m))]
    for f in m:
        o += feature(f)
        if m.get_feature(f.name.str()) != f:
            o.append("get_feature() differs")
    o += sorted("boolean " + S(str(c)) for c in m.booleanConstraints)
    o += sorted("non-boolean " + S(str(c)) for c in m.nonBooleanConstraints)
    o += sorted("mixed " + mixed(c) for c in m.mixedConstraints)
    o += sorted("boolean " + S(str(c.constraint)) for c in m.booleanConstraints)
    o += sorted("non-boolean " + S(str(c.constraint)) for c in m.nonBooleanConstraints)
    o += sorted("mixed " + S(str(c.constraint.clone())) for c in m.mixedConstraints)
    return "\n".join(o)
def raises(f):
    try:
        f()
    except Exception as e:
        return type(e).__name__
    return None
)py";

// what observe() shows, from the C++ interface
std::string S(llvm::StringRef X) { return std::to_string(X.size()) + ":" + X.str(); }
std::string nodeName(const vf::FeatureTreeNode *T) {
  auto *F = llvm::dyn_cast<vf::Feature>(T);
  return F ? S(F->getName()) : "group";
}
template <typename Opt> std::string posText(const Opt &P) {
  return P ? std::to_string(P->getLineNumber()) + "," + std::to_string(P->getColumnOffset()) : "-";
}
std::string locText(vf::FeatureSourceRange L) {
  return "loc " + S(L.getPath().string()) + " " + posText(L.getStart()) + " " + posText(L.getEnd()) + " " +
         (L.getCategory() == vf::FeatureSourceRange::Category::inessential ? "inessential" : "necessary") + " " +
         S(L.toString());
}
void lines(std::string &Out, std::vector<std::string> L, bool Sort = true) {
  if (Sort) {
    std::sort(L.begin(), L.end());
  }
  for (auto &X : L) {
    Out += "\n" + X;
  }
}
std::string featureText(vf::Feature &F) {
  std::string O = F.getKind() == vf::Feature::FeatureKind::FK_BINARY    ? "BinaryFeature "
                  : F.getKind() == vf::Feature::FeatureKind::FK_NUMERIC ? "NumericFeature "
                  : F.getKind() == vf::Feature::FeatureKind::FK_ROOT    ? "RootFeature "
                                                                        : "Feature ";
  O += S(F.getName()) + " out " + S(F.getOutputString()) + " optional " + std::to_string(F.isOptional()) + " root " +
       std::to_string(F.getKind() == vf::Feature::FeatureKind::FK_ROOT);
  if (auto *P = F.getParent()) {
    O += "\nparent " + nodeName(P) + (llvm::isa<vf::Feature>(P) ? "" : " of " + nodeName(P->getParent())) + " 1 1";
  } else {
    O += "\nparent none";
  }
  std::vector<std::string> L;
  for (auto *X : F) {
    L.push_back("child " + nodeName(X));
  }
  lines(O, L);
  O += "\nlocations " + std::to_string(F.getLocationsBegin() != F.getLocationsEnd());
  for (auto &X : F.getLocations()) {
    O += "\n" + locText(X);
  }
  std::string T = F.toString(), Sorted;
  if (size_t I = T.rfind("children: ["); I != std::string::npos) {
    llvm::SmallVector<llvm::StringRef, 8> P;
    llvm::StringRef(T).drop_front(I + 11).split(P, ',');
    std::sort(P.begin(), P.end());
    Sorted = llvm::join(P, ",");
    T = T.substr(0, I + 11) + Sorted;
  }
  return O + "\n" + S(T);
}
std::string observe(vf::FeatureModel *Ptr) {
  if (!Ptr) {
    return "no model";
  }
  vf::FeatureModel &FM = *Ptr;
  const vf::FeatureModel &CFM = FM;
  std::string O = "name " + S(FM.getName()) + "\npath " + S(FM.getPath().string()) + "\ncommit " + S(FM.getCommit()) +
                  "\nroot " + nodeName(FM.getRoot()) + "\nsize " + std::to_string(FM.size()) + " " +
                  std::to_string(FM.size());
  for (auto *F : CFM.features()) {
    O += "\n" + featureText(*F);
  }
  std::vector<std::string> A, B, D, E;
  for (auto *X : CFM.booleanConstraints()) {
    A.push_back("boolean " + S(X->constraint()->toString()));
  }
  for (auto *X : CFM.nonBooleanConstraints()) {
    B.push_back("non-boolean " + S(X->constraint()->toString()));
  }
  using MC = vf::FeatureModel::MixedConstraint;
  for (auto *X : CFM.mixedConstraints()) {
    E.push_back("mixed " + S(X->constraint()->toString()));
    D.push_back(E.back() + (X->req() == MC::Req::ALL ? " all" : " none") +
                (X->exprKind() == MC::ExprKind::POS ? " pos" : " neg"));
  }
  lines(O, A);
  lines(O, B);
  lines(O, D);
  lines(O, A);
  lines(O, B);
  lines(O, E);
  return O;
}

py::dict *Base = nullptr;
void start() {
  static bool Started = false;
  if (Started) {
    return;
  }
  Started = true;
  setenv("PYTHONMALLOC", "malloc", 1); // lets AddressSanitizer see Python's blocks
  setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  setenv("PYTHONNOUSERSITE", "1", 1);
  PyImport_AppendInittab("vara_feature", PyInit_vara_feature);
  py::initialize_interpreter(false);
  Base = new py::dict();
  (*Base)["__builtins__"] = py::module_::import("builtins");
  py::exec(Prelude, *Base);
}

struct Session {
  pbt::Case &C;
  py::dict G;
  std::string Log;
  explicit Session(pbt::Case &C) : C((start(), C)) {
    G = py::reinterpret_steal<py::dict>(PyDict_Copy(Base->ptr()));
    // functions of the prelude look names up in the prelude's own globals
  }
  ~Session() {
    G.clear();
    PyGC_Collect();
  }
  void run(const std::string &Code) {
    Log += Code;
    try {
      py::exec(Code, G);
    } catch (py::error_already_set &X) {
      std::string T = X.what();
      G.clear();
      C.fail("exception", T + "\n" + Log);
    }
  }
  std::string text(const std::string &Expr) {
    try {
      return py::eval(Expr, G).cast<std::string>();
    } catch (py::error_already_set &X) {
      C.fail("exception", std::string(X.what()) + " from " + Expr + "\n" + Log);
    }
  }
  vf::FeatureModel *model(const std::string &Name) { return G[Name.c_str()].cast<vf::FeatureModel *>(); }
};

std::string lit(const std::string &X) {
  std::string R = "\"";
  // a bytes literal decoded as UTF-8: no quoting rules to get wrong
  R = "b'";
  char Buf[8];
  for (char Ch : X) {
    snprintf(Buf, sizeof Buf, "\\x%02x", static_cast<unsigned char>(Ch));
    R += isalnum(static_cast<unsigned char>(Ch)) || Ch == '_' || Ch == '-' || Ch == '/' || Ch == '.' ? std::string(1, Ch)
                                                                                                     : std::string(Buf);
  }
  return R + "'.decode()";
}
std::string pyBool(bool B) { return B ? "True" : "False"; }

// a call sequence that builds exactly X
std::string calls(const E &X) {
  static const std::map<Op, const char *> Names{
      {Op::ADD, "add"},     {Op::AND, "lAnd"}, {Op::DIV, "divide"},       {Op::EQ, "equal"},   {Op::EQUIV, "equivalent"},
      {Op::EXCL, "excludes"}, {Op::GT, "greater"}, {Op::GE, "greaterEqual"}, {Op::IMPL, "implies"}, {Op::LT, "less"},
      {Op::LE, "lessEqual"}, {Op::MUL, "multiply"}, {Op::NEG, "neg"},       {Op::NOT, "lNot"},   {Op::NE, "notEqual"},
      {Op::OR, "lOr"},      {Op::SUB, "subtract"}, {Op::XOR, "lXor"}};
  switch (X->O) {
  case Op::FEAT:
    return ".feature(" + lit(X->N) + ")";
  case Op::INT:
    return ".constant(" + std::to_string(X->V) + ")";
  default:
    break;
  }
  if (isBinary(X->O)) {
    return ".openPar()" + calls(X->L) + "." + Names.at(X->O) + "()" + calls(X->R) + ".closePar()";
  }
  return std::string(".") + Names.at(X->O) + "()" + calls(X->L);
}
std::string constraint(const E &X) { return "K.ConstraintBuilder()" + calls(X) + ".build()"; }

std::string pyLoc(pbt::Case &C, const Loc &L) {
  auto P = [](const std::optional<std::pair<unsigned, unsigned>> &X) {
    return X ? "F.LineColumnOffset(" + std::to_string(X->first) + "," + std::to_string(X->second) + ")"
             : std::string("None");
  };
  std::string R = "F.Location(" + lit(L.Path);
  if (L.Inessential || C.flip()) {
    R += "," + P(L.Start) + "," + P(L.End) + ",F.Location.Category." + (L.Inessential ? "inessential" : "necessary");
  } else if (L.End || C.flip()) {
    R += "," + P(L.Start) + "," + P(L.End);
  } else if (L.Start || C.flip()) {
    R += "," + P(L.Start);
  }
  return R + ")";
}
std::string pyLocs(pbt::Case &C, const std::vector<Loc> &Ls) {
  std::string R = "[";
  for (auto &L : Ls) {
    R += pyLoc(C, L) + ",";
  }
  return R + "]";
}
Loc plainLoc(pbt::Case &C) { // what a Location can be given in Python
  Loc L = genLoc(C, C.flip());
  L.Member.reset();
  L.Intro.reset();
  L.Removed.reset();
  return L;
}
std::string pyValues(const Feat &X) {
  if (X.IsRange) {
    return "(" + std::to_string(X.Min) + "," + std::to_string(X.Max) + ")";
  }
  std::string R = "[";
  for (auto V : X.Vals) {
    R += std::to_string(V) + ",";
  }
  return R + "]";
}

struct File {
  std::string P;
  File(const std::string &Text, const char *Kind = "model")
      : P(fs::temp_directory_path() / ("c21-" + std::to_string(getpid()) + "-" + Kind + ".xml")) {
    std::ofstream F(P, std::ios::binary);
    F << Text;
  }
  File(const File &) = delete;
  ~File() {
    std::error_code EC;
    fs::remove(P, EC);
  }
};

void same(pbt::Case &C, const std::string &Want, const std::string &Got, const char *Kind, const std::string &Ctx) {
  if (Want == Got) {
    return;
  }
  size_t I = 0;
  while (I < Want.size() && I < Got.size() && Want[I] == Got[I]) {
    ++I;
  }
  size_t L = Want.rfind('\n', I ? I - 1 : 0);
  L = L == std::string::npos ? 0 : L;
  C.fail(Kind, "want ..." + Want.substr(L, 300) + "\ngot ..." + Got.substr(std::min(L, Got.size()), 300) + "\n" + Ctx);
}

GenOpts textOpts(pbt::Case &C) {
  GenOpts O;
  O.MaxFeatures = static_cast<int>(C.sized(2, 9));
  O.Tails = true;
  O.WeirdNames = C.flip();
  O.TextConstraints = true;
  return O;
}

} // namespace

// through the builder
PROP(build, 3000, 40000) {
  GenOpts O;
  O.MaxFeatures = static_cast<int>(C.sized(2, 9));
  O.Tails = true;
  O.Numeric = O.Locations = O.Outputs = O.MixedConstraints = O.Steps = false;
  O.WeirdNames = C.flip();
  Model M = genModel(C, O);
  for (auto I = M.C.begin(); I != M.C.end();) {
    I = I->C == Cls::MIXED ? M.C.erase(I) : std::next(I);
  }
  if (C.flip()) {
    M.Name = genText(C, 8);
    M.Commit = genText(C, 8);
    M.Path = "/" + genName(C, M);
  }
  // Declarations of one kind may come in any order, those of constraints keep
  // theirs.
  std::vector<std::string> D;
  for (auto &[N, X] : M.F) {
    if (N == M.Root) {
      D.push_back(".make_root(" + lit(N) + ")");
    } else {
      D.push_back(".make_binary_feature(" + lit(N) + "," + pyBool(X.Opt) + ")");
      D.push_back(".add_an_edge(" + lit(X.Group >= 0 ? M.G.at(X.Group).Parent : X.Parent) + "," + lit(N) + ")");
    }
  }
  for (auto &[Id, X] : M.G) {
    D.push_back(".emplace_relationship(" + lit(X.Parent) + ",'" + (X.Or ? "OR" : "XOR") + "')");
  }
  D.push_back(".set_vm_name(" + lit(M.Name) + ")");
  D.push_back(".set_commit(" + lit(M.Commit) + ")");
  D.push_back(".set_path(" + std::string(C.flip() ? "Path" : "") + "(" + lit(M.Path) + "))");
  auto P = C.permutation(D.size());
  bool Chain = C.flip();
  std::string Code = "b = B.FeatureModelBuilder()\n";
  if (Chain) {
    Code += "b";
  }
  for (size_t I : P) {
    Code += (Chain ? "" : "b") + D[I] + (Chain ? "" : "\n");
  }
  Code += Chain ? "\n" : "";
  for (auto &X : M.C) {
    Code += "b." + std::string(X.C == Cls::BOOL ? "add_boolean_constraint" : "add_non_boolean_constraint") + "(" +
            constraint(X.X) + ")\n";
  }
  Code += "m = b.build_feature_model()\ndel b\ngc.collect()\n";
  C.describe(Code);
  Session Py(C);
  Py.run(Code);
  C.require(!Py.G["m"].is_none(), "no-model", Code);
  vf::FeatureModel *FM = Py.model("m");
  requireInvariants(C, *FM, Code);
  std::string R = diff(M, fromFM(*FM));
  C.require(R.empty(), "built", R);
  same(C, observe(FM), Py.text("observe(m)"), "observed", Code);
  if (M.F.size() >= 4) {
    C.nontrivial(Code);
  }
}

// from a file, and back
PROP(load, 3000, 40000) {
  std::string Text;
  if (C.flip()) {
    Model M = genModel(C, textOpts(C));
    auto T = vf::FeatureModelXmlWriter(*toFM(M)).writeFeatureModel();
    C.require(T.has_value(), "cannot-write", M.str());
    Text = *T;
  } else {
    xmldoc::Doc D = xmldoc::genDoc(C, 9);
    Text = xmldoc::Printer(C, false).print(D);
  }
  bool Broken = C.chance(1, 6);
  if (Broken) {
    Text = Text.substr(0, Text.size() - 1 - C.draw(Text.size() / 2));
  }
  C.describe(Text);
  File In(Text), Out("", "out");
  std::string P = std::string(C.flip() ? "Path" : "") + "(" + lit(In.P) + ")";
  Session Py(C);
  bool Valid = vf::verifyFeatureModel(In.P);
  auto FM = vf::loadFeatureModel(In.P);
  Py.run("m = FM.loadFeatureModel(" + P + ")\nok = FM.verifyFeatureModel(" + P + ")\n");
  C.eq(Py.text("str(ok)"), pyBool(Valid), "verify");
  C.eq(Py.text("str(m is None)"), pyBool(!FM), "loaded");
  if (!FM) {
    C.tag("unreadable");
    C.nontrivial(Text);
    return;
  }
  vf::FeatureModel *PM = Py.model("m");
  std::string R = diff(fromFM(*FM), fromFM(*PM));
  C.require(R.empty(), "loaded", R);
  same(C, observe(FM.get()), Py.text("observe(m)"), "observed", Text);
  auto W = vf::FeatureModelXmlWriter(*FM).writeFeatureModel();
  C.require(W.has_value(), "cannot-write");
  Py.run("w = W.FeatureModelXmlWriter(m)\n" + std::string(C.flip() ? "del m\ngc.collect()\n" : "") +
         "t = w.get_feature_model_as_string()\nrc = w.write_feature_model_to_file(" + lit(Out.P) + ")\n");
  same(C, *W, Py.text("t"), "written", Text);
  std::ifstream F(Out.P, std::ios::binary);
  std::string Got(std::istreambuf_iterator<char>(F), {});
  int RC = vf::FeatureModelXmlWriter(*FM).writeFeatureModel(Out.P);
  std::ifstream F2(Out.P, std::ios::binary);
  std::string Want(std::istreambuf_iterator<char>(F2), {});
  same(C, Want, Got, "written-file", Text);
  C.eq(Py.text("str(rc)"), std::to_string(RC), "written-file");
  C.nontrivial(Text);
}

// edits through the bindings and through the library
PROP(edit, 3000, 40000) {
  GenOpts O = textOpts(C);
  Model M = genModel(C, O);
  auto T = vf::FeatureModelXmlWriter(*toFM(M)).writeFeatureModel();
  C.require(T.has_value(), "cannot-write", M.str());
  File In(*T);
  auto FM = vf::loadFeatureModel(In.P);
  if (!FM) {
    C.discard();
  }
  Session Py(C);
  Py.run("m = FM.loadFeatureModel(" + lit(In.P) + ")\n");
  // a second model to merge with
  Model M2 = M;
  std::string Desc = M.str();
  C.describe(Desc);
  auto Run = [&](const std::string &X) {
    Desc += "\n" + X;
    C.describe(X);
    Py.run(X + "\n");
  };
  size_t Steps = static_cast<size_t>(C.range(1, 7));
  bool Merged = false;
  for (size_t I = 0; I < Steps; ++I) {
    std::vector<std::string> Ns;
    const vf::FeatureModel &CFM = *FM;
    for (auto *F : CFM.features()) {
      Ns.push_back(F->getName().str());
    }
    std::string N = C.pick(Ns);
    vf::Feature *F = FM->getFeature(N);
    std::string PF = C.flip() ? "m.get_feature(" + lit(N) + ")"
                              : "[f for f in m if f.name.str() == " + lit(N) + "][0]";
    switch (C.weighted({4, 4, 3, 1, 2, 2, 2, 1, 1, 1})) {
    case 0:
    case 1: {
      Model Cur = fromFM(*FM);
      Feat X = genFeat(C, Cur, O);
      if (C.chance(1, 8)) {
        X.Name = C.pick(Ns); // refused
      }
      X.Locs.clear();
      for (int64_t K = C.chance(1, 2) ? 0 : C.range(0, 3); K > 0; --K) {
        X.Locs.push_back(plainLoc(C));
      }
      std::vector<vf::FeatureSourceRange> L;
      for (auto &Y : X.Locs) {
        L.push_back(toFSR(Y));
      }
      std::string Tail = pyBool(X.Opt) + (X.Locs.empty() && C.flip() ? "" : "," + pyLocs(C, X.Locs)) + ")";
      if (X.Kind == FK::NUM) {
        vf::NumericFeature::ValuesVariantType V;
        if (X.IsRange) {
          V = vf::NumericFeature::ValueRangeType(X.Min, X.Max);
        } else {
          V = X.Vals;
        }
        Run("m.add_numeric_feature(" + PF + "," + lit(X.Name) + "," + pyValues(X) + "," + Tail);
        vf::addFeature(*FM, std::make_unique<vf::NumericFeature>(X.Name, V, X.Opt, L), F);
      } else {
        Run("m.add_binary_feature(" + PF + "," + lit(X.Name) + "," + Tail);
        vf::addFeature(*FM, std::make_unique<vf::BinaryFeature>(X.Name, X.Opt, L), F);
      }
      break;
    }
    case 2: {
      if (N == FM->getRoot()->getName()) {
        continue;
      }
      bool Rec = C.flip();
      Run("m.remove_feature(" + PF + (Rec ? (C.flip() ? ",True" : ",recursive=True") : C.flip() ? "" : ",False") + ")");
      vf::removeFeature(*FM, N, Rec);
      break;
    }
    case 3: {
      auto X = genText(C, 6);
      Run("m.commit = " + lit(X));
      vf::setCommit(*FM, X);
      break;
    }
    case 4: {
      Loc L = plainLoc(C);
      Run(PF + ".addLocation(" + pyLoc(C, L) + ")");
      F->addLocation(toFSR(L));
      break;
    }
    case 5: {
      if (!F->hasLocations()) {
        continue;
      }
      auto K = C.range(0, std::distance(F->getLocationsBegin(), F->getLocationsEnd()) - 1);
      auto Old = *std::next(F->getLocationsBegin(), K);
      Loc L = plainLoc(C);
      Run("f = " + PF + "\nl = list(f.locations)[" + std::to_string(K) + "]\nassert f.updateLocation(l, " +
          pyLoc(C, L) + ")\ndel f, l");
      F->updateLocation(Old, toFSR(L));
      break;
    }
    case 6: {
      if (!F->hasLocations()) {
        continue;
      }
      auto K = C.range(0, std::distance(F->getLocationsBegin(), F->getLocationsEnd()) - 1);
      auto Old = *std::next(F->getLocationsBegin(), K);
      Run("f = " + PF + "\nl = list(f.locations)[" + std::to_string(K) + "]\nf.removeLocation(l)\ndel f, l");
      F->removeLocation(Old);
      break;
    }
    case 7: { // change a location in place
      if (!F->hasLocations()) {
        continue;
      }
      auto &L = *F->getLocationsBegin();
      std::string X = "f = " + PF + "\nl = list(f.locations)[0]\n";
      auto P = "/" + genName(C, M);
      auto A = static_cast<unsigned>(C.range(1, 99));
      L.setPath(P);
      X += "l.path = " + lit(P) + "\n";
      if (auto *St = L.getStart()) {
        St->setLineNumber(A);
        X += "l.start.line_number = " + std::to_string(A) + "\n";
      }
      if (auto *En = L.getEnd()) {
        En->setColumnOffset(A + 1);
        X += "l.end.column_offset = " + std::to_string(A + 1) + "\n";
      }
      if (C.flip()) {
        L.setCategory(vf::FeatureSourceRange::Category::inessential);
        X += "l.category = F.Location.Category.inessential\n";
      }
      Run(X + "del f, l");
      break;
    }
    default: { // merge with a variant of the start
      File Other(*T, "other");
      bool Strict = C.flip();
      auto FM2 = vf::loadFeatureModel(Other.P);
      Feat X = genFeat(C, fromFM(*FM2), O);
      std::string Code = "o = FM.loadFeatureModel(" + lit(Other.P) + ")\no.add_binary_feature(o.get_root(), " +
                         lit(X.Name) + ", " + pyBool(X.Opt) + ")\n";
      vf::addFeature(*FM2, std::make_unique<vf::BinaryFeature>(X.Name, X.Opt), FM2->getRoot());
      // the models may contradict each other
      std::vector<vf::Feature *> Leaves;
      for (auto *L : std::as_const(*FM2).features()) {
        if (llvm::isa<vf::BinaryFeature>(L) && L->isLeaf() && L->getParentFeature() &&
            L->getParent() == L->getParentFeature()) {
          Leaves.push_back(L);
        }
      }
      if (C.chance(1, 3)) {
        auto *L = C.pick(Leaves);
        auto *P = L->getParentFeature();
        std::string N = L->getName().str();
        bool Opt = !L->isOptional();
        Code += "p = o.get_feature(" + lit(P->getName().str()) + ")\no.remove_feature(o.get_feature(" + lit(N) +
                "))\no.add_binary_feature(p, " + lit(N) + ", " + pyBool(Opt) + ")\ndel p\n";
        vf::removeFeature(*FM2, L);
        vf::addFeature(*FM2, std::make_unique<vf::BinaryFeature>(N, Opt), P);
        C.tag("merge of contradicting models");
      }
      Code += "r = m.merge_with(o" + std::string(Strict ? (C.flip() ? "" : ",True") : C.flip() ? ",False" : ",strict=False") + ")\n";
      auto R = vf::mergeFeatureModels(*FM, *FM2, Strict);
      Run(Code + "none = r is None\nif not none: m = r\ndel o, r\ngc.collect()");
      C.eq(Py.text("str(none)"), pyBool(!R), "merge", Py.Log);
      if (R) {
        FM = std::move(R);
        Merged = true;
      }
      break;
    }
    }
    vf::FeatureModel *PM = Py.model("m");
    std::string R = diff(fromFM(*FM), fromFM(*PM));
    C.require(R.empty(), "edited", R + "\n" + Desc);
    same(C, observe(FM.get()), Py.text("observe(m)"), "observed", Desc);
  }
  if (Merged) {
    C.tag("merged");
  }
  if (Steps >= 2) {
    C.nontrivial(Desc);
  }
}

// single objects
PROP(values, 6000, 100000) {
  Session Py(C);
  GenOpts O;
  O.Locations = false;
  O.BigNumbers = C.flip();
  O.WeirdNames = C.flip();
  Model Empty;
  switch (C.weighted({3, 3, 2, 2})) {
  case 0: { // features
    std::vector<Feat> Fs;
    std::string Code = "fs = [";
    std::vector<std::unique_ptr<vf::Feature>> Want;
    for (int64_t K = C.range(2, 4); K > 0; --K) {
      Feat X = genFeat(C, Empty, O);
      if (!Fs.empty() && C.chance(1, 3)) {
        X.Name = C.flip() ? Fs[0].Name : lower(Fs[0].Name);
      }
      X.St.reset();
      for (int64_t J = C.chance(1, 2) ? 0 : C.range(0, 3); J > 0; --J) {
        X.Locs.push_back(plainLoc(C));
      }
      if (C.chance(1, 5)) {
        Code += "F.RootFeature(" + lit(X.Name) + "),";
        Want.push_back(std::make_unique<vf::RootFeature>(X.Name));
      } else {
        std::string Tail = pyBool(X.Opt);
        if (!X.Out.empty() || !X.Locs.empty() || C.flip()) {
          Tail += "," + pyLocs(C, X.Locs);
        }
        if (!X.Out.empty() || (Tail.back() == ']' && C.flip())) {
          Tail += "," + lit(X.Out);
        }
        Code += X.Kind == FK::NUM ? "F.NumericFeature(" + lit(X.Name) + "," + pyValues(X) + "," + Tail + "),"
                                  : "F.BinaryFeature(" + lit(X.Name) + "," + Tail + "),";
        Want.push_back(makeFeature(X));
      }
      Fs.push_back(X);
    }
    Code += "]\n";
    C.describe(Code);
    Py.run(Code);
    for (size_t I = 0; I < Want.size(); ++I) {
      auto X = "fs[" + std::to_string(I) + "]";
      same(C, featureText(*Want[I]), Py.text("'\\n'.join(feature(" + X + "))"), "feature", Code);
      for (size_t J = 0; J < Want.size(); ++J) {
        auto Y = "fs[" + std::to_string(J) + "]";
        bool Eq = lower(Want[I]->getName().str()) == lower(Want[J]->getName().str());
        C.eq(Py.text("str(" + X + " == " + Y + ")"), pyBool(Eq), "equal", Code);
        C.eq(Py.text("str(" + X + " != " + Y + ")"), pyBool(!Eq), "unequal", Code);
        if (Eq) {
          C.eq(Py.text("str(hash(" + X + ") == hash(" + Y + "))"), std::string("True"), "hash", Code);
        }
        if (I != J) {
          C.eq(Py.text("str(" + X + " < " + Y + ")"), pyBool(*Want[I] < *Want[J]), "less", Code);
        }
      }
      C.eq(Py.text("str(" + X + " == None)"), std::string("False"), "equal-none", Code);
    }
    C.nontrivial(Code);
    break;
  }
  case 1: { // locations
    std::vector<Loc> Ls{plainLoc(C), plainLoc(C)};
    if (C.flip()) {
      Ls[1] = Ls[0];
      switch (C.draw(4)) {
      case 0: Ls[1].Inessential = !Ls[1].Inessential; break;
      case 1: Ls[1].Path += "x"; break;
      case 2: Ls[1].End.reset(); break;
      default: break;
      }
    }
    std::string Code = "ls = " + pyLocs(C, Ls) + "\n";
    C.describe(Code);
    Py.run(Code);
    for (int I = 0; I < 2; ++I) {
      auto W = toFSR(Ls[I]);
      auto X = "ls[" + std::to_string(I) + "]";
      same(C, locText(W), Py.text("loc(" + X + ")"), "location", Code);
      C.eq(Py.text("str(" + X + " == None)"), std::string("False"), "equal-none", Code);
      for (int J = 0; J < 2; ++J) {
        auto Y = "ls[" + std::to_string(J) + "]";
        C.eq(Py.text("str(" + X + " == " + Y + ")"), pyBool(W == toFSR(Ls[J])), "equal", Code);
      }
    }
    int64_t A = C.chance(1, 4) ? C.int64() : C.pick<int64_t>({0, 1, 7, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, -1, -7}), B = C.range(0, 9);
    std::string Mk = "F.LineColumnOffset(" + std::to_string(A) + "," + std::to_string(B) + ")";
    bool Fits = A >= 0 && A <= 4294967295LL;
    C.eq(Py.text("str(raises(lambda: " + Mk + ") is None)"), pyBool(Fits), "position-range", Mk);
    C.eq(Py.text("str(raises(lambda: setattr(F.LineColumnOffset(1,2), 'line_number', " + std::to_string(A) + ")) is None)"),
         pyBool(Fits), "position-range", Mk);
    if (Fits) {
      C.eq(Py.text("pos(" + Mk + ")"), std::to_string(A) + "," + std::to_string(B), "position", Mk);
      C.eq(Py.text("str(" + Mk + ")"), std::to_string(A) + ":" + std::to_string(B), "position", Mk);
      C.eq(Py.text("str([" + Mk + " == F.LineColumnOffset(1," + std::to_string(B) + "), " + Mk + " == " + Mk + ", " + Mk + " == None])"),
           "[" + pyBool(A == 1) + ", True, False]", "position-equal", Mk);
    }
    C.nontrivial(Code + Mk);
    break;
  }
  case 2: { // constraints
    E X = genAny(C, {"a", "b", "c d", "x"}, static_cast<int>(C.sized(1, 5)));
    auto W = toConstraint(X);
    bool All = C.flip(), Neg = C.flip();
    std::string Code = "cb = K.ConstraintBuilder()\nassert cb" + calls(X) + " is cb\nc = cb.build()\ndel cb\n" +
                       "cs = [FM.BooleanConstraint(c), FM.NonBooleanConstraint(c), FM.MixedConstraint(c, FM.Req." +
                       (All ? "ALL" : "NONE") + ", FM.ExprKind." + (Neg ? "NEG" : "POS") +
                       ")]\ns = str(c)\nd = c.clone()\nik = [x.constraint for x in cs]\ndel c\ngc.collect()\n";
    C.describe(Code);
    Py.run(Code);
    for (auto *Ex : {"s", "str(d)", "str(cs[0])", "str(cs[1])", "str(cs[2])", "str(ik[0])", "str(ik[1])", "str(ik[2])",
                     "str(cs[0].constraint.clone())"}) {
      C.eq(Py.text(Ex), W->toString(), "constraint", std::string(Ex) + "\n" + Code);
    }
    C.eq(str(fromConstraint(Py.G["d"].cast<vf::Constraint *>())), str(X), "constraint", Code);
    using MC = vf::FeatureModel::MixedConstraint;
    auto *Mx = Py.G["cs"].cast<py::list>()[2].cast<MC *>();
    C.require((Mx->req() == MC::Req::ALL) == All && (Mx->exprKind() == MC::ExprKind::NEG) == Neg, "mixed", Code);
    C.eq(Py.text("mixed(cs[2])"), S(W->toString()) + (All ? " all" : " none") + (Neg ? " neg" : " pos"), "mixed", Code);
    C.nontrivial(Code);
    break;
  }
  default: { // misuse is an exception or None, and changes nothing
    Py.run("b = B.FeatureModelBuilder()\nb.make_root('r').make_binary_feature('a', True)\n");
    static const std::vector<std::string> Bad = {
        "b.emplace_relationship('r', 'AND')", "b.emplace_relationship('r', 'or')", "b.emplace_relationship('r', '')",
        "b.add_boolean_constraint(None)", "b.add_non_boolean_constraint(K.ConstraintBuilder().build())",
        "b.make_binary_feature(None, True)", "b.set_vm_name(3)", "FM.BooleanConstraint(None)",
        "FM.BooleanConstraint(K.ConstraintBuilder().feature('a').lAnd().build())", "FM.MixedConstraint(None, FM.Req.ALL, FM.ExprKind.POS)",
        "F.NumericFeature('n', 'x', False)", "F.NumericFeature('n', [1, 'x'], False)", "F.NumericFeature('n', (1.5, 2), False)",
        "F.NumericFeature('n', [2**63], False)", "F.BinaryFeature('n', False, [None])", "F.BinaryFeature('n', False, ['p'])",
        "W.FeatureModelXmlWriter(None)", "F.Location(3)", "F.BinaryFeature('a', True) < None",
        "F.BinaryFeature('a', True).addLocation(None)", "F.BinaryFeature('a', True).updateLocation(None, F.Location('x'))",
        "F.BinaryFeature('a', True).removeLocation(None)", "K.ConstraintBuilder().constant('a')",
        "K.ConstraintBuilder().constant(2**63)", "FM.loadFeatureModel(None)", "FM.verifyFeatureModel(3)"};
    std::string Code = "bad = []\n";
    for (int64_t K = C.range(1, 4); K > 0; --K) {
      Code += "bad.append(raises(lambda: " + C.pick(Bad) + "))\n";
    }
    bool Twice = C.chance(1, 3);
    Code += "m = b.build_feature_model()\n";
    if (Twice) {
      Code += "again = b.build_feature_model()\n";
    }
    C.describe(Code);
    Py.run(Code);
    C.eq(Py.text("str(None in bad)"), std::string("False"), "accepted", Py.text("str(bad)") + Code);
    C.require(!Py.G["m"].is_none(), "no-model", Code);
    if (Twice) {
      C.require(Py.G["again"].is_none(), "second-model", Code);
    }
    C.eq(Py.text("' '.join(f.name.str() for f in m)"), std::string("r a"), "misuse", Code);
    C.nontrivial(Code);
    break;
  }
  }
}

// Whatever was obtained from a model stays usable although the rest is dropped.
PROP(lifetime, 4000, 60000) {
  GenOpts O = textOpts(C);
  Model M = genModel(C, O);
  auto T = vf::FeatureModelXmlWriter(*toFM(M)).writeFeatureModel();
  C.require(T.has_value(), "cannot-write", M.str());
  File In(*T);
  auto FM = vf::loadFeatureModel(In.P);
  if (!FM) {
    C.discard();
  }
  std::vector<std::string> Names;
  const vf::FeatureModel &CFM = *FM;
  for (auto *F : CFM.features()) {
    Names.push_back(F->getName().str());
  }
  // a chain of accessors; what(x) shows the last object
  std::string Kind = "model";
  std::vector<std::string> Steps;
  int64_t Len = C.range(1, 7);
  while (static_cast<int64_t>(Steps.size()) < Len) {
    if (Kind == "model") {
      switch (C.draw(9)) {
      case 0: Steps.push_back("x.get_root()"); Kind = "feature"; break;
      case 1: Steps.push_back("x.get_feature(" + lit(C.pick(Names)) + ")"); Kind = "feature"; break;
      case 2: Steps.push_back("list(x)[" + std::to_string(C.draw(Names.size() - 1)) + "]"); Kind = "feature"; break;
      case 3: Steps.push_back("next(iter(x))"); Kind = "feature"; break;
      case 4: Steps.push_back("x.booleanConstraints"); Kind = "constraints"; break;
      case 5: Steps.push_back("x.nonBooleanConstraints"); Kind = "constraints"; break;
      case 6: Steps.push_back("x.mixedConstraints"); Kind = "constraints"; break;
      case 7: Steps.push_back("x.name"); Kind = "text"; break;
      case 8: Steps.push_back("W.FeatureModelXmlWriter(x)"); Kind = "writer"; break;
      default: Steps.push_back("iter(x)"); Kind = "features"; break;
      }
    } else if (Kind == "features") {
      Steps.push_back("next(x)");
      Kind = "feature";
    } else if (Kind == "feature") {
      switch (C.draw(7)) {
      case 0: Steps.push_back("(x.parent() or x)"); break;
      case 1: Steps.push_back("pick(x.children(), x)"); break;
      case 2: Steps.push_back("pick(iter(x), x)"); break;
      case 3: Steps.push_back("x.children()"); Kind = "features?"; break;
      case 4: Steps.push_back("(x.locations if isinstance(x, F.Feature) else iter([]))"); Kind = "locations"; break;
      case 5: Steps.push_back("(x.name if isinstance(x, F.Feature) else None)"); Kind = "text"; break;
      case 6: Steps.push_back("(x.output_string if isinstance(x, F.Feature) else None)"); Kind = "text"; break;
      default: Steps.push_back("pick(list(x), x)"); break;
      }
    } else if (Kind == "features?") {
      Steps.push_back("pick(x, None)");
      Kind = "done";
    } else if (Kind == "locations") {
      Steps.push_back("next(x, None)");
      Kind = "location";
    } else if (Kind == "location") {
      Steps.push_back(C.flip() ? "(x and x.start)" : "(x and x.end)");
      Kind = "position";
    } else if (Kind == "constraints") {
      Steps.push_back("next(x, None)");
      Kind = "constraint";
    } else if (Kind == "constraint") {
      Steps.push_back("(x and x.constraint)");
      Kind = "tree";
    } else if (Kind == "tree") {
      Steps.push_back("(x and x.clone())");
      Kind = "done";
    } else {
      break;
    }
  }
  std::string Show = R"py(
def pick(xs, none): # the order of children is that of pointers
    return min(xs, key=show, default=none)
def show(x):
    if x is None: return "None"
    if isinstance(x, F.Feature): return "\n".join(feature(x))
    if isinstance(x, F.FeatureTreeNode): return "group of " + N(x.parent()) + " " + " ".join(sorted(map(N, x)))
    if isinstance(x, F.Location): return loc(x)
    if isinstance(x, F.LineColumnOffset): return pos(x)
    if type(x).__name__ == "StringRef": return x.str()
    if isinstance(x, FM.FeatureModel): return observe(x)
    if isinstance(x, W.FeatureModelXmlWriter): return x.get_feature_model_as_string()
    if hasattr(x, "__next__"): return " ".join(sorted(show(y) for y in x))
    return str(x)
)py";
  std::string Keep = "m = x = FM.loadFeatureModel(" + lit(In.P) + ")\nkept = [m]\n",
              Drop = "x = FM.loadFeatureModel(" + lit(In.P) + ")\n";
  std::string Chain;
  for (auto &X : Steps) {
    Chain += " -> " + X;
    Keep += "x = " + X + "\nkept.append(x)\n";
    Drop += "x = " + X + "\n" + (C.flip() ? "gc.collect()\n" : "");
  }
  Drop += "gc.collect()\njunk = [bytearray(K) for K in range(16, 600, 8)]\n";
  C.describe(*T + "\n" + Chain);
  Session Py(C);
  Py.run(Show + Keep);
  std::string Want = Py.text("show(x)");
  Py.run("del m, x, kept\ngc.collect()\n" + Drop);
  C.eq(Py.text("show(x)"), Want, "dropped", Chain);
  C.tag(Kind);
  C.nontrivial(*T + Chain);
}
