// Reference model of feature models: plain values, generators, brute-force
// semantics, and conversions to/from the code under test through its public
// API only.
#ifndef VERIF_REFMODEL_H
#define VERIF_REFMODEL_H

#include "pbt.h"

#include "vara/Feature/Constraint.h"
#include "vara/Feature/FeatureModel.h"

#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace ref {
namespace vf = vara::feature;

// ---- source locations ------------------------------------------------------
struct Loc {
  std::string Path;
  std::optional<std::pair<unsigned, unsigned>> Start, End;
  bool Inessential = false;
  std::optional<std::string> Member; // text form
  std::optional<std::string> Intro, Removed;
  std::string str() const;
  bool operator==(const Loc &O) const { return str() == O.str(); }
  bool operator<(const Loc &O) const { return str() < O.str(); }
};
Loc genLoc(pbt::Case &C, bool FullPositions = true, bool PlainText = true);
// L with one of its parts changed
Loc varyLoc(pbt::Case &C, Loc L, bool FullPositions = true);
vf::FeatureSourceRange toFSR(const Loc &L);
Loc fromFSR(const vf::FeatureSourceRange &F);

// ---- step functions --------------------------------------------------------
struct Step {
  int Op = 0; // 0 add 1 mul 2 pow
  double Num = 1;
  bool VarLeft = true;
  double next(double V) const;
  std::string key() const; // behaviour at probe points
};
std::string stepKey(const std::function<double(double)> &F);
std::unique_ptr<vf::StepFunction> toStep(const Step &S);

// ---- constraints -----------------------------------------------------------
enum class Op {
  ADD, AND, DIV, EQ, EQUIV, EXCL, FEAT, GT, GE, IMPL, INT, LT, LE, MUL, NEG, NOT,
  NE, OR, SUB, XOR
};
struct Expr;
using E = std::shared_ptr<const Expr>;
struct Expr {
  Op O;
  int64_t V = 0;
  std::string N;
  E L, R;
};
E feat(const std::string &N);
E num(int64_t V);
E un(Op O, E L);
E bin(Op O, E L, E R);
bool isBinary(Op O);
const char *opText(Op O);
std::string str(const E &X);    // unambiguous prefix form
std::string infix(const E &X);  // fully parenthesised, the documented format
E normText(const E &X);         // what the printed text means: A excl B -> A => !B
void featuresOf(const E &X, std::set<std::string> &Out);
size_t depthOf(const E &X);
std::unique_ptr<vf::Constraint> toConstraint(const E &X);
E fromConstraint(vf::Constraint *C);

enum class Cls { BOOL, NONBOOL, MIXED };
struct Con {
  Cls C = Cls::BOOL;
  E X;
  bool ReqAll = true, Neg = false;
  std::string str() const;
};

// ---- models ----------------------------------------------------------------
enum class FK { ROOT, BIN, NUM, UNKNOWN };
struct Feat {
  std::string Name;
  FK Kind = FK::BIN;
  bool Opt = false;
  std::string Out;
  std::vector<Loc> Locs;
  bool IsRange = false;
  int64_t Min = 0, Max = 0;
  std::vector<int64_t> Vals;
  std::optional<Step> St;
  std::string Parent; // name of the parent feature, "" for root
  int Group = -1;     // id of the group it belongs to
};
struct Group {
  bool Or = false;
  std::string Parent;
};
struct Model {
  std::string Name, Path, Commit;
  std::string Root;
  std::map<std::string, Feat> F;
  std::map<int, Group> G;
  std::vector<Con> C;

  std::vector<std::string> childrenOf(const std::string &P) const;
  std::vector<std::string> members(int G) const;
  bool isAncestor(const std::string &A, const std::string &D) const; // reflexive
  std::vector<std::string> subtree(const std::string &P) const;
  std::vector<std::string> topo() const; // parents first
  int groupOf(const std::string &P) const; // a group below P or -1
  std::string str() const;
};

struct GenOpts {
  int MaxFeatures = 10;
  bool Numeric = true;
  bool NumericAnywhere = false; // numeric features as parents/group members
  bool NumericParents = false;  // numeric features as parents
  bool Groups = true;
  bool OrGroups = true;
  bool MixedChildren = false; // group and direct children under one parent
  bool SingleGroups = true;   // groups with one member
  bool OptInGroups = true;    // group members may carry the optional flag
  int MaxConstraints = 4;
  bool TextConstraints = false; // only operators with a text form
  bool MixedConstraints = true;
  bool BigNumbers = false; // 64-bit constants and domains (no brute force)
  bool Locations = true;
  bool RootLocations = false;
  bool PartialLocations = false;
  bool Outputs = true;
  bool Steps = true;
  bool Meta = true;
  bool WeirdNames = false; // names that are not identifiers (unused in constraints)
  bool RootOrBase = true;  // root is called root or base
  bool Unknown = false;    // features of unknown kind
  bool Tails = false; // now and then something is large: no brute force
  bool Deep = false;  // chains (set by Tails)
  bool Wide = false;  // many siblings (set by Tails)
};
Model genModel(pbt::Case &C, const GenOpts &O);
// a fresh name not used (case-insensitively) in M
std::string genName(pbt::Case &C, const Model &M, bool Weird = false);
std::string genText(pbt::Case &C, int MaxLen, bool TrimBoth = true); // XML-safe
Feat genFeat(pbt::Case &C, const Model &M, const GenOpts &O); // without place
Con genCon(pbt::Case &C, const Model &M, const GenOpts &O);
E genBool(pbt::Case &C, const std::vector<std::string> &Bins,
          const std::vector<std::string> &Nums, int Depth, bool Mixed, bool Big);
// arbitrary expression over all operators and given names, untyped
E genAny(pbt::Case &C, const std::vector<std::string> &Names, int Depth, bool AllOps = true);

std::unique_ptr<vf::Feature> makeFeature(const Feat &F);
// through the public builder (and a transaction for late additions)
std::unique_ptr<vf::FeatureModel> toFM(const Model &M);
Model fromFM(vf::FeatureModel &FM);

struct DiffOpts {
  bool Constraints = true;
  bool ConstraintOrder = true;
  bool Normalise = false; // compare printed meaning, ignore duplicates
  bool OrMemberOpt = true;
  bool Groups = true;
};
// "" if equal
std::string diff(const Model &Expected, const Model &Actual, const DiffOpts &O = {});
// "" if the model is a well-formed tree with consistent cross references
std::string checkInvariants(vf::FeatureModel &FM);
void requireInvariants(pbt::Case &C, vf::FeatureModel &FM, const std::string &Ctx = "");

// ---- semantics -------------------------------------------------------------
std::vector<int64_t> domain(const Feat &F);
// number of assignments to look at, saturating
uint64_t assignments(const Model &M);
// all valid configurations as "name=value;" strings sorted by name. Ambiguous
// is set when an expression's value is not determined by the documentation
// (division by zero, inexact division of negative numbers).
std::set<std::string> configs(const Model &M, bool *Ambiguous);
// one assignment: of a value to each numeric option and 0 or 1 to each other
bool isValid(const Model &M, const std::map<std::string, int64_t> &A, bool *Ambiguous);

std::string lower(std::string S);

} // namespace ref

#endif
