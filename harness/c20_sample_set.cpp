// C20: written sample sets hold every configuration exactly.
#include "pbt.h"
#include "refmodel.h"
#include "yamlread.h"

#include "vara/Sampling/SampleSetWriter.h"

using namespace ref;
using pbt::quote;
using yamlread::Yaml;

namespace {

using Configs = std::vector<std::unique_ptr<vf::Configuration>>;

void check(pbt::Case &C, vf::FeatureModel &FM, Configs &Cs,
           const std::vector<std::vector<std::string>> &Want) {
  std::vector<std::string> Before;
  for (auto &X : Cs) {
    Before.push_back(X->dumpToString());
  }
  std::string Out = vara::sampling::SampleSetWriter::writeConfigurations(FM, Cs);
  C.note("wrote " + quote(Out));
  auto Doc = Yaml{C, Out, "yaml"}.document();
  C.eq(Doc.size(), Cs.size(), "entries", Out);
  std::map<std::string, std::string> By(Doc.begin(), Doc.end());
  C.eq(By.size(), Doc.size(), "repeated-key", Out);
  for (size_t I = 0; I < Cs.size(); ++I) {
    auto K = std::to_string(I);
    C.require(By.count(K) > 0, "no-entry", K + " in " + Out);
    auto L = Yaml{C, By[K], "list"}.list();
    if (L != Want[I]) {
      std::string D;
      for (auto &X : Want[I]) {
        D += " want " + quote(X);
      }
      for (auto &X : L) {
        D += " got " + quote(X);
      }
      C.fail("options", "entry " + K + ":" + D);
    }
    C.eq(Cs[I]->dumpToString(), Before[I], "configuration-changed");
  }
  C.eq(vara::sampling::SampleSetWriter::writeConfigurations(FM, Cs), Out, "second-call");
}

} // namespace

PROP(write, 6000, 120000) {
  GenOpts O;
  O.MaxFeatures = static_cast<int>(C.sized(1, 12));
  O.Tails = true;
  O.WeirdNames = C.flip();
  O.NumericAnywhere = C.flip();
  O.Unknown = C.chance(1, 4);
  O.Locations = false;
  O.MaxConstraints = 1;
  Model M = genModel(C, O);
  bool Odd = C.flip();
  for (auto &[N, X] : M.F) {
    if (N == M.Root || X.Kind == FK::UNKNOWN) {
      continue;
    }
    if (Odd && C.chance(1, 3)) {
      static const std::vector<std::string> W = {"\"", "\\", "\"x\"", "\\n", "a\\", "', '", "\", \"", "]", "[", "#",
                                                 " # x", ": ", "\x01", "\x7f", "\x1b[0m", "\r", "~", "null", "--x=\"y z\"",
                                                 "\xC2\x85", "\xE2\x80\xA8", "\xC2\xA0", "\xEF\xBB\xBF", " lead", "tail ", "{}", "-", "--jobs=", "%s", "'"};
      X.Out = (C.flip() ? X.Out : "") + C.pick(W);
    }
  }
  auto FM = toFM(M);
  std::vector<std::string> Order;
  for (auto *F : static_cast<const vf::FeatureModel &>(*FM).features()) {
    Order.push_back(F->getName().str());
  }
  C.eq(std::set<std::string>(Order.begin(), Order.end()).size(), M.F.size(), "iteration");
  Configs Cs;
  std::vector<std::vector<std::string>> Want;
  std::string D = M.str();
  size_t N = static_cast<size_t>(C.weighted({8, 1}) == 0 ? C.range(0, 4) : C.range(9, 130));
  if (M.F.size() < 40 && C.chance(1, 120)) {
    N = static_cast<size_t>(C.range(200, 1200));
  }
  size_t Flags = 0;
  for (size_t I = 0; I < N; ++I) {
    auto Conf = std::make_unique<vf::Configuration>();
    std::map<std::string, std::string> V;
    for (auto &[Name, X] : M.F) {
      if (C.chance(1, 5)) {
        continue; // not part of the configuration
      }
      if (X.Kind == FK::NUM) {
        int64_t K = C.chance(1, 6) ? C.int64() : C.range(-20, 300);
        V[Name] = std::to_string(K);
      } else {
        V[Name] = C.flip() ? "true" : "false";
      }
    }
    auto Names = C.permutation(V.size());
    std::vector<std::string> Keys;
    for (auto &[K, X] : V) {
      Keys.push_back(K);
    }
    for (auto K : Names) {
      Conf->setConfigurationOption(Keys[K], V[Keys[K]]);
    }
    if (C.chance(1, 4)) {
      Conf->setConfigurationOption("no such feature", C.flip() ? "true" : "7");
    }
    std::vector<std::string> W;
    for (auto &F : Order) {
      const Feat &X = M.F.at(F);
      if (!V.count(F) || V[F] == "false" || X.Out.empty()) {
        continue;
      }
      W.push_back(X.Out + (X.Kind == FK::NUM ? V[F] : ""));
      ++Flags;
    }
    D += "\nconfiguration " + Conf->dumpToString();
    Want.push_back(W);
    Cs.push_back(std::move(Conf));
  }
  C.describe(D);
  check(C, *FM, Cs, Want);
  if (N == 0) {
    C.tag("no-configuration");
  }
  if (N > 10) {
    C.tag("many-configurations");
  }
  for (auto &W : Want) {
    for (auto &X : W) {
      if (X.find_first_of("\"\\\n\x01\x7f\x1b\r") != std::string::npos) {
        C.tag("quoting");
      }
    }
  }
  if (N >= 2 && Flags >= 2) {
    C.nontrivial(D);
  }
}
