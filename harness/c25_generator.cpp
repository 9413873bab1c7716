// C25: config-generator writes the configurations it was asked for.
#include "solverutil.h"
#include "xmldoc.h"
#include "yamlread.h"

#include "vara/Feature/FeatureModelParser.h"
#include "vara/Sampling/SampleSetParser.h"

#include "llvm/Support/raw_ostream.h"

#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>

using namespace ref;
using pbt::quote;
using yamlread::Yaml;
namespace fs = std::filesystem;

// tools/config-generator/ConfigurationGenerator.cpp is built with this name
int config_generator_main(int Argc, char **Argv);

namespace {

std::string slurp(const fs::path &P) {
  std::ifstream F(P, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(F), {});
}

void spit(const fs::path &P, const std::string &T) {
  std::ofstream F(P, std::ios::binary);
  F << T;
}

struct Scratch {
  fs::path Dir;
  Scratch() {
    std::string T = (fs::temp_directory_path() / "c25-XXXXXX").string();
    if (!mkdtemp(T.data())) {
      abort();
    }
    Dir = T;
    fs::create_directory(Dir / "work");
  }
  Scratch(const Scratch &) = delete;
  ~Scratch() {
    std::error_code EC;
    fs::remove_all(Dir, EC);
  }
};

struct Run {
  int RC = 0;
  std::string Out, Err;
};

Run run(pbt::Case &C, const Scratch &S, const std::vector<std::string> &Args, const std::string &EnvFlags) {
  fs::path O = S.Dir / "stdout", E = S.Dir / "stderr";
  pid_t P = fork();
  if (P == 0) {
    alarm(60);
    if (chdir((S.Dir / "work").c_str())) {
      _exit(99);
    }
    int N = open("/dev/null", O_RDONLY);
    int A = open(O.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    int B = open(E.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(N, 0);
    dup2(A, 1);
    dup2(B, 2);
    if (EnvFlags.empty()) {
      unsetenv("CONFIG_GENERATOR_FLAGS");
    } else {
      setenv("CONFIG_GENERATOR_FLAGS", EnvFlags.c_str(), 1);
    }
    std::vector<std::string> V{"config-generator"};
    V.insert(V.end(), Args.begin(), Args.end());
    std::vector<char *> Argv;
    for (auto &X : V) {
      Argv.push_back(X.data());
    }
    Argv.push_back(nullptr);
    int RC = config_generator_main(static_cast<int>(V.size()), Argv.data());
    llvm::outs().flush();
    llvm::errs().flush();
    _exit(RC);
  }
  int St = 0;
  waitpid(P, &St, 0);
  Run R;
  R.Out = slurp(O);
  R.Err = slurp(E);
  std::string A;
  for (auto &X : Args) {
    A += " " + quote(X);
  }
  C.require(WIFEXITED(St) && WEXITSTATUS(St) != 99, "crash", A + "\n" + R.Err.substr(0, 2000));
  R.RC = WEXITSTATUS(St);
  C.note(A + (EnvFlags.empty() ? "" : " CONFIG_GENERATOR_FLAGS=" + EnvFlags) + " exits " + std::to_string(R.RC));
  return R;
}

using Assign = std::map<std::string, std::string>;

// the flags of one configuration; their order is not judged here
std::multiset<std::string> flags(const Model &M, const Assign &A) {
  std::multiset<std::string> R;
  for (auto &[N, V] : A) {
    const Feat &X = M.F.at(N);
    if (V != "false" && !X.Out.empty()) {
      R.insert(X.Out + (X.Kind == FK::NUM ? V : ""));
    }
  }
  return R;
}

Assign split(const std::string &S, const Model &M) { // "name=value;"...
  Assign A;
  // names are listed in order, so the text can be walked name by name
  size_t P = 0;
  for (auto &[N, X] : M.F) {
    if (S.compare(P, N.size() + 1, N + "=") == 0) {
      size_t E = S.find(';', P + N.size() + 1);
      A[N] = S.substr(P + N.size() + 1, E - P - N.size() - 1);
      P = E + 1;
    }
  }
  return A;
}

std::string show(const std::multiset<std::multiset<std::string>> &X, size_t Max = 30) {
  std::string R;
  for (auto &L : X) {
    if (!Max--) {
      return R + " ...";
    }
    R += "\n  [";
    for (auto &F : L) {
      R += " " + quote(F);
    }
    R += " ]";
  }
  return R;
}

struct Table {
  std::string Text;
  std::vector<std::string> Names;
  std::vector<std::vector<std::string>> Rows;
};

Table genTable(pbt::Case &C, const Model &M) {
  Table T;
  for (auto &[N, X] : M.F) {
    if (!C.chance(1, 6)) {
      T.Names.push_back(N);
    }
  }
  while (C.chance(1, 4)) {
    T.Names.push_back("extra" + std::to_string(T.Names.size()));
  }
  if (T.Names.empty()) {
    T.Names.push_back(M.Root);
  }
  auto Perm = C.permutation(T.Names.size());
  std::vector<std::string> P;
  for (auto I : Perm) {
    P.push_back(T.Names[I]);
  }
  T.Names = P;
  for (int64_t K = C.tailed(0, 8, 400, 120); K > 0; --K) {
    std::vector<std::string> R;
    for (auto &N : T.Names) {
      auto It = M.F.find(N);
      if (It != M.F.end() && It->second.Kind == FK::NUM) {
        R.push_back(std::to_string(C.chance(1, 8) ? C.int64() : C.range(-30, 300)));
      } else {
        R.push_back(C.flip() ? "1" : "0");
      }
    }
    T.Rows.push_back(R);
  }
  std::string EOL = C.chance(1, 5) ? "\r\n" : "\n";
  auto Cell = [&](const std::string &S) {
    bool Need = S.find_first_of(";\"\r\n") != std::string::npos;
    if (!Need && !C.chance(1, 20)) {
      return S;
    }
    std::string R = "\"";
    for (char Ch : S) {
      R += Ch;
      if (Ch == '"') {
        R += Ch;
      }
    }
    return R + "\"";
  };
  auto Line = [&](const std::vector<std::string> &L) {
    for (size_t I = 0; I < L.size(); ++I) {
      T.Text += (I ? ";" : "") + Cell(L[I]);
    }
  };
  Line(T.Names);
  for (auto &R : T.Rows) {
    T.Text += EOL;
    Line(R);
  }
  if (C.flip()) {
    T.Text += EOL;
  }
  return T;
}

Assign rowAssign(const Model &M, const Table &T, size_t Row) {
  Assign A;
  for (size_t I = 0; I < T.Names.size(); ++I) {
    auto It = M.F.find(T.Names[I]);
    if (It == M.F.end()) {
      continue;
    }
    auto &V = T.Rows[Row][I];
    A[T.Names[I]] = It->second.Kind == FK::NUM ? V : V == "0" ? "false" : "true";
  }
  return A;
}

} // namespace

PROP(read, 3000, 60000) {
  GenOpts O;
  O.MaxFeatures = static_cast<int>(C.sized(1, 12));
  O.WeirdNames = C.flip();
  O.NumericAnywhere = C.flip();
  O.Tails = true;
  O.Locations = false;
  O.MaxConstraints = 0;
  Model M = genModel(C, O);
  auto FM = toFM(M);
  Table T = genTable(C, M);
  std::string D = M.str() + "\n" + T.Text;
  C.describe(D);
  Scratch S;
  fs::path Csv = S.Dir / "sample.csv";
  spit(Csv, T.Text);
  auto Cs = vara::sampling::SampleSetParser::readConfigurations(*FM, Csv.string());
  C.eq(Cs.size(), T.Rows.size(), "rows", T.Text);
  std::multiset<Assign> Want, Got;
  for (size_t I = 0; I < T.Rows.size(); ++I) {
    Want.insert(rowAssign(M, T, I));
    Assign A;
    for (auto &X : *Cs[I]) {
      auto &Opt = X.getValue();
      A[Opt->name().str()] = Opt->asString();
    }
    for (auto &[N, V] : A) {
      auto R = Cs[I]->configurationOptionValue(N);
      C.require(R.has_value() && *R == V, "value", N);
    }
    Got.insert(A);
  }
  C.requireF(Want == Got, "configurations", [&] {
    std::string R = T.Text + "\nread:\n";
    for (auto &X : Cs) {
      R += X->dumpToString() + "\n";
    }
    return R;
  });
  C.eq(slurp(Csv), T.Text, "file-changed");
  if (T.Rows.size() >= 2 && T.Names.size() >= 2) {
    C.nontrivial(D);
  }
}

PROP(tool, 2500, 40000) {
  xmldoc::Doc D = xmldoc::genDoc(C, static_cast<int>(C.sized(2, 8)), true);
  Model M = xmldoc::expected(D);
  for (auto &[Id, G] : M.G) {
    for (auto &K : M.members(Id)) {
      if (M.F.at(K).Kind == FK::NUM) {
        C.discard();
      }
    }
  }
  xmldoc::Printer P(C, C.flip());
  std::string Text = P.print(D);
  int Type = static_cast<int>(C.weighted({4, 4, 1})); // all, sample, sampling
  int Broken = static_cast<int>(C.weighted({8, 1, 1, 1}));
  std::set<std::string> All;
  if (Type == 0 && !Broken) {
    All = su::expected(C, M, 4000);
    if (All.size() > 150) {
      C.discard();
    }
  }
  Scratch S;
  fs::path File = S.Dir / "model.xml";
  if (Broken == 1) { // not well formed
    size_t K = Text.rfind("</vm");
    Text = Text.substr(0, K == std::string::npos ? Text.size() / 2 : K);
  } else if (Broken == 2) { // well formed, not valid
    size_t K = Text.rfind("</vm");
    if (K == std::string::npos) {
      C.discard();
    }
    Text.insert(K, "<unknown/>");
  }
  if (Broken != 3) {
    spit(File, Text);
  }
  std::vector<std::string> Args;
  std::string Flags;
  bool Env = C.chance(1, 5);
  auto Dash = [&](const std::string &N) { return (C.flip() ? "--" : "-") + N; };
  auto Add = [&](const std::string &A) {
    if (Env && A.find(' ') == std::string::npos && C.flip()) {
      Flags += (Flags.empty() ? "" : " ") + A;
    } else {
      Args.push_back(A);
    }
  };
  std::string Desc = Text;
  if (Type || C.flip()) { // everything is the default
    Add(Dash("type") + "=" + (Type == 0 ? "All" : Type == 1 ? "sample" : "sampling"));
  }
  bool Csv = Type == 1 ? !C.chance(1, 10) : C.chance(1, 4);
  Table T;
  if (Csv) {
    T = genTable(C, M);
    spit(S.Dir / "sample.csv", T.Text);
    Add(Dash("csv") + "=" + (S.Dir / "sample.csv").string());
    Desc += "\n" + T.Text;
  }
  int Out = static_cast<int>(C.weighted({2, 5, 1, 1, 1})); // default, file, existing file, no such directory, no space
  fs::path To = Out == 0   ? S.Dir / "work" / "configurations.yml"
                : Out == 3 ? S.Dir / "missing" / "out.yml"
                : Out == 4 ? fs::path("/dev/full")
                           : S.Dir / "work" / "out.yml";
  if (Out) {
    Add(Dash("out") + "=" + (C.flip() || Out >= 3 ? To.string() : std::string("out.yml")));
  }
  std::string Old(100000, 'x');
  if (Out == 2) {
    spit(To, Old);
  }
  Args.insert(Args.begin() + C.range(0, static_cast<int64_t>(Args.size())), File.string());
  Desc += "\narguments:";
  for (auto &A : Args) {
    Desc += " " + A.substr(0, 9);
  }
  C.describe(Desc);
  Run R = run(C, S, Args, Flags);
  std::vector<std::string> Fs;
  for (auto &E : fs::directory_iterator(S.Dir / "work")) {
    Fs.push_back(E.path().string());
  }
  C.require(R.Out.empty(), "output", R.Out);
  C.require(Broken == 3 || slurp(File) == Text, "input-changed");
  C.require(!Csv || slurp(S.Dir / "sample.csv") == T.Text, "input-changed");
  auto Untouched = [&] {
    for (auto &F : Fs) {
      C.require(Out == 2 && F == To.string(), "wrote", F);
      C.require(slurp(To) == Old, "wrote", F);
    }
  };
  if (Broken || Type == 2 || (Type == 1 && !Csv)) {
    C.require(R.RC != 0, "accepted", "exits 0");
    C.require(!R.Err.empty(), "silent", "no message");
    Untouched();
    C.tag(Broken ? "unusable-file" : Type == 2 ? "not-implemented" : "no-sample-set");
    C.nontrivial(Desc);
    return;
  }
  std::multiset<std::multiset<std::string>> Want, Got;
  if (Type == 0) {
    for (auto &X : All) {
      Want.insert(flags(M, split(X, M)));
    }
  } else {
    for (size_t I = 0; I < T.Rows.size(); ++I) {
      Want.insert(flags(M, rowAssign(M, T, I)));
    }
  }
  if (Want.empty()) { // whether an empty sample set is an error is left open
    Untouched();
    C.tag("no-configuration");
    C.nontrivial(Desc);
    return;
  }
  if (Out >= 3) {
    C.require(R.RC != 0, "unwritable", "exits 0 although nothing was written");
    C.require(!R.Err.empty(), "silent", "no message");
    Untouched();
    C.tag("unwritable");
    C.nontrivial(Desc);
    return;
  }
  C.eq(R.RC, 0, "exit", R.Err);
  C.require(Fs.size() == 1 && Fs[0] == To.string(), "files", R.Err);
  std::string Y = slurp(To);
  auto Doc = Yaml{C, Y, "yaml"}.document();
  std::set<std::string> Keys;
  for (auto &[K, V] : Doc) {
    Keys.insert(K);
    auto L = Yaml{C, V, "list"}.list();
    Got.insert(std::multiset<std::string>(L.begin(), L.end()));
  }
  C.eq(Keys.size(), Doc.size(), "repeated-key", Y);
  C.requireF(Want == Got, "configurations", [&] { return "want" + show(Want) + "\ngot" + show(Got); });
  C.tag(Type ? "sample" : "all");
  C.nontrivial(Desc);
}
