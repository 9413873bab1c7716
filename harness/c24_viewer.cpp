// C24: fm-viewer shows the model of the file it is given.
#include "dotcheck.h"
#include "xmldoc.h"

#include "vara/Feature/FeatureModelParser.h"

#include "llvm/Support/raw_ostream.h"

#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>

using namespace ref;
namespace fs = std::filesystem;

// tools/fm-viewer/FeatureModelViewer.cpp is built with -Dmain=fm_viewer_main
int fm_viewer_main(int Argc, char **Argv);

namespace {

std::string slurp(const fs::path &P) {
  std::ifstream F(P, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(F), {});
}

struct Scratch {
  fs::path Dir;
  Scratch() {
    std::string T = (fs::temp_directory_path() / "c24-XXXXXX").string();
    if (!mkdtemp(T.data())) {
      abort();
    }
    Dir = T;
    fs::create_directory(Dir / "bin");
    fs::create_directory(Dir / "tmp");
  }
  Scratch(const Scratch &) = delete;
  ~Scratch() {
    std::error_code EC;
    fs::remove_all(Dir, EC);
  }
};

struct Run {
  int RC = 0;
  std::string Out, Err;
};

Run run(pbt::Case &C, const Scratch &S, const std::vector<std::string> &Args, const std::string &EnvFlags, const char *Tmp = "tmp") {
  fs::path O = S.Dir / "stdout", E = S.Dir / "stderr";
  pid_t P = fork();
  if (P == 0) {
    alarm(60);
    if (chdir(S.Dir.c_str())) {
      _exit(99);
    }
    int N = open("/dev/null", O_RDONLY);
    int A = open(O.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    int B = open(E.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(N, 0);
    dup2(A, 1);
    dup2(B, 2);
    // nothing but what the case put there can be started
    setenv("PATH", (S.Dir / "bin").c_str(), 1);
    setenv("TMPDIR", (S.Dir / Tmp).c_str(), 1);
    if (EnvFlags.empty()) {
      unsetenv("FM_VIEWER_FLAGS");
    } else {
      setenv("FM_VIEWER_FLAGS", EnvFlags.c_str(), 1);
    }
    std::vector<std::string> V{"fm-viewer"};
    V.insert(V.end(), Args.begin(), Args.end());
    std::vector<char *> Argv;
    for (auto &X : V) {
      Argv.push_back(X.data());
    }
    Argv.push_back(nullptr);
    int RC = fm_viewer_main(static_cast<int>(V.size()), Argv.data());
    llvm::outs().flush();
    llvm::errs().flush();
    _exit(RC);
  }
  int St = 0;
  waitpid(P, &St, 0);
  Run R;
  R.Out = slurp(O);
  R.Err = slurp(E);
  std::string A;
  for (auto &X : Args) {
    A += " " + pbt::quote(X);
  }
  C.require(WIFEXITED(St) && WEXITSTATUS(St) != 99, "crash", A + "\n" + R.Err.substr(0, 2000));
  R.RC = WEXITSTATUS(St);
  C.note(A + (EnvFlags.empty() ? "" : " FM_VIEWER_FLAGS=" + EnvFlags) + " exits " + std::to_string(R.RC));
  return R;
}

std::vector<std::string> files(const fs::path &P) {
  std::vector<std::string> R;
  for (auto &E : fs::directory_iterator(P)) {
    R.push_back(E.path().string());
  }
  return R;
}

// Every feature of M is described in the dump, and nothing else.
void checkDump(pbt::Case &C, const Model &M, const std::string &T) {
  size_t Names = 0, P = 0;
  std::map<std::string, std::string> Block;
  std::vector<std::pair<size_t, std::string>> At;
  for (auto &[N, X] : M.F) {
    std::string K = "name: \"" + N + "\",\n";
    size_t Q = T.find(K);
    C.require(Q != std::string::npos, "dump-feature", N + " missing in\n" + T);
    C.require(T.find(K, Q + 1) == std::string::npos, "dump-feature", N + " twice in\n" + T);
    At.emplace_back(Q, N);
  }
  for (P = T.find("name: \""); P != std::string::npos; P = T.find("name: \"", P + 1)) {
    ++Names;
  }
  C.eq(Names, M.F.size(), "dump-count", T);
  std::sort(At.begin(), At.end());
  for (size_t I = 0; I < At.size(); ++I) {
    Block[At[I].second] =
        T.substr(At[I].first, (I + 1 < At.size() ? At[I + 1].first : T.size()) - At[I].first);
  }
  for (auto &[N, B] : Block) {
    const Feat &X = M.F.at(N);
    auto Has = [&](const std::string &S, bool Want, const char *Kind) {
      C.requireF((B.find(S) != std::string::npos) == Want, Kind, [&] { return pbt::quote(S) + " in\n" + B; });
    };
    Has(X.Opt ? "optional: true" : "optional: false", true, "dump-optional");
    std::string Parent = X.Group >= 0 ? M.G.at(X.Group).Parent : X.Parent;
    if (N != M.Root) {
      Has("parent: " + Parent + ",\n", true, "dump-parent");
    } else {
      Has("parent: ", false, "dump-parent");
    }
    // direct children, in any order
    std::multiset<std::string> Want, Got;
    for (auto &[K, Y] : M.F) {
      if (K != M.Root && Y.Group < 0 && Y.Parent == N) {
        Want.insert(K);
      }
    }
    size_t Q = B.find("children: [");
    C.require(Q != std::string::npos, "dump-children", B);
    size_t E = B.find(']', Q);
    std::string L = B.substr(Q + 11, E - Q - 11);
    for (size_t K = 0; (Q = L.find(',', K)) != std::string::npos; K = Q + 1) {
      Got.insert(L.substr(K, Q - K));
    }
    C.requireF(Got == Want, "dump-children", [&] { return N + "\n" + B; });
    if (X.Kind == FK::NUM) {
      if (X.IsRange) {
        Has("minValue: " + std::to_string(X.Min) + ",", true, "dump-values");
        Has("maxValue: " + std::to_string(X.Max) + "\n", true, "dump-values");
      } else {
        std::string V = "values: [";
        for (auto K : X.Vals) {
          V += std::to_string(K) + ",";
        }
        Has(V + "]", true, "dump-values");
      }
    }
    for (auto &Loc : X.Locs) {
      Has(Loc.Path, true, "dump-location");
    }
  }
}

} // namespace

PROP(view, 3000, 60000) {
  xmldoc::Doc D = xmldoc::genDoc(C, 9);
  bool Weird = false;
  for (auto &[N, X] : D.M.F) { // the dump quotes nothing
    Weird = Weird || N.find_first_of("\",]\n") != std::string::npos;
  }
  xmldoc::Printer P(C, false);
  std::string Text = P.print(D);
  int Broken = static_cast<int>(C.weighted({5, 1, 1, 1}));
  Scratch S;
  fs::path File = S.Dir / "model.xml";
  if (Broken == 1) { // not well formed
    size_t K = Text.rfind("</vm");
    Text = Text.substr(0, K == std::string::npos ? Text.size() / 2 : K);
  } else if (Broken == 2) { // well formed, not valid
    size_t K = Text.rfind("</vm");
    if (K == std::string::npos) {
      C.discard();
    }
    Text.insert(K, "<unknown/>");
  }
  if (Broken != 3) {
    std::ofstream F(File, std::ios::binary);
    F << Text;
  }
  bool Verify = C.chance(1, 3), Dump = C.chance(1, 3), Env = C.chance(1, 5);
  int Out = static_cast<int>(C.weighted({4, 5, 1, 1, 1})); // none, file, existing file, no such directory, no space
  bool Viewer = C.chance(1, 3);
  std::vector<std::string> Args;
  std::string Flags;
  auto Dash = [&](const std::string &N) { return (C.flip() ? "--" : "-") + N; };
  auto Add = [&](const std::string &A) {
    if (Env && A.find(' ') == std::string::npos && C.flip()) {
      Flags += (Flags.empty() ? "" : " ") + A;
    } else {
      Args.push_back(A);
    }
  };
  if (Verify) {
    Add(Dash("verify"));
  }
  if (Dump) {
    Add(Dash("dump"));
  }
  fs::path To = S.Dir / (Out == 3 ? "missing/out.dot" : "out.dot");
  if (Out == 4) {
    To = "/dev/full";
  }
  bool NoTmp = C.chance(1, 5); // no place for a graph without a name
  if (Out) {
    Add(Dash("o") + "=" + To.string());
  }
  if (Out == 2) {
    std::ofstream F(To);
    F << std::string(100000, 'x');
  }
  if (Viewer) {
    std::ofstream F(S.Dir / "bin" / "view");
    F << "#!/bin/sh\n/bin/cp \"$1\" \"" << S.Dir.string() << "/seen.tmp\" && /bin/mv \"" << S.Dir.string()
      << "/seen.tmp\" \"" << S.Dir.string() << "/seen\"\n";
    F.close();
    fs::permissions(S.Dir / "bin" / "view", fs::perms::owner_all);
    Add(Dash("viewer") + "=view");
  }
  if (C.chance(1, 4)) {
    Add(Dash("xml"));
  }
  Args.insert(Args.begin() + C.range(0, static_cast<int64_t>(Args.size())), File.string());
  std::string Desc = Text + "\narguments:";
  for (auto &A : Args) {
    Desc += " " + A.substr(0, 9);
  }
  C.describe(Desc);
  Run R = run(C, S, Args, Flags, NoTmp ? "nowhere" : "tmp");
  if (Broken) {
    C.require(R.RC != 0, "accepted", "an unusable file is accepted");
    C.require(!R.Err.empty(), "silent", "no message for an unusable file");
    C.require(Out == 2 || Out == 4 || !fs::exists(To), "wrote", "wrote a graph for an unusable file");
    C.require(R.Out.empty(), "wrote", "wrote to the standard output for an unusable file: " + R.Out);
    C.require(files(S.Dir / "tmp").empty(), "wrote", "wrote a graph for an unusable file");
    C.tag("unusable-file");
    C.nontrivial(Desc);
    return;
  }
  if (Verify) {
    C.eq(R.RC, 0, "verify", R.Err);
    C.require(R.Out.empty(), "verify-exits", R.Out);
    C.require(Out == 2 || Out == 4 || !fs::exists(To), "verify-exits", "wrote a graph");
    C.require(files(S.Dir / "tmp").empty(), "verify-exits", "wrote a graph");
    C.tag("verify");
    C.nontrivial(Desc);
    return;
  }
  auto FM = vf::FeatureModelXmlParser(Text).buildFeatureModel();
  C.require(FM != nullptr, "library", Text);
  Model M = fromFM(*FM);
  for (auto &[N, X] : M.F) {
    X.Out = FM->getFeature(N)->getOutputString().str();
  }
  if (Dump) {
    C.eq(R.RC, 0, "dump", R.Err);
    if (!Weird) {
      checkDump(C, M, R.Out);
    }
    C.require(Out == 2 || Out == 4 || !fs::exists(To), "dump-exits", "wrote a graph");
    C.require(files(S.Dir / "tmp").empty(), "dump-exits", "wrote a graph");
    C.tag("dump");
    C.nontrivial(Desc);
    return;
  }
  if (Out >= 3 || (!Out && NoTmp)) {
    C.require(!fs::exists(S.Dir / "seen"), "unwritable", "the viewer was started");
    C.require(R.RC != 0, "unwritable", "exits 0 although the graph was not written: " + R.Err);
    C.tag("unwritable");
    C.nontrivial(Desc);
    return;
  }
  if (Out) {
    C.eq(R.RC, 0, "out", R.Err);
    dot::checkText(C, M, *FM, "", slurp(To));
    C.require(files(S.Dir / "tmp").empty(), "out-only", "wrote another graph");
    C.require(!fs::exists(S.Dir / "seen"), "out-disables-viewer");
    C.tag("out");
  } else {
    C.eq(R.RC, 0, "view", R.Err);
    auto Fs = files(S.Dir / "tmp");
    C.eq(Fs.size(), size_t(1), "graph-file", R.Err);
    dot::checkText(C, M, *FM, "", slurp(Fs[0]));
    C.require(R.Err.find(Fs[0]) != std::string::npos, "graph-file-named", R.Err);
    if (Viewer) {
      for (int I = 0; I < 500 && !fs::exists(S.Dir / "seen"); ++I) {
        usleep(20000);
      }
      C.require(fs::exists(S.Dir / "seen"), "viewer", "the viewer did not get the graph");
      C.eq(slurp(S.Dir / "seen"), slurp(Fs[0]), "viewer");
      C.tag("viewer");
    }
  }
  C.nontrivial(Desc);
}
