// The DOT text of a model: a reader and what it must show.
#ifndef VERIF_DOTCHECK_H
#define VERIF_DOTCHECK_H
#include "pbt.h"
#include "refmodel.h"

#include <libxml/parser.h>
#include <libxml/tree.h>

using namespace ref;

namespace dot {

// A reader for the DOT language (https://graphviz.org/doc/info/lang.html),
// directed graphs only.
struct Id {
  std::string V;
  bool Html = false;
};
struct Graph {
  Id Name;
  std::map<std::string, Id> Attrs; // of the graph itself, outermost level
  std::map<std::string, std::map<std::string, Id>> Nodes; // declared with attributes
  std::map<std::string, int> Declared;                    // how often with attributes
  std::set<std::string> Mentioned;
  struct Edge {
    std::string A, B;
    std::map<std::string, Id> Attrs;
  };
  std::vector<Edge> Edges;
};

struct DotReader {
  pbt::Case &C;
  const std::string &T;
  size_t P = 0;
  int Depth = 0;
  Graph G{};

  [[noreturn]] void bad(const std::string &W) {
    C.fail("syntax", W + " at " + std::to_string(P) + ": " + T.substr(P > 30 ? P - 30 : 0, 80) + "\n" + T);
  }
  void ws() {
    while (P < T.size()) {
      if (isspace(static_cast<unsigned char>(T[P]))) {
        ++P;
      } else if (T.compare(P, 2, "//") == 0) {
        P = std::min(T.find('\n', P), T.size());
      } else if (T.compare(P, 2, "/*") == 0) {
        P = T.find("*/", P);
        if (P == std::string::npos) {
          bad("open comment");
        }
        P += 2;
      } else {
        return;
      }
    }
  }
  char peek() {
    ws();
    return P < T.size() ? T[P] : '\0';
  }
  bool eat(const std::string &S) {
    ws();
    if (T.compare(P, S.size(), S)) {
      return false;
    }
    P += S.size();
    return true;
  }
  void need(const std::string &S) {
    if (!eat(S)) {
      bad("expected " + S);
    }
  }
  static bool alpha(char Ch) { return isalpha(static_cast<unsigned char>(Ch)) || Ch == '_' || (Ch & 0x80); }
  bool isId() {
    char Ch = peek();
    return alpha(Ch) || isdigit(static_cast<unsigned char>(Ch)) || Ch == '"' || Ch == '<' || Ch == '.' || Ch == '-';
  }
  Id id() {
    char Ch = peek();
    Id R;
    if (Ch == '"') {
      for (++P;; ++P) {
        if (P >= T.size()) {
          bad("open string");
        }
        if (T[P] == '"') {
          break;
        }
        if (T[P] == '\\' && P + 1 < T.size()) {
          if (T[P + 1] != '"') {
            R.V += '\\';
          }
          ++P;
        }
        R.V += T[P];
      }
      ++P;
    } else if (Ch == '<') {
      R.Html = true;
      int D = 0;
      for (;; ++P) {
        if (P >= T.size()) {
          bad("open HTML string");
        }
        D += T[P] == '<' ? 1 : T[P] == '>' ? -1 : 0;
        R.V += T[P];
        if (!D) {
          break;
        }
      }
      ++P;
      R.V = R.V.substr(1, R.V.size() - 2);
    } else if (alpha(Ch)) {
      while (P < T.size() && (alpha(T[P]) || isdigit(static_cast<unsigned char>(T[P])))) {
        R.V += T[P++];
      }
    } else { // a numeral: [-]?(.[0-9]+ | [0-9]+(.[0-9]*)?)
      size_t S = P;
      if (T[P] == '-') {
        ++P;
      }
      size_t D = 0;
      while (P < T.size() && (isdigit(static_cast<unsigned char>(T[P])) || T[P] == '.')) {
        D += T[P] != '.';
        ++P;
      }
      if (!D) {
        bad("expected an identifier");
      }
      if (P < T.size() && alpha(T[P])) {
        bad("badly delimited number");
      }
      R.V = T.substr(S, P - S);
    }
    return R;
  }
  std::map<std::string, Id> attrs() {
    std::map<std::string, Id> R;
    while (eat("[")) {
      while (!eat("]")) {
        auto K = id();
        need("=");
        R[K.V] = id();
        if (!eat(",")) {
          eat(";");
        }
      }
    }
    return R;
  }
  void stmts() {
    need("{");
    ++Depth;
    while (!eat("}")) {
      if (P >= T.size()) {
        bad("open block");
      }
      stmt();
      eat(";");
    }
    --Depth;
  }
  void stmt() {
    if (peek() == '{') {
      stmts();
      return;
    }
    if (!isId()) {
      bad("expected a statement");
    }
    bool Quoted = peek() == '"';
    Id A = id();
    if (!Quoted && lower(A.V) == "subgraph") {
      if (peek() != '{') {
        id();
      }
      stmts();
      return;
    }
    if (!Quoted && (lower(A.V) == "graph" || lower(A.V) == "node" || lower(A.V) == "edge")) {
      if (peek() != '[') {
        bad("expected attributes");
      }
      auto X = attrs();
      if (Depth == 1 && lower(A.V) == "graph") {
        for (auto &[K, V] : X) {
          G.Attrs[K] = V;
        }
      }
      return;
    }
    if (eat("=")) {
      Id V = id();
      if (Depth == 1) {
        G.Attrs[A.V] = V;
      }
      return;
    }
    if (eat("--")) {
      bad("undirected edge");
    }
    std::vector<std::string> Path{A.V};
    while (eat("->")) {
      Path.push_back(id().V);
    }
    bool HasAttrs = peek() == '[';
    auto X = attrs();
    for (auto &N : Path) {
      G.Mentioned.insert(N);
    }
    if (Path.size() == 1) {
      if (HasAttrs) {
        G.Nodes[A.V].insert(X.begin(), X.end());
        ++G.Declared[A.V];
      }
      return;
    }
    for (size_t I = 0; I + 1 < Path.size(); ++I) {
      G.Edges.push_back({Path[I], Path[I + 1], X});
    }
  }
  Graph run() {
    eat("strict");
    need("digraph");
    if (peek() != '{') {
      G.Name = id();
    }
    stmts();
    ws();
    if (P != T.size()) {
      bad("text after the graph");
    }
    return G;
  }
};

// The rows of an HTML-like table label; fails unless it follows the grammar of
// https://graphviz.org/doc/info/shapes.html#html
inline void htmlText(pbt::Case &C, xmlNode *N, std::string &Out, const std::string &Ctx) {
  for (xmlNode *X = N->children; X; X = X->next) {
    if (X->type == XML_TEXT_NODE) {
      Out += reinterpret_cast<const char *>(X->content);
    } else if (X->type == XML_ELEMENT_NODE) {
      auto T = lower(reinterpret_cast<const char *>(X->name));
      static const std::set<std::string> Font{"b", "i", "u", "o", "font", "sub", "sup", "s"};
      if (T == "br") {
        Out += "\n";
        continue;
      }
      C.require(Font.count(T) > 0, "label-text", T + " in " + Ctx);
      htmlText(C, X, Out, Ctx);
    } else {
      C.require(X->type == XML_COMMENT_NODE, "label-text", Ctx);
    }
  }
}

inline std::vector<std::string> rows(pbt::Case &C, const std::string &Label) {
  std::vector<std::string> R;
  std::string Text = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><HTML>" + Label + "</HTML>";
  std::unique_ptr<xmlDoc, void (*)(xmlDocPtr)> Doc(
      xmlReadMemory(Text.c_str(), static_cast<int>(Text.size()), nullptr, nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING),
      xmlFreeDoc);
  C.require(Doc != nullptr, "label-markup", Label);
  xmlNode *Table = nullptr;
  for (xmlNode *X = xmlDocGetRootElement(Doc.get())->children; X; X = X->next) {
    if (X->type == XML_ELEMENT_NODE) {
      C.require(!Table && lower(reinterpret_cast<const char *>(X->name)) == "table", "label-table", Label);
      Table = X;
    }
  }
  C.require(Table != nullptr, "label-table", Label);
  bool LastRule = true; // a rule only between two rows
  for (xmlNode *X = Table->children; X; X = X->next) {
    if (X->type != XML_ELEMENT_NODE) {
      continue;
    }
    auto T = lower(reinterpret_cast<const char *>(X->name));
    if (T == "hr") {
      C.require(!LastRule, "label-rule", Label);
      LastRule = true;
      continue;
    }
    C.require(T == "tr", "label-row", Label);
    LastRule = false;
    size_t Cells = 0;
    std::string S;
    for (xmlNode *Y = X->children; Y; Y = Y->next) {
      if (Y->type == XML_ELEMENT_NODE) {
        C.require(lower(reinterpret_cast<const char *>(Y->name)) == "td", "label-cell", Label);
        ++Cells;
        htmlText(C, Y, S, Label);
      }
    }
    C.require(Cells > 0, "label-cells", Label);
    R.push_back(S);
  }
  C.require(!LastRule, "label-rule", Label);
  return R;
}

inline std::string trimmed(const std::string &S) { return llvm::StringRef(S).trim().str(); }

inline std::string attr(const std::map<std::string, Id> &A, const std::string &K) {
  auto I = A.find(K);
  return I == A.end() ? "" : I->second.V;
}

inline void checkText(pbt::Case &C, const Model &M, vf::FeatureModel &FM, const std::string &Title,
                      const std::string &T) {
  Graph G = DotReader{C, T}.run();
  if (!Title.empty() && Title.find('\\') == std::string::npos && Title.find_first_of("\n\t{}|<>") == std::string::npos) {
    C.eq(G.Name.V, Title, "title");
  }
  if (M.Name.find_first_of("\\\n\t{}|<>") == std::string::npos) {
    C.require(attr(G.Attrs, "label").find(M.Name) != std::string::npos, "graph-label", attr(G.Attrs, "label"));
  }
  for (auto &[N, K] : G.Declared) {
    C.eq(K, 1, "declared-twice", N);
  }
  for (auto &N : G.Mentioned) {
    C.require(G.Declared.count(N) > 0, "undeclared-node", N + "\n" + T);
  }
  C.eq(G.Nodes.size(), M.F.size() + M.G.size(), "nodes", T);
  // which node is which feature
  std::map<std::string, std::string> NodeOf, FeatureOf;
  std::map<std::string, std::string> KindOf; // of groups
  for (auto &[N, A] : G.Nodes) {
    auto L = A.find("label");
    C.require(L != A.end(), "no-label", N);
    if (!L->second.Html) {
      KindOf[N] = L->second.V;
      continue;
    }
    auto R = rows(C, L->second.V);
    const Feat *F = nullptr;
    for (auto &[Name, X] : M.F) {
      if (R[0] == Name + " (Flag: " + trimmed(X.Out) + ")") {
        F = &X;
      }
    }
    C.require(F != nullptr, "name-and-flag", "no feature for <" + R[0] + "> of " + M.str() + " in\n" + T);
    C.require(!NodeOf.count(F->Name), "two-nodes", F->Name);
    NodeOf[F->Name] = N;
    FeatureOf[N] = F->Name;
    // exactly the constraints and locations of this feature
    const vf::FeatureModel &CFM = FM;
    std::set<std::string> Want, Got(R.begin() + 1, R.end());
    auto Collect = [&](const auto &Range) {
      for (const auto &X : Range) {
        std::set<std::string> Names;
        featuresOf(fromConstraint(X->constraint()), Names);
        if (Names.count(F->Name)) {
          Want.insert(X->constraint()->toString());
        }
      }
    };
    Collect(CFM.booleanConstraints());
    Collect(CFM.nonBooleanConstraints());
    Collect(CFM.mixedConstraints());
    for (const auto &X : FM.getFeature(F->Name)->getLocations()) {
      Want.insert(X.toString());
    }
    if (Want != Got) {
      std::string D;
      for (auto &X : Want) {
        D += Got.count(X) ? "" : "missing <" + X + ">\n";
      }
      for (auto &X : Got) {
        D += Want.count(X) ? "" : "unexpected <" + X + ">\n";
      }
      C.fail("label-rows", F->Name + "\n" + D + T);
    }
  }
  C.eq(NodeOf.size(), M.F.size(), "feature-nodes", T);
  C.eq(KindOf.size(), M.G.size(), "group-nodes", T);
  // one edge per parent and child
  std::map<std::string, Graph::Edge> In;
  for (auto &X : G.Edges) {
    C.require(!In.count(X.B), "two-parents", T);
    In[X.B] = X;
  }
  C.eq(G.Edges.size(), M.F.size() + M.G.size() - 1, "edges", T);
  std::map<std::string, int> GroupOf; // node -> group
  for (auto &[N, X] : M.F) {
    if (N == M.Root) {
      C.require(!In.count(NodeOf[N]), "edge-to-root", T);
      continue;
    }
    auto I = In.find(NodeOf[N]);
    C.require(I != In.end(), "no-edge", N + "\n" + T);
    auto &A = I->second;
    C.eq(attr(A.Attrs, "arrowhead"), std::string(X.Opt ? "odot" : "dot"), "arrowhead", N + "\n" + T);
    if (X.Group < 0) {
      C.eq(FeatureOf[A.A], X.Parent, "parent", N + "\n" + T);
      continue;
    }
    auto K = KindOf.find(A.A);
    C.require(K != KindOf.end(), "not-below-group", N + "\n" + T);
    C.eq(K->second, std::string(M.G.at(X.Group).Or ? "OR" : "ALTERNATIVE"), "group-kind", T);
    C.require(!GroupOf.count(A.A) || GroupOf[A.A] == X.Group, "group-members", N + "\n" + T);
    GroupOf[A.A] = X.Group;
    C.require(In.count(A.A) > 0, "group-without-parent", T);
    C.eq(FeatureOf[In[A.A].A], M.G.at(X.Group).Parent, "group-parent", T);
  }
}

} // namespace dot
#endif
