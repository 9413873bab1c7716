// C04: constraint text is parsed by its documented grammar.
#include "cgrammar.h"

#include "vara/Feature/ConstraintParser.h"

using namespace ref;
using cg::Tok;

namespace {
const std::vector<std::string> Names = {"A", "b", "feature_A", "x1", "e5", "E", "or_", "Or", "orx",
                                        "OR", "aor", "a_b_c", "e", "Z9z",
                                        "L" + std::string(300, 'o') + "ng", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"};

std::string got(const std::string &T) {
  auto P = vara::feature::ConstraintParser(T).buildConstraint();
  return P ? str(fromConstraint(P.get())) : "<rejected>";
}

void check(pbt::Case &C, const std::string &T, const std::string &Want, const char *Kind) {
  C.describe("text: " + pbt::quote(T));
  C.note("parse");
  std::string G = got(T);
  C.requireF(G == Want, Kind, [&] { return "expected " + Want + ", got " + G; });
}

size_t opCount(const E &X) {
  return (X->L ? 1 + opCount(X->L) : 0) + (X->R ? opCount(X->R) : 0);
}
} // namespace

// every expression, rendered with arbitrary redundant parentheses, whitespace
// and operator spellings, reads as that expression
PROP(rendered_expression, 24000, 1000000) {
  E X = genAny(C, Names, static_cast<int>(C.sized(1, 6)), true);
  X = normText(X);
  std::string T = cg::render(C, X);
  if (opCount(X) >= 2) {
    C.nontrivial(T);
  }
  check(C, T, str(X), "misparsed");
}

// long chains of one or a few operators: associativity and precedence without
// any parentheses
PROP(flat_chain, 8000, 300000) {
  static const std::vector<std::string> Ops = {"*", "+", "-", "<", ">", "<=", ">=", "=", "!=", "&",
                                               "|", "=>", "<=>", "->", "<->", " or ", "^", "/"};
  std::string T;
  int64_t N = C.tailed(2, 40, 600, 60);
  for (int64_t I = 0; I <= N; ++I) {
    if (I) {
      T += C.pick({"", " "}) + C.pick(Ops) + C.pick({"", " "});
    }
    for (int64_t U = static_cast<int64_t>(C.weighted({6, 2, 1})); U > 0; --U) {
      T += C.pick<std::string>({"!", "~"});
    }
    T += C.flip() ? C.pick(Names) : std::to_string(C.range(0, 12));
  }
  auto Toks = cg::lex(T);
  E X = cg::parse(Toks);
  C.nontrivial(T);
  C.tag(X ? "accepted" : "rejected");
  check(C, T, X ? str(X) : "<rejected>", "misparsed-chain");
}

// any sequence of tokens is read exactly if it is an expression
PROP(token_soup, 24000, 1000000) {
  static const std::vector<std::string> Toks = {
      "A", "b", "f_1", "or", "3", "42", "1e3", "(", ")", "!", "~", "+", "-", "*", "<", ">", "<=",
      ">=", "=", "!=", "&", "|", "=>", "->", "<=>", "<->", " ", "\n", "^", "/"};
  std::string T;
  int64_t N = C.tailed(0, 24, 300, 100);
  bool WantOperand = true;
  int Depth = 0;
  for (int64_t I = 0; I < N; ++I) {
    std::string S;
    if (C.chance(5, 6)) { // mostly the kind of token that may follow
      if (WantOperand) {
        switch (C.weighted({6, 2, 2})) {
        case 0:
          S = C.pick<std::string>({"A", "b", "f_1", "3", "42", "1e3", "7E-0"});
          WantOperand = false;
          break;
        case 1:
          S = C.pick<std::string>({"!", "~", "-"});
          break;
        default:
          S = "(";
          ++Depth;
        }
      } else if (Depth > 0 && C.chance(1, 3)) {
        S = ")";
        --Depth;
      } else {
        S = Toks[static_cast<size_t>(C.range(11, 29))];
        WantOperand = true;
      }
    } else {
      S = C.pick(Toks);
    }
    T += S;
    if (C.flip()) {
      T += " ";
    }
  }
  if (C.chance(3, 4)) {
    if (WantOperand) {
      T += " A";
    }
    while (Depth-- > 0) {
      T += ")";
    }
  }
  auto L = cg::lex(T);
  E X = cg::parse(L);
  if (L.size() >= 4) {
    C.nontrivial(T);
  }
  C.tag(X ? "accepted" : "rejected");
  check(C, T, X ? str(X) : "<rejected>", X ? "misparsed-tokens" : "accepted-outside-grammar");
}

// a valid text with characters inserted, removed or replaced
PROP(mutated_text, 16000, 600000) {
  E X = normText(genAny(C, Names, static_cast<int>(C.sized(1, 4)), true));
  std::string T = cg::render(C, X, C.flip());
  static const std::string Chars = "Aor1e05()!~+-*/^<>=&| \t\n\r_.,#$%@[]{}\"'\\?:;`\x7f\x80\xc3\xa9";
  for (int64_t N = C.range(1, 3); N > 0; --N) {
    size_t P = static_cast<size_t>(C.draw(T.size()));
    char Ch = C.chance(1, 12) ? static_cast<char>(C.range(0, 255))
                              : Chars[C.draw(Chars.size() - 1)];
    switch (C.draw(3)) {
    case 0:
      T.insert(P, 1, Ch);
      break;
    case 1:
      if (P < T.size()) {
        T.erase(P, 1);
      }
      break;
    case 2:
      if (P < T.size()) {
        T[P] = Ch;
      }
      break;
    default:
      T.erase(P);
    }
  }
  auto L = cg::lex(T);
  E Y = cg::parse(L);
  if (cg::inexact(L)) {
    C.discard();
  }
  if (L.size() >= 4) {
    C.nontrivial(T);
  }
  C.tag(Y ? "accepted" : "rejected");
  check(C, T, Y ? str(Y) : "<rejected>", Y ? "misparsed-mutated" : "accepted-outside-grammar");
}

// arbitrary bytes
PROP(bytes, 8000, 300000) {
  std::string T;
  for (int64_t N = C.sized(0, 40); N > 0; --N) {
    T += static_cast<char>(C.chance(2, 3) ? C.range(32, 126) : C.range(0, 255));
  }
  auto L = cg::lex(T);
  E Y = cg::parse(L);
  if (cg::inexact(L)) {
    C.discard();
  }
  if (L.size() >= 4) {
    C.nontrivial(T);
  }
  C.tag(Y ? "accepted" : "rejected");
  check(C, T, Y ? str(Y) : "<rejected>", "misread-bytes");
}

// literals denote their value, clamped to 64 bits
PROP(literals, 12000, 400000) {
  std::string T;
  switch (C.draw(4)) {
  case 0:
    T = std::to_string(C.int64());
    break;
  case 1: // around and beyond the limits
    T = C.pick<std::string>({"9223372036854775806", "9223372036854775807", "9223372036854775808",
                             "-9223372036854775808", "-9223372036854775809",
                             "18446744073709551615", "18446744073709551616"});
    break;
  case 2: // many digits
    for (int64_t N = C.range(1, 40); N > 0; --N) {
      T += static_cast<char>('0' + C.range(0, 9));
    }
    break;
  default: { // scientific, exactly representable mantissa
    // doubles hold 53 bits: keep the value exact, or far beyond the clamp
    static const std::vector<std::string> M = {"1", "2", "7", "42", "123", "5", "0", "99", "1024"};
    T = C.flip() ? "-" : "";
    T += C.pick(M) + C.pick<std::string>({"e", "E"});
    int64_t X = C.chance(1, 4) ? C.range(19, 330) : C.range(0, 12);
    T += C.pick<std::string>({"", "+", "0"}) + std::to_string(X);
    C.tag("scientific");
  }
  }
  int64_t V = cg::literal(T);
  if (V < 0 || V > 9) {
    C.nontrivial(T);
  }
  if (V == INT64_MAX || V == INT64_MIN) {
    C.tag("clamped");
  }
  check(C, T, std::to_string(V), "literal");
}

// negative exponents with an integral value
PROP(negative_exponent, 2000, 40000) {
  int64_t Base = C.range(0, 9999);
  int64_t Z = C.range(0, 6);
  std::string T = std::to_string(Base) + std::string(static_cast<size_t>(Z), '0') +
                  C.pick<std::string>({"e-", "E-"}) + std::to_string(Z);
  C.nontrivial(T);
  check(C, T, std::to_string(Base), "literal");
}

// long and deep, but finite, expressions
PROP(long_text, 600, 6000) {
  std::string T;
  size_t N = static_cast<size_t>(C.range(1, 300));
  switch (C.draw(3)) {
  case 0:
    T = std::string(N, '(') + "A" + std::string(N, ')');
    break;
  case 1:
    for (size_t I = 0; I < N; ++I) {
      T += C.pick<std::string>({"!", "~", "!!"});
    }
    T += "A";
    break;
  case 2:
    T = "A";
    for (size_t I = 0; I < N; ++I) {
      T += C.pick<std::string>({"+A", "*b", "|c", "=>d"});
    }
    break;
  default:
    for (size_t I = 0; I < N; ++I) {
      T += "(A" + C.pick<std::string>({"+", "=>", "&"});
    }
    T += "1" + std::string(N, ')');
  }
  E X = cg::parseText(T);
  C.nontrivial(T);
  C.require(!!X, "harness", "reference rejects");
  check(C, T, str(X), "misparsed-long");
}
