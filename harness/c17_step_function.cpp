// C17: step functions parse, print and step as written.
#include "refmodel.h"

#include "vara/Feature/StepFunctionParser.h"

#include <cmath>
#include <cstdlib>

using namespace ref;
using pbt::quote;

namespace {
bool same(double A, double B) {
  if (std::isnan(A) || std::isnan(B)) {
    return std::isnan(A) && std::isnan(B);
  }
  if (A == B) {
    return true;
  }
  return std::fabs(A - B) <= 1e-12 * std::max(std::fabs(A), std::fabs(B));
}

// ---- reference reading of the text -------------------------------------------
struct Tok {
  enum { ID, NUM, OP, END, BAD } K;
  std::string T;
};
std::vector<Tok> lex(const std::string &S) {
  std::vector<Tok> R;
  auto D = [&](size_t I) { return I < S.size() && S[I] >= '0' && S[I] <= '9'; };
  auto N = [&](size_t I) { return D(I) || (I < S.size() && S[I] == '.'); };
  for (size_t I = 0; I < S.size();) {
    char C = S[I];
    if (C == '\0' || C == '\xff') {
      break;
    }
    if (C == ' ' || C == '\t' || C == '\r' || C == '\n') {
      ++I;
    } else if ((C >= 'a' && C <= 'z') || (C >= 'A' && C <= 'Z')) {
      size_t J = I;
      while (J < S.size() && (isalnum(static_cast<unsigned char>(S[J])) || S[J] == '_') &&
             static_cast<unsigned char>(S[J]) < 128) {
        ++J;
      }
      R.push_back({Tok::ID, S.substr(I, J - I)});
      I = J;
    } else if (N(I) || (C == '-' && N(I + 1))) {
      size_t J = C == '-' ? I + 1 : I;
      size_t Dots = 0, Digs = 0, B = I;
      while (N(J)) {
        (S[J] == '.' ? Dots : Digs)++;
        ++J;
      }
      bool Ok = Dots <= 1 && Digs > 0;
      R.push_back({Ok ? Tok::NUM : Tok::BAD, S.substr(B, J - B)});
      I = J;
      if (!Ok) {
        return R;
      }
    } else if (C == '+' || C == '*' || C == '^') {
      R.push_back({Tok::OP, std::string(1, C)});
      ++I;
    } else {
      R.push_back({Tok::BAD, std::string(1, C)});
      return R;
    }
  }
  R.push_back({Tok::END, ""});
  return R;
}
std::optional<Step> parse(const std::string &S) {
  auto T = lex(S);
  if (T.size() != 4 || T[1].K != Tok::OP || T[3].K != Tok::END) {
    return std::nullopt;
  }
  Step R;
  R.Op = T[1].T == "+" ? 0 : T[1].T == "*" ? 1 : 2;
  if (T[0].K == Tok::ID && T[2].K == Tok::NUM) {
    R.VarLeft = true;
    R.Num = strtod(T[2].T.c_str(), nullptr);
    return std::isfinite(R.Num) ? std::optional<Step>(R) : std::nullopt;
  }
  if (T[0].K == Tok::NUM && T[2].K == Tok::ID) {
    R.VarLeft = false;
    R.Num = strtod(T[0].T.c_str(), nullptr);
    return std::isfinite(R.Num) ? std::optional<Step>(R) : std::nullopt;
  }
  return std::nullopt;
}

std::string genNumText(pbt::Case &C) {
  switch (C.weighted({6, 3, 2, 1, 1})) {
  case 0:
    return std::to_string(C.range(0, 30));
  case 1:
    return std::to_string(C.range(0, 20)) + "." + std::to_string(C.range(0, 9999));
  case 2:
    return "." + std::to_string(C.range(0, 9999));
  case 3: {
    std::string S;
    for (int64_t N = C.chance(1, 30) ? C.range(31, 400) : C.range(1, 30); N > 0; --N) {
      S += static_cast<char>('0' + C.range(0, 9));
    }
    if (C.flip()) {
      S += ".";
      for (int64_t N = C.chance(1, 30) ? C.range(31, 400) : C.range(0, 30); N > 0; --N) {
        S += static_cast<char>('0' + C.range(0, 9));
      }
    }
    return S;
  }
  default:
    return "-" + std::to_string(C.range(0, 30)) + C.pick<std::string>({"", ".5", ".25", "."});
  }
}
std::string ws(pbt::Case &C) {
  std::string S;
  for (int64_t N = static_cast<int64_t>(C.weighted({3, 3, 1})); N > 0; --N) {
    S += C.pick<std::string>({" ", "\t", "\n", "\r"});
  }
  return S;
}
double genDouble(pbt::Case &C) {
  switch (C.weighted({4, 3, 2, 1})) {
  case 0:
    return static_cast<double>(C.range(-20, 100));
  case 1:
    return static_cast<double>(C.range(-100000, 100000)) / 1000.0;
  case 2:
    return std::ldexp(static_cast<double>(C.int64()), static_cast<int>(C.range(-40, 10)));
  default:
    return std::ldexp(static_cast<double>(C.range(-(1LL << 53), 1LL << 53)),
                      static_cast<int>(C.range(-600, 600)));
  }
}

void checkSteps(pbt::Case &C, vf::StepFunction &F, const Step &S, const char *Kind) {
  auto Probe = [&](double V) {
    double W = S.next(V), G = F.next<double>(V), H = F(V);
    if (!same(W, G) || !same(W, H)) {
      char B[200];
      snprintf(B, sizeof B, "at %.17g expected %.17g got %.17g / %.17g", V, W, G, H);
      C.fail(Kind, B);
    }
  };
  for (double V : {0.0, 1.0, -1.0, 2.0, 3.0, 10.0, 0.5, -7.25, 1e6}) {
    Probe(V);
  }
  for (int I = 0; I < 4; ++I) {
    Probe(genDouble(C));
  }
}
} // namespace

PROP(written_functions, 16000, 500000) {
  Step S;
  S.Op = static_cast<int>(C.range(0, 2));
  S.VarLeft = !C.flip();
  std::string N = genNumText(C);
  S.Num = strtod(N.c_str(), nullptr);
  std::string V = C.pick<std::string>({"x", "X", "step", "n_1", "Foo", "e1"});
  const char *O[] = {"+", "*", "^"};
  std::string T = ws(C) + (S.VarLeft ? V : N) + ws(C) + O[S.Op] + ws(C) + (S.VarLeft ? N : V) + ws(C);
  C.describe(quote(T));
  C.nontrivial(T);
  auto F = vf::StepFunctionParser(T).buildStepFunction();
  if (!std::isfinite(S.Num)) { // no such number
    C.tag("overflow");
    C.require(!F, "infinite", quote(T));
    return;
  }
  C.requireF(!!F, "rejected", [&] { return quote(T); });
  checkSteps(C, *F, S, "parsed-step");
  std::string P = F->toString();
  auto G = vf::StepFunctionParser(P).buildStepFunction();
  C.requireF(!!G, "printed-rejected", [&] { return quote(P); });
  checkSteps(C, *G, S, "print-parse-step");
}

PROP(integer_steps, 8000, 200000) {
  Step S;
  S.Op = static_cast<int>(C.range(0, 1));
  S.VarLeft = !C.flip();
  S.Num = static_cast<double>(C.range(0, 40)) / (C.flip() ? 1 : 4);
  auto F = toStep(S);
  int64_t V = C.range(-1000, 1000);
  C.describe(std::to_string(S.Op) + " " + std::to_string(S.Num) + " at " + std::to_string(V));
  C.nontrivial(S.key() + std::to_string(V));
  // an integer step is the arithmetic result, truncated to the integer type
  int64_t W = static_cast<int64_t>(S.next(static_cast<double>(V)));
  C.eq(F->next<int64_t>(V), W, "int64-step");
  C.eq(F->next<int>(static_cast<int>(V)), static_cast<int>(W), "int-step");
  if (S.Op == 0 || S.Num == std::floor(S.Num)) {
    C.eq(F->next<long>(V), W, "long-step");
  }
}

PROP(power_steps, 4000, 100000) {
  Step S;
  S.Op = 2;
  S.VarLeft = C.flip();
  S.Num = static_cast<double>(C.range(0, 6));
  int64_t V = C.range(0, 8);
  auto F = toStep(S);
  int64_t B = S.VarLeft ? V : static_cast<int64_t>(S.Num);
  int64_t X = S.VarLeft ? static_cast<int64_t>(S.Num) : V;
  int64_t W = 1;
  for (int64_t I = 0; I < X; ++I) {
    W *= B;
  }
  C.describe(std::to_string(B) + "^" + std::to_string(X));
  C.nontrivial(std::to_string(S.VarLeft) + std::to_string(B) + "^" + std::to_string(X));
  C.eq(F->next<int64_t>(V), W, "int-power");
  C.require(same(F->next<double>(static_cast<double>(V)), static_cast<double>(W)), "power");
}

PROP(print_parse, 16000, 500000) {
  Step S;
  S.Op = static_cast<int>(C.range(0, 2));
  S.VarLeft = !C.flip();
  S.Num = genDouble(C);
  char B[64];
  snprintf(B, sizeof B, "%d %d %.17g", S.Op, S.VarLeft, S.Num);
  C.describe(B);
  C.nontrivial(B);
  auto F = toStep(S);
  checkSteps(C, *F, S, "step");
  std::string T = F->toString();
  C.describe("printed: " + T);
  auto G = vf::StepFunctionParser(T).buildStepFunction();
  C.requireF(!!G, "printed-rejected", [&] { return T; });
  checkSteps(C, *G, S, "print-parse-step");
  C.eq(G->toString(), T, "reprint");
}

PROP(any_text, 24000, 800000) {
  std::string T;
  if (C.chance(2, 3)) {
    for (int64_t N = C.range(0, 6); N > 0; --N) {
      T += C.pick<std::string>({"x", "y1", "+", "*", "^", "1", "2.5", ".5", ".", "-", "1.2.3", " ",
                                "\n", "#", "e5", "7.", "-3", "(", "/", "_"});
      T += C.pick({"", " "});
    }
  } else {
    T = C.pick<std::string>({"x + 1", "2*x", "x^.5", " x *10"});
    for (int64_t N = C.range(1, 2); N > 0; --N) {
      static const std::string Chars = "x1.+*^- \n#()_e/\x7f\x80";
      size_t P = static_cast<size_t>(C.draw(T.size()));
      char Ch = C.chance(1, 10) ? static_cast<char>(C.range(0, 255))
                                : Chars[C.draw(Chars.size() - 1)];
      if (C.flip()) {
        T.insert(P, 1, Ch);
      } else if (P < T.size()) {
        T[P] = Ch;
      }
    }
  }
  C.describe(quote(T));
  auto L = lex(T);
  if (L.size() >= 3) {
    C.nontrivial(T);
  }
  auto W = parse(T);
  C.tag(W ? "accepted" : "rejected");
  auto F = vf::StepFunctionParser(T).buildStepFunction();
  C.eq(!!F, W.has_value(), W ? "rejected" : "accepted-other-text", quote(T));
  if (W) {
    checkSteps(C, *F, *W, "parsed-step");
  }
}
