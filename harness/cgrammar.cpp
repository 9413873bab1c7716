#include "cgrammar.h"

#include <cstdlib>
#include <limits>

namespace cg {
using namespace ref;

std::vector<Tok> lex(const std::string &S) {
  std::vector<Tok> R;
  size_t I = 0;
  auto Dig = [](char C) { return C >= '0' && C <= '9'; };
  auto Alpha = [](char C) { return (C >= 'a' && C <= 'z') || (C >= 'A' && C <= 'Z'); };
  while (I < S.size()) {
    char C = S[I];
    if (C == '\0' || C == '\xff') {
      break;
    }
    if (C == ' ' || C == '\t' || C == '\r' || C == '\n') {
      ++I;
      continue;
    }
    if (Alpha(C)) {
      size_t J = I;
      while (J < S.size() && (Alpha(S[J]) || Dig(S[J]) || S[J] == '_')) {
        ++J;
      }
      std::string W = S.substr(I, J - I);
      if (W == "or") {
        R.push_back({Tok::BIN, W, Op::OR});
      } else {
        R.push_back({Tok::ID, W});
      }
      I = J;
      continue;
    }
    if (Dig(C)) {
      size_t J = I;
      while (J < S.size() && Dig(S[J])) {
        ++J;
      }
      if (J < S.size() && (S[J] == 'e' || S[J] == 'E')) {
        size_t K = J + 1;
        if (K < S.size() && (S[K] == '+' || S[K] == '-')) {
          ++K;
        }
        if (K < S.size() && Dig(S[K])) {
          while (K < S.size() && Dig(S[K])) {
            ++K;
          }
          J = K;
        }
      }
      R.push_back({Tok::NUM, S.substr(I, J - I), Op::INT, I > 0 && S[I - 1] == '-'});
      I = J;
      continue;
    }
    static const std::vector<std::pair<std::string, Op>> Ops = {
        {"<=>", Op::EQUIV}, {"<->", Op::EQUIV}, {"<=", Op::LE}, {">=", Op::GE}, {"!=", Op::NE},
        {"=>", Op::IMPL},   {"->", Op::IMPL},   {"<", Op::LT},  {">", Op::GT},  {"=", Op::EQ},
        {"+", Op::ADD},     {"-", Op::SUB},     {"*", Op::MUL}, {"/", Op::DIV}, {"&", Op::AND},
        {"|", Op::OR},      {"^", Op::XOR}};
    bool Hit = false;
    for (auto &[T, O] : Ops) {
      if (S.compare(I, T.size(), T) == 0) {
        R.push_back({Tok::BIN, T, O});
        I += T.size();
        Hit = true;
        break;
      }
    }
    if (Hit) {
      continue;
    }
    ++I;
    if (C == '!') {
      R.push_back({Tok::NOT, "!"});
    } else if (C == '~') {
      R.push_back({Tok::NEG, "~"});
    } else if (C == '(') {
      R.push_back({Tok::LP, "("});
    } else if (C == ')') {
      R.push_back({Tok::RP, ")"});
    } else {
      R.push_back({Tok::BAD, std::string(1, C)});
      return R;
    }
  }
  R.push_back({Tok::END, ""});
  return R;
}

int64_t literal(const std::string &S, bool *Exact) {
  // decimal digits times a power of ten, in saturating decimal arithmetic
  bool Neg = !S.empty() && S[0] == '-';
  size_t I = Neg ? 1 : 0;
  std::string D;
  while (I < S.size() && S[I] >= '0' && S[I] <= '9') {
    D += S[I++];
  }
  long Exp = 0;
  bool ENeg = false;
  if (I < S.size()) {
    ++I;
    if (S[I] == '+' || S[I] == '-') {
      ENeg = S[I] == '-';
      ++I;
    }
    for (; I < S.size(); ++I) {
      Exp = std::min(Exp * 10 + (S[I] - '0'), 100000L);
    }
  }
  D.erase(0, std::min(D.find_first_not_of('0'), D.size()));
  if (ENeg) {
    while (Exp > 0 && !D.empty()) {
      if (D.back() != '0' && Exact) {
        *Exact = false;
      }
      D.pop_back();
      --Exp;
    }
  } else if (!D.empty()) {
    D.append(std::min(Exp, 40L), '0');
  }
  unsigned __int128 V = 0;
  for (char C : D) {
    V = V * 10 + static_cast<unsigned>(C - '0');
    if (V > (static_cast<unsigned __int128>(1) << 64)) {
      V = static_cast<unsigned __int128>(1) << 64;
    }
  }
  if (S.find_first_of("eE") != std::string::npos && V > (1ULL << 53) &&
      V <= static_cast<unsigned __int128>(std::numeric_limits<int64_t>::max())) {
    // scientific notation is documented to be read as double
    double F = std::strtod(S.c_str() + (Neg ? 1 : 0), nullptr);
    V = F >= 9223372036854775808.0 ? static_cast<unsigned __int128>(1) << 64
                                   : static_cast<unsigned __int128>(static_cast<int64_t>(F));
  }
  unsigned __int128 Max = std::numeric_limits<int64_t>::max();
  if (Neg) {
    return V > Max ? std::numeric_limits<int64_t>::min() : -static_cast<int64_t>(V);
  }
  return V > Max ? std::numeric_limits<int64_t>::max() : static_cast<int64_t>(V);
}

namespace {
struct P {
  const std::vector<Tok> &T;
  size_t I = 0;
  Tok::K peek() const { return T[I].Kind; }
  E unary() {
    switch (peek()) {
    case Tok::ID:
      return feat(T[I++].Text);
    case Tok::NUM:
      return num(literal(T[I++].Text));
    case Tok::BIN:
      // a sign directly in front of a number
      if (T[I].Text == "-" && T[I + 1].Kind == Tok::NUM && T[I + 1].Glued) {
        I += 2;
        return num(literal("-" + T[I - 1].Text));
      }
      return nullptr;
    case Tok::NOT:
    case Tok::NEG: {
      Op O = peek() == Tok::NOT ? Op::NOT : Op::NEG;
      ++I;
      E X = unary();
      return X ? un(O, X) : nullptr;
    }
    case Tok::LP: {
      ++I;
      E X = level(8);
      if (!X || peek() != Tok::RP) {
        return nullptr;
      }
      ++I;
      return X;
    }
    default:
      return nullptr;
    }
  }
  E level(int L) {
    E X = L == 1 ? unary() : level(L - 1);
    while (X && peek() == Tok::BIN && prec(T[I].O) == L) {
      Op O = T[I++].O;
      E R = L == 1 ? unary() : level(L - 1);
      X = R ? bin(O, X, R) : nullptr;
    }
    return X;
  }
};
} // namespace

bool inexact(const std::vector<Tok> &T) {
  bool Exact = true;
  for (auto &X : T) {
    if (X.Kind == Tok::NUM) {
      literal(X.Text, &Exact);
    }
  }
  return !Exact;
}

E parse(const std::vector<Tok> &T) {
  P X{T};
  E R = X.level(8);
  return R && X.peek() == Tok::END ? R : nullptr;
}

namespace {
std::string numText(pbt::Case &C, int64_t V, bool Noise) {
  std::string S = std::to_string(V);
  if (!Noise || V < 0) {
    return S;
  }
  bool Small = V < (1LL << 53);
  switch (C.weighted({6, 1, 1, 1})) {
  case 1:
    return std::string(static_cast<size_t>(C.range(1, 4)), '0') + S;
  case 2:
    return Small ? S + C.pick<std::string>({"e0", "E0", "e+0", "E-0", "e00"}) : S;
  case 3: {
    int Z = 0;
    while (V != 0 && V % 10 == 0 && V < (1LL << 50) && Z < 15) {
      V /= 10;
      ++Z;
    }
    return V < (1LL << 50)
               ? std::to_string(V) + C.pick<std::string>({"e", "E", "e+", "E+"}) + std::to_string(Z)
               : S;
  }
  default:
    return S;
  }
}

void ws(pbt::Case &C, std::string &S, bool Noise) {
  if (!Noise) {
    return;
  }
  for (int64_t N = static_cast<int64_t>(C.weighted({4, 3, 1, 1})); N > 0; --N) {
    S += C.pick<std::string>({" ", "\t", "\n", "\r"});
  }
}

std::string go(pbt::Case &C, const E &X, int Ctx, bool Noise) {
  // Ctx: the loosest level allowed without parentheses; 0 = operand
  std::string S;
  int L = prec(X->O);
  bool Paren = L > Ctx || (Noise && C.chance(1, 8));
  if (Paren) {
    S += "(";
    Ctx = 8;
    ws(C, S, Noise);
    if (Noise && C.chance(1, 12)) {
      S += "(" + go(C, X, 8, Noise) + ")";
      ws(C, S, Noise);
      return S + ")";
    }
  }
  switch (X->O) {
  case Op::FEAT:
    S += X->N;
    break;
  case Op::INT:
    S += numText(C, X->V, Noise);
    break;
  case Op::NOT:
  case Op::NEG:
    S += X->O == Op::NOT ? "!" : "~";
    ws(C, S, Noise);
    S += go(C, X->L, 0, Noise);
    break;
  default: {
    S += go(C, X->L, L, Noise);
    std::string O = opText(X->O);
    if (Noise) {
      if (X->O == Op::OR && C.flip()) {
        O = "or";
      } else if (X->O == Op::IMPL && C.flip()) {
        O = "->";
      } else if (X->O == Op::EQUIV && C.flip()) {
        O = "<->";
      }
    }
    std::string R = go(C, X->R, L - 1, Noise);
    std::string A, B;
    if (Noise) {
      ws(C, A, true);
      ws(C, B, true);
    } else {
      A = B = " ";
    }
    if (O == "or") { // a word needs separation from words and digits
      if (A.empty() && S.back() != ')') {
        A = " ";
      }
      if (B.empty() && R[0] != '(' && R[0] != '!' && R[0] != '~' && R[0] != '-') {
        B = " ";
      }
    }
    // glued operators that would read as another operator
    if (B.empty() && R[0] == '-' && O == "<") {
      B = " ";
    }
    S += A + O + B + R;
  }
  }
  if (Paren) {
    ws(C, S, Noise);
    S += ")";
  }
  return S;
}
} // namespace

std::string render(pbt::Case &C, const E &X, bool Noise) {
  std::string S;
  ws(C, S, Noise);
  S += go(C, X, 8, Noise);
  ws(C, S, Noise);
  return S;
}
} // namespace cg
