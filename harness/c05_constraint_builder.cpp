// C05: the constraint builder builds what its calls spell.
#include "cgrammar.h"

#include "vara/Feature/ConstraintBuilder.h"

using namespace ref;
using cg::Tok;

namespace {
// one call; Kind PAREN is operator()()
struct Call {
  enum K { FEAT, CONST, NOT, NEG, BIN, OPEN, CLOSE, PAREN } Kind;
  Op O = Op::INT;
  std::string N;
  int64_t V = 0;
  std::string str() const {
    switch (Kind) {
    case FEAT: return "feature(" + N + ")";
    case CONST: return "constant(" + std::to_string(V) + ")";
    case NOT: return "lNot()";
    case NEG: return "neg()";
    case BIN: return std::string("'") + opText(O) + "'";
    case OPEN: return "openPar()";
    case CLOSE: return "closePar()";
    default: return "()";
    }
  }
};

void apply(vf::ConstraintBuilder &B, const Call &X) {
  switch (X.Kind) {
  case Call::FEAT: B.feature(X.N); return;
  case Call::CONST: B.constant(X.V); return;
  case Call::NOT: B.lNot(); return;
  case Call::NEG: B.neg(); return;
  case Call::OPEN: B.openPar(); return;
  case Call::CLOSE: B.closePar(); return;
  case Call::PAREN: B(); return;
  case Call::BIN:
    switch (X.O) {
    case Op::ADD: B.add(); return;
    case Op::SUB: B.subtract(); return;
    case Op::MUL: B.multiply(); return;
    case Op::DIV: B.divide(); return;
    case Op::LT: B.less(); return;
    case Op::LE: B.lessEqual(); return;
    case Op::GT: B.greater(); return;
    case Op::GE: B.greaterEqual(); return;
    case Op::EQ: B.equal(); return;
    case Op::NE: B.notEqual(); return;
    case Op::AND: B.lAnd(); return;
    case Op::OR: B.lOr(); return;
    case Op::XOR: B.lXor(); return;
    case Op::IMPL: B.implies(); return;
    case Op::EXCL: B.excludes(); return;
    case Op::EQUIV: B.equivalent(); return;
    default: return;
    }
  }
}

// The calls as a token list: "()" wraps everything so far.
E reading(const std::vector<Call> &Cs) {
  std::vector<Tok> T;
  int Open = 0;
  for (auto &X : Cs) {
    switch (X.Kind) {
    case Call::FEAT: T.push_back({Tok::ID, X.N}); break;
    case Call::CONST: T.push_back({Tok::NUM, std::to_string(X.V)}); break;
    case Call::NOT: T.push_back({Tok::NOT, "!"}); break;
    case Call::NEG: T.push_back({Tok::NEG, "~"}); break;
    case Call::BIN: T.push_back({Tok::BIN, "op", X.O}); break;
    case Call::OPEN: T.push_back({Tok::LP, "("}); ++Open; break;
    case Call::CLOSE: T.push_back({Tok::RP, ")"}); --Open; break;
    case Call::PAREN: {
      auto Copy = T;
      Copy.push_back({Tok::END, ""});
      if (Open != 0 || !cg::parse(Copy)) {
        return nullptr;
      }
      T.insert(T.begin(), {Tok::LP, "("});
      T.push_back({Tok::RP, ")"});
    }
    }
  }
  T.push_back({Tok::END, ""});
  return cg::parse(T);
}

const std::vector<Op> BinOps = {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::LT, Op::LE, Op::GT, Op::GE,
                                Op::EQ, Op::NE, Op::AND, Op::OR, Op::XOR, Op::IMPL, Op::EXCL,
                                Op::EQUIV};

Call genCall(pbt::Case &C, Call::K K) {
  Call X{K};
  if (K == Call::FEAT) {
    X.N = C.pick<std::string>({"A", "b", "f_1", "with space", "x&y"});
  } else if (K == Call::CONST) {
    X.V = C.chance(1, 8) ? C.int64() : C.range(-3, 20);
  } else if (K == Call::BIN) {
    X.O = C.pick(BinOps);
  }
  return X;
}

void check(pbt::Case &C, const std::vector<Call> &Cs) {
  std::string T;
  size_t Ops = 0;
  for (auto &X : Cs) {
    T += X.str() + " ";
    Ops += X.Kind == Call::BIN || X.Kind == Call::NOT || X.Kind == Call::NEG;
  }
  C.describe(T);
  E X = reading(Cs);
  C.tag(X ? "complete" : "incomplete");
  if (Ops >= 2) {
    C.nontrivial(T);
  }
  vf::ConstraintBuilder B;
  for (auto &K : Cs) {
    apply(B, K);
  }
  auto P = B.build();
  std::string Want = X ? str(X) : "<none>";
  std::string Got = P ? str(fromConstraint(P.get())) : "<none>";
  C.requireF(Want == Got, X ? "misbuilt" : "built-incomplete",
             [&] { return "expected " + Want + ", got " + Got; });
}
} // namespace

// mostly-complete call sequences
PROP(expression_calls, 30000, 1200000) {
  std::vector<Call> Cs;
  int64_t N = C.tailed(1, 30, 500, 100);
  bool Operand = true;
  int Open = 0;
  for (int64_t I = 0; I < N; ++I) {
    if (C.chance(1, 60)) { // anything, anywhere
      Cs.push_back(genCall(C, static_cast<Call::K>(C.range(0, 7))));
      continue;
    }
    if (Operand) {
      switch (C.weighted({6, 2, 1, 1, 2})) {
      case 0: Cs.push_back(genCall(C, Call::FEAT)); Operand = false; break;
      case 1: Cs.push_back(genCall(C, Call::CONST)); Operand = false; break;
      case 2: Cs.push_back(genCall(C, Call::NOT)); break;
      case 3: Cs.push_back(genCall(C, Call::NEG)); break;
      default: Cs.push_back(genCall(C, Call::OPEN)); ++Open;
      }
    } else {
      switch (C.weighted({6, 2, 1})) {
      case 1:
        if (Open > 0) {
          Cs.push_back(genCall(C, Call::CLOSE));
          --Open;
          break;
        }
        [[fallthrough]];
      case 0: Cs.push_back(genCall(C, Call::BIN)); Operand = true; break;
      default:
        if (Open == 0) {
          Cs.push_back(genCall(C, Call::PAREN));
        }
      }
    }
  }
  if (!C.chance(1, 12)) {
    if (Operand) {
      Cs.push_back(genCall(C, Call::FEAT));
    }
    for (; Open > 0; --Open) {
      Cs.push_back(genCall(C, Call::CLOSE));
    }
  }
  check(C, Cs);
}

// arbitrary call sequences
PROP(any_calls, 16000, 600000) {
  std::vector<Call> Cs;
  for (int64_t N = C.tailed(0, 10, 60, 60); N > 0; --N) {
    Cs.push_back(genCall(C, static_cast<Call::K>(C.weighted({6, 2, 2, 1, 6, 2, 2, 2}))));
  }
  check(C, Cs);
}

// building consumes what was called so far; a second build never reuses it
PROP(build_twice, 3000, 60000) {
  std::vector<Call> Cs;
  Cs.push_back(genCall(C, Call::FEAT));
  for (int64_t N = C.range(0, 3); N > 0; --N) {
    Cs.push_back(genCall(C, Call::BIN));
    Cs.push_back(genCall(C, C.flip() ? Call::FEAT : Call::CONST));
  }
  vf::ConstraintBuilder B;
  for (auto &K : Cs) {
    apply(B, K);
    C.describe(K.str());
  }
  auto P = B.build();
  C.require(!!P, "misbuilt", "first build");
  std::string A = str(fromConstraint(P.get()));
  C.nontrivial(A);
  auto Q = B.build();
  // either nothing or a constraint that can be used
  if (Q) {
    C.eq(str(fromConstraint(Q.get())), A, "second-build");
  }
  C.eq(str(fromConstraint(P.get())), A, "second-build-changed-first");
}
