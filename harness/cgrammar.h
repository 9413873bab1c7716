// Independent reading of the documented constraint grammar: a lexer and a
// recursive-descent parser that share no code with the repository.
#ifndef VERIF_CGRAMMAR_H
#define VERIF_CGRAMMAR_H

#include "refmodel.h"

namespace cg {
using ref::E;
using ref::Op;

struct Tok {
  enum K { ID, NUM, BIN, NOT, NEG, LP, RP, END, BAD } Kind;
  std::string Text;
  Op O = Op::INT;
  bool Glued = false; // directly behind a minus sign
};

// precedence level, 1 binds tightest; 0 = not an operator
inline int prec(Op O) {
  switch (O) {
  case Op::MUL:
  case Op::DIV:
    return 1;
  case Op::ADD:
  case Op::SUB:
    return 2;
  case Op::LT:
  case Op::LE:
  case Op::GT:
  case Op::GE:
    return 3;
  case Op::EQ:
  case Op::NE:
    return 4;
  case Op::AND:
    return 5;
  case Op::OR:
  case Op::XOR:
    return 6;
  case Op::IMPL:
  case Op::EXCL:
    return 7;
  case Op::EQUIV:
    return 8;
  default:
    return 0;
  }
}

std::vector<Tok> lex(const std::string &S);
// nullptr if the tokens are not one expression
E parse(const std::vector<Tok> &T);
inline E parseText(const std::string &S) { return parse(lex(S)); }
// the value of a literal; clamped to 64 bits. Exact is cleared for values that
// are not integers.
int64_t literal(const std::string &S, bool *Exact = nullptr);

// some literal does not denote an integer
bool inexact(const std::vector<Tok> &T);

// text of X with random (but always sufficient) parentheses, whitespace and
// operator spellings
std::string render(pbt::Case &C, const E &X, bool Noise = true);
} // namespace cg
#endif
