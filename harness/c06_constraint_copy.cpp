// C06: constraints copy and print faithfully.
#include "cgrammar.h"

#include "vara/Feature/ConstraintParser.h"

using namespace ref;

namespace {
const std::vector<std::string> Names = {"A", "b", "f_1", "C2", "e5", "xor_", "L" + std::string(300, 'o') + "ng"};
const std::vector<std::string> Weird = {"A", "a&b", "<x>", "a \"q\"", "p'q", "&amp;", "c>d", "é", std::string(100, '&') + "<"};

void nodes(vf::Constraint *X, std::set<void *> &Out) {
  Out.insert(X);
  if (auto *B = dynamic_cast<vf::BinaryConstraint *>(X)) {
    nodes(B->getLeftOperand(), Out);
    nodes(B->getRightOperand(), Out);
  } else if (auto *U = dynamic_cast<vf::UnaryConstraint *>(X)) {
    nodes(U->getOperand(), Out);
  } else if (auto *P = dynamic_cast<vf::PrimaryFeatureConstraint *>(X)) {
    Out.insert(P->getFeature());
  }
}

// every node points to its own parent; returns a message or ""
std::string parents(vf::Constraint *X, vf::Constraint *P, vf::Constraint *Root) {
  if (X->getParent() != P) {
    return "wrong parent at " + X->toString();
  }
  if (X->getRoot() != Root) {
    return "wrong root at " + X->toString();
  }
  std::string R;
  if (auto *B = dynamic_cast<vf::BinaryConstraint *>(X)) {
    R = parents(B->getLeftOperand(), X, Root);
    return R.empty() ? parents(B->getRightOperand(), X, Root) : R;
  }
  if (auto *U = dynamic_cast<vf::UnaryConstraint *>(X)) {
    return parents(U->getOperand(), X, Root);
  }
  return "";
}

size_t ops(const E &X) { return (X->L ? 1 + ops(X->L) : 0) + (X->R ? ops(X->R) : 0); }

void mark(pbt::Case &C, const E &X) {
  C.describe(str(X));
  if (ops(X) >= 2) {
    C.nontrivial(str(X));
  }
}
} // namespace

PROP(copy, 16000, 600000) {
  E X = genAny(C, Weird, static_cast<int>(C.sized(1, 6)));
  mark(C, X);
  auto A = toConstraint(X);
  C.eq(str(fromConstraint(A.get())), str(X), "harness");
  std::string R = parents(A.get(), nullptr, A.get());
  C.require(R.empty(), "parent-links", R);
  auto B = A->clone();
  C.require(!!B, "no-copy");
  C.eq(str(fromConstraint(B.get())), str(X), "copy-differs");
  R = parents(B.get(), nullptr, B.get());
  C.require(R.empty(), "copy-parent-links", R);
  R = parents(A.get(), nullptr, A.get());
  C.require(R.empty(), "original-parent-links", R);
  std::set<void *> NA, NB;
  nodes(A.get(), NA);
  nodes(B.get(), NB);
  for (auto *N : NA) {
    C.require(!NB.count(N), "shared-node", str(X));
  }
  C.eq(NB.size(), NA.size(), "copy-size");
  std::string Text = A->toString(), HTML = A->toHTML();
  C.eq(B->toString(), Text, "copy-text");
  C.eq(B->toHTML(), HTML, "copy-html");
  // destroying one leaves the other usable
  if (C.flip()) {
    A.reset();
    C.eq(str(fromConstraint(B.get())), str(X), "copy-after-destroy");
    C.eq(B->toString(), Text, "copy-after-destroy");
    auto D = B->clone();
    C.eq(D->toString(), Text, "copy-of-copy");
  } else {
    // changing the parent links of one (as embedding it does) leaves the other
    auto D = std::make_unique<vf::NotConstraint>(std::move(B));
    R = parents(A.get(), nullptr, A.get());
    C.require(R.empty(), "original-parent-links", R);
    R = parents(D.get(), nullptr, D.get());
    C.require(R.empty(), "embedded-parent-links", R);
    D.reset();
    C.eq(str(fromConstraint(A.get())), str(X), "original-after-destroy");
  }
}

// printing and parsing gives the constraint back
PROP(print_parse, 16000, 600000) {
  E X = genAny(C, Names, static_cast<int>(C.sized(1, 6)));
  mark(C, X);
  auto A = toConstraint(X);
  std::string T = A->toString();
  C.describe("printed: " + T);
  auto P = vf::ConstraintParser(T).buildConstraint();
  C.requireF(!!P, "printed-text-rejected", [&] { return T; });
  C.eq(str(fromConstraint(P.get())), str(normText(X)), "print-parse");
  C.eq(P->toString(), T, "print-parse-print");
}

// the printed text read by the documented grammar, independent of the parser
PROP(printed_text, 8000, 300000) {
  E X = genAny(C, Names, static_cast<int>(C.sized(1, 5)));
  mark(C, X);
  std::string T = toConstraint(X)->toString();
  E Y = cg::parseText(T);
  C.requireF(!!Y, "printed-outside-grammar", [&] { return T; });
  C.eq(str(Y), str(normText(X)), "printed-text-differs");
}

// HTML is the text with markup escaped
PROP(html, 12000, 400000) {
  E X = genAny(C, Weird, static_cast<int>(C.sized(1, 5)));
  mark(C, X);
  auto A = toConstraint(X);
  std::string T = A->toString(), H = A->toHTML(), U;
  C.describe("html: " + H);
  static const std::vector<std::pair<std::string, char>> Ent = {
      {"&amp;", '&'}, {"&lt;", '<'}, {"&gt;", '>'}, {"&quot;", '"'}, {"&apos;", '\''},
      {"&#39;", '\''}};
  for (size_t I = 0; I < H.size();) {
    if (H[I] == '&') {
      bool Hit = false;
      for (auto &[S, Ch] : Ent) {
        if (H.compare(I, S.size(), S) == 0) {
          U += Ch;
          I += S.size();
          Hit = true;
          break;
        }
      }
      C.require(Hit, "raw-ampersand", H);
      continue;
    }
    C.require(H[I] != '<' && H[I] != '>', "raw-markup", H);
    U += H[I++];
  }
  C.eq(U, T, "html-text");
}
