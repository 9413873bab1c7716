// C27: a result holds either its value or its error and hands out exactly that.
#include "pbt.h"

#include "vara/Feature/Error.h"
#include "vara/Solver/Error.h"

#include "llvm/Support/raw_ostream.h"

#include <map>
#include <memory>
#include <optional>
#include <set>

namespace {
using vara::feature::FTErrorCode;
using vara::solver::SolverErrorCode;

template <typename T> std::string print(const T &X) {
  std::string S;
  llvm::raw_string_ostream O(S);
  O << X;
  return O.str();
}

// T: type of the value, its generator, a copy for comparison, its text
struct BoolV {
  using Ty = bool;
  static Ty gen(pbt::Case &C) { return C.flip(); }
  static Ty make(const Ty &X) { return X; }
  static std::string text(const Ty &X) { return X ? "1" : "0"; }
};
struct IntV {
  using Ty = int64_t;
  static Ty gen(pbt::Case &C) { return C.int64(); }
  static Ty make(const Ty &X) { return X; }
  static std::string text(const Ty &X) { return std::to_string(X); }
};
struct UnsignedV {
  using Ty = uint64_t;
  static Ty gen(pbt::Case &C) { return static_cast<uint64_t>(C.int64()); }
  static Ty make(const Ty &X) { return X; }
  static std::string text(const Ty &X) { return std::to_string(X); }
};
struct StringV {
  using Ty = std::string;
  static Ty gen(pbt::Case &C) { return std::string(static_cast<size_t>(C.range(0, 40)), 'a' + static_cast<char>(C.draw(25))); }
  static Ty make(const Ty &X) { return X; }
  static std::string text(const Ty &X) { return X; }
};
struct PtrV { // move only
  using Ty = std::unique_ptr<std::string>;
  static Ty gen(pbt::Case &C) { return C.chance(1, 6) ? nullptr : std::make_unique<std::string>(StringV::gen(C)); }
  static Ty make(const Ty &X) { return X ? std::make_unique<std::string>(*X) : nullptr; }
  static std::string text(const Ty &X) { return X ? "p" + *X : "null"; }
};

struct FtE {
  using Ty = FTErrorCode;
  static Ty gen(pbt::Case &C) { return static_cast<Ty>(C.draw(vara::feature::RECURSIVE_EDGE)); }
  static std::string text(Ty X) { return std::to_string(static_cast<int>(X)); }
};
struct SolverE {
  using Ty = SolverErrorCode;
  static Ty gen(pbt::Case &C) { return static_cast<Ty>(C.draw(vara::solver::ILLEGAL_STATE)); }
  static std::string text(Ty X) { return std::to_string(static_cast<int>(X)); }
};
struct StringE {
  using Ty = std::string;
  static Ty gen(pbt::Case &C) { return "e" + StringV::gen(C); }
  static std::string text(const Ty &X) { return X; }
};

template <typename E, typename V, bool Copies> void history(pbt::Case &C) {
  using R = vara::Result<typename E::Ty, typename V::Ty>;
  struct Slot {
    std::unique_ptr<R> Real;
    std::optional<typename V::Ty> Value;
    std::optional<typename E::Ty> Err;
  };
  std::vector<Slot> S;
  std::string D;
  auto Fresh = [&](Slot &X) {
    X.Value.reset();
    X.Err.reset();
    bool Explicit = C.flip();
    if (C.flip()) {
      auto W = V::gen(C);
      X.Value.emplace(V::make(W));
      D += " ok(" + V::text(*X.Value) + ")";
      if (Explicit) {
        X.Real = std::make_unique<R>(vara::Ok<typename V::Ty>(std::move(W)));
      } else {
        if constexpr (std::is_same_v<typename V::Ty, std::string> && std::is_same_v<typename E::Ty, std::string>) {
          X.Real = std::make_unique<R>(vara::Ok<typename V::Ty>(std::move(W)));
        } else if constexpr (std::is_arithmetic_v<typename V::Ty>) {
          X.Real = std::make_unique<R>(W);
        } else {
          X.Real = std::make_unique<R>(std::move(W));
        }
      }
    } else {
      auto W = E::gen(C);
      X.Err = W;
      D += " error(" + E::text(W) + ")";
      X.Real = std::make_unique<R>(vara::Error<typename E::Ty>(W));
    }
  };
  auto Check = [&](Slot &X, const char *Op) {
    C.require(static_cast<bool>(*X.Real) == X.Value.has_value(), "kind",
              std::string(Op) + " in" + D);
    const R &K = *X.Real;
    C.require(static_cast<bool>(K) == X.Value.has_value(), "kind", std::string(Op) + " in" + D);
    if (X.Err) {
      C.require(X.Real->getError() == *X.Err, "error", std::string(Op) + " in" + D);
      C.require(X.Real->getError() == *X.Err, "error", std::string(Op) + " in" + D);
    } else if constexpr (Copies) {
      C.require(**X.Real == *X.Value, "value", std::string(Op) + " in" + D);
      C.require(**X.Real == *X.Value, "value", std::string(Op) + " in" + D);
      C.eq(print(*X.Real), print(*X.Value), "text", D);
    }
    if constexpr (Copies) {
      if (X.Err) {
        C.eq(print(*X.Real), print(vara::Error<typename E::Ty>(*X.Err)), "text", D);
      }
    }
  };
  int64_t N = C.tailed(2, 14, 100, 60);
  int Copied = 0;
  for (int64_t I = 0; I < N; ++I) {
    if (S.empty() || C.chance(1, 3)) {
      S.emplace_back();
      Fresh(S.back());
      Check(S.back(), "construction");
      continue;
    }
    size_t A = C.draw(S.size() - 1), B = C.draw(S.size() - 1);
    switch (C.draw(5)) {
    case 0: // copy of something that may change
    case 1: // copy of a constant
      if constexpr (Copies) {
        bool Const = C.flip();
        D += Const ? " copy-const" : " copy";
        Slot X;
        X.Real = Const ? std::make_unique<R>(static_cast<const R &>(*S[A].Real)) : std::make_unique<R>(*S[A].Real);
        X.Value = S[A].Value;
        X.Err = S[A].Err;
        Check(X, "copy");
        Check(S[A], "copied from");
        S.push_back(std::move(X));
        ++Copied;
      }
      break;
    case 2: { // move
      D += " move";
      Slot X;
      X.Real = std::make_unique<R>(std::move(*S[A].Real));
      X.Value = std::move(S[A].Value);
      X.Err = S[A].Err;
      Check(X, "move");
      Fresh(S[A]);
      S.push_back(std::move(X));
      ++Copied;
      break;
    }
    case 3: // assignment
      if constexpr (Copies) {
        D += " assign";
        *S[A].Real = *S[B].Real;
        S[A].Value = S[B].Value;
        S[A].Err = S[B].Err;
        Check(S[A], "assignment");
        Check(S[B], "assigned from");
        ++Copied;
      } else if (A != B) {
        D += " move-assign";
        *S[A].Real = std::move(*S[B].Real);
        S[A].Value = std::move(S[B].Value);
        S[A].Err = S[B].Err;
        Check(S[A], "assignment");
        Fresh(S[B]);
        ++Copied;
      }
      break;
    case 4: // take it out
      if (S[A].Value) {
        bool Op = C.flip();
        D += Op ? " take*" : " take";
        auto W = Op ? *std::move(*S[A].Real) : S[A].Real->extractValue();
        C.eq(V::text(W), V::text(*S[A].Value), "taken", D);
      } else {
        bool Op = C.flip();
        D += Op ? " take-error&&" : " take-error";
        auto W = Op ? std::move(*S[A].Real).getError() : S[A].Real->extractError();
        C.eq(E::text(W), E::text(*S[A].Err), "taken-error", D);
      }
      Fresh(S[A]);
      break;
    default:
      Check(S[A], "query");
    }
  }
  for (auto &X : S) {
    Check(X, "end");
  }
  C.describe(D);
  if (Copied >= 1 && N >= 4) {
    C.nontrivial(std::string(typeid(R).name()) + D);
  }
}

// a result without a value
void plain(pbt::Case &C) {
  using R = vara::Result<FTErrorCode>;
  auto Make = [&](std::optional<FTErrorCode> &M) {
    M.reset();
    if (C.flip()) {
      return R(vara::Ok<void>());
    }
    M = FtE::gen(C);
    return C.flip() ? R(*M) : R(vara::Error<FTErrorCode>(*M));
  };
  std::optional<FTErrorCode> MA, MB;
  R A = Make(MA), B = Make(MB);
  R D = A;
  const R &K = A;
  R F = K;
  for (auto *X : {&A, &D, &F}) {
    C.require(static_cast<bool>(*X) == !MA, "kind");
    C.require(!MA || X->getError() == *MA, "error");
  }
  D = B;
  C.require(static_cast<bool>(D) == !MB, "kind");
  C.require(!MB || D.getError() == *MB, "error");
  C.eq(print(A), MA ? print(vara::Error<FTErrorCode>(*MA)) : std::string("OK"), "text");
  C.nontrivial(std::to_string(MA ? *MA : -1) + "," + std::to_string(MB ? *MB : -1));
}

} // namespace

PROP(history, 20000, 400000) {
  switch (C.draw(6)) {
  case 0:
    return history<FtE, BoolV, true>(C);
  case 1:
    return history<FtE, IntV, true>(C);
  case 2:
    return history<SolverE, UnsignedV, true>(C);
  case 3:
    return history<SolverE, StringV, true>(C);
  case 4:
    return history<FtE, PtrV, false>(C);
  case 5:
    return history<StringE, PtrV, false>(C);
  default:
    return plain(C);
  }
}

// every error says what it is
PROP(messages, 200, 200) {
  std::set<std::string> T;
  for (int I = 0; I <= vara::feature::RECURSIVE_EDGE; ++I) {
    auto X = print(vara::Error<FTErrorCode>(static_cast<FTErrorCode>(I)));
    C.require(!X.empty(), "no-message", std::to_string(I));
    C.require(T.insert(X).second, "same-message", X);
  }
  T.clear();
  for (int I = 0; I <= vara::solver::ILLEGAL_STATE; ++I) {
    auto X = print(vara::Error<SolverErrorCode>(static_cast<SolverErrorCode>(I)));
    C.require(!X.empty(), "no-message", std::to_string(I));
    C.require(T.insert(X).second, "same-message", X);
  }
  C.nontrivial("codes");
}
