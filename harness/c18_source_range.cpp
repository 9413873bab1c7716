// C18: source ranges and locations are values with exact equality.
#include "refmodel.h"

using namespace ref;
using pbt::quote;
using FSR = vf::FeatureSourceRange;
using FSL = FSR::FeatureSourceLocation;
using FMO = FSR::FeatureMemberOffset;

namespace {
Loc small(pbt::Case &C) { // few distinct values, so that equal parts are common
  Loc L;
  L.Path = C.pick<std::string>({"a.c", "b.c"});
  if (!C.chance(1, 3)) {
    L.Start = {static_cast<unsigned>(C.range(0, 1)), static_cast<unsigned>(C.range(0, 1))};
  }
  if (!C.chance(1, 3)) {
    L.End = {static_cast<unsigned>(C.range(0, 1)), static_cast<unsigned>(C.range(0, 1))};
  }
  L.Inessential = C.flip();
  if (C.flip()) {
    L.Member = C.pick<std::string>({"A::m", "A::n", "A::B::m", "::m"});
  }
  if (C.flip()) {
    L.Intro = C.pick<std::string>({"c1", "c2"});
    if (C.flip()) {
      L.Removed = C.pick<std::string>({"c1", "c2"});
    }
  }
  return L;
}

// change exactly one part
Loc tweak(pbt::Case &C, Loc L) {
  switch (C.draw(7)) {
  case 0:
    L.Path += "x";
    break;
  case 1:
    if (L.Start) {
      if (C.flip()) {
        L.Start->first += 1;
      } else {
        L.Start->second += 1;
      }
    } else {
      L.Start = {0, 0};
    }
    break;
  case 2:
    if (L.End) {
      if (C.flip()) {
        L.End->second += 1;
      } else {
        L.End->first += 1;
      }
    } else {
      L.End = {0, 0};
    }
    break;
  case 3:
    L.Inessential = !L.Inessential;
    break;
  case 4:
    L.Member = L.Member ? std::nullopt : std::optional<std::string>("Q::z");
    break;
  case 5:
    if (L.Member) {
      *L.Member = C.flip() ? "P::" + *L.Member : *L.Member + "_";
    } else {
      L.Start.reset();
    }
    break;
  case 6:
    if (L.Intro) {
      *L.Intro += "0";
    } else {
      L.Intro = "c9";
    }
    break;
  default:
    if (L.Intro) {
      L.Removed = L.Removed ? std::nullopt : std::optional<std::string>("c8");
    } else {
      L.End.reset();
    }
  }
  return L;
}

void same(pbt::Case &C, const Loc &L, const FSR &F, const char *Kind) {
  C.eq(fromFSR(F).str(), L.str(), Kind);
}
} // namespace

PROP(equality, 24000, 600000) {
  Loc A = C.flip() ? small(C) : genLoc(C, false);
  Loc B = A;
  switch (C.weighted({2, 5, 2})) {
  case 0:
    break;
  case 1:
    B = tweak(C, A);
    break;
  default:
    B = small(C);
  }
  C.describe(A.str());
  C.describe(B.str());
  C.nontrivial(A.str() + "/" + B.str());
  FSR X = toFSR(A), Y = toFSR(B);
  same(C, A, X, "parts");
  same(C, B, Y, "parts");
  bool Eq = A == B;
  C.tag(Eq ? "equal" : "different");
  C.eq(X == Y, Eq, "equality");
  C.eq(Y == X, Eq, "equality-symmetric");
  C.eq(X != Y, !Eq, "inequality");
  C.require(X == X, "reflexive");
  FSR Z = X;
  C.require(Z == X, "copy-equal");
  // assignment and setters
  Z = Y;
  C.require(Z == Y, "assigned-equal");
  same(C, B, Z, "assigned-parts");
  FSR W = std::move(Z);
  same(C, B, W, "moved-parts");
}

PROP(setters, 6000, 150000) {
  Loc A = genLoc(C, false), B = genLoc(C, false);
  FSR X = toFSR(A), Copy = X;
  Loc W = A;
  C.nontrivial(A.str() + "/" + B.str());
  C.describe(A.str() + " -> " + B.str());
  if (C.flip()) {
    X.setPath(B.Path);
    W.Path = B.Path;
  }
  if (C.flip()) {
    X.setCategory(B.Inessential ? FSR::Category::inessential : FSR::Category::necessary);
    W.Inessential = B.Inessential;
  }
  if (X.hasStart() && C.flip()) {
    X.getStart()->setLineNumber(7);
    W.Start->first = 7;
  }
  if (X.hasStart() && C.flip()) {
    X.getStart()->setColumnOffset(8);
    W.Start->second = 8;
  }
  if (X.hasEnd() && C.flip()) {
    X.getEnd()->setLineNumber(9);
    W.End->first = 9;
  }
  if (X.hasEnd() && C.flip()) {
    X.getEnd()->setColumnOffset(10);
    W.End->second = 10;
  }
  same(C, W, X, "set-parts");
  same(C, A, Copy, "copy-changed");
  C.eq(X == Copy, W == A, "equality-after-set");
}

PROP(positions, 8000, 200000) {
  auto N = [&] {
    return static_cast<unsigned>(C.chance(1, 6) ? C.range(0, 4294967295LL) : C.range(0, 3));
  };
  std::pair<unsigned, unsigned> A{N(), N()}, B{N(), N()};
  FSL X(A.first, A.second), Y(B.first, B.second);
  std::ostringstream S;
  S << A.first << ":" << A.second << " " << B.first << ":" << B.second;
  C.describe(S.str());
  C.nontrivial(S.str());
  C.eq(X < Y, A < B, "less");
  C.eq(X > Y, A > B, "greater");
  C.eq(X == Y, A == B, "position-equality");
  C.eq(X.toString() + " " + Y.toString(), S.str(), "position-text");
}

PROP(member_offsets, 24000, 600000) {
  std::string T;
  for (int64_t N = C.chance(1, 60) ? C.range(10, 400) : C.range(0, 9); N > 0; --N) {
    T += C.pick<std::string>({"::", "A", "::", "b1", ":", "Foo", " ", "~C", "<T>", "é"});
  }
  C.describe(quote(T));
  C.nontrivial(T);
  auto P = T.rfind("::");
  bool Ok = P != std::string::npos && P + 2 < T.size();
  C.eq(FMO::isMemberOffsetFormat(T), Ok, "member-format", quote(T));
  auto M = FMO::createFeatureMemberOffset(T);
  C.eq(M.has_value(), Ok, "member-accepted", quote(T));
  if (!Ok) {
    return;
  }
  C.tag("accepted");
  std::string Cls = T.substr(0, P), Mem = T.substr(P + 2);
  std::vector<std::string> Parts;
  if (!Cls.empty()) {
    size_t B = 0;
    while (true) {
      auto E = Cls.find("::", B);
      Parts.push_back(Cls.substr(B, E == std::string::npos ? E : E - B));
      if (E == std::string::npos) {
        break;
      }
      B = E + 2;
    }
  }
  C.eq(M->memberName(), Mem, "member-name");
  C.eq(M->className(), Cls, "class-path");
  C.eq(M->nestingDepth(), Parts.size(), "nesting-depth");
  for (size_t I = 0; I < Parts.size(); ++I) {
    C.eq(M->className(I), Parts[Parts.size() - 1 - I], "nested-class");
  }
  C.eq(M->toString(), T, "member-text");
  auto R = FMO::createFeatureMemberOffset(M->toString());
  C.require(R.has_value() && *R == *M && !(*R != *M), "member-roundtrip");
  std::string U = C.flip() ? T + "x" : "Z::" + T;
  auto O = FMO::createFeatureMemberOffset(U);
  C.require(O.has_value() && !(*O == *M) && *O != *M, "member-inequality");
}

// location lists under any history
PROP(location_lists, 12000, 300000) {
  std::vector<Loc> W;
  std::vector<FSR> Init;
  for (int64_t N = C.range(0, 3); N > 0; --N) {
    W.push_back(small(C));
    Init.push_back(toFSR(W.back()));
  }
  std::unique_ptr<vf::Feature> F;
  if (C.flip()) {
    F = std::make_unique<vf::BinaryFeature>("f", false, Init);
  } else {
    F = std::make_unique<vf::NumericFeature>("f", std::vector<int64_t>{1}, false, Init);
  }
  std::string Key;
  for (int64_t N = C.tailed(1, 20, 200, 100); N > 0; --N) {
    // often a location that is there
    Loc L = !W.empty() && C.flip() ? W[C.draw(W.size() - 1)] : small(C);
    if (C.chance(1, 4)) {
      L = tweak(C, L);
    }
    auto It = std::find(W.begin(), W.end(), L);
    switch (C.draw(2)) {
    case 0:
      C.describe("add " + L.str());
      F->addLocation(toFSR(L));
      W.push_back(L);
      break;
    case 1: {
      C.describe("remove " + L.str());
      auto R = F->removeLocation(toFSR(L));
      size_t Pos = static_cast<size_t>(R - F->getLocationsBegin());
      if (It != W.end()) {
        It = W.erase(It);
      } else {
        C.tag("remove-absent");
      }
      C.eq(Pos, static_cast<size_t>(It - W.begin()), "remove-position");
      break;
    }
    default: {
      Loc L2 = small(C);
      C.describe("update " + L.str() + " -> " + L2.str());
      C.eq(F->updateLocation(toFSR(L), toFSR(L2)), It != W.end(), "update-result");
      if (It != W.end()) {
        *It = L2;
      } else {
        C.tag("update-absent");
      }
    }
    }
    Key += std::to_string(W.size()) + L.str();
    std::string A, B;
    for (auto &X : W) {
      A += X.str() + "; ";
    }
    for (auto &X : F->getLocations()) {
      B += fromFSR(X).str() + "; ";
    }
    C.eq(B, A, "location-list");
    C.eq(F->hasLocations(), !W.empty(), "has-locations");
  }
  C.nontrivial(Key);
}
