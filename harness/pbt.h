// A small property-based testing engine (choice-sequence based, in the style
// of Hypothesis): every random decision of a case is one entry of a recorded
// sequence of bounded integers.  A case is replayed, mutated and shrunk by
// editing that sequence; 0 is always the simplest choice.  Cases run in forked
// workers, so crashes, sanitizer reports, failed assertions and non-terminating
// cases are failures that are recorded, shrunk and replayed like any other.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Failure {
  std::string Kind; // stable class of the failure, used while shrinking
  std::string Msg;
};
struct Discard {};

class Case {
public:
  // Uniform in [0, MaxIncl]
  uint64_t draw(uint64_t MaxIncl);
  // [Lo, Hi], simplest Lo
  int64_t range(int64_t Lo, int64_t Hi) {
    return Lo + static_cast<int64_t>(
                    draw(static_cast<uint64_t>(Hi) - static_cast<uint64_t>(Lo)));
  }
  // true with probability Num/Den, simplest false
  bool chance(unsigned Num, unsigned Den) { return draw(Den - 1) >= Den - Num; }
  bool flip() { return draw(1) != 0; }
  // An arbitrary 64-bit value biased towards boundaries.
  int64_t int64();
  template <typename T> const T &pick(const std::vector<T> &V) {
    return V[draw(V.size() - 1)];
  }
  template <typename T> const T &pick(std::initializer_list<T> V) {
    return *(V.begin() + draw(V.size() - 1));
  }
  // weighted index
  size_t weighted(std::initializer_list<unsigned> W);
  // a random permutation of 0..N-1 (identity is simplest)
  std::vector<size_t> permutation(size_t N);
  // 0..100, grows over a campaign
  unsigned size() const { return Size; }
  // number in [Lo, Hi] where the reachable maximum grows with size
  int64_t sized(int64_t Lo, int64_t Hi);
  // as sized, but one in Den times beyond Hi, up to Big
  int64_t tailed(int64_t Lo, int64_t Hi, int64_t Big, unsigned Den = 40) {
    return chance(1, Den) ? range(Hi, Big) : sized(Lo, Hi);
  }

  [[noreturn]] void fail(const std::string &Kind, const std::string &Msg) {
    throw Failure{Kind, Msg};
  }
  void require(bool Cond, const char *Kind, const std::string &Msg = "") {
    if (!Cond) {
      throw Failure{Kind, Msg};
    }
  }
  template <typename F>
  void requireF(bool Cond, const char *Kind, F &&MsgFn) {
    if (!Cond) {
      throw Failure{Kind, MsgFn()};
    }
  }
  template <typename A, typename B>
  void eq(const A &Actual, const B &Expected, const char *Kind,
          const std::string &Ctx = "") {
    if (!(Actual == Expected)) {
      std::ostringstream O;
      O << "expected <" << Expected << "> got <" << Actual << "> " << Ctx;
      throw Failure{Kind, O.str()};
    }
  }
  [[noreturn]] void discard() { throw Discard{}; }
  void tag(const std::string &T) { Tags.insert(T); }
  // Marks the case as non-trivial; Key identifies it for distinct counting.
  void nontrivial(const std::string &Key);
  void describe(const std::string &D);
  // Progress marker kept in shared memory: survives a crash.
  void note(const std::string &N);
  // A case of a listed known finding: counted, never a violation.
  void excluded(const std::string &Finding) { Tags.insert("excluded:" + Finding); }

  // engine internals
  enum class Mode { RANDOM, REPLAY };
  Mode M = Mode::RANDOM;
  uint64_t Rng[2] = {};
  std::vector<uint64_t> Input; // replay input
  size_t Pos = 0;
  unsigned Size = 50;
  std::set<std::string> Tags;
  std::string Desc;
  bool NonTrivial = false;
  uint64_t Key = 0;
  bool Verbose = false;
  uint64_t rnd();
};

using PropFn = std::function<void(Case &)>;

struct Prop {
  std::string Name;
  PropFn Fn;
  unsigned Quick, Thorough; // number of cases per tier
};

std::vector<Prop> &props();

struct Register {
  Register(const char *Name, unsigned Quick, unsigned Thorough, PropFn Fn) {
    props().push_back({Name, std::move(Fn), Quick, Thorough});
  }
};

// A listed known finding: a pinned input. Fn must throw/crash while the defect
// is present.
struct Known {
  std::string Id;
  std::function<void(Case &)> Fn;
};
std::vector<Known> &knowns();
struct RegisterKnown {
  RegisterKnown(const char *Id, std::function<void(Case &)> Fn) {
    knowns().push_back({Id, std::move(Fn)});
  }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROP(name, quick cases, thorough cases) { body using C }
#define PROP(NAME, QUICK, THOROUGH)                                            \
  static void prop_##NAME(pbt::Case &C);                                       \
  static pbt::Register reg_##NAME(#NAME, QUICK, THOROUGH, prop_##NAME);        \
  static void prop_##NAME(pbt::Case &C)
#define KNOWN(NAME)                                                            \
  static void known_##NAME(pbt::Case &C);                                      \
  static pbt::RegisterKnown regk_##NAME(#NAME, known_##NAME);                  \
  static void known_##NAME(pbt::Case &C)

uint64_t hashStr(const std::string &S);
std::string quote(const std::string &S); // printable, C-escaped

} // namespace pbt

#endif
