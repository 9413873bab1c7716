#include "pbt.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <limits>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:handle_abort=0:symbolize=0:"
         "allocator_may_return_null=1:max_allocation_size_mb=2000:"
         "hard_rss_limit_mb=3500:detect_stack_use_after_return=0:"
         "malloc_context_size=4:handle_segv=1:print_legend=0";
}
extern "C" const char *__ubsan_default_options() {
  return "halt_on_error=1:abort_on_error=1:print_stacktrace=0:symbolize=0";
}
#endif

namespace pbt {

std::vector<Prop> &props() {
  static std::vector<Prop> P;
  return P;
}
std::vector<Known> &knowns() {
  static std::vector<Known> P;
  return P;
}

uint64_t hashStr(const std::string &S) {
  uint64_t H = 1469598103934665603ULL;
  for (unsigned char C : S) {
    H = (H ^ C) * 1099511628211ULL;
  }
  H ^= H >> 29;
  H *= 0xbf58476d1ce4e5b9ULL;
  return H ^ (H >> 32);
}

std::string quote(const std::string &S) {
  std::string R = "\"";
  char B[8];
  for (unsigned char C : S) {
    if (C == '"' || C == '\\') {
      R += '\\';
      R += static_cast<char>(C);
    } else if (C == '\n') {
      R += "\\n";
    } else if (C < 32 || C >= 127) {
      snprintf(B, sizeof B, "\\x%02x", C);
      R += B;
    } else {
      R += static_cast<char>(C);
    }
  }
  return R + "\"";
}

static uint64_t splitmix(uint64_t &S) {
  uint64_t Z = (S += 0x9e3779b97f4a7c15ULL);
  Z = (Z ^ (Z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  Z = (Z ^ (Z >> 27)) * 0x94d049bb133111ebULL;
  return Z ^ (Z >> 31);
}

// ---- shared memory ---------------------------------------------------------
static constexpr size_t MaxChoices = 1 << 15;
struct Shared {
  volatile uint64_t Index;   // case index in flight
  volatile uint64_t InCase;  // 1 while the property runs
  volatile uint64_t NumChoices;
  volatile uint64_t TimedOut;
  uint64_t Choices[MaxChoices];
  char Kind[256];
  char Msg[8192];
  char Note[2048];
  char Desc[1 << 16];
};
static Shared *Sh = nullptr;
static bool ShowDesc = false;

static void putStr(char *Dst, size_t N, const std::string &S) {
  size_t L = std::min(N - 1, S.size());
  memcpy(Dst, S.data(), L);
  Dst[L] = 0;
}

static constexpr size_t CovSize = 1 << 16;
static uint8_t CovMap[CovSize];
static bool CovOn = false;

// ---- Case ------------------------------------------------------------------
uint64_t Case::rnd() {
  uint64_t S0 = Rng[0], S1 = Rng[1], R = S0 + S1;
  S1 ^= S0;
  Rng[0] = ((S0 << 24) | (S0 >> 40)) ^ S1 ^ (S1 << 16);
  Rng[1] = (S1 << 37) | (S1 >> 27);
  return R;
}

uint64_t Case::draw(uint64_t Max) {
  if (Pos >= MaxChoices) {
    throw Discard{};
  }
  uint64_t V = 0;
  if (M == Mode::REPLAY) {
    V = Pos < Input.size() ? Input[Pos] : 0;
    if (V > Max) {
      V = Max;
    }
  } else if (Max == UINT64_MAX) {
    V = rnd();
  } else {
    V = static_cast<uint64_t>((static_cast<unsigned __int128>(rnd()) *
                               (static_cast<unsigned __int128>(Max) + 1)) >>
                              64);
  }
  Sh->Choices[Pos] = V;
  ++Pos;
  Sh->NumChoices = Pos;
  return V;
}

int64_t Case::int64() {
  static const int64_t Special[] = {0,
                                    1,
                                    -1,
                                    2,
                                    INT64_MAX,
                                    INT64_MIN,
                                    INT64_MAX - 1,
                                    INT64_MIN + 1,
                                    INT32_MAX,
                                    INT32_MIN,
                                    static_cast<int64_t>(INT32_MAX) + 1,
                                    static_cast<int64_t>(INT32_MIN) - 1,
                                    static_cast<int64_t>(UINT32_MAX),
                                    static_cast<int64_t>(UINT32_MAX) + 1,
                                    10,
                                    100};
  switch (weighted({6, 3, 2, 2})) {
  case 0:
    return range(0, 20);
  case 1:
    return -range(0, 20);
  case 2:
    return Special[draw(sizeof(Special) / sizeof(Special[0]) - 1)];
  default: {
    unsigned Bits = static_cast<unsigned>(range(1, 64));
    uint64_t V = draw(Bits == 64 ? UINT64_MAX : ((1ULL << Bits) - 1));
    return static_cast<int64_t>(flip() ? 0 - V : V);
  }
  }
}

size_t Case::weighted(std::initializer_list<unsigned> W) {
  uint64_t Sum = 0;
  for (auto X : W) {
    Sum += X;
  }
  uint64_t V = draw(Sum - 1);
  size_t I = 0;
  for (auto X : W) {
    if (V < X) {
      return I;
    }
    V -= X;
    ++I;
  }
  return W.size() - 1;
}

std::vector<size_t> Case::permutation(size_t N) {
  std::vector<size_t> P(N);
  for (size_t I = 0; I < N; ++I) {
    P[I] = I;
  }
  for (size_t I = 0; I + 1 < N; ++I) {
    std::swap(P[I], P[I + draw(N - 1 - I)]);
  }
  return P;
}

int64_t Case::sized(int64_t Lo, int64_t Hi) {
  int64_t Top = Lo + (Hi - Lo) * static_cast<int64_t>(Size) / 100;
  if (Top < Lo + 1 && Hi > Lo) {
    Top = Lo + 1;
  }
  return range(Lo, std::min(Top, Hi));
}

void Case::nontrivial(const std::string &K) {
  NonTrivial = true;
  Key = hashStr(K);
}

// written through, so that crashing cases are described as well
void Case::describe(const std::string &D) {
  Desc += D + "\n";
  if (ShowDesc) {
    putStr(Sh->Desc, sizeof Sh->Desc, Desc);
  }
}
void Case::note(const std::string &N) {
  strncpy(Sh->Note, N.c_str(), sizeof(Sh->Note) - 1);
  if (Verbose) {
    std::cout << "  . " << N << std::endl;
  }
}

// ---- running one case ------------------------------------------------------
static constexpr int CpuLimitS = 25;

static void onProf(int) {
  Sh->TimedOut = 1;
  _exit(77);
}

struct Outcome {
  bool Failed = false, Discarded = false;
  std::string Kind, Msg;
};

static Outcome runCase(Case &C, const PropFn &Fn) {
  Outcome O;
  Sh->NumChoices = 0;
  Sh->Note[0] = 0;
  struct itimerval IT {};
  IT.it_value.tv_sec = CpuLimitS;
  setitimer(ITIMER_PROF, &IT, nullptr);
  Sh->InCase = 1;
  try {
    Fn(C);
  } catch (Failure &F) {
    O = {true, false, F.Kind, F.Msg};
  } catch (Discard &) {
    O.Discarded = true;
  } catch (std::exception &E) {
    O = {true, false, "uncaught-exception", E.what()};
  } catch (...) {
    O = {true, false, "uncaught-exception", "unknown exception"};
  }
  Sh->InCase = 0;
  IT.it_value.tv_sec = 0;
  setitimer(ITIMER_PROF, &IT, nullptr);
  return O;
}

static void seedCase(Case &C, uint64_t Seed, const std::string &Prop,
                     uint64_t Index) {
  uint64_t S = Seed * 0x9e3779b97f4a7c15ULL ^ hashStr(Prop) ^
               (Index * 0xd1342543de82ef95ULL);
  C.Rng[0] = splitmix(S);
  C.Rng[1] = splitmix(S) | 1;
}


static std::string slurp(int Fd) {
  std::string R;
  char B[4096];
  lseek(Fd, 0, SEEK_SET);
  ssize_t N;
  while ((N = read(Fd, B, sizeof B)) > 0 && R.size() < (1 << 18)) {
    R.append(B, static_cast<size_t>(N));
  }
  return R;
}

// Turns what a dead worker left on stderr into a stable kind + message.
static void classifyCrash(int Status, const std::string &Err, std::string &Kind,
                          std::string &Msg) {
  auto Line = [&](size_t P) {
    size_t B = Err.rfind('\n', P), E = Err.find('\n', P);
    B = B == std::string::npos ? 0 : B + 1;
    return Err.substr(B, E == std::string::npos ? E : E - B);
  };
  size_t P;
  if (Sh->TimedOut) {
    Kind = "does-not-terminate";
    Msg = "case used more than " + std::to_string(CpuLimitS) + " CPU seconds";
  } else if ((P = Err.find("Assertion `")) != std::string::npos) {
    Kind = "assertion";
    Msg = Line(P);
    size_t Q = Err.find('\'', P + 11);
    Kind += ":" + Err.substr(P + 11, std::min<size_t>(80, Q - P - 11));
  } else if ((P = Err.find("runtime error:")) != std::string::npos) {
    Msg = Line(P);
    Kind = "ubsan:" + Msg.substr(0, Msg.find(" runtime error"));
  } else if ((P = Err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
    Msg = Line(P);
    std::string T = Err.substr(P + 25, 60);
    Kind = "asan:" + T.substr(0, T.find_first_of(" \n"));
  } else if ((P = Err.find("terminate called")) != std::string::npos) {
    Kind = "terminate";
    Msg = Err.substr(P, 300);
  } else if (Err.find("hard rss limit") != std::string::npos) {
    Kind = "memory-exhaustion";
    Msg = "case exceeded the memory limit";
  } else if (WIFSIGNALED(Status)) {
    Kind = "signal:" + std::to_string(WTERMSIG(Status));
    Msg = Err.substr(0, 400);
  } else {
    Kind = "exit:" + std::to_string(WEXITSTATUS(Status));
    Msg = Err.substr(0, 400);
  }
  if (Sh->Note[0]) {
    Msg += std::string(" [while: ") + Sh->Note + "]";
  }
}

static int ErrFd = -1; // scratch stderr of workers

static void enterWorker() {
  if (ErrFd >= 0) {
    (void)!ftruncate(ErrFd, 0);
    lseek(ErrFd, 0, SEEK_SET);
    dup2(ErrFd, 2);
  }
  // what the code under test prints is not part of our protocol
  int Nul = open("/dev/null", O_WRONLY);
  dup2(Nul, 1);
  close(Nul);
  struct sigaction SA {};
  SA.sa_handler = onProf;
  sigaction(SIGPROF, &SA, nullptr);
  struct rlimit RL {0, 0};
  setrlimit(RLIMIT_CORE, &RL);
  alarm(200); // wall-clock backstop of a stuck worker (inconclusive, see below)
}

// Runs one choice sequence in a fresh forked process.
static Outcome runForked(const Prop &P, const std::vector<uint64_t> &Input,
                         unsigned Size, bool Describe = false,
                         std::vector<uint64_t> *Used = nullptr,
                         std::string *ErrOut = nullptr) {
  Sh->TimedOut = 0;
  Sh->Kind[0] = Sh->Msg[0] = Sh->Desc[0] = Sh->Note[0] = 0;
  Sh->NumChoices = 0;
  std::cout.flush();
  pid_t Pid = fork();
  if (Pid == 0) {
    enterWorker();
    alarm(60);
    ShowDesc = true;
    Case C;
    C.M = Case::Mode::REPLAY;
    C.Input = Input;
    C.Size = Size;
    Outcome O = runCase(C, P.Fn);
    putStr(Sh->Desc, sizeof Sh->Desc, C.Desc);
    putStr(Sh->Kind, sizeof Sh->Kind, O.Kind);
    putStr(Sh->Msg, sizeof Sh->Msg, O.Msg);
    _exit(O.Failed ? 11 : O.Discarded ? 12 : 0);
  }
  int St = 0;
  waitpid(Pid, &St, 0);
  Outcome O;
  if (WIFEXITED(St) && WEXITSTATUS(St) == 0) {
  } else if (WIFEXITED(St) && WEXITSTATUS(St) == 12) {
    O.Discarded = true;
  } else if (WIFEXITED(St) && WEXITSTATUS(St) == 11) {
    O.Failed = true;
    O.Kind = Sh->Kind;
    O.Msg = Sh->Msg;
  } else if (WIFSIGNALED(St) && WTERMSIG(St) == SIGALRM) {
    // wall clock: inconclusive
  } else {
    O.Failed = true;
    std::string E = slurp(ErrFd);
    classifyCrash(St, E, O.Kind, O.Msg);
    if (ErrOut) {
      *ErrOut = E;
    }
  }
  if (Used) {
    Used->assign(Sh->Choices, Sh->Choices + Sh->NumChoices);
  }
  return O;
}

// ---- shrinking -------------------------------------------------------------
// Wall-clock limits: a campaign ends at CampaignEnd, all shrinking of a shard
// together takes at most ShrinkLeft seconds.
static time_t CampaignEnd = std::numeric_limits<time_t>::max();
static time_t ShrinkLeft = 120;
static bool Hung = false; // a case does not terminate: end this shard

static std::vector<uint64_t> shrink(const Prop &P, std::vector<uint64_t> Best,
                                    unsigned Size, const std::string &Kind) {
  unsigned Budget = Kind == "does-not-terminate" ? 12 : 1500;
  auto T0 = time(nullptr);
  std::set<uint64_t> Seen;
  auto Better = [](const std::vector<uint64_t> &A,
                   const std::vector<uint64_t> &B) {
    return A.size() != B.size() ? A.size() < B.size() : A < B;
  };
  auto Try = [&](std::vector<uint64_t> Cand) {
    while (!Cand.empty() && Cand.back() == 0) {
      Cand.pop_back();
    }
    if (Budget == 0 || time(nullptr) - T0 > std::min<time_t>(60, ShrinkLeft) || !Better(Cand, Best)) {
      return false;
    }
    uint64_t H = 7;
    for (auto V : Cand) {
      H = (H ^ V) * 1099511628211ULL + 1;
    }
    if (!Seen.insert(H).second) {
      return false;
    }
    --Budget;
    std::vector<uint64_t> Used;
    Outcome O = runForked(P, Cand, Size, false, &Used);
    if (O.Failed && O.Kind == Kind) {
      while (!Used.empty() && Used.back() == 0) {
        Used.pop_back();
      }
      Best = Better(Used, Cand) ? Used : Cand;
      return true;
    }
    return false;
  };
  Try(Best);
  bool Progress = true;
  while (Progress && Budget > 0 && time(nullptr) - T0 < 90) {
    Progress = false;
    for (size_t Len : {64UL, 32UL, 16UL, 8UL, 4UL, 3UL, 2UL, 1UL}) {
      for (size_t I = 0; I + Len <= Best.size();) {
        auto Cand = Best;
        Cand.erase(Cand.begin() + static_cast<long>(I),
                   Cand.begin() + static_cast<long>(I + Len));
        if (Try(Cand)) {
          Progress = true;
          continue;
        }
        // deletion together with decrementing an earlier counter
        if (I > 0 && Best[I - 1] > 0 && Len <= 8) {
          Cand[I - 1]--;
          if (Try(Cand)) {
            Progress = true;
            continue;
          }
        }
        ++I;
      }
    }
    for (size_t Len : {8UL, 4UL, 2UL}) {
      for (size_t I = 0; I + Len <= Best.size(); ++I) {
        auto Cand = Best;
        std::fill(Cand.begin() + static_cast<long>(I),
                  Cand.begin() + static_cast<long>(I + Len), 0);
        Progress |= Try(Cand);
      }
    }
    for (size_t I = 0; I < Best.size(); ++I) {
      if (Best[I] == 0) {
        continue;
      }
      auto Cand = Best;
      Cand[I] = 0;
      if (Try(Cand)) {
        Progress = true;
        continue;
      }
      uint64_t Lo = 0;
      while (I < Best.size() && Lo + 1 < Best[I]) {
        uint64_t Mid = Lo + (Best[I] - Lo) / 2;
        Cand = Best;
        Cand[I] = Mid;
        if (Try(Cand)) {
          Progress = true;
        } else {
          Lo = Mid;
        }
      }
      if (I < Best.size() && Best[I] > 0) {
        Cand = Best;
        Cand[I]--;
        Progress |= Try(Cand);
      }
    }
  }
  return Best;
}

// ---- JSON output -----------------------------------------------------------
static std::string js(const std::string &S) {
  std::string R = "\"";
  char B[8];
  for (unsigned char C : S) {
    if (C == '"' || C == '\\') {
      R += '\\';
      R += static_cast<char>(C);
    } else if (C == '\n') {
      R += "\\n";
    } else if (C == '\t') {
      R += "\\t";
    } else if (C < 32 || C >= 127) {
      snprintf(B, sizeof B, "\\u%04x", C);
      R += B;
    } else {
      R += static_cast<char>(C);
    }
  }
  return R + "\"";
}

static std::string choicesStr(const std::vector<uint64_t> &V) {
  std::string R = "[";
  for (size_t I = 0; I < V.size(); ++I) {
    R += (I ? "," : "") + std::to_string(V[I]);
  }
  return R + "]";
}

// ---- campaign --------------------------------------------------------------
struct Stats {
  uint64_t Evals = 0, Discards = 0, NonTrivial = 0;
  std::map<std::string, uint64_t> Tags;
};

// Worker -> parent: a line oriented pipe, one line per finished case.
static void campaign(const Prop &P, uint64_t Seed, unsigned Shard,
                     unsigned NShards, uint64_t Count, bool Feedback,
                     unsigned MaxFailures) {
  Stats S;
  std::unordered_set<uint64_t> Keys;
  std::vector<std::string> Samples;
  std::map<std::string, unsigned> FailKinds;
  unsigned Failures = 0, Inconclusive = 0;
  uint64_t Next = Shard;
  while (Next < Count && Failures < MaxFailures && time(nullptr) < CampaignEnd) {
    int Pipe[2];
    (void)!pipe(Pipe);
    Sh->TimedOut = 0;
    Sh->InCase = 0;
    Sh->Kind[0] = Sh->Msg[0] = 0;
    std::cout.flush();
    pid_t Pid = fork();
    if (Pid == 0) {
      close(Pipe[0]);
      enterWorker();
      FILE *Out = fdopen(Pipe[1], "w");
      std::vector<std::vector<uint64_t>> Corpus;
      std::vector<uint8_t> Seen(CovSize, 0);
      uint64_t FbRng = Seed ^ hashStr(P.Name) ^ (Next * 77);
      for (uint64_t I = Next; I < Count && time(nullptr) < CampaignEnd; I += NShards) {
        Sh->Index = I;
        alarm(200);
        if (lseek(2, 0, SEEK_CUR) > 0) {
          (void)!ftruncate(2, 0);
          lseek(2, 0, SEEK_SET);
        }
        Case C;
        seedCase(C, Seed, P.Name, I);
        // sizes ramp up over the first half of the campaign
        C.Size = static_cast<unsigned>(
            std::min<uint64_t>(100, 5 + I * 190 / std::max<uint64_t>(1, Count)));
        if (Feedback && !Corpus.empty() && splitmix(FbRng) % 3 != 0) {
          // mutate a corpus entry
          C.M = Case::Mode::REPLAY;
          C.Input = Corpus[splitmix(FbRng) % Corpus.size()];
          unsigned N = 1 + splitmix(FbRng) % 4;
          for (unsigned K = 0; K < N && !C.Input.empty(); ++K) {
            size_t At = splitmix(FbRng) % C.Input.size();
            switch (splitmix(FbRng) % 6) {
            case 0:
              C.Input[At] = splitmix(FbRng) % 8;
              break;
            case 1:
              C.Input[At] ^= 1ULL << (splitmix(FbRng) % 7);
              break;
            case 2:
              C.Input[At] = splitmix(FbRng) >> (splitmix(FbRng) % 64);
              break;
            case 3:
              C.Input.erase(C.Input.begin() + static_cast<long>(At));
              break;
            case 4:
              C.Input.insert(C.Input.begin() + static_cast<long>(At),
                             splitmix(FbRng) % 16);
              break;
            default: { // splice
              auto &O = Corpus[splitmix(FbRng) % Corpus.size()];
              if (!O.empty()) {
                size_t From = splitmix(FbRng) % O.size();
                size_t Len = std::min<size_t>(O.size() - From,
                                              1 + splitmix(FbRng) % 16);
                C.Input.insert(C.Input.begin() + static_cast<long>(At),
                               O.begin() + static_cast<long>(From),
                               O.begin() + static_cast<long>(From + Len));
              }
            }
            }
          }
        }
        if (Feedback) {
          memset(CovMap, 0, sizeof CovMap);
          CovOn = true;
        }
        Outcome O = runCase(C, P.Fn);
        CovOn = false;
        if (Feedback && !O.Failed) {
          bool New = false;
          for (size_t K = 0; K < CovSize; ++K) {
            if (!CovMap[K]) {
              continue;
            }
            uint8_t B = CovMap[K] == 1   ? 1
                        : CovMap[K] == 2 ? 2
                        : CovMap[K] < 6  ? 4
                        : CovMap[K] < 20 ? 8
                                         : 16;
            if (!(Seen[K] & B)) {
              Seen[K] |= B;
              New = true;
            }
          }
          if (New && Corpus.size() < 4000) {
            Corpus.emplace_back(Sh->Choices, Sh->Choices + Sh->NumChoices);
          }
        }
        if (O.Failed) {
          putStr(Sh->Kind, sizeof Sh->Kind, O.Kind);
          putStr(Sh->Msg, sizeof Sh->Msg, O.Msg);
          fflush(Out);
          _exit(11);
        }
        fprintf(Out, "c %lu %d %d %016lx", static_cast<unsigned long>(I),
                O.Discarded ? 1 : 0, C.NonTrivial ? 1 : 0,
                static_cast<unsigned long>(C.Key));
        for (auto &T : C.Tags) {
          fprintf(Out, "\t%s", T.c_str());
        }
        fputc('\n', Out);
        if (C.NonTrivial && !C.Desc.empty() &&
            (I / NShards) % std::max<uint64_t>(1, Count / NShards / 4) == 1) {
          std::string D = C.Desc.substr(0, 1500);
          fprintf(Out, "s %s\n", js(D).c_str());
        }
        if (Feedback && I + NShards >= Count) {
          fprintf(Out, "k corpus=%zu\n", Corpus.size());
        }
        fflush(Out);
      }
      fflush(Out);
      _exit(0);
    }
    close(Pipe[1]);
    FILE *In = fdopen(Pipe[0], "r");
    char *Line = nullptr;
    size_t Cap = 0;
    ssize_t N;
    while ((N = getline(&Line, &Cap, In)) > 0) {
      if (Line[0] == 's') {
        if (Samples.size() < 4) {
          Samples.emplace_back(Line + 2, static_cast<size_t>(N - 3));
        }
        continue;
      }
      if (Line[0] == 'k') {
        S.Tags["coverage-guided:" + std::string(Line + 2, static_cast<size_t>(N - 3))]++;
        continue;
      }
      unsigned long I, K;
      int Dis, NT, Off = 0;
      if (sscanf(Line, "c %lu %d %d %lx%n", &I, &Dis, &NT, &K, &Off) != 4) {
        continue;
      }
      Next = I + NShards;
      ++S.Evals;
      S.Discards += static_cast<uint64_t>(Dis);
      if (NT) {
        ++S.NonTrivial;
        Keys.insert(K);
      }
      char *T = Line + Off, *Tok;
      while ((Tok = strsep(&T, "\t\n"))) {
        if (*Tok) {
          S.Tags[Tok]++;
        }
      }
    }
    free(Line);
    fclose(In);
    int St = 0;
    waitpid(Pid, &St, 0);
    if (WIFEXITED(St) && WEXITSTATUS(St) == 0) {
      break;
    }
    // The case Sh->Index failed.
    Next = Sh->Index + NShards;
    ++S.Evals;
    if (WIFSIGNALED(St) && WTERMSIG(St) == SIGALRM) {
      ++Inconclusive;
      continue;
    }
    Outcome O;
    O.Failed = true;
    if (WIFEXITED(St) && WEXITSTATUS(St) == 11) {
      O.Kind = Sh->Kind;
      O.Msg = Sh->Msg;
    } else {
      classifyCrash(St, slurp(ErrFd), O.Kind, O.Msg);
    }
    std::vector<uint64_t> Ch(Sh->Choices, Sh->Choices + Sh->NumChoices);
    unsigned Size = static_cast<unsigned>(std::min<uint64_t>(
        100, 5 + Sh->Index * 190 / std::max<uint64_t>(1, Count)));
    uint64_t FailIndex = Sh->Index;
    ++Failures;
    if (FailKinds[O.Kind]++ > 0) {
      continue; // one shrunk example per kind and shard is enough
    }
    // Is it reproducible from the recorded choices?
    Outcome R = runForked(P, Ch, Size);
    if (!R.Failed) {
      std::cout << "{\"type\":\"flaky\",\"prop\":" << js(P.Name)
                << ",\"index\":" << FailIndex << ",\"kind\":" << js(O.Kind)
                << ",\"msg\":" << js(O.Msg) << ",\"size\":" << Size
                << ",\"choices\":" << choicesStr(Ch) << "}" << std::endl;
      continue;
    }
    auto ShrinkStart = time(nullptr);
    auto Min = shrink(P, Ch, Size, R.Kind);
    ShrinkLeft = std::max<time_t>(0, ShrinkLeft - (time(nullptr) - ShrinkStart));
    unsigned Repro = 0;
    Outcome F;
    // a case that does not terminate is confirmed once more only: it takes long
    bool Hangs = R.Kind == "does-not-terminate";
    auto Confirm = [&] {
      Repro = 0;
      for (int K = 0; K < 3; K += Hangs ? 3 : 1) {
        Outcome X = runForked(P, Min, Size);
        if (X.Failed) {
          Repro += Hangs ? 3 : 1;
          F = X;
        }
      }
    };
    Confirm();
    if (Repro < 3) {
      Min = Ch;
      Confirm();
    }
    // the verdict is clear: look for other kinds of failures a little longer
    if (Repro >= 3) {
      CampaignEnd = std::min<time_t>(CampaignEnd, time(nullptr) + (Hangs ? 0 : 60));
      Hung |= Hangs;
    }
    std::cout << "{\"type\":\"failure\",\"prop\":" << js(P.Name)
              << ",\"index\":" << FailIndex << ",\"kind\":" << js(F.Kind)
              << ",\"msg\":" << js(F.Msg) << ",\"size\":" << Size
              << ",\"repro\":" << Repro << ",\"desc\":" << js(Sh->Desc)
              << ",\"choices\":" << choicesStr(Min) << "}" << std::endl;
  }
  std::cout << "{\"type\":\"stats\",\"prop\":" << js(P.Name)
            << ",\"evals\":" << S.Evals << ",\"discards\":" << S.Discards
            << ",\"nontrivial\":" << S.NonTrivial
            << ",\"failures\":" << Failures
            << ",\"inconclusive\":" << Inconclusive << ",\"tags\":{";
  bool First = true;
  for (auto &[T, N] : S.Tags) {
    std::cout << (First ? "" : ",") << js(T) << ":" << N;
    First = false;
  }
  std::cout << "},\"samples\":[";
  for (size_t I = 0; I < Samples.size(); ++I) {
    std::cout << (I ? "," : "") << Samples[I];
  }
  std::cout << "],\"keys\":[";
  First = true;
  for (auto K : Keys) {
    std::cout << (First ? "" : ",") << "\"" << std::hex << K << std::dec << "\"";
    First = false;
  }
  std::cout << "]}" << std::endl;
}

static int mainImpl(int Argc, char **Argv) {
  Sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared),
                                  PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::map<std::string, std::string> A;
  for (int I = 1; I + 1 < Argc; I += 2) {
    A[Argv[I]] = Argv[I + 1];
  }
  {
    char T[] = "/tmp/pbt-err-XXXXXX";
    ErrFd = mkostemp(T, O_APPEND);
    unlink(T);
  }
  auto Num = [&](const char *K, uint64_t D) {
    return A.count(K) ? strtoull(A[K].c_str(), nullptr, 10) : D;
  };
  if (A.count("--list")) {
    for (auto &P : props()) {
      std::cout << P.Name << " " << P.Quick << " " << P.Thorough << "\n";
    }
    return 0;
  }
  if (A.count("--known")) { // run the pinned known findings
    for (auto &K : knowns()) {
      Prop P{K.Id, K.Fn, 0, 0};
      Outcome O = runForked(P, {}, 50);
      std::cout << "{\"type\":\"known\",\"id\":" << js(K.Id)
                << ",\"fails\":" << (O.Failed ? "true" : "false")
                << ",\"kind\":" << js(O.Kind) << ",\"msg\":" << js(O.Msg) << "}"
                << std::endl;
    }
    return 0;
  }
  if (A.count("--replay")) {
    // file: line 1 prop, line 2 size, line 3 choices separated by blanks
    std::ifstream F(A["--replay"]);
    std::string Name, L, W;
    std::vector<uint64_t> Ch;
    unsigned Size = 50;
    while (std::getline(F, L)) {
      std::istringstream I(L);
      I >> W;
      if (W == "prop") {
        I >> Name;
      } else if (W == "size") {
        I >> Size;
      } else if (W == "choices") {
        uint64_t V;
        while (I >> V) {
          Ch.push_back(V);
        }
      }
    }
    for (auto &P : props()) {
      if (P.Name == Name) {
        std::string Err;
        Outcome O = runForked(P, Ch, Size, true, nullptr, &Err);
        std::cout << Sh->Desc << "\n";
        if (O.Failed) {
          std::cout << "FAILED " << O.Kind << ": " << O.Msg << "\n" << Err;
          return 1;
        }
        std::cout << (O.Discarded ? "DISCARDED\n" : "PASSED\n");
        return 0;
      }
    }
    std::cout << "no such property\n";
    return 2;
  }
  uint64_t Seed = Num("--seed", 1);
  auto Shard = static_cast<unsigned>(Num("--shard", 0));
  auto NShards = static_cast<unsigned>(Num("--shards", 1));
  bool Thorough = A["--tier"] == "thorough";
  double Scale = A.count("--scale") ? atof(A["--scale"].c_str()) : 1.0;
  // the time that is left is shared evenly by the campaigns that are left
  bool Guided = Thorough && !A.count("--count");
  time_t End = time(nullptr) + static_cast<time_t>(Num("--budget", 100000));
  size_t Left = 0;
  for (auto &P : props()) {
    Left += !A.count("--prop") || A["--prop"] == P.Name ? (Guided ? 2 : 1) : 0;
  }
  auto Share = [&] {
    time_t Now = time(nullptr);
    CampaignEnd = Now + std::max<time_t>(1, (End - Now) / static_cast<time_t>(Left--));
  };
  for (auto &P : props()) {
    if (Hung || (A.count("--prop") && A["--prop"] != P.Name)) {
      continue;
    }
    auto Count = static_cast<uint64_t>((Thorough ? P.Thorough : P.Quick) * Scale);
    if (A.count("--count")) {
      Count = Num("--count", 0);
    }
    Share();
    campaign(P, Seed, Shard, NShards, std::max<uint64_t>(1, Count), false, 6);
    if (Guided && !Hung) {
      Share();
      // coverage-guided phase over the same generators
      Prop G = P;
      campaign(G, Seed ^ 0x5bd1e995, Shard, NShards, Count / 2, true, 6);
    }
  }
  return 0;
}

} // namespace pbt

// Coverage feedback of the code under test (gcc -fsanitize-coverage=trace-pc).
extern "C" __attribute__((no_sanitize("address"), no_sanitize("undefined"))) void
__sanitizer_cov_trace_pc() {
  if (!pbt::CovOn) {
    return;
  }
  auto Pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0));
  uint8_t &B = pbt::CovMap[(Pc ^ (Pc >> 16)) & (pbt::CovSize - 1)];
  if (B != 255) {
    ++B;
  }
}

int main(int Argc, char **Argv) {
  // Same addresses in every run: iteration over pointer-keyed containers is
  // then a function of the case.
  int Pers = personality(0xffffffff);
  if (Pers != -1 && !(Pers & ADDR_NO_RANDOMIZE) && !getenv("PBT_NOASLR")) {
    setenv("PBT_NOASLR", "1", 1);
    if (personality(static_cast<unsigned long>(Pers) | ADDR_NO_RANDOMIZE) != -1) {
      execv("/proc/self/exe", Argv);
    }
  }
  return pbt::mainImpl(Argc, Argv);
}
