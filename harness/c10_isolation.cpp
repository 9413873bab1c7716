// C10: transactions are isolated until they are committed.
#include "history.h"
#include "pbt.h"

using namespace hist;

static void same(pbt::Case &C, const Model &Sim, vf::FeatureModel &FM, const char *Kind,
                 const std::string &Ctx) {
  requireInvariants(C, FM, Ctx);
  auto D = diff(Sim, fromFM(FM));
  C.require(D.empty(), Kind, D + " (" + Ctx + ")");
}

// several open copies of one model, edited in any interleaving with each other
// and with edits of the original itself
PROP(copies, 2000, 50000) {
  auto H = defaults();
  Model Sim = genModel(C, H.G);
  C.describe(Sim.str());
  std::string Desc = Sim.str();
  auto FM = toFM(Sim);
  using CT = vf::FeatureModelCopyTransaction;
  struct Open {
    std::unique_ptr<CT> T;
    Model S;
    Ptrs P;
    Objs O;
    int State = 0; // 0 open 1 committed 2 aborted
    size_t Edits = 0;
  };
  std::vector<std::unique_ptr<Open>> Ts;
  struct Guard {
    std::vector<std::unique_ptr<Open>> &Ts;
    ~Guard() {
      for (auto &X : Ts) {
        X->T->abort();
      }
    }
  } G{Ts};
  std::vector<std::pair<Model, std::unique_ptr<vf::FeatureModel>>> Done;
  std::vector<std::string> Extra;
  auto All = [&](const std::string &Ctx) {
    if (FM) {
      same(C, Sim, *FM, "original-changed", Ctx);
    }
    for (auto &D : Done) {
      same(C, D.first, *D.second, "committed-changed", Ctx);
    }
  };
  auto End = [&](Open &X, bool Commit) {
    if (Commit) {
      auto R = X.T->commit();
      if (X.State == 0) {
        C.require(static_cast<bool>(R), "commit-refused");
        auto New = R.extractValue();
        C.require(New && New.get() != FM.get(), "no-new-model");
        same(C, X.S, *New, "wrong-copy", "commit");
        Done.emplace_back(X.S, std::move(New));
        X.State = 1;
      } else {
        C.require(!R, "second-commit", "a finished transaction was committed again");
        C.require(R.getError() == vf::ABORTED, "error-code");
        C.tag("commit-after-end");
      }
    } else {
      X.T->abort();
      if (X.State == 0) {
        X.State = 2;
      }
    }
  };
  size_t Edits = 0;
  for (int64_t N = C.tailed(3, 25, 150, 60); N > 0; --N) {
    switch (C.weighted({2, 8, 2, 1, FM ? 2U : 0U, 1, 1})) {
    case 0:
      if (Ts.size() < 4 && FM) {
        auto X = std::unique_ptr<Open>(new Open{
            std::make_unique<CT>(CT::openTransaction(*FM)), Sim, pointers(Sim, true), Objs(*FM)});
        X->P.Copy = true;
        Ts.push_back(std::move(X));
        Desc += "open\n";
        C.describe("open copy " + std::to_string(Ts.size() - 1));
      }
      break;
    case 1: {
      if (Ts.empty()) {
        break;
      }
      size_t I = C.draw(Ts.size() - 1);
      auto &X = *Ts[I];
      if (X.State != 0) {
        break;
      }
      Edit O = genOp(C, X.S, H, X.P, Extra);
      Desc += std::to_string(I) + O.str() + "\n";
      C.describe(std::to_string(I) + ": " + O.str());
      C.note(O.str());
      run(*X.T, O, X.O);
      apply(X.S, O);
      ++X.Edits;
      ++Edits;
      break;
    }
    case 2:
    case 3: {
      if (Ts.empty()) {
        break;
      }
      size_t I = C.draw(Ts.size() - 1);
      bool Commit = C.chance(3, 4);
      Desc += std::to_string(I) + (Commit ? "commit\n" : "abort\n");
      C.describe(std::to_string(I) + (Commit ? ": commit" : ": abort"));
      End(*Ts[I], Commit);
      break;
    }
    case 4: {
      // the original is edited while copies are open: by name only, and its
      // objects are no longer passed to the open copies
      auto T = vf::FeatureModelModifyTransaction::openTransaction(*FM);
      Ptrs None;
      Edit O = genOp(C, Sim, H, None, Extra);
      Desc += "original " + O.str() + "\n";
      C.describe("original: " + O.str());
      for (auto &X : Ts) {
        X->P.Feats.clear();
        X->P.Groups.clear();
      }
      run(T, O, Objs(*FM));
      bool Ok = static_cast<bool>(T.commit());
      bool Want = apply(Sim, O).empty();
      C.require(Ok == Want, "original-commit", O.str());
      break;
    }
    case 5:
      // moving an open transaction changes nothing
      if (!Ts.empty()) {
        auto &X = *C.pick(Ts);
        auto Moved = std::make_unique<CT>(std::move(*X.T));
        X.T->abort();
        X.T = std::move(Moved);
        C.tag("moved");
      }
      break;
    default:
      if (FM && C.chance(1, 4)) {
        // copies do not depend on the original
        for (auto &X : Ts) {
          X->P.Feats.clear();
          X->P.Groups.clear();
        }
        FM.reset();
        C.describe("original destroyed");
        Desc += "destroy\n";
        C.tag("original-destroyed");
      }
    }
    All("step");
  }
  for (auto &X : Ts) {
    End(*X, C.chance(3, 4));
  }
  All("end");
  FM.reset();
  All("original gone");
  if (Edits >= 2) {
    C.nontrivial(Desc);
  }
}

// several pending in-place transactions of one model, finished in any order
PROP(pending, 2000, 50000) {
  auto H = defaults();
  Model Sim = genModel(C, H.G);
  C.describe(Sim.str());
  std::string Desc = Sim.str();
  auto FM = toFM(Sim);
  using MT = vf::FeatureModelModifyTransaction;
  struct Open {
    std::unique_ptr<MT> T;
    std::vector<Edit> Q;
    bool Over = false;
  };
  std::vector<Open> Ts;
  std::vector<std::string> Extra;
  size_t Queued = 0, Ended = 0;
  auto Apply = [&](Open &X) -> Codes {
    for (auto &O : X.Q) {
      std::set<std::string> Gone;
      auto E = apply(Sim, O, &Gone);
      Extra.insert(Extra.end(), Gone.begin(), Gone.end());
      if (!E.empty()) {
        return E;
      }
    }
    return {};
  };
  auto End = [&](Open &X, size_t How) {
    switch (How) {
    case 0: {
      auto R = X.T->commit();
      if (X.Over) {
        C.require(!R && R.getError() == vf::ABORTED, "second-commit",
                  "a finished transaction was committed again");
        C.tag("commit-after-end");
        break;
      }
      auto E = Apply(X);
      C.require(static_cast<bool>(R) == E.empty(), "commit-result");
      if (!R) {
        C.require(E.count(R.getError()), "error-code");
        C.tag("refused");
      }
      X.Over = true;
      break;
    }
    case 1:
      X.T->abort();
      X.Over = true;
      break;
    default:
      // ends without a commit: the edits are applied
      X.T.reset();
      if (!X.Over) {
        Apply(X);
        C.tag("uncommitted-end");
      }
      X.Over = true;
    }
    ++Ended;
  };
  for (int64_t N = C.tailed(3, 25, 150, 60); N > 0; --N) {
    switch (C.weighted({3, 10, 3, 1})) {
    case 0:
      if (Ts.size() < 4) {
        Ts.push_back(Open{std::make_unique<MT>(MT::openTransaction(*FM)), {}, false});
        C.describe("open " + std::to_string(Ts.size() - 1));
        Desc += "open\n";
      }
      break;
    case 1: {
      if (Ts.empty()) {
        break;
      }
      size_t I = C.draw(Ts.size() - 1);
      auto &X = Ts[I];
      if (X.Over) {
        break;
      }
      // generated against the state this transaction alone would reach
      Model Next = Sim;
      for (auto &O : X.Q) {
        if (!apply(Next, O).empty()) {
          break;
        }
      }
      Ptrs None;
      Edit O = genOp(C, Next, H, None, Extra);
      Desc += std::to_string(I) + O.str() + "\n";
      C.describe(std::to_string(I) + ": " + O.str());
      run(*X.T, O, Objs(*FM));
      X.Q.push_back(O);
      ++Queued;
      break;
    }
    case 2: {
      if (Ts.empty()) {
        break;
      }
      size_t I = C.draw(Ts.size() - 1);
      if (!Ts[I].T) {
        break;
      }
      size_t How = C.weighted({5, 2, 2});
      C.describe(std::to_string(I) + (How == 0 ? ": commit" : How == 1 ? ": abort" : ": destroy"));
      Desc += std::to_string(I) + (How == 0 ? "commit" : How == 1 ? "abort" : "destroy");
      End(Ts[I], How);
      break;
    }
    default:
      if (!Ts.empty()) {
        auto &X = C.pick(Ts);
        if (X.T && !X.Over) {
          auto &Y = const_cast<Open &>(X);
          auto Moved = std::make_unique<MT>(std::move(*Y.T));
          Y.T->abort();
          Y.T = std::move(Moved);
          C.tag("moved");
        }
      }
    }
    same(C, Sim, *FM, "model-changed", "step");
  }
  for (auto &X : Ts) {
    if (X.T) {
      End(X, C.weighted({5, 2, 2}));
      same(C, Sim, *FM, "model-changed", "end");
    }
  }
  if (Queued >= 2 && Ended >= 1) {
    C.nontrivial(Desc);
  }
}
