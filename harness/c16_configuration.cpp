// C16: configurations behave as a typed string map and survive JSON.
#include "pbt.h"

#include "vara/Configuration/Configuration.h"

#include <limits>

using namespace vara::feature;
using pbt::quote;

namespace {
// ---- reference: typed reading of a value ------------------------------------
struct Val {
  enum { BOOL, INT, STR } K;
  std::string Text; // what it reads as
  int64_t I = 0;
};
Val classify(const std::string &S) {
  std::string L = S;
  for (auto &Ch : L) {
    if (Ch >= 'A' && Ch <= 'Z') {
      Ch = static_cast<char>(Ch + 32);
    }
  }
  if (L == "true" || L == "false") {
    return {Val::BOOL, L, L == "true"};
  }
  // [-](0x|0X hex | 0b|0B bin | 0o oct | 0 oct | dec)
  bool Neg = !L.empty() && L[0] == '-';
  std::string D = Neg ? L.substr(1) : L;
  unsigned Base = 10;
  if (D.size() > 1 && D[0] == '0') {
    if (D[1] == 'x') {
      Base = 16;
      D = D.substr(2);
    } else if (D[1] == 'b') {
      Base = 2;
      D = D.substr(2);
    } else if (D[1] == 'o') {
      Base = 8;
      D = D.substr(2);
    } else if (D[1] >= '0' && D[1] <= '9') {
      Base = 8;
      D = D.substr(1);
    }
  }
  if (D.empty()) {
    return {Val::STR, S};
  }
  unsigned __int128 V = 0;
  for (char Ch : D) {
    unsigned X = Ch >= '0' && Ch <= '9' ? Ch - '0' : Ch >= 'a' && Ch <= 'f' ? Ch - 'a' + 10 : 99;
    if (X >= Base) {
      return {Val::STR, S};
    }
    V = V * Base + X;
    if (V > (static_cast<unsigned __int128>(1) << 63)) {
      return {Val::STR, S};
    }
  }
  unsigned __int128 Lim = static_cast<unsigned __int128>(1) << 63;
  if (Neg) {
    int64_t I = V == Lim ? std::numeric_limits<int64_t>::min() : -static_cast<int64_t>(V);
    return {Val::INT, std::to_string(I), I};
  }
  if (V >= Lim) {
    return {Val::STR, S};
  }
  return {Val::INT, std::to_string(static_cast<int64_t>(V)), static_cast<int64_t>(V)};
}

// ---- reference: JSON ---------------------------------------------------------
void utf8(std::string &S, uint32_t CP) {
  if (CP < 0x80) {
    S += static_cast<char>(CP);
  } else if (CP < 0x800) {
    S += static_cast<char>(0xC0 | (CP >> 6));
    S += static_cast<char>(0x80 | (CP & 63));
  } else if (CP < 0x10000) {
    S += static_cast<char>(0xE0 | (CP >> 12));
    S += static_cast<char>(0x80 | ((CP >> 6) & 63));
    S += static_cast<char>(0x80 | (CP & 63));
  } else {
    S += static_cast<char>(0xF0 | (CP >> 18));
    S += static_cast<char>(0x80 | ((CP >> 12) & 63));
    S += static_cast<char>(0x80 | ((CP >> 6) & 63));
    S += static_cast<char>(0x80 | (CP & 63));
  }
}
bool validUTF8(const std::string &S) {
  for (size_t I = 0; I < S.size();) {
    unsigned char B = S[I];
    size_t N = B < 0x80 ? 1 : B >= 0xC2 && B < 0xE0 ? 2 : B >= 0xE0 && B < 0xF0 ? 3
               : B >= 0xF0 && B < 0xF5 ? 4 : 0;
    if (!N || I + N > S.size()) {
      return false;
    }
    uint32_t CP = N == 1 ? B : B & (0xFF >> (N + 1));
    for (size_t J = 1; J < N; ++J) {
      if ((static_cast<unsigned char>(S[I + J]) & 0xC0) != 0x80) {
        return false;
      }
      CP = (CP << 6) | (S[I + J] & 63);
    }
    if ((N == 3 && CP < 0x800) || (N == 4 && (CP < 0x10000 || CP > 0x10FFFF)) ||
        (CP >= 0xD800 && CP <= 0xDFFF)) {
      return false;
    }
    I += N;
  }
  return true;
}

struct JSON {
  const std::string &S;
  size_t I = 0;
  bool Unspecified = false; // lone surrogates, duplicate names
  void ws() {
    while (I < S.size() && (S[I] == ' ' || S[I] == '\t' || S[I] == '\n' || S[I] == '\r')) {
      ++I;
    }
  }
  bool eat(char C) {
    ws();
    if (I < S.size() && S[I] == C) {
      ++I;
      return true;
    }
    return false;
  }
  bool hex4(uint32_t &V) {
    V = 0;
    for (int K = 0; K < 4; ++K, ++I) {
      if (I >= S.size() || !isxdigit(static_cast<unsigned char>(S[I]))) {
        return false;
      }
      char C = static_cast<char>(tolower(S[I]));
      V = V * 16 + static_cast<uint32_t>(C <= '9' ? C - '0' : C - 'a' + 10);
    }
    return true;
  }
  bool str(std::string &Out) {
    if (!eat('"')) {
      return false;
    }
    while (I < S.size() && S[I] != '"') {
      unsigned char C = S[I++];
      if (C < 0x20) {
        return false;
      }
      if (C != '\\') {
        Out += static_cast<char>(C);
        continue;
      }
      if (I >= S.size()) {
        return false;
      }
      char X = S[I++];
      switch (X) {
      case '"': case '\\': case '/': Out += X; break;
      case 'b': Out += '\b'; break;
      case 'f': Out += '\f'; break;
      case 'n': Out += '\n'; break;
      case 'r': Out += '\r'; break;
      case 't': Out += '\t'; break;
      case 'u': {
        uint32_t V, W;
        if (!hex4(V)) {
          return false;
        }
        if (V >= 0xD800 && V <= 0xDBFF && I + 1 < S.size() && S[I] == '\\' && S[I + 1] == 'u') {
          I += 2;
          if (!hex4(W)) {
            return false;
          }
          if (W < 0xDC00 || W > 0xDFFF) {
            Unspecified = true;
          } else {
            V = 0x10000 + ((V - 0xD800) << 10) + (W - 0xDC00);
          }
        } else if (V >= 0xD800 && V <= 0xDFFF) {
          Unspecified = true;
        }
        utf8(Out, V);
        break;
      }
      default:
        return false;
      }
    }
    if (I >= S.size()) {
      return false;
    }
    ++I;
    return true;
  }
  // any value; only well enough to find the end of it
  bool skip(int Depth = 0) {
    ws();
    std::string Tmp;
    if (Depth > 300 || I >= S.size()) {
      return false;
    }
    if (S[I] == '"') {
      return str(Tmp);
    }
    if (S[I] == '[' || S[I] == '{') {
      bool Obj = S[I] == '{';
      char End = Obj ? '}' : ']';
      ++I;
      if (eat(End)) {
        return true;
      }
      do {
        if (Obj && (!str(Tmp) || !eat(':'))) {
          return false;
        }
        if (!skip(Depth + 1)) {
          return false;
        }
      } while (eat(','));
      return eat(End);
    }
    size_t B = I;
    while (I < S.size() && (isalnum(static_cast<unsigned char>(S[I])) || S[I] == '-' ||
                            S[I] == '+' || S[I] == '.')) {
      ++I;
    }
    return I > B;
  }
  bool object(std::map<std::string, std::string> &M) {
    bool Bad = false;
    if (!eat('{')) {
      return false;
    }
    if (!eat('}')) {
      do {
        std::string K, V;
        if (!str(K) || !eat(':')) {
          return false;
        }
        ws();
        if (I < S.size() && S[I] != '"') {
          Bad = true;
          if (!skip()) {
            return false;
          }
        } else if (!str(V)) {
          return false;
        }
        if (!M.emplace(K, V).second) {
          Unspecified = true;
        }
      } while (eat(','));
      if (!eat('}')) {
        return false;
      }
    }
    ws();
    return I == S.size() && !Bad;
  }
};

// ---- generation --------------------------------------------------------------
std::string genStr(pbt::Case &C, int Max) {
  std::string S;
  for (int64_t N = C.chance(1, 200) ? C.range(Max, 3000) : C.range(0, Max); N > 0; --N) {
    switch (C.weighted({8, 2, 1, 1})) {
    case 0:
      S += C.pick<std::string>({"a", "b", "foo", "_", "1", "0", "-", " ", "T", "."});
      break;
    case 1:
      S += C.pick<std::string>({"\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", "{", "}", ",", ":",
                                "\\u", "'", "\x7f"});
      break;
    case 2:
      S += static_cast<char>(C.range(1, 31));
      break;
    default: {
      uint32_t CP = static_cast<uint32_t>(C.pick<int64_t>({0xE9, 0x7FF, 0x800, 0xFFFD, 0xFFFF,
                                                           0x10000, 0x1F642, 0x10FFFF, 0x2028}));
      utf8(S, CP);
    }
    }
  }
  return S;
}
std::string genName(pbt::Case &C) {
  return C.chance(3, 4) ? C.pick<std::string>({"a", "b", "foo", "foo_baz", "A", "", "root"})
         : C.chance(1, 8) ? "n" + std::to_string(C.range(0, 400))
                        : genStr(C, 6);
}
std::string genVal(pbt::Case &C) {
  switch (C.weighted({3, 3, 2, 1, 2, 1})) {
  case 0:
    return C.pick<std::string>({"true", "false", "True", "FALSE", "TRUE", "tRuE", "False", "yes",
                                "truee", " true", "t", ""});
  case 1:
    return std::to_string(C.range(-20, 200));
  case 2:
    return std::to_string(C.int64());
  case 3:
    return C.pick<std::string>({"9223372036854775807", "9223372036854775808",
                                "-9223372036854775808", "-9223372036854775809",
                                "18446744073709551615", "99999999999999999999", "-", "+5", "1.5",
                                "1e3", "5 ", " 5", "5a", "--5", "-0", "0"});
  case 4:
    return genStr(C, 8);
  default:
    return C.pick<std::string>({"010", "0x1F", "0b101", "0o17", "-0x10", "09", "0x", "007", "00"});
  }
}
using Map = std::map<std::string, std::string>; // name -> canonical text

std::string show(const Map &M) {
  std::string R;
  for (auto &[K, V] : M) {
    R += quote(K) + "=" + quote(V) + " ";
  }
  return R;
}
Map contents(Configuration &Cf) {
  Map R;
  size_t N = 0;
  for (auto &E : Cf) {
    R[E.getKey().str()] = E.getValue()->asString();
    ++N;
  }
  if (N != R.size()) {
    throw pbt::Failure{"iteration-repeats", show(R)};
  }
  return R;
}
Map contentsConst(const Configuration &Cf) {
  Map R;
  for (const auto &E : Cf) {
    if (!R.emplace(E.getKey().str(), E.getValue()->asString()).second) {
      throw pbt::Failure{"const-iteration-repeats", show(R)};
    }
  }
  return R;
}
} // namespace

PROP(option_types, 24000, 600000) {
  std::string N = genName(C), V = genVal(C);
  C.describe(quote(N) + " = " + quote(V));
  Val W = classify(V);
  C.tag(W.K == Val::BOOL ? "bool" : W.K == Val::INT ? "int" : "string");
  C.nontrivial(V);
  ConfigurationOption O(N, V);
  C.eq(O.name().str(), N, "option-name");
  C.eq(O.isBool(), W.K == Val::BOOL, "is-bool", quote(V));
  C.eq(O.isInt(), W.K == Val::INT, "is-int", quote(V));
  C.eq(O.isString(), W.K == Val::STR, "is-string", quote(V));
  C.eq(O.boolValue().has_value(), W.K == Val::BOOL, "bool-value", quote(V));
  C.eq(O.intValue().has_value(), W.K == Val::INT, "int-value", quote(V));
  C.eq(O.stringValue().has_value(), W.K == Val::STR, "string-value", quote(V));
  if (W.K == Val::BOOL) {
    C.eq(*O.boolValue(), W.I == 1, "bool-value", quote(V));
  } else if (W.K == Val::INT) {
    C.eq(*O.intValue(), W.I, "int-value", quote(V));
  } else {
    C.eq(O.stringValue()->str(), V, "string-value");
  }
  C.eq(O.asString(), W.Text, "as-string", quote(V));
  C.eq(O.toString(), N + ": " + W.Text, "to-string");
}

// histories of sets and gets against a map
PROP(histories, 12000, 400000) {
  Configuration Cf;
  Map M;
  size_t Sets = 0;
  std::string Key;
  for (int64_t N = C.tailed(1, 30, 400, 150); N > 0; --N) {
    std::string K = genName(C);
    switch (C.weighted({5, 2, 3, 1, 1})) {
    case 0:
    case 1: {
      std::string V = genVal(C);
      C.describe("set " + quote(K) + " = " + quote(V));
      Key += K + "\1" + V + "\2";
      if (C.flip()) {
        Cf.setConfigurationOption(K, V);
      } else {
        Cf.addConfigurationOption(std::make_unique<ConfigurationOption>(K, V));
      }
      M[K] = classify(V).Text;
      ++Sets;
      break;
    }
    case 2: {
      auto G = Cf.configurationOptionValue(K);
      auto It = M.find(K);
      C.eq(G.has_value(), It != M.end(), "get-presence", quote(K));
      if (G) {
        C.eq(*G, It->second, "get-value", quote(K));
      }
      break;
    }
    case 3:
      C.eq(show(contents(Cf)), show(M), "iteration");
      C.eq(show(contentsConst(Cf)), show(M), "const-iteration");
      break;
    default: {
      std::string D = Cf.dumpToString();
      Map R;
      JSON J{D};
      C.require(J.object(R), "dump-not-json", D);
      C.eq(show(R), show(M), "dump");
    }
    }
  }
  if (Sets >= 2) {
    C.nontrivial(Key);
  }
  C.eq(show(contents(Cf)), show(M), "iteration");
  C.eq(show(contentsConst(Cf)), show(M), "const-iteration");
}

PROP(json_roundtrip, 12000, 400000) {
  Configuration Cf;
  Map M;
  for (int64_t N = C.tailed(0, 12, 300, 100); N > 0; --N) {
    std::string K = C.flip() ? genStr(C, 8) : genName(C), V = genVal(C);
    C.describe(quote(K) + " = " + quote(V));
    Cf.setConfigurationOption(K, V);
    M[K] = classify(V).Text;
  }
  if (M.size() >= 2) {
    C.nontrivial(show(M));
  }
  std::string D = Cf.dumpToString();
  C.describe("dump: " + quote(D));
  Map R;
  JSON J{D};
  C.require(J.object(R), "dump-not-json", D);
  C.eq(show(R), show(M), "dump");
  auto Back = Configuration::createConfigurationFromString(D);
  C.require(!!Back, "dump-rejected", D);
  C.eq(show(contents(*Back)), show(M), "roundtrip");
  C.eq(Back->dumpToString(), D, "redump");
  C.eq(show(contents(Cf)), show(M), "dump-changed-configuration");
}

// documents with arbitrary layout and escapes, and mutations of them
PROP(json_documents, 24000, 800000) {
  std::string D;
  auto Ws = [&] {
    for (int64_t N = static_cast<int64_t>(C.weighted({6, 2, 1})); N > 0; --N) {
      D += C.pick<std::string>({" ", "\n", "\t", "\r"});
    }
  };
  auto Str = [&](const std::string &S) {
    D += '"';
    for (size_t I = 0; I < S.size(); ++I) {
      unsigned char B = S[I];
      if (B < 0x20 || B == '"' || B == '\\' || (B < 0x80 && C.chance(1, 10))) {
        char Buf[8];
        snprintf(Buf, sizeof Buf, "\\u%04x", B);
        if (B == '\n' && C.flip()) {
          D += "\\n";
        } else if ((B == '"' || B == '\\' || B == '/') && C.flip()) {
          D += '\\';
          D += static_cast<char>(B);
        } else {
          D += Buf;
        }
      } else {
        D += static_cast<char>(B);
      }
    }
    if (C.chance(1, 12)) {
      D += C.pick<std::string>({"\\ud83d\\ude42", "\\u00e9", "\\b", "\\/", "\\u0000"});
    }
    D += '"';
  };
  Ws();
  D += "{";
  Ws();
  int64_t N = C.tailed(0, 6, 200, 200);
  for (int64_t I = 0; I < N; ++I) {
    Str(genName(C));
    Ws();
    D += ":";
    Ws();
    if (C.chance(1, 30)) {
      D += C.pick<std::string>({"1", "true", "null", "[]", "{}", "-1.5e3", "[\"a\"]",
                                "{\"a\":\"b\"}", "[[[[[[]]]]]]"});
    } else {
      Str(genVal(C));
    }
    Ws();
    if (I + 1 < N) {
      D += ",";
      Ws();
    }
  }
  D += "}";
  Ws();
  for (int64_t K = static_cast<int64_t>(C.weighted({3, 1, 1})); K > 0; --K) {
    static const std::string Chars = "{}[]\",:\\u/ \nabtrue01.-\x01\x7f\x80\xff\xc3\xa9";
    size_t P = static_cast<size_t>(C.draw(D.size()));
    char Ch = Chars[C.draw(Chars.size() - 1)];
    switch (C.draw(3)) {
    case 0: D.insert(P, 1, Ch); break;
    case 1:
      if (P < D.size()) {
        D.erase(P, 1);
      }
      break;
    case 2:
      if (P < D.size()) {
        D[P] = Ch;
      }
      break;
    default: D.erase(P);
    }
  }
  C.describe(quote(D));
  std::map<std::string, std::string> R;
  JSON J{D};
  bool Ok = validUTF8(D) && J.object(R);
  C.tag(Ok ? "valid" : "invalid");
  C.note("parse");
  auto Cf = Configuration::createConfigurationFromString(D);
  C.nontrivial(D);
  if (J.Unspecified) {
    C.discard();
  }
  C.eq(!!Cf, Ok, Ok ? "json-rejected" : "json-accepted", quote(D));
  if (Ok) {
    Map M;
    for (auto &[K, V] : R) {
      M[K] = classify(V).Text;
    }
    C.eq(show(contents(*Cf)), show(M), "json-contents");
  }
}

PROP(json_bytes, 6000, 200000) {
  std::string D;
  if (C.chance(1, 4)) {
    D = std::string(static_cast<size_t>(C.range(1, 150)), C.flip() ? '[' : '{');
  }
  for (int64_t N = C.sized(0, 30); N > 0; --N) {
    D += static_cast<char>(C.chance(1, 3) ? "{}[]\",:\\"[C.draw(7)] : C.range(0, 255));
  }
  C.describe(quote(D));
  std::map<std::string, std::string> R;
  JSON J{D};
  bool Ok = validUTF8(D) && J.object(R);
  auto Cf = Configuration::createConfigurationFromString(D);
  C.nontrivial(D);
  if (!J.Unspecified) {
    C.eq(!!Cf, Ok, Ok ? "json-rejected" : "json-accepted", quote(D));
  }
}
