// A reader for the YAML subset that sample sets use; shares nothing with the
// code under test.
#ifndef VERIF_YAMLREAD_H
#define VERIF_YAMLREAD_H

#include "pbt.h"

namespace yamlread {
using pbt::quote;

inline void utf8(std::string &S, uint32_t U) {
  if (U < 0x80) {
    S += static_cast<char>(U);
  } else if (U < 0x800) {
    S += static_cast<char>(0xC0 | (U >> 6));
    S += static_cast<char>(0x80 | (U & 63));
  } else if (U < 0x10000) {
    S += static_cast<char>(0xE0 | (U >> 12));
    S += static_cast<char>(0x80 | ((U >> 6) & 63));
    S += static_cast<char>(0x80 | (U & 63));
  } else {
    S += static_cast<char>(0xF0 | (U >> 18));
    S += static_cast<char>(0x80 | ((U >> 12) & 63));
    S += static_cast<char>(0x80 | ((U >> 6) & 63));
    S += static_cast<char>(0x80 | (U & 63));
  }
}

// Just enough of YAML 1.2: block and flow mappings and flow sequences of
// scalars in one document; anything else is an error.
struct Yaml {
  pbt::Case &C;
  const std::string &T;
  std::string What;
  size_t P = 0;

  [[noreturn]] void bad(const std::string &W) {
    C.fail(What, W + " at " + std::to_string(P) + " of " + quote(T));
  }
  bool end() const { return P >= T.size(); }
  char cur() const { return end() ? '\0' : T[P]; }
  void blanks(bool Lines) {
    for (;;) {
      while (!end() && (T[P] == ' ' || (Lines && (T[P] == '\n' || T[P] == '\t')))) {
        ++P;
      }
      if (cur() == '#' && (P == 0 || T[P - 1] == ' ' || T[P - 1] == '\n')) {
        while (!end() && T[P] != '\n') {
          ++P;
        }
        continue;
      }
      return;
    }
  }
  uint32_t hex(int N) {
    uint32_t V = 0;
    while (N--) {
      char Ch = static_cast<char>(tolower(cur()));
      if (!isxdigit(static_cast<unsigned char>(Ch))) {
        bad("bad escape");
      }
      V = V * 16 + static_cast<uint32_t>(isdigit(static_cast<unsigned char>(Ch)) ? Ch - '0' : Ch - 'a' + 10);
      ++P;
    }
    return V;
  }
  void fold(std::string &S) { // a line break inside a quoted scalar
    while (!S.empty() && (S.back() == ' ' || S.back() == '\t')) {
      S.pop_back();
    }
    int N = 0;
    while (!end() && (T[P] == '\n' || T[P] == ' ' || T[P] == '\t')) {
      N += T[P++] == '\n';
    }
    S += N == 1 ? std::string(" ") : std::string(static_cast<size_t>(N - 1), '\n');
  }
  std::string scalar(bool Flow) {
    std::string S;
    if (cur() == '\'') {
      for (++P;;) {
        if (end()) {
          bad("open quote");
        }
        if (T[P] == '\'') {
          if (T.compare(P, 2, "''") != 0) {
            ++P;
            return S;
          }
          S += '\'';
          P += 2;
        } else if (T[P] == '\n') {
          fold(S);
        } else {
          printable(S, true);
        }
      }
    }
    if (cur() == '"') {
      for (++P;;) {
        if (end()) {
          bad("open quote");
        }
        char Ch = T[P];
        if (Ch == '"') {
          ++P;
          return S;
        }
        if (Ch == '\n') {
          fold(S);
        } else if (Ch == '\\') {
          ++P;
          Ch = cur();
          ++P;
          switch (Ch) {
          case '0': S += '\0'; break;
          case 'a': S += '\a'; break;
          case 'b': S += '\b'; break;
          case 't': case '\t': S += '\t'; break;
          case 'n': S += '\n'; break;
          case 'v': S += '\v'; break;
          case 'f': S += '\f'; break;
          case 'r': S += '\r'; break;
          case 'e': S += '\x1b'; break;
          case ' ': case '"': case '/': case '\\': S += Ch; break;
          case 'N': utf8(S, 0x85); break;
          case '_': utf8(S, 0xA0); break;
          case 'L': utf8(S, 0x2028); break;
          case 'P': utf8(S, 0x2029); break;
          case 'x': utf8(S, hex(2)); break;
          case 'u': {
            uint32_t U = hex(4);
            if (U >= 0xD800 && U < 0xDC00 && T.compare(P, 2, "\\u") == 0) { // as JSON does
              P += 2;
              U = 0x10000 + ((U - 0xD800) << 10) + (hex(4) - 0xDC00);
            }
            utf8(S, U);
            break;
          }
          case 'U': utf8(S, hex(8)); break;
          default: bad("bad escape");
          }
        } else {
          printable(S, true);
        }
      }
    }
    // plain
    static const std::string Indicators = "-?:,[]{}#&*!|>'\"%@`";
    if (end() || T[P] == '\n' || (Indicators.find(T[P]) != std::string::npos &&
                                  !((T[P] == '-' || T[P] == '?' || T[P] == ':') && P + 1 < T.size() &&
                                    !isspace(static_cast<unsigned char>(T[P + 1]))))) {
      bad("expected a scalar");
    }
    while (!end() && T[P] != '\n') {
      if (T[P] == ':' && (P + 1 >= T.size() || isspace(static_cast<unsigned char>(T[P + 1])))) {
        break;
      }
      if (T[P] == '#' && T[P - 1] == ' ') {
        break;
      }
      if (Flow && std::string(",[]{}").find(T[P]) != std::string::npos) {
        break;
      }
      printable(S);
    }
    while (!S.empty() && (S.back() == ' ' || S.back() == '\t')) {
      S.pop_back();
    }
    return S;
  }
  void printable(std::string &S, bool Quoted = false) {
    auto U = static_cast<unsigned char>(T[P]);
    if ((U < 0x20 && U != '\t') || (U == 0x7f && !Quoted)) {
      bad("control character");
    }
    S += T[P++];
  }
  std::vector<std::string> list() { // the whole text
    std::vector<std::string> R;
    blanks(true);
    if (cur() != '[') {
      bad("expected a list");
    }
    ++P;
    blanks(true);
    while (cur() != ']') {
      R.push_back(scalar(true));
      blanks(true);
      if (cur() == ',') {
        ++P;
        blanks(true);
      } else if (cur() != ']') {
        bad("expected , or ]");
      }
    }
    ++P;
    blanks(true);
    if (!end()) {
      bad("text after the list");
    }
    return R;
  }
  // one document holding a mapping of scalars; a missing value reads as ""
  std::vector<std::pair<std::string, std::string>> document() {
    std::vector<std::pair<std::string, std::string>> R;
    auto Marker = [&](const char *M) {
      if (T.compare(P, 3, M) == 0 && (P + 3 >= T.size() || T[P + 3] == '\n' || T[P + 3] == ' ')) {
        P += 3;
        return true;
      }
      return false;
    };
    blanks(true);
    Marker("---");
    blanks(true);
    if (cur() == '{') {
      ++P;
      blanks(true);
      while (cur() != '}') {
        auto K = scalar(true);
        blanks(true);
        if (cur() != ':') {
          bad("expected :");
        }
        ++P;
        blanks(true);
        R.emplace_back(K, scalar(true));
        blanks(true);
        if (cur() == ',') {
          ++P;
          blanks(true);
        } else if (cur() != '}') {
          bad("expected , or }");
        }
      }
      ++P;
    } else {
      while (!end() && T.compare(P, 3, "...") != 0) {
        size_t Line = T.rfind('\n', P);
        if (P - (Line == std::string::npos ? 0 : Line + 1) != 0) {
          bad("indented entry");
        }
        auto K = scalar(false);
        blanks(false);
        if (cur() != ':') {
          bad("expected :");
        }
        ++P;
        blanks(true);
        R.emplace_back(K, scalar(false));
        blanks(false);
        if (!end() && cur() != '\n') {
          bad("text after a value");
        }
        blanks(true);
      }
    }
    blanks(true);
    Marker("...");
    blanks(true);
    if (!end()) {
      bad("text after the document");
    }
    return R;
  }
};

} // namespace yamlread

#endif
