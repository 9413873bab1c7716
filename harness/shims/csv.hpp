// Stand-in for the csv-parser library (vincentlaucsb/csv-parser), which is not
// installed here: the part of its interface a reader of small files needs,
// with its documented behaviour.
#ifndef VERIF_SHIM_CSV_HPP
#define VERIF_SHIM_CSV_HPP

#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <iterator>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace csv {
using string_view = std::string_view;

enum class VariableColumnPolicy { THROW = -1, IGNORE_ROW = 0, KEEP = 1 };

class CSVFormat {
public:
  CSVFormat &delimiter(char C) {
    Delim = C;
    return *this;
  }
  CSVFormat &delimiter(const std::vector<char> &Cs) {
    Delim = Cs.at(0);
    return *this;
  }
  CSVFormat &quote(char C) {
    Quote = C;
    Quoting = true;
    return *this;
  }
  CSVFormat &quote(bool Use) {
    Quoting = Use;
    return *this;
  }
  CSVFormat &trim(const std::vector<char> &Cs) {
    Trim = std::string(Cs.begin(), Cs.end());
    return *this;
  }
  CSVFormat &header_row(int N) {
    Header = N;
    return *this;
  }
  CSVFormat &variable_columns(VariableColumnPolicy P) {
    Policy = P;
    return *this;
  }
  CSVFormat &variable_columns(bool Keep) {
    Policy = Keep ? VariableColumnPolicy::KEEP : VariableColumnPolicy::IGNORE_ROW;
    return *this;
  }
  char Delim = ',';
  char Quote = '"';
  bool Quoting = true;
  std::string Trim;
  int Header = 0;
  VariableColumnPolicy Policy = VariableColumnPolicy::IGNORE_ROW;
};

class CSVField {
public:
  explicit CSVField(string_view S) : S(S) {}
  template <typename T = std::string> T get() const {
    if constexpr (std::is_arithmetic_v<T>) {
      if (!is_num()) {
        throw std::runtime_error("Not a number.");
      }
      return static_cast<T>(std::strtold(std::string(S).c_str(), nullptr));
    } else {
      return T(S);
    }
  }
  string_view get_sv() const { return S; }
  bool is_null() const { return S.find_first_not_of(" \t") == string_view::npos; }
  bool is_num() const {
    std::string T(S);
    char *End = nullptr;
    std::strtold(T.c_str(), &End);
    return !is_null() && *End == 0;
  }
  bool is_int() const { return is_num() && S.find_first_of(".eE") == string_view::npos; }
  bool is_float() const { return is_num() && !is_int(); }
  bool is_str() const { return !is_null() && !is_num(); }
  template <typename T> bool operator==(T O) const { return get<T>() == O; }
  bool operator==(const char *O) const { return S == O; }
  bool operator==(const std::string &O) const { return S == O; }
  bool operator==(string_view O) const { return S == O; }
  template <typename T> bool operator!=(T O) const { return !(*this == O); }

private:
  string_view S;
};

class CSVRow {
public:
  CSVRow() = default;
  CSVRow(std::shared_ptr<std::vector<std::string>> H, std::vector<std::string> V)
      : H(std::move(H)), V(std::move(V)) {}
  bool empty() const { return V.empty(); }
  size_t size() const { return V.size(); }
  std::vector<std::string> get_col_names() const { return *H; }
  CSVField operator[](size_t N) const {
    if (N >= V.size()) {
      throw std::runtime_error("Index out of bounds.");
    }
    return CSVField(V[N]);
  }
  CSVField operator[](const std::string &Name) const {
    auto It = std::find(H->begin(), H->end(), Name);
    if (It == H->end()) {
      throw std::runtime_error("Can't find a column named " + Name);
    }
    return (*this)[static_cast<size_t>(It - H->begin())];
  }
  operator std::vector<std::string>() const { return V; }

private:
  std::shared_ptr<std::vector<std::string>> H;
  std::vector<std::string> V;
};

class CSVReader {
public:
  CSVReader(string_view File, CSVFormat Format = CSVFormat()) : Format(Format) {
    std::ifstream In(std::string(File), std::ios::binary);
    if (!In) {
      throw std::runtime_error("Cannot open file " + std::string(File));
    }
    std::string T((std::istreambuf_iterator<char>(In)), {});
    parse(T);
  }
  std::vector<std::string> get_col_names() const { return *H; }
  int index_of(string_view Name) const {
    auto It = std::find(H->begin(), H->end(), Name);
    return It == H->end() ? -1 : static_cast<int>(It - H->begin());
  }
  CSVFormat get_format() const { return Format; }
  size_t n_rows() const { return Rows.size(); }
  bool empty() const { return Rows.empty(); }
  bool eof() const { return Next >= Rows.size(); }
  bool read_row(CSVRow &R) {
    if (eof()) {
      return false;
    }
    R = Rows[Next++];
    return true;
  }
  using iterator = std::vector<CSVRow>::iterator;
  iterator begin() { return Rows.begin(); }
  iterator end() { return Rows.end(); }

private:
  void parse(const std::string &Text) {
    std::vector<std::vector<std::string>> All;
    std::vector<std::string> Row;
    std::string F;
    bool Open = false, Any = false;
    size_t P = Text.compare(0, 3, "\xEF\xBB\xBF") == 0 ? 3 : 0;
    auto Field = [&] {
      if (!Format.Trim.empty()) {
        size_t A = F.find_first_not_of(Format.Trim);
        size_t B = F.find_last_not_of(Format.Trim);
        F = A == std::string::npos ? "" : F.substr(A, B - A + 1);
      }
      Row.push_back(F);
      F.clear();
    };
    auto Line = [&] {
      if (Any) { // empty lines are skipped
        Field();
        All.push_back(Row);
      }
      Row.clear();
      Any = false;
    };
    for (; P < Text.size(); ++P) {
      char C = Text[P];
      if (Open) {
        if (C == Format.Quote) {
          if (P + 1 < Text.size() && Text[P + 1] == Format.Quote) {
            F += C;
            ++P;
          } else {
            Open = false;
          }
        } else {
          F += C;
        }
      } else if (Format.Quoting && C == Format.Quote && F.empty()) {
        Open = Any = true;
      } else if (C == Format.Delim) {
        Any = true;
        Field();
      } else if (C == '\n') {
        Line();
      } else if (C != '\r') {
        Any = true;
        F += C;
      }
    }
    Line();
    if (Format.Header >= 0 && All.size() > static_cast<size_t>(Format.Header)) {
      H = std::make_shared<std::vector<std::string>>(All[Format.Header]);
      All.erase(All.begin(), All.begin() + Format.Header + 1);
    } else {
      All.clear();
    }
    for (auto &R : All) {
      if (R.size() == H->size() || Format.Policy == VariableColumnPolicy::KEEP) {
        Rows.emplace_back(H, R);
      } else if (Format.Policy == VariableColumnPolicy::THROW) {
        throw std::runtime_error("Line has the wrong number of columns");
      }
    }
  }
  CSVFormat Format;
  std::shared_ptr<std::vector<std::string>> H = std::make_shared<std::vector<std::string>>();
  std::vector<CSVRow> Rows;
  size_t Next = 0;
};
} // namespace csv

#endif
