// C19  delimited text and datasets (built with the address sanitizer)
#include "explorer.h"

#include <psdd/binary_data.h>
#include <psdd/csvparser.h>

#include <algorithm>
#include <map>
#include <memory>

using mc::Chooser;

namespace {
using Row = std::vector<std::string>;
using Rows = std::vector<Row>;

std::string show(const std::string &s) {
  std::string r;
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '\n')
      r += "\\n";
    else if (ch == '\r')
      r += "\\r";
    else if (ch < 32 || ch > 126)
      snprintf(b, sizeof b, "\\x%02x", ch), r += b;
    else
      r += (char)ch;
  }
  return s.size() > 400 ? r.substr(0, 120) + "... (" + std::to_string(s.size()) + " bytes)" : r;
}
std::string show(const Rows &rows) {
  std::string r;
  for (auto &row : rows) {
    r += "[";
    for (auto &f : row) r += "<" + show(f) + ">";
    r += "]";
    if (r.size() > 1000) return r + "...";
  }
  return r;
}
Row take(CsvRow *r) {
  Row row;
  const char **f = CsvParser_getFields(r);
  for (int i = 0; i < CsvParser_getNumFields(r); i++) row.push_back(f[i]);
  return row;
}
// everything the parser returns; header goes first when asked for
Rows parse(Chooser &c, CsvParser *p, bool header, bool ask, size_t limit, bool *header_null) {
  Rows rows;
  *header_null = false;
  if (header && ask) {
    const CsvRow *h = CsvParser_getHeader(p);
    if (h)
      rows.push_back(take(const_cast<CsvRow *>(h)));
    else
      *header_null = true;
    const CsvRow *again = CsvParser_getHeader(p);
    c.op();
    if (h) MC_CHECK(again == h, "header", "asking for the header again gives another one");
  }
  for (;;) {
    CsvRow *r = CsvParser_getRow(p);
    c.op();
    if (!r) break;
    rows.push_back(take(r));
    CsvParser_destroy_row(r);
    MC_CHECK(rows.size() <= limit, "termination", "more than %zu rows", limit);
  }
  MC_CHECK(CsvParser_getErrorMessage(p) != nullptr, "message", "no message at the end");
  for (int i = 0; i < 2; i++) {
    c.op();
    CsvRow *r = CsvParser_getRow(p);
    MC_CHECK(r == nullptr, "end", "a row after the end: %s", show(Rows{take(r)}).c_str());
  }
  if (header && !ask) {
    const CsvRow *h = CsvParser_getHeader(p);
    if (h)
      rows.insert(rows.begin(), take(const_cast<CsvRow *>(h)));
    else
      *header_null = true;
  }
  return rows;
}
struct Source {
  bool file = false, header = false, ask = false;
};
Rows parse_text(Chooser &c, const std::string &text, const char *delim, const Source &s) {
  CsvParser *p;
  if (s.file) {
    std::string f = c.scratch() + "/t.csv";
    mc::write_file(f, text);
    p = CsvParser_new(f.c_str(), delim, s.header);
  } else {
    p = CsvParser_new_from_string(text.c_str(), delim, s.header);
  }
  bool hn;
  Rows r = parse(c, p, s.header, s.ask, text.size() + 2, &hn);
  CsvParser_destroy(p);
  return r;
}
Source choose_source(Chooser &c) {
  Source s;
  s.file = c.flip("file");
  s.header = c.flip("header");
  if (s.header) s.ask = c.flip("ask");
  return s;
}
uint64_t fp(const Rows &r) { return mc::hash_str(show(r)); }

bool bare_possible(const std::string &f, char delim) {
  for (char ch : f)
    if (ch == delim || ch == '"' || ch == '\n') return false;
  return true;
}
std::string quoted(const std::string &f) {
  std::string r = "\"";
  for (char ch : f) {
    if (ch == '"') r += '"';
    r += ch;
  }
  return r + "\"";
}
// renders rows as text, choosing quoting and line ends
std::string render(Chooser &c, const Rows &rows, char delim, bool each_end) {
  std::string t;
  int style = each_end ? 0 : c.choose(2, "ends");
  for (size_t i = 0; i < rows.size(); i++) {
    std::string line;
    for (size_t k = 0; k < rows[i].size(); k++) {
      if (k) line += delim;
      bool bare = bare_possible(rows[i][k], delim);
      if (bare && c.flip("quoted")) bare = false;
      line += bare ? rows[i][k] : quoted(rows[i][k]);
    }
    bool last = i + 1 == rows.size();
    int end = each_end ? c.choose(last ? 3 : 2, "end") : last ? c.choose(3, "end") : style;
    if (end == 2 && line.empty()) c.skip();  // nothing at all is left of this row
    t += line + (end == 0 ? "\n" : end == 1 ? "\r\n" : "");
  }
  return t;
}
std::string choose_string(Chooser &c, const std::string &alphabet, int maxlen) {
  int len = c.choose(maxlen + 1, "length");
  std::string s;
  for (int i = 0; i < len; i++) s += alphabet[(size_t)c.choose((int)alphabet.size(), "char")];
  return s;
}
void expect(Chooser &c, const Rows &got, const Rows &want, const std::string &text) {
  c.op(1 + want.size());
  c.state(fp(got));
  MC_CHECK(got == want, "rows", "text '%s'\nread as %s\ninstead of %s", show(text).c_str(), show(got).c_str(), show(want).c_str());
}

// ---- datasets
using Bits = std::vector<bool>;
struct Model {
  std::map<Bits, uintmax_t> rows;  // bit k is variable k+1
  uintmax_t size = 0;
  uint32_t vars = 0;
};
void compare(Chooser &c, const BinaryData &d, const Model &m, const char *when) {
  c.op(3 + m.rows.size());
  MC_CHECK(d.data_size() == m.size, "size", "%s: %ju rows instead of %ju", when, d.data_size(), m.size);
  MC_CHECK(d.variable_size() == m.vars, "variables", "%s: %u variables instead of %u", when, d.variable_size(), m.vars);
  MC_CHECK(d.data().size() == m.rows.size(), "data", "%s: %zu different rows instead of %zu", when, d.data().size(), m.rows.size());
  for (auto &e : d.data()) {
    Bits b(m.vars);
    size_t set = 0;
    for (size_t i = 0; i < m.vars; i++) b[i] = e.first[i + 1], set += b[i];
    MC_CHECK(e.first.count() == set, "data", "%s: a row has a variable outside 1..%u", when, m.vars);
    auto it = m.rows.find(b);
    MC_CHECK(it != m.rows.end(), "data", "%s: a row that is not there", when);
    MC_CHECK(it->second == e.second, "data", "%s: a row counted %ju times instead of %ju", when, e.second, it->second);
  }
}
uint64_t fp(const Model &m) {
  uint64_t h = mc::mix(m.size, m.vars);
  for (auto &r : m.rows) {
    for (bool b : r.first) h = mc::mix(h, b);
    h = mc::mix(h, r.second);
  }
  return h;
}
std::string describe(const Model &m) {
  std::string s = std::to_string(m.vars) + " variables";
  if (m.vars > 40) return s;
  for (auto &r : m.rows) {
    s += " ";
    for (bool b : r.first) s += b ? '1' : '0';
    s += "x" + std::to_string(r.second);
  }
  return s;
}
void add(Model &m, const Bits &b, uintmax_t k = 1) { m.rows[b] += k, m.size += k; }
Model table(const std::vector<Bits> &rows) {
  Model m;
  for (auto &r : rows) m.vars = (uint32_t)r.size(), add(m, r);
  return m;
}
// rows as text in one of several styles
std::string data_text(const std::vector<Bits> &rows, int style) {
  static const char *one[] = {"1", "\"1\"", "2", " 1", "01"}, *zero[] = {"0", "\"0\"", "0", " 0", "00"};
  std::string t;
  for (size_t i = 0; i < rows.size(); i++) {
    for (size_t k = 0; k < rows[i].size(); k++) t += std::string(k ? "," : "") + (rows[i][k] ? one : zero)[style % 5];
    if (i + 1 < rows.size() || style % 3 != 2) t += style % 2 ? "\r\n" : "\n";
  }
  return t;
}
void write_and_read(Chooser &c, BinaryData &d, const Model &m) {
  std::string f = c.scratch() + "/w.csv";
  d.WriteFile(f.c_str());
  compare(c, d, m, "after writing");
  auto e = std::make_unique<BinaryData>();
  e->ReadFile(f.c_str());
  Model w = m;
  if (m.size == 0) w.vars = 0;
  compare(c, *e, w, "written and read back");
}
}  // namespace

void mc::register_scenarios(bool thorough) {
  // any bytes: terminates within its memory; a string and a file read alike
  mc::add("bytes", [=](Chooser &c) {
    static const std::string alphabet("a,\"\n\r\0\xff", 7);
    std::string t = choose_string(c, alphabet, thorough ? 7 : 6);
    Source s;
    s.header = c.flip("header");
    s.ask = s.header;
    c.describe("bytes '" + show(t) + "'" + (s.header ? " with header" : ""));
    s.file = true;
    Rows f = parse_text(c, t, ",", s);
    c.state(fp(f));
    if (t.find('\0') == std::string::npos) {
      s.file = false;
      Rows g = parse_text(c, t, ",", s);
      c.op();
      MC_CHECK(f == g, "source", "text '%s'\nfrom a file  %s\nfrom a string %s", show(t).c_str(), show(f).c_str(), show(g).c_str());
    }
  });
  // one field, every content
  mc::add("content", [=](Chooser &c) {
    static const char *delims[] = {",", ";", "\t", "a", "::", nullptr};
    int k = c.choose(6, "delimiter");
    char d = delims[k] ? delims[k][0] : ',';
    Row row{choose_string(c, std::string("x\"\n") + d, thorough ? 6 : 4)};
    int place = c.choose(4, "place");  // alone, first, last, middle
    if (place == 1 || place == 3) row.push_back("z");
    if (place == 2 || place == 3) row.insert(row.begin(), "y");
    Rows rows{row};
    Source s = choose_source(c);
    std::string t = render(c, rows, d, true);
    c.describe("text '" + show(t) + "' delimiter " + show(std::string(1, d)));
    expect(c, parse_text(c, t, delims[k], s), rows, t);
  });
  // several rows and fields
  mc::add("rows", [=](Chooser &c) {
    static const std::vector<std::string> contents{"", "b", "\"", ",", "\n", "q\"r", "\",\n", " "};
    int nrows = 1 + c.choose(2, "rows");
    Rows rows;
    for (int i = 0; i < nrows; i++) {
      int nf = 1 + c.choose(nrows == 1 ? 3 : 2, "fields");
      Row r;
      for (int k = 0; k < nf; k++) r.push_back(c.pick(contents, "content"));
      rows.push_back(r);
    }
    Source s = choose_source(c);
    if (s.file && !thorough && nrows == 2 && s.header) c.skip();
    std::string t = render(c, rows, ',', thorough);
    c.describe("text '" + show(t) + "'");
    expect(c, parse_text(c, t, ",", s), rows, t);
  });
  // sizes of fields, rows and texts
  mc::add("sizes", [=](Chooser &c) {
    int kind = c.choose(5, "kind");
    Rows rows;
    if (kind <= 1) {  // long fields, one after the other
      static const std::vector<int> second{0, 1, 62, 63, 64, 65, 127, 200};
      int len = c.choose(thorough ? 1100 : 300, "length"), other = c.pick(second, "second");
      auto body = [&](int l) {
        std::string f;
        for (int i = 0; i < l; i++) f += kind == 0 ? (char)('a' + i % 26) : (i % 3 == 0 ? '"' : i % 3 == 1 ? ',' : '\n');
        return f;
      };
      rows = {{body(len), body(other)}, {body(other)}};
      if (other == 0) rows.pop_back();
    } else if (kind == 2) {  // only quotes
      int len = c.choose(thorough ? 600 : 200, "length");
      rows = {{std::string((size_t)len, '"'), "x"}};
    } else if (kind == 3) {  // many fields
      int nf = 1 + c.choose(thorough ? 700 : 300, "fields");
      Row r;
      for (int i = 0; i < nf; i++) r.push_back(i % 5 == 4 ? "" : std::to_string(i));
      rows = {r, {"last"}};
    } else {  // many rows
      int nr = 1 + c.choose(thorough ? 700 : 200, "rows");
      for (int i = 0; i < nr; i++) rows.push_back({std::to_string(i), i % 3 ? "x" : ""});
    }
    Source s;
    s.file = c.flip("file");
    bool crlf = c.flip("crlf"), end = c.flip("end"), q = c.flip("quoted");
    std::string t;
    for (size_t i = 0; i < rows.size(); i++) {
      for (size_t k = 0; k < rows[i].size(); k++) t += (k ? "," : "") + (q || !bare_possible(rows[i][k], ',') ? quoted(rows[i][k]) : rows[i][k]);
      if (end || i + 1 < rows.size()) t += crlf ? "\r\n" : "\n";
    }
    c.describe("text '" + show(t) + "'");
    expect(c, parse_text(c, t, ",", s), rows, t);
  });
  // what cannot be parsed at all
  mc::add("refused", [=](Chooser &c) {
    int kind = c.choose(6, "kind");
    CsvParser *p = nullptr;
    if (kind < 4) {
      static const char *bad[] = {"\n", "\r", "\"", ""};
      std::string f = c.scratch() + "/t.csv";
      mc::write_file(f, "a,b\n");
      p = c.flip("file") ? CsvParser_new(f.c_str(), bad[kind], 0) : CsvParser_new_from_string("a,b\n", bad[kind], 0);
    } else if (kind == 4) {
      p = c.flip("file") ? CsvParser_new(nullptr, ",", 0) : CsvParser_new_from_string(nullptr, ",", 0);
    } else {  // missing files with names of any length, and directories
      std::string name = c.scratch();
      int len = c.choose(thorough ? 60 : 45, "length") * 64, before = (int)name.size();
      if (len) {
        while ((int)name.size() < before + len) name += "/" + std::string(63, 'm');
      }
      p = CsvParser_new(name.c_str(), ",", c.flip("header"));
    }
    c.describef("kind %d", kind);
    for (int i = 0; i < 2; i++) {
      c.op();
      CsvRow *r = CsvParser_getRow(p);
      MC_CHECK(r == nullptr, "refused", "a row although nothing can be read");
      MC_CHECK(CsvParser_getErrorMessage(p) != nullptr, "refused", "no message although nothing can be read");
    }
    c.state(mc::hash_str(kind == 5 ? "missing" : CsvParser_getErrorMessage(p)));
    CsvParser_destroy(p);
  });
  // every small table of data
  mc::add("tables", [=](Chooser &c) {
    int n = 1 + c.choose(3, "columns"), m = c.choose(n == 3 ? (thorough ? 5 : 4) : 5, "rows");
    std::vector<Bits> rows((size_t)m, Bits((size_t)n));
    for (auto &r : rows) {
      int x = c.choose(1 << n, "row");
      for (int k = 0; k < n; k++) r[(size_t)k] = (x >> k) & 1;
    }
    int style = c.choose(30, "style");
    std::string f = c.scratch() + "/d.csv", t = data_text(rows, style);
    mc::write_file(f, t);
    Model model = table(rows);
    c.describe("text '" + show(t) + "'");
    auto d = std::make_unique<BinaryData>();
    d->ReadFile(f.c_str());
    c.state(fp(model));
    compare(c, *d, model, "loaded");
    if (model.vars) write_and_read(c, *d, model);
  });
  // wide rows and many rows
  mc::add("wide", [=](Chooser &c) {
    static const std::vector<int> huge{1000, 4096, 65534, 65535};
    int n = 1 + c.choose(thorough ? 400 : 200, "columns");
    bool big = n == 1 && c.flip("huge");
    if (big) n = c.pick(huge, "columns");
    int pattern = c.choose(4, "pattern"), copies = big ? 1 : 1 + c.choose(3, "copies") * 50;
    if (copies > 1 && n > 70) c.skip();
    bool huge_row = n > 60000 && !thorough;  // one of each is enough
    if (huge_row && (pattern || n % 2 == 0)) c.skip();
    std::vector<Bits> rows;
    for (int i = 0; i < (huge_row ? 1 : copies + 1); i++) {
      Bits b((size_t)n);
      for (int k = 0; k < n; k++) b[(size_t)k] = pattern == 0 ? k == n - 1 : pattern == 1 ? k == 0 : pattern == 2 ? k % 2 == i % 2 : (k + i) % 3 == 0;
      rows.push_back(b);
    }
    std::string f = c.scratch() + "/d.csv", t = data_text(rows, pattern);
    mc::write_file(f, t);
    Model model = table(rows);
    c.describef("%d columns, %d rows, pattern %d", n, copies + 1, pattern);
    auto d = std::make_unique<BinaryData>();
    d->ReadFile(f.c_str());
    c.state(fp(model));
    compare(c, *d, model, "loaded");
    if (!huge_row) write_and_read(c, *d, model);
  });
  // the same row over and over
  mc::add("repeated", [=](Chooser &c) {
    static const std::vector<int> times{1, 2, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 65534, 65535, 65536, 65537, 131073};
    int n = c.pick(times, "times"), other = c.choose(4, "other row");  // none, before, in the middle, after
    bool by_file = c.flip("file"), set = c.flip("value");
    if (!thorough && n > 60000 && (n % 2 == 0 || other % 2 || set)) c.skip();
    std::vector<Bits> rows;
    for (int i = 0; i < n; i++) {
      if ((other == 1 && i == 0) || (other == 2 && i == n / 2)) rows.push_back({!set, set});
      rows.push_back({set, set});
    }
    if (other == 3) rows.push_back({!set, set});
    Model model = table(rows);
    c.describe(describe(model));
    auto d = std::make_unique<BinaryData>();
    if (by_file) {
      std::string f = c.scratch() + "/d.csv";
      mc::write_file(f, data_text(rows, 0));
      d->ReadFile(f.c_str());
    } else {
      d->set_variable_size(2);
      auto r = std::make_unique<std::bitset<MAX_VAR>>();
      for (auto &b : rows) {
        r->reset();
        for (size_t k = 0; k < 2; k++) r->set(k + 1, b[k]);
        d->AddRecord(*r);
      }
    }
    c.state(fp(model));
    compare(c, *d, model, "loaded");
    write_and_read(c, *d, model);
  });
  // histories of one object
  mc::add("histories", [=](Chooser &c) {
    static const std::vector<std::vector<Bits>> files{
        {{1, 0}, {0, 0}, {1, 0}}, {{0, 1, 1}}, {{1}, {1}, {0}, {1}}, {}, {{1, 1}}};
    static const char *documents[] = {"{\"variable_size\":2,\"data\":[[1],[],[1],[2]]}", "{\"variable_size\":3,\"data\":[]}"};
    std::string what;
    std::unique_ptr<BinaryData> d;
    Model m;
    int origin = c.choose(4, "origin");
    alignas(BinaryData) static char storage[sizeof(BinaryData)];
    BinaryData *placed = nullptr;
    if (origin == 0) {
      d = std::make_unique<BinaryData>();
    } else if (origin == 1) {  // on memory that held something else
      std::fill(storage, storage + sizeof storage, (char)0xa5);
      placed = new (storage) BinaryData;
    } else {
      std::string f = c.scratch() + "/d.json";
      mc::write_file(f, documents[origin - 2]);
      d.reset(BinaryData::ReadSparseDataJsonFile(f.c_str()));
      MC_CHECK(d != nullptr, "json", "no dataset");
      m.vars = origin == 2 ? 2 : 3;
      if (origin == 2) add(m, {1, 0}, 2), add(m, {0, 0}), add(m, {0, 1});
    }
    BinaryData &x = placed ? *placed : *d;
    what = "origin " + std::to_string(origin);
    compare(c, x, m, "at the beginning");
    int depth = thorough ? 5 : 4;
    for (int i = 0; i < depth; i++) {
      int op = c.choose(10, "operation");
      if (op == 9) break;
      if (op < 5) {
        std::string f = c.scratch() + "/h.csv";
        mc::write_file(f, data_text(files[(size_t)op], 0));
        x.ReadFile(f.c_str());
        m = table(files[(size_t)op]);
        what += " read" + std::to_string(op);
      } else if (op < 8) {
        Bits b(m.vars);
        if (op == 5 && m.vars == 0) c.skip();
        if (op == 6 && m.vars < 2) c.skip();
        std::bitset<MAX_VAR> *r = new std::bitset<MAX_VAR>;
        if (op == 5) b[0] = true, r->set(1);
        if (op == 6) b[m.vars - 1] = true, r->set(m.vars);
        x.AddRecord(*r);
        delete r;
        add(m, b);
        what += " add" + std::to_string(op);
      } else {
        if (m.size) {
          if (m.vars == 0) c.skip();
          what += " write";
          write_and_read(c, x, m);
        } else {
          if (m.vars) c.skip();  // no smaller number while there are rows
          x.set_variable_size(4);
          m.vars = 4;
          what += " set4";
        }
      }
      c.describe(what + ": " + describe(m));
      c.state(fp(m));
      compare(c, x, m, what.c_str());
    }
    if (placed) placed->~BinaryData();
  });
}
