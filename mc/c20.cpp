// C20  sparse JSON datasets
#include "explorer.h"

#include <psdd/binary_data.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>

using mc::Chooser;

namespace {
struct Item {
  const char *text;
  long value;  // 0: not a variable number
};
// variable numbers and everything else that can stand in a list
const std::vector<Item> &items(bool all) {
  static const std::vector<Item> few{{"1", 1}, {"2", 2}, {"0", 0}, {"-1", 0}, {"3", 3}, {"\"1\"", 0}, {"1.5", 0}};
  static const std::vector<Item> many{{"1", 1}, {"2", 2}, {"3", 3}, {"4", 4}, {"0", 0}, {"-1", 0}, {"-2", 0}, {"\"1\"", 0}, {"1.5", 0}, {"0.5", 0}, {"2.25", 0}, {"-0.5", 0}, {"true", 0}, {"false", 0}, {"null", 0}, {"[1]", 0}, {"[]", 0}, {"{\"a\":1}", 0}, {"65535", 65535}, {"65536", 65536}, {"65537", 65537}, {"100000", 100000}, {"4294967295", 4294967295}, {"4294967297", 4294967297}, {"4294967298", 4294967298}, {"9223372036854775807", 9223372036854775807}, {"9223372036854775808", 9223372036854775807}, {"18446744073709551615", 9223372036854775807}, {"18446744073709551617", 0}, {"-4294967295", 0}, {"-9223372036854775808", 0}, {"1e300", 0}};
  return all ? many : few;
}
struct Example {
  std::string text;
  bool list = true;
  std::vector<long> values;
};
Example not_a_list(int k) {
  static const char *t[] = {"1", "\"[1]\"", "null", "true", "{\"0\":1}", "{}"};
  return {t[k], false, {}};
}
std::string key(const std::set<long> &s) {
  std::string k;
  for (long v : s) k += std::to_string(v) + " ";
  return k;
}
// first whole number in a line, -1 without one
long first_number(const std::string &line) {
  size_t i = line.find_first_of("0123456789");
  return i == std::string::npos ? -1 : atol(line.c_str() + i);
}
struct Doc {
  std::string size_text = "2";
  long size = 2;
  bool has_size = true, has_data = true;
  std::vector<Example> data;
  int layout = 0;  // order of the fields, extra fields and blanks
};
std::string text(const Doc &d) {
  std::string nl = d.layout & 2 ? "\n  " : "", data = "[";
  for (size_t i = 0; i < d.data.size(); i++) data += (i ? "," : "") + nl + d.data[i].text;
  data += "]";
  std::vector<std::string> fields;
  if (d.has_size) fields.push_back("\"variable_size\":" + nl + d.size_text);
  if (d.has_data) fields.push_back("\"data\":" + nl + data);
  if (d.layout & 1) std::reverse(fields.begin(), fields.end());
  if (d.layout & 4) fields.insert(fields.begin() + (fields.size() > 1), "\"comment\":{\"data\":[[1]],\"variable_size\":7}");
  std::string s = "{";
  for (size_t i = 0; i < fields.size(); i++) s += (i ? "," : "") + fields[i];
  return s + "}" + (d.layout & 2 ? "\n" : "");
}
// what the reader says about skipped examples is caught through its error stream
void check(Chooser &c, const Doc &d) {
  std::string f = c.scratch() + "/d.json", t = text(d);
  mc::write_file(f, t);
  c.describe(t.size() > 400 ? t.substr(0, 400) + "..." : t);
  std::map<std::string, uintmax_t> want;
  std::vector<long> skipped;
  uintmax_t rows = 0;
  for (size_t i = 0; i < d.data.size(); i++) {
    const Example &e = d.data[i];
    bool ok = e.list;
    std::set<long> s;
    for (long v : e.values) {
      if (v < 1 || v > d.size) ok = false;
      s.insert(v);
    }
    if (ok)
      want[key(s)]++, rows++;
    else
      skipped.push_back((long)i);
  }
  std::string err;
  std::unique_ptr<BinaryData> b;
  {
    static int mem = memfd_create("stderr", 0), saved = dup(2);
    if (ftruncate(mem, 0) != 0) abort();
    lseek(mem, 0, SEEK_SET);
    dup2(mem, 2);
    std::cerr.clear();
    bool thrown = false;
    BinaryData *r = nullptr;
    try {
      r = BinaryData::ReadSparseDataJsonFile(f.c_str());
    } catch (...) {
      thrown = true;
    }
    std::cerr.flush();
    fflush(stderr);
    std::cerr.setstate(std::ios::badbit);
    dup2(saved, 2);
    MC_CHECK(!thrown, "exception", "the reader throws on a valid document %s", t.c_str());
    b.reset(r);
    off_t len = lseek(mem, 0, SEEK_END);
    err.resize((size_t)len);
    if (pread(mem, &err[0], (size_t)len, 0) != len) abort();
  }
  c.op();
  if (!d.has_size || !d.has_data) {
    MC_CHECK(b == nullptr, "fields", "a dataset although a required field is missing: %s", t.c_str());
    return;
  }
  MC_CHECK(b != nullptr, "fields", "no dataset: %s", t.c_str());
  c.op(3 + want.size());
  MC_CHECK(b->variable_size() == (uint32_t)d.size, "variables", "%u variables instead of %ld", b->variable_size(), d.size);
  MC_CHECK(b->data_size() == rows, "size", "%ju records instead of %ju", b->data_size(), rows);
  MC_CHECK(b->data().size() == want.size(), "data", "%zu different records instead of %zu", b->data().size(), want.size());
  uint64_t fp = mc::mix(rows, want.size());
  for (auto &e : b->data()) {
    std::set<long> s;
    for (size_t v = e.first._Find_first(); v < MAX_VAR; v = e.first._Find_next(v)) s.insert((long)v);
    auto it = want.find(key(s));
    MC_CHECK(it != want.end(), "data", "a record {%s} that is not in the document", key(s).c_str());
    MC_CHECK(it->second == e.second, "data", "record {%s} counted %ju times instead of %ju", key(s).c_str(), e.second, it->second);
  }
  for (auto &w : want) fp = mc::mix(fp, mc::hash_str(w.first) + w.second);
  // one line per skipped example, which tells its position
  std::vector<long> said;
  std::istringstream lines(err);
  std::string line;
  while (std::getline(lines, line))
    if (first_number(line) >= 0) said.push_back(first_number(line));
  c.op();
  std::string what;
  for (long v : said) what += std::to_string(v) + " ";
  MC_CHECK(said == skipped, "position", "positions of the skipped examples are given as %sin %s", what.c_str(), t.c_str());
  c.state(fp);
}
Example choose_example(Chooser &c, const std::vector<Item> &alphabet, int maxlen) {
  int len = c.choose(maxlen + 2, "length");
  if (len == maxlen + 1) return not_a_list(c.choose(6, "other"));
  Example e;
  e.text = "[";
  for (int i = 0; i < len; i++) {
    const Item &it = c.pick(alphabet, "item");
    e.text += (i ? "," : "") + std::string(it.text);
    e.values.push_back(it.value);
  }
  e.text += "]";
  return e;
}
}  // namespace

void mc::register_scenarios(bool thorough) {
  // one or two examples, every item that can stand in a list
  mc::add("items", [=](Chooser &c) {
    Doc d;
    d.size = 1 + c.choose(3, "size");
    d.size_text = std::to_string(d.size);
    Example e = choose_example(c, items(true), thorough ? 3 : 2);
    int place = c.choose(3, "place");
    Example good{"[1]", true, {1}};
    if (place != 1) d.data.push_back(good);
    d.data.push_back(e);
    if (place != 0) d.data.push_back(good);
    check(c, d);
  });
  // several examples
  mc::add("examples", [=](Chooser &c) {
    Doc d;
    int m = c.choose(4, "examples");
    for (int i = 0; i < m; i++) d.data.push_back(choose_example(c, items(false), m == 1 ? 3 : m == 2 ? 2 : 1));
    if (m < 3 && thorough) d.layout = c.choose(8, "layout");
    check(c, d);
  });
  // long sequences of valid and invalid examples: positions and counts
  mc::add("sequences", [=](Chooser &c) {
    Doc d;
    int m = 4 + c.choose(thorough ? 5 : 3, "examples");
    for (int i = 0; i < m; i++) {
      static const std::vector<Example> kinds{{"[1]", true, {1}}, {"[2,1]", true, {2, 1}}, {"[3]", true, {3}}, {"0", false, {}}, {"[1,0]", true, {1, 0}}};
      d.data.push_back(c.pick(kinds, "example"));
    }
    check(c, d);
  });
  // the required fields
  mc::add("fields", [=](Chooser &c) {
    Doc d;
    d.layout = c.choose(8, "layout");
    int k = c.choose(8, "size");
    static const char *sizes[] = {"1", "2", "0", "7", "1000", "65535", "\"2\"", "null"};
    d.size_text = sizes[k];
    if (k < 6)
      d.size = atol(sizes[k]);
    else
      d.has_size = false;  // not a number of variables
    int missing = c.choose(4, "missing");
    d.data = {{"[1]", true, {1}}, {"[]", true, {}}, {"[2,1,2]", true, {2, 1, 2}}, {"[65535]", true, {65535}}};
    if (missing & 2) d.has_data = false;
    if (k >= 6) {
      // keep the field in the text, with a value of the wrong type
      std::string f = c.scratch() + "/d.json", t = "{\"variable_size\":" + std::string(sizes[k]) + (missing & 2 ? "" : ",\"data\":[[1]]") + "}";
      mc::write_file(f, t);
      c.describe(t);
      BinaryData *b = nullptr;
      try {
        b = BinaryData::ReadSparseDataJsonFile(f.c_str());
      } catch (...) {
        mc::fail("exception", "the reader throws on %s", t.c_str());
      }
      c.op();
      MC_CHECK(b == nullptr, "fields", "a dataset from %s", t.c_str());
      return;
    }
    if (missing & 1) d.has_size = false;
    check(c, d);
  });
  // documents of another kind
  mc::add("documents", [=](Chooser &c) {
    static const std::vector<const char *> docs{"{}", "[]", "1", "\"variable_size\"", "null", "true", "[\"variable_size\",\"data\"]", "{\"data\":[[1]]}", "{\"variable_size\":2}", "{\"variable_size\":2,\"Data\":[[1]]}", "{\"variable_size\":2,\"data\":1}", "{\"variable_size\":2,\"data\":null}", "{\"variable_size\":2,\"data\":\"[[1]]\"}", "{\"variable_size\":2,\"data\":{\"0\":[1]}}", "{\"variable_size\":-1,\"data\":[[1]]}", "{\"variable_size\":1.5,\"data\":[[1]]}", "{\"variable_size\":[2],\"data\":[[1]]}", "{\"variable_size\":{},\"data\":[[1]]}", "{\"variable_size\":true,\"data\":[[1]]}", "[{\"variable_size\":2,\"data\":[[1]]}]", "{\"x\":{\"variable_size\":2,\"data\":[[1]]}}"};
    std::string t = c.pick(docs, "document"), f = c.scratch() + "/d.json";
    mc::write_file(f, t);
    c.describe(t);
    BinaryData *b = nullptr;
    try {
      b = BinaryData::ReadSparseDataJsonFile(f.c_str());
    } catch (...) {
      mc::fail("exception", "the reader throws on %s", t.c_str());
    }
    c.op();
    c.state(mc::hash_str(t));
    MC_CHECK(b == nullptr, "fields", "a dataset from %s", t.c_str());
  });
  // large documents
  mc::add("large", [=](Chooser &c) {
    Doc d;
    int m = 50 * (1 + c.choose(thorough ? 8 : 4, "examples")), period = 1 + c.choose(7, "period");
    d.size = 1 + c.choose(thorough ? 200 : 80, "size");
    d.size_text = std::to_string(d.size);
    for (int i = 0; i < m; i++) {
      Example e;
      e.text = "[";
      for (int k = 1 + i % period; k <= d.size + (i % 11 == 10); k += period) {
        e.text += (e.values.empty() ? "" : ",") + std::to_string(k);
        e.values.push_back(k);
      }
      e.text += "]";
      d.data.push_back(e);
    }
    check(c, d);
  });
}
