// C23  input that is missing or cannot be read
#include "explorer.h"

#include <dlfcn.h>
#include <fcntl.h>
#include <psdd/binary_data.h>
#include <psdd/cnf.h>
#include <psdd/pgm_compiler.h>
#include <psdd/uai_network.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <exception>
#include <memory>

#include "family.h"
#include "files.h"
#include "net.h"
using namespace ref;

// Read errors: the reads of one file fail from the k-th on (the standard library's streams come through here).
static dev_t fail_dev;
static ino_t fail_ino;
static long fail_after = -1, reads_seen;
extern "C" ssize_t read(int fd, void *buf, size_t n) {
  if (fail_after >= 0) {
    struct stat st;
    if (fstat(fd, &st) == 0 && st.st_dev == fail_dev && st.st_ino == fail_ino && reads_seen++ >= fail_after) {
      errno = EIO;
      return -1;
    }
  }
  return syscall(SYS_read, fd, buf, n);
}

namespace {
enum Way { GOOD, MISSING, NO_DIRECTORY, THROUGH_FILE, DIRECTORY, DANGLING, LOOP, TOO_LONG, NO_NAME, READ_ERROR, FORBIDDEN, NO_DESCRIPTOR, WAYS };
const char *way_name[] = {"good", "missing", "no directory", "through a file", "a directory", "dangling link", "link loop", "name too long", "empty name", "read error", "forbidden", "no descriptor left"};

// a name for the file that fails in the given way; content is what a good file holds
std::string name_for(Way w, const std::string &dir, const std::string &file, const std::string &content) {
  std::string good = dir + "/" + file;
  switch (w) {
    case GOOD:
    case FORBIDDEN:
    case NO_DESCRIPTOR:
      unlink(good.c_str());
      mc::write_file(good, content);
      if (w == FORBIDDEN) chmod(good.c_str(), 0);
      return good;
    case MISSING:
      return dir + "/missing_" + file;
    case NO_DIRECTORY:
      return dir + "/nowhere/" + file;
    case THROUGH_FILE:
      mc::write_file(dir + "/plain", content);
      return dir + "/plain/" + file;
    case DIRECTORY:
      mkdir((dir + "/dir_" + file).c_str(), 0755);
      return dir + "/dir_" + file;
    case DANGLING: {
      std::string l = dir + "/dangling_" + file;
      unlink(l.c_str());
      if (symlink((dir + "/gone").c_str(), l.c_str())) abort();
      return l;
    }
    case LOOP: {
      std::string l = dir + "/loop_" + file;
      unlink(l.c_str());
      if (symlink(l.c_str(), l.c_str())) abort();
      return l;
    }
    case TOO_LONG:
      return dir + "/" + std::string(300, 'x');
    case NO_NAME:
      return "";
    case READ_ERROR:
      return "/proc/self/mem";  // opens, and its first read fails
    case WAYS:
      break;
  }
  abort();
}
bool has_message(const mc::ForkResult &r, const std::string &name) {
  std::string all = r.out + r.err, low;
  if (!name.empty() && all.find(name) != std::string::npos) return true;
  for (char ch : all) low += (char)tolower(ch);
  for (const char *w : {"exception", "cannot", "could not", "can't", "fail", "error", "invalid", "no such", "unable", "missing", "not found", "terminate", "not open", "unexpected", "early", "what():"})
    if (low.find(w) != std::string::npos) return true;
  return false;
}
// libsdd leaves a read error without a word; the words are asked for where the sources of the project read
void stopped(const mc::ForkResult &r, const std::string &what, const std::string &name, bool words) {
  MC_CHECK(!r.timeout, "hang", "%s does not end", what.c_str());
  MC_CHECK(!(r.exited && r.code == 0), "continues", "%s ends normally\n%s\n%s", what.c_str(), r.out.substr(0, 1500).c_str(), r.err.substr(0, 500).c_str());
  if (words) MC_CHECK(has_message(r, name), "silent", "%s gives no message (%s %d)\n%s%s", what.c_str(), r.exited ? "exit code" : "signal", r.code, r.out.substr(0, 500).c_str(), r.err.substr(0, 500).c_str());
}
mc::ForkResult guarded(const std::function<int()> &fn) {
  return mc::run_forked([&]() {
    try {
      return fn();
    } catch (const std::exception &e) {
      fprintf(stderr, "exception: %s\n", e.what());
      return 1;
    }
  }, 8);
}
const int kSkip = 77, kWrong = 78;

bool become_nobody() {
  return setgid(65534) == 0 && setuid(65534) == 0;
}
void no_descriptors() {
  int fd = open("/dev/null", O_RDONLY);
  close(fd);
  rlimit rl = {(rlim_t)fd, (rlim_t)fd};
  setrlimit(RLIMIT_NOFILE, &rl);
}

const char *entry_name[] = {"CNF", "BinaryData::ReadFile", "BinaryData::ReadSparseDataJsonFile", "PsddManager::ReadPsddFile", "UaiNetwork::read_file", "PgmCompiler::read_uai_file", "PgmCompiler::init_psdd_manager_from_vtree"};
const int kEntries = 7;

struct Files {
  std::string cnf, csv, json, psdd, vtree, uai;
};
Network small_network() {
  Network g;
  g.n = 2;
  Factor a;
  a.scope = {0, 1};
  a.w = {1, 2, 3, 4};
  g.f = {a};
  return g;
}
Vtree *two_variables() {
  SddLiteral o[] = {1, 2};
  return sdd_vtree_new_with_var_order(2, o, "right");
}
Files contents(int pad) {
  Files f;
  auto comment = [&](const char *p) {
    std::string s;
    for (int i = 0; i < pad; i++) s += std::string(p) + " filler filler filler filler filler filler filler filler\n";
    return s;
  };
  f.cnf = comment("c") + "p cnf 2 2\n1 2 0\n-1 0\n";
  f.csv = "1,0\n";
  for (int i = 0; i < pad * 12; i++) f.csv += i % 3 ? "0,1\n" : "1,1\n";
  f.json = "{\"variable_size\":2,\"data\":[[1],[2]";
  for (int i = 0; i < pad * 12; i++) f.json += ",[1,2]";
  f.json += "]}";
  f.psdd = comment("c") + "psdd 3\nL 0 0 1\nL 1 2 -2\nD 2 1 1 0 1 0\n";
  f.vtree = "vtree 3\nL 0 1\nL 2 2\nI 1 0 2\n";
  f.uai = text(small_network(), 0);
  if (pad) {  // long tables of many lines
    Network g;
    g.n = 9;
    for (int k = 0; k < 3; k++) {
      Factor a;
      for (int v = 0; v < 9; v++) a.scope.push_back((v + k) % 9);
      for (int i = 0; i < 512; i++) a.w.push_back(1 + (i * 7 + k) % 5);
      g.f.push_back(a);
    }
    f.uai = text(g, 1);
  }
  return f;
}
// calls one entry point; kWrong when a good file is not read as it should be
int call(int entry, const char *name, int before, bool good, int pad) {
  switch (entry) {
    case 0: {
      if (before) CNF other(std::vector<std::vector<SddLiteral>>{{1}});
      CNF cnf(name);
      if (good && cnf.clauses() != std::vector<std::vector<SddLiteral>>{{1, 2}, {-1}}) return kWrong;
      return 0;
    }
    case 1: {
      auto d = std::make_unique<BinaryData>();
      if (before) {
        auto r = std::make_unique<std::bitset<MAX_VAR>>();
        r->set(1);
        d->set_variable_size(1);
        d->AddRecord(*r);
      }
      d->ReadFile(name);
      if (good && (d->variable_size() != 2 || d->data_size() != 1 + (uintmax_t)pad * 12)) return kWrong;
      return 0;
    }
    case 2: {
      BinaryData *d = BinaryData::ReadSparseDataJsonFile(name);
      if (!d) return 3;
      if (good && (d->variable_size() != 2 || d->data_size() != 2 + (uintmax_t)pad * 12)) return kWrong;
      delete d;
      return 0;
    }
    case 3: {
      Vtree *v = two_variables();
      PsddManager *m = PsddManager::GetPsddManagerFromVtree(v);
      sdd_vtree_free(v);
      if (before) m->GetTrueNode(m->vtree(), 0);
      PsddNode *p = m->ReadPsddFile(name, 0);
      if (good && (p == nullptr || p->node_type() != DECISION_NODE_TYPE)) return kWrong;
      delete m;
      return 0;
    }
    case 4: {
      UaiNetwork n;
      n.read_file(name);
      if (good && n.params().size() != (pad ? 3u : 1u)) return kWrong;
      return 0;
    }
    case 5: {
      PgmCompiler p(".");
      p.read_uai_file(name);
      return 0;
    }
    default: {
      PgmCompiler p(".");
      p.init_psdd_manager_from_vtree(name);
      if (good && sdd_vtree_var_count(p.psdd_manager()->vtree()) != 2) return kWrong;
      return 0;
    }
  }
}
std::string content_of(const Files &f, int entry) {
  switch (entry) {
    case 0:
      return f.cnf;
    case 1:
      return f.csv;
    case 2:
      return f.json;
    case 3:
      return f.psdd;
    case 6:
      return f.vtree;
    default:
      return f.uai;
  }
}
void open_path(const std::string &scratch) {  // the unprivileged user reaches the scratch directory
  std::string d = scratch;
  for (int i = 0; i < 2 && d.size() > 1; i++) {
    chmod(d.c_str(), 0755);
    d = d.substr(0, d.rfind('/'));
    if (d == "/dev/shm" || d == "/tmp") break;
  }
}
}  // namespace

void mc::register_scenarios(bool thorough) {
  // every way a name can fail at every entry point, whatever was done before
  mc::add("entry points", [=](Chooser &c) {
    int entry = c.choose(kEntries, "entry");
    Way w = (Way)c.choose(WAYS, "way");
    int before = c.choose(2, "before"), pad = c.choose(2, "size") * 200;
    std::string name = name_for(w, c.scratch(), "f", content_of(contents(pad), entry));
    std::string what = std::string(entry_name[entry]) + " on: " + way_name[w];
    c.describe(what + (before ? " after other work" : "") + (pad ? ", large file" : ""));
    if (w == FORBIDDEN) open_path(c.scratch());
    mc::ForkResult r = guarded([&]() {
      if (w == FORBIDDEN) {
        if (!become_nobody()) return kSkip;
        int fd = open(name.c_str(), O_RDONLY);
        if (fd >= 0) return kSkip;  // still allowed to
      }
      if (w == NO_DESCRIPTOR) no_descriptors();
      return call(entry, name.c_str(), before, w == GOOD, pad);
    });
    if (r.exited && r.code == kSkip) c.skip();
    c.op();
    c.state(mc::mix((uint64_t)entry * 100 + (uint64_t)w, (uint64_t)r.code));
    if (w == GOOD) {
      MC_CHECK(r.exited && r.code == 0, "good", "%s ends with %s %d\n%s", what.c_str(), r.exited ? "exit code" : "signal", r.code, r.err.c_str());
      return;
    }
    stopped(r, what, name, !(entry == 6 && w == READ_ERROR));
  });
  // the k-th read of a file fails (entry points that read through the standard streams)
  mc::add("read errors", [=](Chooser &c) {
    static const std::vector<int> entries{0, 2, 3, 4, 5};
    int entry = c.pick(entries, "entry"), pad = 100 + 150 * c.choose(3, "size"), before = c.choose(2, "before");
    int k = c.choose(thorough ? 8 : 5, "read");
    std::string name = name_for(GOOD, c.scratch(), "f", content_of(contents(pad), entry));
    struct stat st;
    if (stat(name.c_str(), &st)) abort();
    // the number of reads the file takes
    mc::ForkResult n = guarded([&]() {
      fail_dev = st.st_dev, fail_ino = st.st_ino, fail_after = 1000000, reads_seen = 0;
      int rc = call(entry, name.c_str(), before, true, pad);
      if (rc) return rc;
      printf("\nreads=%ld\n", reads_seen);
      return 0;
    });
    MC_CHECK(n.exited && n.code == 0, "good", "%s fails on a good file: %d %s", entry_name[entry], n.code, n.err.c_str());
    size_t p = n.out.rfind("reads=");
    long total = p == std::string::npos ? 0 : atol(n.out.c_str() + p + 6);
    if (k >= total) c.skip();
    std::string what = std::string(entry_name[entry]) + " when read " + std::to_string(k + 1) + " of " + std::to_string(total) + " fails";
    c.describe(what);
    mc::ForkResult r = guarded([&]() {
      fail_dev = st.st_dev, fail_ino = st.st_ino, fail_after = k, reads_seen = 0;
      return call(entry, name.c_str(), before, false, pad);
    });
    c.op();
    c.state(mc::mix((uint64_t)entry * 100 + (uint64_t)k, (uint64_t)r.code));
    stopped(r, what, name, true);
  });
  // network files that end early
  mc::add("cut network", [=](Chooser &c) {
    int layout = c.choose(4, "layout"), lines = c.choose(40, "lines");
    Network g = small_network();
    Factor b;
    b.scope = {1};
    b.w = {5, 6};
    g.f.push_back(b);
    std::string t = text(g, layout);
    std::vector<size_t> ends;
    for (size_t i = 0; i < t.size(); i++)
      if (t[i] == '\n') ends.push_back(i + 1);
    size_t last_entry = t.find_last_of("0123456789");
    if (lines >= (int)ends.size() || ends[(size_t)lines] > last_entry) c.skip();
    std::string cut = lines ? t.substr(0, ends[(size_t)lines - 1]) : "";
    std::string f = c.scratch() + "/f";
    mc::write_file(f, cut);
    c.describe("network file " + cut);
    mc::ForkResult r = guarded([&]() {
      UaiNetwork n;
      n.read_file(f.c_str());
      return 0;
    });
    c.op();
    c.state((uint64_t)lines);
    stopped(r, "reading a network file of " + std::to_string(lines) + " lines", f, true);
  });
  // the inference program
  mc::add("inference", [=](Chooser &c) {
    static const std::vector<Way> ways{GOOD, MISSING, NO_DIRECTORY, THROUGH_FILE, DIRECTORY, DANGLING, LOOP, TOO_LONG, NO_NAME, READ_ERROR};
    Files f = contents(0);
    std::string d = c.scratch();
    int evidence = c.choose(3, "evidence");  // none, from a file, from an empty file
    Way wc = evidence == 1 ? c.pick(ways, "cnf") : GOOD, wp = c.pick(ways, "psdd"), wv = c.pick(ways, "vtree");
    int options = c.choose(4, "options");
    std::string cnf = name_for(wc, d, "e.cnf", evidence == 2 ? "" : "c\np cnf 2 1\n1 2 0\n"), psdd = name_for(wp, d, "m.psdd", f.psdd), vtree = name_for(wv, d, "m.vtree", f.vtree);
    std::vector<std::string> av{getenv("MC_PROG_PSDD_INFERENCE")};
    if (options & 1) av.push_back("--mpe_query");
    if (options & 2) av.push_back("--mar_query");
    if (evidence) {
      if (cnf.empty()) {
        av.push_back("--cnf_evid=");
      } else {
        av.push_back("--cnf_evid");
        av.push_back(cnf);
      }
    }
    av.push_back(psdd);
    av.push_back(vtree);
    std::string what = std::string("psdd_inference with model: ") + way_name[wp] + ", vtree: " + way_name[wv] + (evidence ? std::string(", evidence: ") + way_name[wc] : "");
    c.describe(what);
    mc::ForkResult r = mc::run_program(av, d);
    c.op();
    c.state(mc::mix(mc::hash_str(what), (uint64_t)options));
    if (wc == GOOD && wp == GOOD && wv == GOOD) {
      MC_CHECK(r.exited && r.code == 0 && r.out.find("UNSATISFIED") == std::string::npos, "good", "%s ends with %d\n%s", what.c_str(), r.code, r.out.c_str());
      if (options & 1) MC_CHECK(r.out.find("MPE result=") != std::string::npos, "good", "no answer");
      return;
    }
    bool words = !(wv == READ_ERROR && wc == GOOD);
    std::string name = wc != GOOD ? cnf : wv != GOOD ? vtree : psdd;
    stopped(r, what, name, words);
    for (const char *answer : {"UNSATISFIED", "MPE result=", "MAR result="}) MC_CHECK(r.out.find(answer) == std::string::npos, "continues", "%s gives an answer\n%s", what.c_str(), r.out.c_str());
  });
  // the network compiler program
  mc::add("compiler", [=](Chooser &c) {
    static const std::vector<Way> ways{GOOD, MISSING, NO_DIRECTORY, THROUGH_FILE, DIRECTORY, DANGLING, LOOP, TOO_LONG, NO_NAME, READ_ERROR};
    Files f = contents(0);
    std::string d = c.scratch();
    int method = c.choose(4, "method");
    Way wu = c.pick(ways, "uai"), wv = method == 3 ? c.pick(ways, "vtree") : GOOD;
    std::string uai = name_for(wu, d, "n.uai", f.uai), vtree = name_for(wv, d, "n.in", f.vtree);
    static const char *methods[] = {"1", "2", "4"};
    unlink((uai + ".psdd").c_str());
    std::string what = std::string("uai_compiler with network: ") + way_name[wu] + (method == 3 ? std::string(", vtree: ") + way_name[wv] : "");
    c.describe(what);
    setenv("MC_ANSWERS", "", 1);
    mc::ForkResult r = mc::run_program({getenv("MC_PROG_UAI_COMPILER"), uai, method == 3 ? vtree : methods[method], d}, d);
    c.op();
    c.state(mc::hash_str(what));
    if (wu == GOOD && wv == GOOD) {
      MC_CHECK(r.exited && r.code == 0 && access((uai + ".psdd").c_str(), R_OK) == 0, "good", "%s ends with %d\n%s", what.c_str(), r.code, r.out.c_str());
      return;
    }
    stopped(r, what, wu != GOOD ? uai : vtree, !(wv == READ_ERROR && wu == GOOD));
    MC_CHECK(r.out.find("Log Partition") == std::string::npos && (uai.empty() || access((uai + ".psdd").c_str(), F_OK) != 0), "continues", "%s goes on to the end\n%s", what.c_str(), r.out.c_str());
  });
}
