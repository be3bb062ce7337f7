#include "shim_common.inc"

#include "explorer.h"
#include "shim_explorer.h"

namespace mcshim {
mc::Chooser *chooser = nullptr;
std::vector<int> answers;
static size_t forced_pos = 0;
static bool forced = false;
void begin(mc::Chooser *c) {
  chooser = c;
  answers.clear();
  forced = false;
}
void begin_forced(const std::vector<int> &a) {
  answers = a;
  forced = true;
  forced_pos = 0;
}
int choose(int n, const char *label) {
  if (forced) {
    int a = forced_pos < answers.size() ? answers[forced_pos] : 0;
    forced_pos++;
    return a % n;
  }
  int a = chooser->choose(n, label);
  answers.push_back(a);
  return a;
}
void misuse(const char *what) { mc::fail("library-misuse", "%s", what); }
}  // namespace mcshim
