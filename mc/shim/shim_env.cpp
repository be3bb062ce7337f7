// For stand-alone programs: the answers come from the environment variable MC_ANSWERS ("1,0,2"), 0 when absent.
#include "shim_common.inc"

namespace mcshim {
int choose(int n, const char *) {
  static const char *p = getenv("MC_ANSWERS");
  if (!p || !*p) return 0;
  char *e;
  long a = strtol(p, &e, 10);
  p = *e == ',' ? e + 1 : e;
  return (int)(a % n);
}
void misuse(const char *what) {
  fprintf(stderr, "library misuse: %s\n", what);
  abort();
}
}  // namespace mcshim
