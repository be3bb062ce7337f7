#pragma once
#include <vector>

#include "explorer.h"
namespace mcshim {
void begin(mc::Chooser *c);                     // answers become choices of this execution
void begin_forced(const std::vector<int> &a);   // fixed answers (0 afterwards)
extern std::vector<int> answers;                // given so far
}  // namespace mcshim
