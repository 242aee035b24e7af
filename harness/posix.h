// The POSIX environment over the file system model.
#pragma once
#include "h.h"
#include "fs.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include "util/env_posix_test_helper.h"
namespace lsmdb {
class EnvPosixTest {
 public:
  static void limits(int fds, int maps) { EnvPosixTestHelper::SetReadOnlyFDLimit(fds); EnvPosixTestHelper::SetReadOnlyMMapLimit(maps); }
};
}
static inline lsmdb::Env* posixEnv(int fds, int maps) {
  fsReset();
  lsmdb::EnvPosixTest::limits(fds, maps);
  return lsmdb::Env::Default();
}
static inline void faults(uint32_t mask, int budget, int interrupts = 0, int shorts = 0) {
  g_fs.faultMask = mask;
  g_fs.faultBudget = budget;
  g_fs.interrupts = interrupts;
  g_fs.shortBudget = shorts;
}
static inline void noFaults() { faults(0, 0); }
// does the status carry the file's name and the system's message for e, with the kind that belongs to it?
static inline int statusTells(const lsmdb::Status& s, const char* name, int e) {
  std::string t = s.ToString(), m = fsErrText(e);
  All ok;
  ok.that(s.IsNotFound() == (e == 2));
  ok.that(s.IsIOError() == (e != 2));
  size_t n = strlen(name), at = t.find(name);
  if (at == std::string::npos || t.size() < m.size() || t.size() - m.size() < at + n) return 0;
  ok.that(sameBytes(t.data() + t.size() - m.size(), m.data(), m.size()));
  return ok.ok;
}
