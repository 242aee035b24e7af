// C34: the command-line tool.
#include "h.h"
#include "fs.h"
#define main lsmdbutil_main
#include "db/lsmdb_util.cc"
#undef main
extern "C" void c34_tool() {
  fsReset();
  g_fs.logging = 1;
  const uint32_t argc = lsx_choose((uint32_t)lsx_param("args", 4), "argc");
  const uint32_t max = (uint32_t)lsx_param("len", 5);
  // every argument and the vector itself have exactly their size
  char** argv = new char*[argc + 1];
  char* cmd = nullptr;
  uint32_t n = 0;
  for (uint32_t i = 0; i < argc; i++) {
    uint32_t k = i == 1 ? lsx_choose(max + 4, "len") : 2;
    if (k > max) k = (uint32_t[]){8, 30, 300}[k - max - 1];
    argv[i] = new char[k + 1];
    for (uint32_t j = 0; j < k; j++) if (j >= 12) argv[i][j] = 'p'; else { argv[i][j] = (char)lsx_sym("byte", 8); lsx_assume(argv[i][j] != 0); }
    argv[i][k] = 0;
    if (i == 1) { cmd = argv[i]; n = k; }
  }
  argv[argc] = nullptr;
  int known = cmd && n == 4 ? sameBytes(cmd, "dump", 4) : 0;
  g_fs.console = 0;
  int r = lsmdbutil_main((int)argc, argv);
  REQUIRE((r == 0) == (known != 0), "the tool succeeds exactly for a command it knows");
  REQUIRE(r == 0 || r == 1, "the exit status is 0 or 1");
  REQUIRE((g_fs.console > 0) == (r != 0), "the usage is shown exactly on failure");
  REQUIRE(g_fs.nlog == 0, "the tool changes nothing");
  if (r) lsx_cover("usage"); else lsx_cover("dump");
  for (uint32_t i = 0; i < argc; i++) delete[] argv[i];
  delete[] argv;
}
