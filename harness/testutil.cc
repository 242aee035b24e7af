// C36: generated test data and the environment that injects errors.
#include "util/test_util.cc"
#include "h.h"
#include "stubenv.h"
#include "helpers/memenv/memenv.h"
#include <memory>
using namespace lsmdb;
namespace lsmdb { namespace test { Slice RandomString(Random* rnd, int len, std::string* dst); } }

// The generator stands for any: its k-th number is arbitrary within its range, and the same for equal states (C09 checks
// the real one). With g_walk it is the real sequence, computed plainly.
static const int kMost = 2100;
static uint32_t g_number[kMost];
static int g_numbers;
static bool g_walk;
static struct { void* who; int at; uint32_t state; } g_gen[2];
extern "C" uint32_t lsxo__ZN5lsmdb6Random4NextEv(void* r) {
  int k = 0;
  while (k < 2 && g_gen[k].who && g_gen[k].who != r) k++;
  if (k == 2) lsx_fail("unsupported", "too many generators");
  g_gen[k].who = r;
  if (g_walk) {
    if (!g_gen[k].state) memcpy(&g_gen[k].state, r, 4);
    return g_gen[k].state = (uint32_t)((uint64_t)g_gen[k].state * 16807 % 2147483647);
  }
  const int i = g_gen[k].at++;
  if (i == kMost) lsx_fail("unsupported", "too many random numbers");
  if (i == g_numbers) {
    g_number[i] = (uint32_t)lsx_sym("number", 31);
    lsx_assume((int)(g_number[i] >= 1) & (int)(g_number[i] < 2147483647));
    g_numbers++;
  }
  return g_number[i];
}
static const char kKeyBytes[10] = {'\0', '\1', 'a', 'b', 'c', 'd', 'e', '\xfd', '\xfe', '\xff'};
extern "C" void c36_strings() {
  static const uint32_t kLen[] = {0, 1, 2, 3, 15, 16, 17, 100, 256, 1030};
  const uint32_t n = kLen[lsx_choose((uint32_t)lsx_param("lens", 8), "length")];
  Random a(301), b(301);
  if (lsx_choose(2, "which")) {
    std::string s = "old contents that are longer", t;
    Slice r = test::RandomString(&a, (int)n, &s);
    REQUIRE(s.size() == n && r.size() == n && r.data() == s.data(), "a random string has the length asked for, in the string given");
    All ok;
    for (uint32_t i = 0; i < n; i++) ok.that((int)(s[i] >= ' ') & (int)(s[i] <= '~'));
    REQUIRE(ok.ok, "a random string is printable");
    test::RandomString(&b, (int)n, &t);
    REQUIRE(t.size() == n && sameBytes(s.data(), t.data(), n), "equal generators give equal data");
    lsx_cover("string");
  } else {
    std::string s = test::RandomKey(&a, (int)n), t = test::RandomKey(&b, (int)n);
    REQUIRE(s.size() == n, "a random key has the length asked for");
    All ok;
    for (uint32_t i = 0; i < n; i++) {
      int one = 0;
      for (char c : kKeyBytes) one = one | (int)(s[i] == c);
      ok.that(one);
    }
    REQUIRE(ok.ok, "a random key consists of the characters for keys");
    REQUIRE(t.size() == n && sameBytes(s.data(), t.data(), n), "equal generators give equal data");
    lsx_cover("key");
  }
  REQUIRE(a.Next() == b.Next(), "equal generators give equal data");
}
// every character can occur
extern "C" void c36_variety() {
  g_walk = true;
  Random r(301 + lsx_choose(3, "seed"));
  const uint32_t n = (uint32_t)lsx_param("n", 4000);
  std::string s;
  test::RandomString(&r, (int)n, &s);
  std::string k = test::RandomKey(&r, (int)n / 8);
  REQUIRE(s.size() == n && k.size() == n / 8, "data has the length asked for");
  bool seen[256] = {false}, key[256] = {false};
  for (char c : s) seen[(unsigned char)c] = true;
  for (char c : k) key[(unsigned char)c] = true;
  for (int i = ' '; i <= '~'; i++) REQUIRE(seen[i], "every printable character occurs in long random strings");
  for (char c : kKeyBytes) REQUIRE(key[(unsigned char)c], "every character for keys occurs in long random keys");
  lsx_cover("end");
}
extern "C" void c36_compressible() {
  static const double kPart[] = {0.5, 0.0, 0.25, 1.0, 0.1, 0.01};
  static const uint32_t kLen[] = {0, 1, 2, 3, 4, 5, 8, 10, 17, 100, 1000};
  const uint32_t n = kLen[lsx_choose((uint32_t)lsx_param("lens", 9), "length")];
  const double part = kPart[lsx_choose((uint32_t)lsx_param("parts", 6), "part")];
  Random a(301), b(301);
  std::string s = "old", t;
  Slice r = test::CompressibleString(&a, part, n, &s);
  REQUIRE(s.size() == n && r.size() == n && r.data() == s.data(), "a compressible string has the length asked for, in the string given");
  int raw = (int)(n * part);
  if (raw < 1) raw = 1;
  All ok;
  for (uint32_t i = 0; i < n; i++) {
    ok.that((int)(s[i] >= ' ') & (int)(s[i] <= '~'));
    if (i >= (uint32_t)raw) ok.that(s[i] == s[i - raw]);
  }
  REQUIRE(ok.ok, "a compressible string repeats a printable piece");
  test::CompressibleString(&b, part, n, &t);
  REQUIRE(t.size() == n && sameBytes(s.data(), t.data(), n), "equal generators give equal data");
  lsx_cover("end");
}
// the environment that fails on demand, against the one it stands for
extern "C" void c36_errors() {
  test::ErrorEnv env;
  REQUIRE(!env.writable_file_error_ && env.num_writable_file_errors_ == 0, "errors have to be asked for");
  const uint32_t ops = (uint32_t)lsx_param("ops", 3);
  bool there[2] = {false, false};
  uint64_t size[2] = {0, 0};
  int errors = 0;
  for (uint32_t i = 0; i < ops; i++) {
    const uint32_t op = lsx_choose(3, "op");
    if (op == 2) { env.writable_file_error_ = !env.writable_file_error_; continue; }
    const uint32_t f = lsx_choose(2, "file");
    const char* name = f ? "/two" : "/one";
    WritableFile* w = (WritableFile*)&env;
    Status s = op ? env.NewAppendableFile(name, &w) : env.NewWritableFile(name, &w);
    if (env.writable_file_error_) {
      errors++;
      REQUIRE(s.IsIOError() && !w, "an injected error is an I/O error and gives no file");
      REQUIRE(s.ToString().find(name) != std::string::npos, "an injected error names the file");
      lsx_cover("error");
    } else {
      REQUIRE(s.ok() && w, "a file can be opened");
      if (!op) size[f] = 0;
      there[f] = true;
      REQUIRE(w->Append("abc").ok() && w->Close().ok(), "a file can be written");
      size[f] += 3;
      delete w;
      lsx_cover("no error");
    }
    REQUIRE(env.num_writable_file_errors_ == errors, "injected errors are counted");
    for (int k = 0; k < 2; k++) {
      const char* nm = k ? "/two" : "/one";
      uint64_t n = 77;
      REQUIRE(env.FileExists(nm) == there[k], "an injected error changes nothing");
      if (there[k]) REQUIRE(env.GetFileSize(nm, &n).ok() && n == size[k], "an injected error changes nothing");
    }
  }
}
