// C10, C11: arena allocation.
#include "h.h"
#include "util/arena.h"
using namespace lsmdb;

// One request after another, sizes symbolic; `arena` checks per property.
static void history(bool accounting) {
  const int k = (int)lsx_param("ops", 3);
  const uint32_t maxSize = (uint32_t)lsx_param("max", 10000);
  int64_t before = lsx_live_allocs();
  {
    Arena a;
    if (accounting) REQUIRE(a.MemoryUsage() == 0, "a fresh arena uses no memory");
    char* p[8];
    uint64_t n[8];
    uint64_t sum = 0, usage = 0;
    uint64_t bytes0 = lsx_arr_total(0), count0 = lsx_arr_total(1);
    for (int i = 0; i < k; i++) {
      n[i] = (uint32_t)lsx_sym("n", 16);
      lsx_assume((n[i] >= 1) & (n[i] <= maxSize));
      int aligned = (int)lsx_choose(2, "aligned");
      uint64_t c0 = lsx_arr_total(1), b0 = lsx_arr_total(0);
      p[i] = aligned ? a.AllocateAligned(n[i]) : a.Allocate(n[i]);
      if (!accounting) {
        lsx_check_range(p[i], n[i]);
        for (int j = 0; j < i; j++)
          REQUIRE(((uintptr_t)p[i] + n[i] <= (uintptr_t)p[j]) | ((uintptr_t)p[j] + n[j] <= (uintptr_t)p[i]), "two blocks of an arena do not overlap");
      } else {
        if (aligned) REQUIRE(((uintptr_t)p[i] & (sizeof(void*) - 1)) == 0, "an aligned request returns memory aligned for a pointer");
        uint64_t u = a.MemoryUsage(), blocks = lsx_arr_total(1) - c0, got = lsx_arr_total(0) - b0;
        sum += n[i];
        REQUIRE(u >= usage, "memory usage never decreases");
        REQUIRE(u >= sum, "memory usage covers the bytes handed out");
        REQUIRE(u == lsx_arr_total(0) - bytes0 + (lsx_arr_total(1) - count0) * sizeof(char*), "memory usage is what the system gave plus a pointer for each block");
        REQUIRE(blocks <= 1, "a request obtains at most one block");
        if (blocks) {
          REQUIRE((n[i] > 1024) | (got == 4096), "a small request starts a block of 4096 bytes");
          REQUIRE((n[i] <= 1024) | (got == n[i]), "a large request gets a block of its own size");
          lsx_cover("block");
        } else lsx_cover("shared");
        usage = u;
      }
    }
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "destroying the arena frees everything");
}
extern "C" void c10_disjoint() { history(false); }
extern "C" void c11_accounting() { history(true); }

// Requests too large for 16, 31 and 32 bits, between small ones.
static void huge(bool accounting) {
  static const uint64_t sizes[] = {65536, 1ull << 32, (1ull << 31) - 1, (1ull << 32) + 24, 65535, 65537, 65544, 131072 + 100, (1 << 24) + 5, 1ull << 31, (1ull << 32) - 1, 5ull << 30, (1ull << 33) + 9};
  const uint32_t ns = (uint32_t)lsx_param("sizes", 6), k = (uint32_t)lsx_param("ops", 2);
  int64_t before = lsx_live_allocs();
  {
    Arena a;
    uint64_t bytes0 = lsx_arr_total(0), count0 = lsx_arr_total(1), sum = 0, usage = 0;
    char* p[16];
    uint64_t n[16];
    uint32_t m = 0;
    for (uint32_t i = 0; i < 2 * k + 1; i++) {
      n[m] = i & 1 ? sizes[lsx_choose(ns, "size")] : 3 + i;
      const bool aligned = i & 1 ? lsx_choose(2, "aligned") != 0 : (i & 2) != 0;
      char* q = p[m] = aligned ? a.AllocateAligned(n[m]) : a.Allocate(n[m]);
      if (aligned) REQUIRE(((uintptr_t)q & (sizeof(void*) - 1)) == 0, "an aligned request returns memory aligned for a pointer");
      lsx_check_range(q, n[m]);
      for (uint32_t j = 0; j < m; j++) REQUIRE((uintptr_t)q + n[m] <= (uintptr_t)p[j] || (uintptr_t)p[j] + n[j] <= (uintptr_t)q, "two blocks of an arena do not overlap");
      q[0] = (char)(2 * i + 1);
      q[n[m] - 1] = (char)(2 * i + 2);
      if (accounting) {
        uint64_t u = a.MemoryUsage();
        sum += n[m];
        REQUIRE(u >= usage, "memory usage never decreases");
        REQUIRE(u >= sum, "memory usage covers the bytes handed out");
        REQUIRE(u == lsx_arr_total(0) - bytes0 + (lsx_arr_total(1) - count0) * sizeof(char*), "memory usage is what the system gave plus a pointer for each block");
        usage = u;
      }
      m++;
    }
    for (uint32_t i = 0; i < m; i++) REQUIRE(p[i][0] == (char)(2 * i + 1) && p[i][n[i] - 1] == (char)(2 * i + 2), "every block keeps its own contents");
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "destroying the arena frees everything");
}
extern "C" void c10_huge() { huge(false); }
extern "C" void c11_huge() { huge(true); }

// Sizes at the boundaries of blocks and quarter blocks; contents are kept.
static const uint32_t kSizes[] = {1, 8, 1024, 1025, 7, 9, 1023, 2048, 4095, 4096, 4097, 5000, 3072, 13};
extern "C" void c10_contents() {
  const int k = (int)lsx_param("ops", 3);
  const uint32_t ns = (uint32_t)lsx_param("sizes", 8);
  int64_t before = lsx_live_allocs();
  {
    Arena a;
    char* p[12];
    uint32_t n[12];
    char want[12];
    int m = 0;
    // start inside a block: earlier small requests
    static const uint32_t pre[] = {0, 1, 1016, 1024};
    uint32_t f = pre[lsx_choose((uint32_t)lsx_param("pre", 4), "prefix")];
    if (f) for (int i = 0; i < 3; i++, m++) { p[m] = a.Allocate(n[m] = f); }
    for (int i = 0; i < k; i++, m++) {
      n[m] = kSizes[lsx_choose(ns, "size")];
      p[m] = lsx_choose(2, "aligned") ? a.AllocateAligned(n[m]) : a.Allocate(n[m]);
    }
    for (int i = 0; i < m; i++) {
      want[i] = (char)lsx_sym("fill", 8);
      memset(p[i], want[i], n[i]);
    }
    All ok;
    for (int i = 0; i < m; i++)
      for (uint32_t j = 0; j < n[i]; j += (j + 9 < n[i] && j > 8 ? 5 : 1)) ok.eq((unsigned char)p[i][j], (unsigned char)want[i]);
    REQUIRE(ok.ok, "every block keeps its own contents");
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "destroying the arena frees everything");
}
// Many blocks: the table of blocks grows.
extern "C" void c10_many() {
  int64_t before = lsx_live_allocs();
  {
    Arena a;
    const uint32_t N = (uint32_t)lsx_param("blocks", 20);
    uint32_t n = 2000 + (uint32_t)lsx_choose(2, "size") * 96;
    char** p = new char*[N];
    for (uint32_t i = 0; i < N; i++) {
      p[i] = (i & 1) ? a.AllocateAligned(n) : a.Allocate(i % 3 ? n : 900);
      p[i][0] = (char)i;
    }
    All ok;
    for (uint32_t i = 0; i < N; i++) ok.eq((unsigned char)p[i][0], i & 255);
    delete[] p;
    REQUIRE(ok.ok, "every block keeps its own contents");
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "destroying the arena frees everything");
}
// the usage may be asked for while another thread allocates
static Arena* g_arena;
static uint64_t g_usages[8];
static int g_reads;
static void askUsage(void*) { for (int i = 0; i < g_reads; i++) g_usages[i] = g_arena->MemoryUsage(); }
extern "C" void c11_concurrent() {
  static const uint32_t kAsk[] = {8, 1025, 3000, 5000};
  Arena a;
  g_arena = &a;
  g_reads = (int)lsx_param("reads", 3);
  const uint32_t n = (uint32_t)lsx_param("ops", 3);
  if (lsx_choose(2, "before")) a.Allocate(8);
  uint64_t reached[8];
  reached[0] = a.MemoryUsage();
  const int t = lsx_thread_create(&askUsage, nullptr);
  for (uint32_t i = 0; i < n; i++) {
    const uint32_t k = kAsk[lsx_choose(4, "size")];
    char* p = lsx_choose(2, "aligned") ? a.AllocateAligned(k) : a.Allocate(k);
    p[0] = p[k - 1] = 'x';
    reached[i + 1] = a.MemoryUsage();
  }
  lsx_thread_join(t);
  for (int i = 0; i < g_reads; i++) {
    REQUIRE(g_usages[i] >= reached[0] && g_usages[i] <= reached[n], "the usage another thread sees lies within those reached");
    if (i) REQUIRE(g_usages[i] >= g_usages[i - 1], "the usage another thread sees does not go down");
    if (g_usages[i] > reached[0] && g_usages[i] < reached[n]) lsx_cover("between");
  }
  REQUIRE(a.MemoryUsage() == reached[n], "asking does not change the usage");
  lsx_cover("end");
}
