// C33: the synchronisation primitives everything else is built on.
#include "h.h"
#include "port/port.h"
#include "util/mutexlock.h"
using namespace lsmdb;

static port::Mutex* g_mu;
static port::CondVar* g_cv;
static int g_value, g_inside, g_ready, g_woken, g_waiting;
static uint64_t g_data;
static int g_how;
static int section(int x) {
  // nobody else is inside; a plain variable, so that a lock that does not order is a race
  lsx_atomic_begin();
  g_inside++;
  int n = g_inside;
  lsx_atomic_end();
  REQUIRE(n == 1, "one thread at a time holds the mutex");
  int v = g_value;
  lsx_yield(&g_value);
  g_value = v + x;
  lsx_atomic_begin();
  g_inside--;
  lsx_atomic_end();
  return v;
}
static int viaLock(int x) {  // left early or late, the lock is released
  MutexLock l(g_mu);
  if (x == 1) return section(x);
  section(x);
  return 0;
}
struct Part { int n, x; };
static void add(void* p) {
  Part* a = (Part*)p;
  for (int i = 0; i < a->n; i++) {
    if (g_how == 0) { g_mu->Lock(); section(a->x); g_mu->AssertHeld(); g_mu->Unlock(); }
    else viaLock(a->x);
  }
}
extern "C" void c33_mutex() {
  port::Mutex mu;
  g_mu = &mu;
  g_how = (int)lsx_choose(2, "how");
  const int threads = (int)lsx_param("threads", 2), n = (int)lsx_param("rounds", 3);
  Part p[3] = {{n, 1}, {n, 2}, {1, 4}};
  int t[2];
  for (int i = 1; i < threads; i++) t[i - 1] = lsx_thread_create(&add, &p[i]);
  add(&p[0]);
  for (int i = 1; i < threads; i++) lsx_thread_join(t[i - 1]);
  REQUIRE(g_value == 3 * n + (threads > 2 ? 4 : 0), "no update under the mutex is lost");
  lsx_cover("end");
}
// waiters wait until the condition holds, hold the mutex again when they return, and are all woken
static void wait(void*) {
  g_mu->Lock();
  g_waiting++;
  while (!g_ready) {
    g_cv->Wait();
    lsx_atomic_begin();
    REQUIRE(g_inside == 0, "the mutex is held again after waiting");
    lsx_atomic_end();
  }
  REQUIRE(g_data == 77, "what was done before signalling is seen");
  section(1);
  g_woken++;
  g_mu->Unlock();
}
extern "C" void c33_wait() {
  port::Mutex mu;
  port::CondVar cv(&mu);
  g_mu = &mu;
  g_cv = &cv;
  const int waiters = (int)lsx_param("waiters", 2);
  const bool all = waiters > 1 || lsx_choose(2, "all");
  const bool inside = lsx_choose(2, "inside");
  int t[3];
  for (int i = 0; i < waiters; i++) t[i] = lsx_thread_create(&wait, nullptr);
  mu.Lock();
  section(0);
  g_data = 77;
  g_ready = 1;
  if (inside) { if (all) cv.SignalAll(); else cv.Signal(); }
  mu.Unlock();
  if (!inside) { if (all) cv.SignalAll(); else cv.Signal(); }
  for (int i = 0; i < waiters; i++) lsx_thread_join(t[i]);
  REQUIRE(g_woken == waiters && g_value == waiters, "every waiter goes on");
  lsx_cover("end");
}
// waiting gives the mutex up: hand-over in both directions with one condition variable each
static port::CondVar* g_back;
static void pong(void* p) {
  int n = *(int*)p;
  for (int i = 0; i < n; i++) {
    MutexLock l(g_mu);
    while (g_ready != 2 * i + 1) g_cv->Wait();
    g_ready++;
    g_back->Signal();
  }
}
extern "C" void c33_handover() {
  port::Mutex mu;
  port::CondVar cv(&mu), back(&mu);
  g_mu = &mu;
  g_cv = &cv;
  g_back = &back;
  int n = (int)lsx_param("rounds", 2);
  int t = lsx_thread_create(&pong, &n);
  for (int i = 0; i < n; i++) {
    MutexLock l(&mu);
    g_ready++;
    cv.Signal();
    while (g_ready != 2 * i + 2) back.Wait();
  }
  lsx_thread_join(t);
  REQUIRE(g_ready == 2 * n, "every hand-over happens");
  lsx_cover("end");
}
// what is not compiled in says so, and touches nothing
extern "C" void c33_absent() {
  const uint32_t n = lsx_choose(3, "size");
  Buf in(n, "in"), outb(4, "out");
  char before[4];
  memcpy(before, outb.p, 4);
  std::string s = "kept";
  size_t len = (size_t)lsx_sym("len", 64), was = len;
  REQUIRE(!port::Snappy_Compress(in.p, n, &s) && s == "kept", "compression that is not there is refused");
  REQUIRE(!port::Snappy_GetUncompressedLength(in.p, n, &len) && len == was, "compression that is not there is refused");
  REQUIRE(!port::Snappy_Uncompress(in.p, n, outb.p) && sameBytes(outb.p, before, 4), "compression that is not there is refused");
  REQUIRE(port::AcceleratedCRC32C((uint32_t)lsx_sym("crc", 32), in.p, n) == 0, "an accelerated checksum that is not there is zero");
  REQUIRE(!port::GetHeapProfile(nullptr, nullptr), "a heap profile that is not there is refused");
  lsx_cover("end");
}
