// C27: the background thread and started threads. The executor reports lost wake-ups as deadlocks and missing
// happens-before edges as data races.
#include "posix.h"
#include <functional>
using namespace lsmdb;

static const int MAXT_ = 304;
struct Task { int by, seq, ran, where, nest; uint64_t data; Env* env; uint32_t t0, t1; };
static Task g_task[MAXT_];
static int g_order[MAXT_], g_ran, g_want, g_running;
static uint32_t g_tick, g_doneLock[8], g_doneCv[8];
static uint32_t tick() {
  lsx_atomic_begin();
  uint32_t t = ++g_tick;
  lsx_atomic_end();
  return t;
}
static void submit(int i);
static void work(void* p) {
  Task* t = (Task*)p;
  lsx_atomic_begin();
  g_running++;
  REQUIRE(g_running == 1, "tasks run one after another");
  lsx_atomic_end();
  t->where = lsx_self();
  t->ran++;
  REQUIRE(t->data == 1000u + (uint64_t)t->seq, "a task sees what its scheduler did before");
  if (t->nest >= 0) submit(t->nest);
  lsx_atomic_begin();
  g_running--;
  g_order[g_ran < MAXT_ ? g_ran : 0] = (int)(t - g_task);
  lsx_atomic_end();
  lsx_mutex_lock(g_doneLock);
  g_ran++;
  if (g_ran == g_want) lsx_cond_signal(g_doneCv);
  lsx_mutex_unlock(g_doneLock);
}
static void submit(int i) {
  Task& t = g_task[i];
  t.t0 = tick();
  t.data = 1000u + (uint64_t)t.seq;
  t.env->Schedule(&work, &t);
  t.t1 = tick();
}
struct Part { Env* env; int first, n; };
static void submitAll(void* p) {
  Part* x = (Part*)p;
  for (int i = 0; i < x->n; i++) submit(x->first + i);
}
static void prepare(Env* env, int n) {
  for (int i = 0; i < n; i++) g_task[i] = Task{0, i, 0, -1, -1, 0, env, 0, 0};
  g_ran = g_running = 0;
  g_want = n;
  g_tick = 0;
}
static void finish(int n) {
  lsx_mutex_lock(g_doneLock);
  while (g_ran < g_want) lsx_cond_wait(g_doneCv, g_doneLock);
  lsx_mutex_unlock(g_doneLock);
  for (int i = 0; i < n; i++) {
    REQUIRE(g_task[i].ran == 1, "every task runs exactly once");
    REQUIRE(g_task[i].where == g_task[0].where, "all tasks run on one background thread");
    REQUIRE(g_task[i].where > 0, "the background thread is not the caller's");
  }
  int at[MAXT_];
  for (int i = 0; i < n; i++) at[g_order[i]] = i;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (g_task[i].t1 < g_task[j].t0 && g_task[i].t1) REQUIRE(at[i] < at[j], "tasks run in the order scheduled");
  lsx_cover("end");
}
extern "C" void c27_two() {
  Env* env = posixEnv(1, 1);
  const int a = (int)lsx_param("a", 2), b = (int)lsx_param("b", 1);
  prepare(env, a + b);
  Part p{env, 0, a}, q{env, a, b};
  int t = lsx_thread_create(&submitAll, &q);
  submitAll(&p);
  lsx_thread_join(t);
  finish(a + b);
  for (int i = 0; i < a; i++) REQUIRE(g_task[i].where != t, "the background thread is not the caller's");
}
extern "C" void c27_one() {
  Env* env = posixEnv(1, 1);
  const int n = (int)lsx_param("n", 4);
  prepare(env, n);
  Part p{env, 0, n};
  if (lsx_choose(2, "pause")) {  // the background thread gets to sleep in between
    g_want = 1;
    submit(0);
    lsx_mutex_lock(g_doneLock);
    while (g_ran < 1) lsx_cond_wait(g_doneCv, g_doneLock);
    lsx_mutex_unlock(g_doneLock);
    g_want = n;
    p.first = 1;
    p.n = n - 1;
  }
  submitAll(&p);
  finish(n);
}
extern "C" void c27_nested() {
  Env* env = posixEnv(1, 1);
  const int n = (int)lsx_param("n", 4);
  prepare(env, n);
  // task 0 schedules n-2, task n-2 schedules n-1; the caller schedules the rest
  g_task[0].nest = n - 2;
  g_task[n - 2].nest = n - 1;
  for (int i = 0; i < n - 2; i++) submit(i);
  finish(n);
}
static int g_go;
static uint32_t g_goCv[8];
static void started(void* p) {
  Task* t = (Task*)p;
  int i = t->seq;
  t->where = lsx_self();
  REQUIRE(t->data == 1000u + (uint64_t)i, "a started thread sees what its starter did before");
  lsx_mutex_lock(g_doneLock);
  while (!g_go) lsx_cond_wait(g_goCv, g_doneLock);  // only once the starter goes on: it is not kept waiting for the thread
  t->ran++;
  g_ran++;
  lsx_cond_signal(g_doneCv);
  lsx_mutex_unlock(g_doneLock);
}
extern "C" void c27_start() {
  Env* env = posixEnv(1, 1);
  prepare(env, 2);
  g_go = 0;
  for (int i = 0; i < 2; i++) { g_task[i].data = 1000u + (uint64_t)i; env->StartThread(&started, &g_task[i]); }
  lsx_mutex_lock(g_doneLock);
  g_go = 1;
  lsx_cond_broadcast(g_goCv);
  while (g_ran < 2) lsx_cond_wait(g_doneCv, g_doneLock);
  lsx_mutex_unlock(g_doneLock);
  REQUIRE(g_task[0].ran == 1 && g_task[1].ran == 1, "a started thread runs its function exactly once with its argument");
  REQUIRE(g_task[0].where > 0 && g_task[1].where > 0 && g_task[0].where != g_task[1].where, "every start is a new thread");
  lsx_cover("end");
}
