// C31: the POSIX logger over the model of stdio.
#include "posix.h"
using namespace lsmdb;

static const char* const NAME = "/d/log";
static char g_disk[64 * 1024];
static int num(const char* p, int n, uint64_t want) {  // n digits with that value
  int ok = 1;
  uint64_t v = 0;
  for (int i = 0; i < n; i++) { ok = ok & (int)(p[i] >= '0') & (int)(p[i] <= '9'); v = v * 10 + (uint64_t)(p[i] - '0'); }
  return ok & (int)(v == want);
}
static FsInode& file() { return g_fs.ino[fsFind(NAME)]; }
static Logger* open(uint64_t thread) {
  Env* env = posixEnv(1, 1);
  g_fs.threadId = thread;
  fsMkdir("/d");
  fsNextStore(g_disk, sizeof g_disk);
  Logger* l = nullptr;
  REQUIRE(env->NewLogger(NAME, &l).ok() && l, "a log can be opened");
  g_fs.logging = 1;
  fsClearLog();
  return l;
}
static int digitsOf(uint64_t v) { int n = 1; while (v >= 10) { v /= 10; n++; } return n; }
// length of the header at p, checked
static int header(const char* p, uint64_t have, int yearDigits, int idDigits) {
  const int y = yearDigits, n = y + 24 + idDigits;
  REQUIRE(have >= (uint64_t)n, "a record starts with the time and the thread");
  All ok;
  ok.that(num(p, y, (uint64_t)g_fs.tm[0]));
  p += y;
  ok.that(p[0] == '/' && num(p + 1, 2, (uint64_t)g_fs.tm[1]));
  ok.that(p[3] == '/' && num(p + 4, 2, (uint64_t)g_fs.tm[2]));
  ok.that(p[6] == '-' && num(p + 7, 2, (uint64_t)g_fs.tm[3]));
  ok.that(p[9] == ':' && num(p + 10, 2, (uint64_t)g_fs.tm[4]));
  ok.that(p[12] == ':' && num(p + 13, 2, (uint64_t)g_fs.tm[5]));
  ok.that(p[15] == '.' && num(p + 16, 6, g_fs.tvUsec));
  ok.that(p[22] == ' ' && num(p + 23, idDigits, lsx_self() == 0 && g_fs.threadId ? g_fs.threadId : 1000u + (uint64_t)lsx_self()));
  ok.that(p[23 + idDigits] == ' ');
  REQUIRE(ok.ok, "the header tells the local time of the call and the thread");
  return n;
}
static void plainTime() {
  static const int t[] = {2021, 3, 9, 23, 5, 59};
  for (int i = 0; i < 6; i++) g_fs.tm[i] = t[i];
  g_fs.tvSec = 1615327559;
  g_fs.tvUsec = 42;
}
// the record is header, message, one newline unless the message ends in one
static uint64_t record(uint64_t at, const char* msg, uint64_t n, int idDigits = 4) {
  FsInode& f = file();
  REQUIRE(f.size > at, "every call writes a record");
  const char* p = f.data + at;
  uint64_t h = (uint64_t)header(p, f.size - at, 4, idDigits);
  REQUIRE(f.size - at >= h + n && sameBytes(p + h, msg, n), "the record holds the whole message");
  const bool nl = n && msg[n - 1] == '\n';
  if (nl) lsx_cover("has newline");
  else lsx_cover("newline added");
  const uint64_t end = at + h + n + (nl ? 0 : 1);
  REQUIRE(f.size >= end && f.data[end - 1] == '\n', "a record ends with a newline");
  return end;
}
extern "C" void c31_lengths() {
  static const uint64_t ids[] = {0, 7, 1ull << 63, 123456789012ull};
  const uint64_t id = ids[lsx_choose((uint32_t)lsx_param("ids", 3), "thread")];
  const int idDigits = digitsOf(id ? id : 1000);
  Logger* l = open(id);
  plainTime();
  const uint32_t room = 512 - 28 - (uint32_t)idDigits;  // what fits into the small buffer with its terminator is below this
  static const uint32_t more[] = {0, 1, 2, 100, 900, 2000, 4070, 5000};
  const uint32_t around = (uint32_t)lsx_param("around", 4);
  const uint32_t every = (uint32_t)lsx_param("every", 0);
  uint32_t pick = lsx_choose(every ? every : 2 * around + 1 + (uint32_t)lsx_param("more", 6), "length");
  const uint32_t n = every ? pick : pick <= 2 * around ? room - around + pick : more[pick - 2 * around - 1];
  char* msg = new char[n + 1];
  for (uint32_t i = 0; i < n; i++) msg[i] = (char)('a' + i % 26);
  msg[n] = 0;
  for (uint32_t i = 0; i < n; i++)
    if (i < 1 || i + 2 >= n || (i + 3 >= room && i <= room + 1)) {
      msg[i] = (char)lsx_sym("byte", 8);
      lsx_assume(msg[i] != 0);
    }
  Log(l, "%s", "first\n");  // what a thread keeps from one call to the next is there now
  const uint64_t start = record(0, "first\n", 6, idDigits);
  int64_t live = lsx_live_allocs();
  Log(l, "%s", msg);
  REQUIRE(g_fs.tmAsked == g_fs.tvSec, "the time of the call is shown");
  uint64_t end = record(start, msg, n, idDigits);
  REQUIRE(file().size == end, "one record is written, and nothing else");
  REQUIRE(lsx_live_allocs() == live, "nothing leaks");
  // a second record follows
  Log(l, "%s", "second\n");
  uint64_t end2 = record(end, "second\n", 7, idDigits);
  REQUIRE(file().size == end2, "one record is written, and nothing else");
  delete l;
  REQUIRE(file().size == end2, "closing the log adds nothing");
  REQUIRE(fsOpenFds() == 0 && fsOpenStreams() == 0, "closing the log releases it");
  delete[] msg;
  lsx_cover("end");
}
// every time and thread
extern "C" void c31_header() {
  // with joint: all fields together; without: the thread with a plain time, and the time with a short and a long thread
  const bool joint = lsx_param("joint", 0) != 0;
  const uint32_t group = joint ? lsx_choose(2, "group") : lsx_choose(3, "group");
  uint64_t id;
  if (joint || group == 2) {
    id = lsx_sym("thread", 64);
    lsx_assume(id != 0);
  } else {
    id = lsx_choose(2, "longthread") ? 1ull << 63 : 7;
  }
  int idDigits = 1;
  uint64_t p10 = 10;
  while (idDigits < 20 && id >= p10) { idDigits++; p10 = idDigits == 20 ? ~0ull : p10 * 10; }
  const int only = (int)lsx_param("ids", 20);
  lsx_assume(idDigits <= only || idDigits >= 19);
  Logger* l = open(id);
  plainTime();
  static const int lo[] = {1000, 1, 1, 0, 0, 0}, hi[] = {9999, 12, 31, 23, 59, 60};
  // all fields arbitrary, in two groups
  if (group == 2) {
  } else if (group) {
    for (int i = 0; i < 4; i++) { uint64_t v = lsx_sym("field", 16); lsx_assume((v >= (uint64_t)lo[i]) & (v <= (uint64_t)hi[i])); g_fs.tm[i] = (int)v; }
  } else {
    for (int i = 4; i < 6; i++) { uint64_t v = lsx_sym("field", 16); lsx_assume((v >= (uint64_t)lo[i]) & (v <= (uint64_t)hi[i])); g_fs.tm[i] = (int)v; }
    g_fs.tvUsec = lsx_sym("usec", 32);
    lsx_assume(g_fs.tvUsec < 1000000);
  }
  g_fs.tvSec = lsx_sym("sec", 62);
  Log(l, "%d", 5);
  REQUIRE(g_fs.tmAsked == g_fs.tvSec, "the time of the call is shown");
  FsInode& f = file();
  int h = header(f.data, f.size, 4, idDigits);
  REQUIRE(f.size == (uint64_t)h + 2 && f.data[h] == '5' && f.data[h + 1] == '\n', "the message follows the header");
  delete l;
  lsx_cover("end");
}
// arguments of every class, in short and long messages
extern "C" void c31_arguments() {
  Logger* l = open(0);
  plainTime();
  static const uint32_t pads[] = {0, 440, 470, 479, 480, 481, 520, 1500};
  const uint32_t pad = pads[lsx_choose((uint32_t)lsx_param("pads", 8), "pad")];
  char* fill = new char[pad + 1];
  for (uint32_t i = 0; i < pad; i++) fill[i] = 'p';
  fill[pad] = 0;
  char a = (char)lsx_sym("a", 8), b = (char)lsx_sym("b", 8), text[4];
  lsx_sym_bytes(text, 3, "text");
  for (int i = 0; i < 3; i++) lsx_assume((int)(text[i] != 0));
  text[3] = 0;
  uint64_t x = lsx_sym("x", 64);
  lsx_assume(x >> 60);  // 16 hexadecimal digits
  Log(l, "%d", 1);
  const uint64_t start = file().size;
  int64_t live = lsx_live_allocs();
  Log(l, "%s%c|%s|%016llx|%c|%d|%d|%d", fill, a, text, (unsigned long long)x, b, 17, -3, 99);
  FsInode& f = file();
  int h = header(f.data + start, f.size - start, 4, 4);
  const char* p = f.data + start + h;
  REQUIRE(f.size == start + h + pad + 2 + 4 + 17 + 2 + 8 + 1, "the whole message is written");
  All ok;
  for (uint32_t i = 0; i < pad; i++) ok.eq((unsigned char)p[i], 'p');
  p += pad;
  ok.that(p[0] == a);
  ok.that(p[1] == '|');
  ok.that(sameBytes(p + 2, text, 3));
  for (int i = 0; i < 16; i++) {
    uint64_t d = x >> (60 - 4 * i) & 15;
    ok.eq((unsigned char)p[6 + i], ite(d < 10, '0' + d, 'a' + d - 10));
  }
  ok.that(p[22] == '|');
  ok.that(p[23] == b);
  ok.that(sameBytes(p + 24, "|17|-3|99\n", 10));
  REQUIRE(ok.ok, "the message is the formatted one");
  REQUIRE(lsx_live_allocs() == live, "nothing leaks");
  delete l;
  delete[] fill;
  lsx_cover("end");
}
// a log goes on at the end of what the file holds, whoever wrote it
extern "C" void c31_append() {
  Env* env = posixEnv(1, 1);
  fsMkdir("/d");
  plainTime();
  const uint32_t held = lsx_choose((uint32_t)lsx_param("held", 3), "held");
  char was[4], M[3][6];
  lsx_sym_bytes(was, 4, "was");
  for (int i = 0; i < 3; i++) {
    lsx_sym_bytes(M[i], 5, "message");
    for (int k = 0; k < 5; k++) lsx_assume((M[i][k] != 0) & (M[i][k] != '\n'));
    M[i][5] = 0;
  }
  const uint64_t had = held ? held == 1 ? 1 : 4 : 0;
  fsNextStore(g_disk, sizeof g_disk);
  if (held) fsCreate(NAME, was, had);
  Logger *a = nullptr, *b = nullptr;
  REQUIRE(env->NewLogger(NAME, &a).ok() && a, "a log can be opened");
  REQUIRE(file().size == had, "opening a log writes nothing and keeps what the file held");
  const bool two = lsx_choose(2, "two");
  if (two) REQUIRE(env->NewLogger(NAME, &b).ok() && b, "a log can be opened");
  uint64_t at = had;
  for (int i = 0; i < 3; i++) {
    Log(two && i == 1 ? b : a, "%s", M[i]);
    const uint64_t end = record(at, M[i], 5);
    REQUIRE(file().size == end, "one record is written, at the end of the file");
    at = end;
  }
  delete a;
  delete b;
  // and another time
  REQUIRE(env->NewLogger(NAME, &a).ok() && a, "a log can be opened");
  Log(a, "%s", "again\n");
  delete a;
  REQUIRE(sameBytes(file().data, was, had), "a log keeps what the file held");
  uint64_t from = had;
  for (int i = 0; i < 3; i++) from = record(from, M[i], 5);
  REQUIRE(record(from, "again\n", 6) == file().size, "a log keeps its records");
  REQUIRE(fsOpenFds() == 0 && fsOpenStreams() == 0, "closing the log releases it");
  lsx_cover(two ? "two" : "end");
}
extern "C" void c31_null() {
  posixEnv(1, 1);
  g_fs.logging = 1;
  Log(nullptr, "%s", "x");
  REQUIRE(g_fs.nlog == 0, "logging to nothing does nothing");
  lsx_cover("end");
}
// a failing disk loses whole records at most; later ones are complete
extern "C" void c31_faults() {
  Logger* l = open(0);
  plainTime();
  const uint32_t n = (uint32_t)lsx_param("records", 3);
  Log(l, "%d", 1);
  const uint64_t start = file().size;
  faults(1u << FC_write, (int)lsx_param("faults", 1), (int)lsx_param("interrupts", 1), (int)lsx_param("shorts", 1));
  int64_t live = lsx_live_allocs();
  static const char* const M[] = {"one", "two", "three", "four"};
  for (uint32_t i = 0; i < n; i++) {
    Log(l, "%s", M[i]);
    if (!g_fs.faults) REQUIRE(file().size > start && file().data[file().size - 1] == '\n', "a record is in the file when the call returns");
  }
  REQUIRE(lsx_live_allocs() == live, "nothing leaks");
  const uint32_t failed = (uint32_t)g_fs.faults;
  const bool partial = (int)lsx_param("shorts", 1) != g_fs.shortBudget;
  noFaults();
  delete l;
  REQUIRE(fsOpenFds() == 0 && fsOpenStreams() == 0, "closing the log releases it");
  if (failed && partial) { lsx_cover("torn"); return; }  // the system itself wrote part of a record only
  uint64_t at = start;
  uint32_t i = 0, lost = 0;
  FsInode& f = file();
  while (at < f.size) {
    uint64_t h = (uint64_t)header(f.data + at, f.size - at, 4, 4), k = 0;
    while (i < n) {
      k = strlen(M[i]);
      if (f.size - at > h + k && sameBytes(f.data + at + h, M[i], k) && f.data[at + h + k] == '\n') break;
      i++;
      lost++;
    }
    REQUIRE(i < n, "records are complete and in order");
    i++;
    at += h + k + 1;
  }
  lost += n - i;
  REQUIRE(lost <= failed, "records are lost only by failures");
  lsx_cover(failed ? "lost" : "end");
}
// two threads through one logger: records do not mix
struct Part { Logger* l; int who; uint32_t n; };
static char g_long[600];
static void logSome(void* p) {
  Part* x = (Part*)p;
  for (uint32_t i = 0; i < x->n; i++) {
    if (x->who) Log(x->l, "%s", "short");
    else Log(x->l, "%s\n", g_long);
  }
}
extern "C" void c31_threads() {
  Logger* l = open(0);
  plainTime();
  for (int i = 0; i < 599; i++) g_long[i] = 'L';
  Part a{l, 0, (uint32_t)lsx_param("a", 1)}, b{l, 1, (uint32_t)lsx_param("b", 2)};
  int t = lsx_thread_create(&logSome, &b);
  logSome(&a);
  lsx_thread_join(t);
  FsInode& f = file();
  uint64_t at = 0;
  uint32_t shorts = 0, longs = 0;
  while (at < f.size) {
    const char* p = f.data + at;
    REQUIRE(f.size - at >= 32 + 6, "records of different threads do not mix");
    REQUIRE(p[0] == '2' && p[27 + 4] == ' ', "records of different threads do not mix");
    const int who = num(p + 27, 4, 1000) ? 0 : 1;
    p += 28 + 4;
    if (*p == 'L') {
      All ok;
      REQUIRE(f.size - at >= 32 + 600, "records of different threads do not mix");
      for (int i = 0; i < 599; i++) ok.eq((unsigned char)p[i], 'L');
      ok.that(p[599] == '\n');
      REQUIRE(ok.ok && who == 0, "records of different threads do not mix");
      longs++;
      at += 32 + 600;
    } else {
      REQUIRE(sameBytes(p, "short\n", 6) && who == 1, "records of different threads do not mix");
      shorts++;
      at += 32 + 6;
    }
  }
  REQUIRE(longs == a.n && shorts == b.n, "every call writes one record");
  delete l;
  lsx_cover("end");
}
