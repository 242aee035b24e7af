// C24: POSIX reads over the file system model.
#include "posix.h"
using namespace lsmdb;

static char g_data[8];
static uint32_t makeFile(uint32_t maxSize) {
  uint32_t n = lsx_choose(maxSize + 1, "size");
  lsx_sym_bytes(g_data, n, "d");
  fsMkdir("/d");
  fsCreate("/d/f", g_data, n);
  return n;
}
static int bytesAt(const Slice& r, uint64_t pos, uint64_t n) {
  int ok = 1;
  for (uint64_t i = 0; i < n; i++) ok = ok & (int)(r[i] == g_data[pos + i]);
  return ok;
}
extern "C" void c24_sequential() {
  Env* env = posixEnv(1, 1);
  const int ops = (int)lsx_param("ops", 3);
  uint32_t size = makeFile(4);
  SequentialFile* f = nullptr;
  REQUIRE(env->NewSequentialFile("/d/f", &f).ok() && f, "an existing file can be opened");
  faults(1 << FC_read | 1 << FC_lseek, (int)lsx_param("faults", 1), (int)lsx_param("interrupts", 1), (int)lsx_param("shorts", 1));
  uint64_t pos = 0;
  for (int i = 0; i < ops; i++) {
    int f0 = g_fs.faults - g_fs.refused, s0 = g_fs.shortBudget;
    if (lsx_choose(2, "op") == 0) {
      uint32_t n = lsx_choose(6, "n");
      Buf scratch(n);
      Slice r("x", 1);
      Status s = f->Read(n, &r, scratch.p);
      REQUIRE(s.ok() == (g_fs.faults - g_fs.refused == f0), "a read fails exactly if the system did; interruptions are retried");
      if (!s.ok()) continue;
      uint64_t here = lsx_concretize(ite(pos < size, pos, size));
      uint64_t want = size - here < n ? size - here : n;
      REQUIRE(r.size() <= want && (r.size() == want || g_fs.shortBudget < s0) && (r.size() > 0 || want == 0), "a read returns what the system delivered");
      REQUIRE(bytesAt(r, here, r.size()), "sequential reads return consecutive bytes");
      pos = pos + r.size();
      lsx_cover("read");
    } else {
      uint64_t n = lsx_sym("skip", 64);
      Status s = f->Skip(n);
      if (g_fs.faults - g_fs.refused != f0) { REQUIRE(!s.ok(), "a failed skip is reported"); continue; }
      uint64_t to = pos + n;
      if (s.ok()) {
        int over = to < pos;
        pos = ite(over, ~0ull, to);  // at the end in any case
      } else {
        REQUIRE((to < pos) | (to >> 63 != 0), "a skip to a position a file can have succeeds");
        lsx_cover("skip refused");
      }
    }
  }
  noFaults();
  delete f;
  REQUIRE(fsOpenFds() == 0, "the descriptor is closed with the file");
  lsx_cover("end");
}
static void reads(Env* env, int method) {
  const int count = (int)lsx_param("reads", 1);
  uint32_t size = makeFile(4);
  RandomAccessFile* f = nullptr;
  faults(1 << FC_open | 1 << FC_stat | 1 << FC_mmap | 1 << FC_pread, (int)lsx_param("faults", 1), (int)lsx_param("interrupts", 1));
  Status s = env->NewRandomAccessFile("/d/f", &f);
  REQUIRE(s.ok() == (g_fs.faults == g_fs.refused), "opening an existing file succeeds exactly if the system's calls do");
  REQUIRE(s.ok() == (f != nullptr), "a file object is given exactly on success");
  if (!s.ok()) return;
  for (int i = 0; i < count; i++) {
    uint64_t off = lsx_sym("offset", 64), n = lsx_sym("n", 64);
    Buf scratch(size + 1);
    Slice r("x", 1);
    int f0 = g_fs.faults - g_fs.refused, i0 = g_fs.interrupts;
    s = f->Read(off, n, &r, scratch.p);
    int inside = (off <= size) & (n <= size - off);
    if (g_fs.faults - g_fs.refused != f0) { REQUIRE(!s.ok(), "a failed read is reported"); lsx_cover("failed"); continue; }
    if (g_fs.interrupts != i0 && !s.ok()) continue;
    if (s.ok()) {
      REQUIRE(r.size() == ite(off < size, ite(size - off < n, size - off, n), 0), "a read is shortened only by the end of the file");
      if (r.size() > 0) { uint64_t o = lsx_concretize(off); REQUIRE(bytesAt(r, o, r.size()), "a read returns the file's bytes at the offset"); lsx_cover("bytes"); }
    } else {
      REQUIRE(!inside, "a read inside the file succeeds");
      REQUIRE(method == 0 || off >> 63, "a read at a position a file can have succeeds");
      lsx_cover("refused");
    }
  }
  noFaults();
  delete f;
  REQUIRE(fsOpenFds() == 0 && fsOpenMaps() == 0, "descriptors and mappings are released with the file");
  lsx_cover("end");
}
extern "C" void c24_mapped() { reads(posixEnv(1, 1), 0); }
extern "C" void c24_descriptor() { reads(posixEnv(1, 0), 1); }
extern "C" void c24_reopened() { reads(posixEnv(0, 0), 2); }

// Files longer than any buffer, read whole, in pieces and beyond their end.
static void posixLimits(int m, Env** env) { *env = posixEnv(m == 1, m == 0); }
extern "C" void c24_long() {
  static const uint32_t sizes[] = {65537, 8192, 4097, 4096, 131072, 200003, 1048583};
  const int m = (int)lsx_choose(3, "method");
  Env* env;
  posixLimits(m, &env);
  const uint32_t size = sizes[lsx_choose((uint32_t)lsx_param("sizes", 5), "size")];
  char* data = new char[size];
  fillPattern(data, size);
  const uint32_t odd = lsx_choose(2, "odd") ? size - 1 : size / 2;
  data[odd] = (char)lsx_sym("byte", 8);
  fsMkdir("/d");
  fsCreateBig("/d/f", data, size, size);
  const uint64_t offs[] = {0, 1, 4095, 4096, size / 2 - 7, size - 1, size, size + 1ull, 1ull << 32, (1ull << 32) + 1};
  const uint64_t lens[] = {1, 15, 4096, 4097, size / 2 + 9, size - 1, size, size + 1ull};
  const uint64_t n = lens[lsx_choose(8, "n")];
  RandomAccessFile* f = nullptr;
  REQUIRE(env->NewRandomAccessFile("/d/f", &f).ok() && f, "an existing file can be opened");
  char* scratch = new char[n];
  for (int i = 0; i < 10; i++) {
    const uint64_t off = offs[i];
    const bool inside = off <= size && n <= size - off;
    Slice r("x", 1);
    Status s = f->Read(off, n, &r, scratch);
    REQUIRE(s.ok() || (m == 0 && !inside), "a read at a position a file can have succeeds");
    if (!s.ok()) continue;
    const uint64_t want = off < size ? (size - off < n ? size - off : n) : 0;
    REQUIRE(r.size() == want, "a read is shortened only by the end of the file");
    REQUIRE(want == 0 || sameBytes(r.data(), data + off, want), "a read returns the file's bytes at the offset");
  }
  delete f;
  SequentialFile* q = nullptr;
  REQUIRE(env->NewSequentialFile("/d/f", &q).ok() && q, "an existing file can be opened");
  uint64_t pos = 0;
  for (int i = 0; i < 5; i++) {
    Slice r("x", 1);
    REQUIRE(q->Read(n, &r, scratch).ok(), "a read fails exactly if the system did");
    const uint64_t want = pos < size ? (size - pos < n ? size - pos : n) : 0;
    REQUIRE(r.size() == want, "a read returns what the system delivered");
    REQUIRE(want == 0 || sameBytes(r.data(), data + pos, want), "sequential reads return consecutive bytes");
    pos += want;
    const uint64_t skip = i == 1 ? size / 3 : i == 3 ? 1ull << 33 : 1;
    REQUIRE(q->Skip(skip).ok(), "a skip to a position a file can have succeeds");
    pos += skip;
  }
  delete q;
  REQUIRE(fsOpenFds() == 0 && fsOpenMaps() == 0, "descriptors and mappings are released with the file");
  delete[] scratch;
  delete[] data;
  lsx_cover("end");
}
// Files too long for 31 and 32 bits.
extern "C" void c24_huge() {
  static const uint64_t sizes[] = {(1ull << 32) + 9, (1ull << 31) + 5, (1ull << 33) + 1};
  const int m = (int)lsx_choose(3, "method");
  Env* env;
  posixLimits(m, &env);
  const uint64_t size = sizes[lsx_choose((uint32_t)lsx_param("sizes", 2), "size")];
  char* data = (char*)calloc(size, 1);
  const uint64_t offs[] = {0, (1ull << 31) - 4, size / 2, size - 8};
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 8; j++) data[offs[i] + j] = (char)(i * 8 + j + 1);
  data[size - 1] = (char)lsx_sym("last", 8);
  fsMkdir("/d");
  fsCreateBig("/d/f", data, size, size);
  uint64_t got = 0;
  REQUIRE(env->GetFileSize("/d/f", &got).ok() && got == size, "the size of a file");
  RandomAccessFile* f = nullptr;
  REQUIRE(env->NewRandomAccessFile("/d/f", &f).ok() && f, "an existing file can be opened");
  char b[16];
  for (int i = 0; i < 4; i++) {
    Slice r;
    REQUIRE(f->Read(offs[i], 8, &r, b).ok() && r.size() == 8 && sameBytes(r.data(), data + offs[i], 8), "a read returns the file's bytes at the offset");
  }
  Slice r;
  Status s = f->Read(size - 4, 16, &r, b);
  REQUIRE(s.ok() || m == 0, "a read at a position a file can have succeeds");
  REQUIRE(!s.ok() || (r.size() == 4 && sameBytes(r.data(), data + size - 4, 4)), "a read is shortened only by the end of the file");
  delete f;
  SequentialFile* q = nullptr;
  REQUIRE(env->NewSequentialFile("/d/f", &q).ok() && q, "an existing file can be opened");
  uint64_t pos = 0;
  for (int i = 0; i < 4; i++) {
    if (offs[i] < pos) continue;
    REQUIRE(q->Skip(offs[i] - pos).ok(), "a skip to a position a file can have succeeds");
    REQUIRE(q->Read(8, &r, b).ok() && r.size() == 8 && sameBytes(r.data(), data + offs[i], 8), "sequential reads return consecutive bytes");
    pos = offs[i] + 8;
  }
  REQUIRE(q->Read(8, &r, b).ok() && r.size() == size - pos, "a read returns what the system delivered");
  delete q;
  REQUIRE(fsOpenFds() == 0 && fsOpenMaps() == 0, "descriptors and mappings are released with the file");
  free(data);
  lsx_cover("end");
}
// another thread replaces the file while it is opened: the reader has the old file or the new one, whole
static void replace(void* e) { REQUIRE(((Env*)e)->RenameFile("/d/g", "/d/f").ok(), "a file can be renamed"); }
extern "C" void c24_replaced() {
  Env* env = posixEnv(1, (int)lsx_choose(2, "maps"));
  fsMkdir("/d");
  const char* oldText = lsx_choose(2, "longer") ? "ab" : "abcdef";
  fsCreate("/d/f", oldText, strlen(oldText));
  fsCreate("/d/g", "WXYZ", 4);
  int t = lsx_thread_create(&replace, env);
  RandomAccessFile* f = nullptr;
  REQUIRE(env->NewRandomAccessFile("/d/f", &f).ok() && f, "an existing file can be opened");
  char scratch[8];
  Slice r;
  lsx_thread_join(t);
  for (size_t n = 1; n <= 6; n++) {
    Status s = f->Read(0, n, &r, scratch);
    if (!s.ok()) continue;
    Slice a(oldText), b("WXYZ");
    REQUIRE(r == Slice(a.data(), n < a.size() ? n : a.size()) || r == Slice(b.data(), n < 4 ? n : 4), "a read returns the file's own bytes");
    lsx_cover(r[0] == 'a' ? "old" : "new");
  }
  delete f;
  REQUIRE(fsOpenFds() == 0 && fsOpenMaps() == 0, "descriptors and mappings are released with the file");
  lsx_cover("end");
}
// two threads share one random access file
struct Rd { RandomAccessFile* f; uint32_t off, n; };
static void readOne(void* p) {
  Rd* x = (Rd*)p;
  char b[4];
  Slice r;
  Status s = x->f->Read(x->off, x->n, &r, b);
  REQUIRE(s.ok() && r.size() == x->n, "a read inside the file succeeds");
  REQUIRE(bytesAt(r, x->off, x->n), "a read returns the file's bytes at the offset");
}
extern "C" void c24_shared() {
  int m = (int)lsx_choose(3, "method");
  Env* env = posixEnv(m == 1, m == 0);
  lsx_sym_bytes(g_data, 4, "d");
  fsMkdir("/d");
  fsCreate("/d/f", g_data, 4);
  RandomAccessFile* f = nullptr;
  env->NewRandomAccessFile("/d/f", &f);
  Rd a{f, 0, 2}, b{f, 1, 3};
  int t = lsx_thread_create(&readOne, &b);
  readOne(&a);
  lsx_thread_join(t);
  delete f;
  REQUIRE(fsOpenFds() == 0 && fsOpenMaps() == 0, "descriptors and mappings are released with the file");
  lsx_cover("end");
}
