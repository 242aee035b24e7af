// C18, C19, C20: the in-memory environment, sequential histories.
#include "h.h"
#include "stubenv.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include <algorithm>
#include <memory>
using namespace lsmdb;

static const uint32_t BS = 8192;

// ---------------------------------------------------------------- C18
static const uint32_t kPiece[] = {1, 8192, 8191, 0, 8193, 5000, 2, 16384};
// sequential and random reads around every block boundary of a file appended in pieces
extern "C" void c18_blocks() {
  const uint32_t pieces = (uint32_t)lsx_param("pieces", 2), np = (uint32_t)lsx_param("sizes", 5);
  StubEnv base;
  int64_t before = lsx_live_allocs();
  {
    std::unique_ptr<Env> env(NewMemEnv(&base));
    WritableFile* w = nullptr;
    REQUIRE(env->NewWritableFile("/f", &w).ok() && w, "a file can be created");
    uint32_t n[4], total = 0;
    for (uint32_t i = 0; i < pieces; i++) { n[i] = kPiece[lsx_choose(np, "piece")]; total += n[i]; }
    Buf data(total, "d");
    uint32_t at = 0;
    for (uint32_t i = 0; i < pieces; i++) {
      Buf tmp(n[i]);
      memcpy(tmp.p, data.p + at, n[i]);
      REQUIRE(w->Append(Slice(tmp.p, n[i])).ok(), "append succeeds");
      at += n[i];
    }
    REQUIRE(w->Flush().ok() && w->Sync().ok() && w->Close().ok(), "flush, sync and close succeed");
    delete w;
    uint64_t size = 99;
    REQUIRE(env->GetFileSize("/f", &size).ok() && size == total, "the size is the number of bytes appended");
    // random access
    const uint32_t offs[] = {0, 1, BS - 1, BS, BS + 1, 2 * BS, 2 * BS - 1, total, total + 1, total - 1, total - BS, BS / 2, BS / 4 - 1, BS + BS / 2, 4095, 512};
    const uint32_t lens[] = {1, BS, total + 1, 0, BS + 1, BS - 1, 2 * BS + 1};
    uint32_t how = lsx_choose(2, "how");
    uint32_t off = offs[lsx_choose((uint32_t)lsx_param("offs", 16), "offset")], len = lens[lsx_choose((uint32_t)lsx_param("lens", 4), "length")];
    Buf scratch(len);
    Slice r("x", 1);
    uint32_t want = off > total ? 0 : total - off < len ? total - off : len;
    if (how == 0) {
      RandomAccessFile* f = nullptr;
      REQUIRE(env->NewRandomAccessFile("/f", &f).ok() && f, "an existing file can be opened");
      Status s = f->Read(off, len, &r, scratch.p);
      REQUIRE(s.ok() == (off <= total), "a random read fails exactly when it starts beyond the end");
      if (s.ok()) {
        REQUIRE(r.size() == want, "a read is shortened only by the end of the file");
        REQUIRE(sameBytes(r.data(), data.p + off, want), "a read returns the bytes appended");
      } else lsx_cover("beyond");
      delete f;
    } else {
      SequentialFile* f = nullptr;
      REQUIRE(env->NewSequentialFile("/f", &f).ok() && f, "an existing file can be opened");
      REQUIRE(f->Skip(off).ok(), "skip succeeds");
      uint32_t pos = off < total ? off : total;
      want = total - pos < len ? total - pos : len;
      for (int i = 0; i < 2; i++) {
        Slice q("x", 1);
        REQUIRE(f->Read(len, &q, scratch.p).ok(), "a sequential read succeeds");
        REQUIRE(q.size() == want, "a read is shortened only by the end of the file");
        REQUIRE(sameBytes(q.data(), data.p + pos, want), "a sequential read returns the next bytes");
        pos += want;
        want = total - pos < len ? total - pos : len;
      }
      delete f;
    }
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "everything is freed with the environment");
}
// every offset, length and skip of 64 bits, on small files
extern "C" void c18_ranges() {
  StubEnv base;
  std::unique_ptr<Env> env(NewMemEnv(&base));
  uint32_t total = lsx_choose(4, "size");
  Buf data(total, "d");
  WritableFile* w = nullptr;
  env->NewWritableFile("/f", &w);
  for (uint32_t i = 0; i < total; i++) w->Append(Slice(data.p + i, 1));
  delete w;
  uint64_t n = lsx_sym("n", 64);
  Buf scratch(total + 1);
  Slice r("x", 1);
  if (lsx_choose(2, "how") == 0) {
    uint64_t off = lsx_sym("offset", 64);
    RandomAccessFile* f = nullptr;
    env->NewRandomAccessFile("/f", &f);
    Status s = f->Read(off, n, &r, scratch.p);
    REQUIRE(s.ok() == (off <= total), "a random read fails exactly when it starts beyond the end");
    if (s.ok()) {
      uint64_t want = ite(total - off < n, total - off, n);
      REQUIRE(r.size() == want, "a read is shortened only by the end of the file");
      All ok;
      for (uint64_t i = 0; i < r.size(); i++) ok.eq((unsigned char)r[i], (unsigned char)data.p[off + i]);
      REQUIRE(ok.ok, "a read returns the bytes appended");
    }
    delete f;
  } else {
    uint64_t a = lsx_sym("skip", 64), b = lsx_sym("skip2", 64);
    SequentialFile* f = nullptr;
    env->NewSequentialFile("/f", &f);
    REQUIRE(f->Skip(a).ok(), "skip succeeds");
    uint64_t pos = ite(a < total, a, total);
    REQUIRE(f->Skip(b).ok(), "skip succeeds");
    pos = ite(b < total - pos, pos + b, total);
    REQUIRE(f->Read(n, &r, scratch.p).ok(), "a sequential read succeeds");
    REQUIRE(r.size() == ite(total - pos < n, total - pos, n), "a read is shortened only by the end of the file");
    All ok;
    for (uint64_t i = 0; i < r.size(); i++) ok.eq((unsigned char)r[i], (unsigned char)data.p[pos + i]);
    REQUIRE(ok.ok, "a sequential read returns the next bytes");
    delete f;
  }
  lsx_cover("end");
}
// any offset in a file of several blocks, short reads; and any start of a read that spans blocks
extern "C" void c18_anywhere() {
  StubEnv base;
  std::unique_ptr<Env> env(NewMemEnv(&base));
  const uint32_t total = 2 * BS + 77;
  Buf data(total);
  for (uint32_t i = 0; i < total; i++) data.p[i] = (char)((i >> 6) * 37);
  WritableFile* w = nullptr;
  env->NewWritableFile("/f", &w);
  REQUIRE(w->Append(Slice(data.p, total)).ok(), "append succeeds");
  delete w;
  uint64_t off = lsx_sym("offset", 64);
  lsx_assume(off <= total);
  uint64_t n = lsx_choose(4, "n");
  Buf scratch(8);
  Slice r("x", 1);
  if (lsx_choose(2, "how") == 0) {
    RandomAccessFile* f = nullptr;
    env->NewRandomAccessFile("/f", &f);
    REQUIRE(f->Read(off, n, &r, scratch.p).ok(), "a read inside the file succeeds");
    delete f;
  } else {
    SequentialFile* f = nullptr;
    env->NewSequentialFile("/f", &f);
    REQUIRE(f->Skip(off).ok() && f->Read(n, &r, scratch.p).ok(), "a read inside the file succeeds");
    delete f;
  }
  uint64_t want = ite(total - off < n, total - off, n);
  REQUIRE(r.size() == want, "a read is shortened only by the end of the file");
  All ok;
  for (uint64_t i = 0; i < r.size(); i++) ok.eq((unsigned char)r[i], (unsigned char)data.p[off + i]);
  REQUIRE(ok.ok, "a read returns the bytes appended");
  lsx_cover("end");
}
// Files of many blocks, appended in pieces of many blocks.
extern "C" void c18_long() {
  static const uint32_t kLong[] = {24576, 70001, 3, 65536, 24577, 16383, 200000, 32768};
  const uint32_t np = (uint32_t)lsx_param("sizes", 5);
  StubEnv base;
  int64_t before = lsx_live_allocs();
  {
    std::unique_ptr<Env> env(NewMemEnv(&base));
    const uint32_t n0 = kLong[lsx_choose(np, "first")], n1 = kLong[lsx_choose(np, "second")], total = n0 + n1;
    Buf data(total);
    fillPattern(data.p, total);
    data.p[total - 1] = (char)lsx_sym("last", 8);
    data.p[n0 - 1] = (char)lsx_sym("joint", 8);
    WritableFile* w = nullptr;
    env->NewWritableFile("/f", &w);
    REQUIRE(w->Append(Slice(data.p, n0)).ok() && w->Append(Slice(data.p + n0, n1)).ok(), "append succeeds");
    uint64_t size = 0;
    REQUIRE(env->GetFileSize("/f", &size).ok() && size == total, "the size is the number of bytes appended");
    RandomAccessFile* f = nullptr;
    SequentialFile* q = nullptr;
    env->NewRandomAccessFile("/f", &f);
    env->NewSequentialFile("/f", &q);
    const uint64_t lens[] = {total, 24577, 8191, 65537, (uint64_t)total + 5, 16384};
    const uint64_t n = lens[lsx_choose(6, "n")];
    Buf scratch(n);
    const uint64_t offs[] = {0, 1, 8191, 16385, n0 - 1, total / 2, total - 1, total};
    for (int i = 0; i < 8; i++) {
      if (offs[i] > total) continue;
      Slice r("x", 1);
      REQUIRE(f->Read(offs[i], n, &r, scratch.p).ok(), "a read inside the file succeeds");
      const uint64_t want = total - offs[i] < n ? total - offs[i] : n;
      REQUIRE(r.size() == want, "a read is shortened only by the end of the file");
      REQUIRE(want == 0 || sameBytes(r.data(), data.p + offs[i], want), "a read returns the bytes appended");
    }
    Slice r;
    REQUIRE(!f->Read((uint64_t)total + 1, n, &r, scratch.p).ok(), "a read that starts beyond the end is an error");
    uint64_t pos = 0;
    for (int i = 0; i < 5; i++) {
      Slice r("x", 1);
      REQUIRE(q->Read(n, &r, scratch.p).ok(), "a sequential read succeeds");
      const uint64_t want = total - pos < n ? total - pos : n;
      REQUIRE(r.size() == want, "a read is shortened only by the end of the file");
      REQUIRE(want == 0 || sameBytes(r.data(), data.p + pos, want), "a read returns the bytes appended");
      pos += want;
      const uint64_t skip = i == 1 ? 20000 : i == 3 ? 1ull << 32 : 1;
      REQUIRE(q->Skip(skip).ok(), "a skip succeeds");
      pos = total - pos < skip ? total : pos + skip;
    }
    delete w;
    delete f;
    delete q;
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "nothing leaks");
}
// A file too long for 32 bits.
extern "C" void c18_huge() {
  const uint64_t half = (1ull << 31) + 8192 * 2, total = 2 * half + 5;
  StubEnv base;
  int64_t before = lsx_live_allocs();
  {
    std::unique_ptr<Env> env(NewMemEnv(&base));
    char* data = (char*)calloc(half, 1);
    const uint64_t marks[] = {0, 8190, 1ull << 30, (1ull << 31) - 3, half - 6};
    for (int i = 0; i < 5; i++)
      for (int j = 0; j < 6; j++) data[marks[i] + j] = (char)(i * 6 + j + 1);
    data[8192] = (char)lsx_sym("byte", 8);
    WritableFile* w = nullptr;
    env->NewWritableFile("/f", &w);
    REQUIRE(w->Append(Slice(data, half)).ok() && w->Append(Slice(data, half)).ok() && w->Append("final").ok(), "append succeeds");
    uint64_t size = 0;
    REQUIRE(env->GetFileSize("/f", &size).ok() && size == total, "the size is the number of bytes appended");
    RandomAccessFile* f = nullptr;
    env->NewRandomAccessFile("/f", &f);
    char b[16];
    Slice r;
    for (uint64_t from = 0; from < total - 5; from += half)
      for (int i = 0; i < 5; i++)
        REQUIRE(f->Read(from + marks[i], 6, &r, b).ok() && r.size() == 6 && sameBytes(r.data(), data + marks[i], 6), "a read returns the bytes appended");
    REQUIRE(f->Read(total - 5, 9, &r, b).ok() && r == Slice("final"), "a read is shortened only by the end of the file");
    REQUIRE(f->Read(total, 9, &r, b).ok() && r.empty(), "a read at the end is empty");
    REQUIRE(!f->Read(total + 1, 1, &r, b).ok(), "a read that starts beyond the end is an error");
    const uint64_t skips[] = {total - 5, half + (1ull << 30), (1ull << 31) - 3, total - 1, ~0ull};
    for (int i = 0; i < 5; i++) {
      SequentialFile* q = nullptr;
      env->NewSequentialFile("/f", &q);
      REQUIRE(q->Read(1, &r, b).ok() && r.size() == 1 && q->Skip(skips[i] - 1).ok() && q->Read(4, &r, b).ok(), "a skip and a read succeed");
      if (i == 0) REQUIRE(r == Slice("fina") && q->Read(4, &r, b).ok() && r == Slice("l") && q->Skip(7).ok() && q->Read(4, &r, b).ok() && r.empty(), "a read returns the bytes appended");
      if (i == 1 || i == 2) REQUIRE(r.size() == 4 && sameBytes(r.data(), data + marks[i + 1], 4), "a read returns the bytes appended");
      if (i == 3) REQUIRE(r == Slice("l"), "a read returns the bytes appended");
      if (i == 4) REQUIRE(r.empty(), "a skip past the end stops at the end");
      delete q;
    }
    delete f;
    delete w;
    free(data);
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "nothing leaks");
}
// truncation by creating again, appends through several writers, reads in between
extern "C" void c18_history() {
  const int ops = (int)lsx_param("ops", 4);
  StubEnv base;
  std::unique_ptr<Env> env(NewMemEnv(&base));
  static const uint32_t kLen[] = {1, 8191, 2, 8192};
  const uint32_t nl = (uint32_t)lsx_param("lens", 2);
  std::string want;
  WritableFile* w = nullptr;
  env->NewWritableFile("/f", &w);
  SequentialFile* f = nullptr;
  env->NewSequentialFile("/f", &f);
  uint64_t pos = 0;
  Buf big(8192, "d");
  Buf scratch(45000);
  for (int i = 0; i < ops; i++) {
    switch (lsx_choose(5, "op")) {
      case 0: {
        uint32_t n = kLen[lsx_choose(nl, "length")];
        REQUIRE(w->Append(Slice(big.p + i, n < 8192 - (uint32_t)i ? n : 8192 - (uint32_t)i)).ok(), "append succeeds");
        want.append(big.p + i, n < 8192 - (uint32_t)i ? n : 8192 - (uint32_t)i);
        break;
      }
      case 1:
        delete w;
        REQUIRE(env->NewWritableFile("/f", &w).ok() && w, "a file can be created");
        want.clear();
        break;
      case 2:
        delete w;
        REQUIRE(env->NewAppendableFile("/f", &w).ok() && w, "a file can be opened for appending");
        break;
      case 3: {
        if (pos > want.size()) break;  // truncated below the reader's position: not defined
        uint32_t n = kLen[lsx_choose(nl, "length")];
        Slice r("x", 1);
        REQUIRE(f->Read(n, &r, scratch.p).ok(), "a sequential read succeeds");
        uint64_t m = want.size() - pos < n ? want.size() - pos : n;
        REQUIRE(r.size() == m && sameBytes(r.data(), want.data() + pos, m), "a sequential read returns the next bytes");
        pos += m;
        break;
      }
      case 4: {
        if (pos > want.size()) break;
        REQUIRE(f->Skip(3).ok(), "skip succeeds");
        pos += want.size() - pos < 3 ? want.size() - pos : 3;
        break;
      }
    }
    uint64_t size = 0;
    REQUIRE(env->GetFileSize("/f", &size).ok() && size == want.size(), "the size is the number of bytes appended since the last truncation");
  }
  RandomAccessFile* r = nullptr;
  env->NewRandomAccessFile("/f", &r);
  Slice all("x", 1);
  REQUIRE(r->Read(0, 45000, &all, scratch.p).ok() && all.size() == want.size() && sameBytes(all.data(), want.data(), want.size()), "the file holds the bytes appended since the last truncation");
  delete r;
  delete f;
  delete w;
  lsx_cover("end");
}

// ---------------------------------------------------------------- C19
static const char* const kName[] = {"/d/a", "/d/ab", "/e", "/d"};
struct Model { bool there[4]; std::string data[4]; };
static std::string contents(Env& env, const std::string& n) {
  RandomAccessFile* f = nullptr;
  Status s = env.NewRandomAccessFile(n, &f);
  REQUIRE(s.ok() && f, "an existing file can be opened");
  char buf[64];
  Slice r;
  s = f->Read(0, sizeof buf, &r, buf);
  REQUIRE(s.ok(), "an existing file can be read");
  delete f;
  return std::string(r.data(), r.size());
}
static void checkNames(Env& env, const Model& m, int nk) {
  for (int k = 0; k < nk; k++) {
    REQUIRE(env.FileExists(kName[k]) == m.there[k], "a file exists exactly while its name is in use");
    if (m.there[k]) {
      uint64_t size = 77;
      REQUIRE(env.GetFileSize(kName[k], &size).ok() && size == m.data[k].size(), "the size is that of the named file");
      std::string c = contents(env, kName[k]);
      REQUIRE(c.size() == m.data[k].size() && sameBytes(c.data(), m.data[k].data(), c.size()), "a name gives its own contents");
    } else {
      uint64_t size = 77;
      SequentialFile* sf = (SequentialFile*)16;
      RandomAccessFile* rf = (RandomAccessFile*)16;
      REQUIRE(!env.NewSequentialFile(kName[k], &sf).ok() && sf == nullptr, "opening a missing file fails and gives a null file");
      REQUIRE(!env.NewRandomAccessFile(kName[k], &rf).ok() && rf == nullptr, "opening a missing file fails and gives a null file");
      REQUIRE(!env.GetFileSize(kName[k], &size).ok(), "the size of a missing file is an error");
      REQUIRE(!env.FileExists(kName[k]), "a failed operation has no side effect");
    }
  }
  static const char* const dirs[] = {"/d", "/e", "/d/a", "/x"};
  for (int d = 0; d < 4; d++) {
    std::vector<std::string> kids(1, "stale");
    REQUIRE(env.GetChildren(dirs[d], &kids).ok(), "listing succeeds");
    size_t want = 0, dl = strlen(dirs[d]);
    for (int k = 0; k < nk; k++) {
      size_t n = strlen(kName[k]);
      if (!m.there[k] || n <= dl || memcmp(kName[k], dirs[d], dl) || kName[k][dl] != '/') continue;
      want++;
      REQUIRE(std::count(kids.begin(), kids.end(), std::string(kName[k] + dl + 1)) == 1, "a listing has each existing name once, relative to the directory");
    }
    REQUIRE(kids.size() == want, "a listing has nothing else");
  }
}
extern "C" void c19_names() {
  const int ops = (int)lsx_param("ops", 3), nk = (int)lsx_param("names", 3);
  StubEnv base;
  int64_t before = lsx_live_allocs();
  {
    std::unique_ptr<Env> env(NewMemEnv(&base));
    Model m;
    for (int k = 0; k < 4; k++) m.there[k] = false;
    char stamp[2] = {(char)lsx_sym("byte", 8), (char)lsx_sym("byte", 8)};
    uint32_t equal = lsx_choose(2, "equal_sizes");
    for (int i = 0; i < ops; i++) {
      uint32_t op = lsx_choose(4, "op");
      int k = (int)lsx_choose((uint32_t)nk, "name");
      char text[3] = {(char)('0' + i), stamp[i & 1], 'z'};
      Slice data(text, equal ? 2 : 1 + (size_t)i % 3);
      switch (op) {
        case 0: case 1: {
          WritableFile* w = nullptr;
          Status s = op ? env->NewAppendableFile(kName[k], &w) : env->NewWritableFile(kName[k], &w);
          REQUIRE(s.ok() && w, "a file can be created or opened for appending");
          if (!op || !m.there[k]) m.data[k].clear();
          else lsx_cover("appended to an existing file");
          m.there[k] = true;
          REQUIRE(w->Append(data).ok() && w->Close().ok(), "append and close succeed");
          delete w;
          m.data[k].append(data.data(), data.size());
          break;
        }
        case 2: {
          Status s = env->RemoveFile(kName[k]);
          REQUIRE(s.ok() == m.there[k], "removing succeeds exactly for existing names");
          m.there[k] = false;
          break;
        }
        case 3: {
          int t = (int)lsx_choose((uint32_t)nk, "target");
          Status s = env->RenameFile(kName[k], kName[t]);
          REQUIRE(s.ok() == m.there[k], "renaming succeeds exactly for existing names");
          if (s.ok() && t != k) {
            m.data[t] = m.data[k];
            m.there[t] = true;
            m.there[k] = false;
          }
          if (s.ok() && t == k) lsx_cover("renamed to itself");
          break;
        }
      }
      if (i + 1 == ops || op == 3) checkNames(*env, m, nk);
    }
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "everything is freed with the environment");
}
// operations on directories, locks and logs leave every file as it is
extern "C" void c19_others() {
  StubEnv base;
  std::unique_ptr<Env> env(NewMemEnv(&base));
  Model m;
  char v = (char)lsx_sym("byte", 8);
  for (int k = 0; k < 4; k++) {
    m.there[k] = lsx_choose(2, "there");
    if (!m.there[k]) continue;
    m.data[k] = std::string(1 + (size_t)k, (char)('a' + k));
    m.data[k].back() = v;
    WritableFile* w = nullptr;
    REQUIRE(env->NewWritableFile(kName[k], &w).ok() && w->Append(m.data[k]).ok(), "a file can be created");
    delete w;
  }
  const int k = (int)lsx_choose(4, "name");
  FileLock* l = nullptr;
  std::string dir;
  switch (lsx_choose(4, "op")) {
    case 0: (void)env->CreateDir(kName[k]); break;
    case 1: (void)env->RemoveDir(kName[k]); break;
    case 2: if (env->LockFile(kName[k], &l).ok()) { checkNames(*env, m, 4); REQUIRE(env->UnlockFile(l).ok(), "the lock is released"); } break;
    case 3: (void)env->GetTestDirectory(&dir); break;
  }
  checkNames(*env, m, 4);
  lsx_cover("end");
}
// arbitrary names: no confusion between names that share a prefix
extern "C" void c19_anynames() {
  StubEnv base;
  std::unique_ptr<Env> env(NewMemEnv(&base));
  std::string a = "/d/", b = "/d/";
  const uint32_t L = (uint32_t)lsx_param("len", 2);
  uint32_t na = 1 + lsx_choose(L, "la"), nb = 1 + lsx_choose(L, "lb");
  for (uint32_t i = 0; i < na; i++) a.push_back((char)lsx_sym("ca", 8));
  for (uint32_t i = 0; i < nb; i++) b.push_back((char)lsx_sym("cb", 8));
  int same = na == nb;
  for (uint32_t i = 0; i < na && i < nb; i++) same = same & (int)(a[3 + i] == b[3 + i]);
  lsx_assume(!same);
  WritableFile* w = nullptr;
  env->NewWritableFile(a, &w);
  w->Append("A");
  delete w;
  REQUIRE(env->FileExists(a), "a file exists exactly while its name is in use");
  REQUIRE(!env->FileExists(b), "a file exists exactly while its name is in use");
  switch (lsx_choose(3, "op")) {
    case 0:
      REQUIRE(env->RenameFile(a, b).ok(), "an existing file can be renamed");
      REQUIRE(env->FileExists(b) && !env->FileExists(a), "renaming moves the name");
      break;
    case 1: {
      REQUIRE(env->NewWritableFile(b, &w).ok(), "a file can be created");
      delete w;
      uint64_t size = 9;
      REQUIRE(env->GetFileSize(a, &size).ok() && size == 1, "creating one file leaves the others");
      REQUIRE(env->RemoveFile(b).ok() && env->FileExists(a) && !env->FileExists(b), "removing deletes only that name");
      break;
    }
    case 2: {
      std::vector<std::string> kids;
      REQUIRE(env->GetChildren("/d", &kids).ok() && kids.size() == 1 && kids[0].size() == na && sameBytes(kids[0].data(), a.data() + 3, na),
              "a listing has each existing name once, relative to the directory");
      break;
    }
  }
  lsx_cover("end");
}

// long names, and many of them: nothing is cut off or mixed up
extern "C" void c19_longnames() {
  static const uint32_t kLen[] = {16, 256, 15, 64, 4097, 65, 100, 128, 255, 1025, 65537};
  StubEnv base;
  int64_t before = lsx_live_allocs();
  {
    std::unique_ptr<Env> env(NewMemEnv(&base));
    const uint32_t n = kLen[lsx_choose((uint32_t)lsx_param("lens", 5), "len")];
    const uint32_t odd = (uint32_t[]){n - 1, 0, n / 2, n - 2}[lsx_choose(4, "odd")];
    const std::string dir(lsx_choose(2, "longdir") ? 300 : 1, 'k');
    const std::string d = "/" + dir, shorter = d + "/" + std::string(n - 1, 'm');
    std::string a = d + "/" + std::string(n, 'm'), b = a;
    const char ca = (char)lsx_sym("ca", 8), cb = (char)lsx_sym("cb", 8);
    lsx_assume((int)(ca != cb) & (int)(ca != 'm'));
    a[d.size() + 1 + odd] = ca;
    b[d.size() + 1 + odd] = cb;
    const std::string* all[] = {&a, &b, &shorter};
    WritableFile* w = nullptr;
    REQUIRE(env->NewWritableFile(a, &w).ok() && w->Append("A").ok(), "a file can be created");
    delete w;
    REQUIRE(env->FileExists(a) && !env->FileExists(b) && !env->FileExists(shorter), "a file exists exactly while its name is in use");
    REQUIRE(env->NewWritableFile(b, &w).ok() && w->Append("BB").ok(), "a file can be created");
    delete w;
    REQUIRE(env->NewAppendableFile(shorter, &w).ok() && w->Append("CCC").ok(), "a file can be created");
    delete w;
    REQUIRE(contents(*env, a) == "A" && contents(*env, b) == "BB" && contents(*env, shorter) == "CCC", "a name gives its own contents");
    std::vector<std::string> kids;
    REQUIRE(env->GetChildren(d, &kids).ok() && kids.size() == 3, "a listing has nothing else");
    for (int i = 0; i < 3; i++) {
      int hits = 0;
      for (const std::string& k : kids)
        if (k.size() + d.size() + 1 == all[i]->size()) hits += sameBytes(k.data(), all[i]->data() + d.size() + 1, k.size());
      REQUIRE(hits == 1, "a listing has each existing name once, relative to the directory");
    }
    switch (lsx_choose(3, "op")) {
      case 0:
        REQUIRE(env->RenameFile(a, b).ok() && env->FileExists(b) && !env->FileExists(a) && contents(*env, b) == "A" && contents(*env, shorter) == "CCC", "renaming moves the name");
        break;
      case 1:
        REQUIRE(env->RemoveFile(shorter).ok() && env->FileExists(a) && env->FileExists(b) && !env->FileExists(shorter), "removing deletes only that name");
        break;
      case 2:
        REQUIRE(env->NewWritableFile(a, &w).ok(), "a file can be created");
        delete w;
        REQUIRE(contents(*env, a).empty() && contents(*env, b) == "BB", "creating one file leaves the others");
        break;
    }
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "everything is freed with the environment");
}
extern "C" void c19_manynames() {
  StubEnv base;
  int64_t before = lsx_live_allocs();
  {
    std::unique_ptr<Env> env(NewMemEnv(&base));
    const int n = (int)lsx_param("files", 60);
    const char v = (char)lsx_sym("byte", 8);
    auto name = [](int i) { std::string s = i % 2 ? "/many/f" : "/many/sub"; s += std::to_string((i * 37) % 1000); return s; };
    for (int i = 0; i < n; i++) {
      WritableFile* w = nullptr;
      std::string text = std::to_string(i) + v;
      REQUIRE(env->NewWritableFile(name(i), &w).ok() && w->Append(text).ok(), "a file can be created");
      delete w;
    }
    const int one = (int)lsx_choose((uint32_t)n, "one"), two = (one * 7 + 3) % n;
    bool gone = true;
    std::string want = std::to_string(one) + v;
    std::string c = contents(*env, name(one));
    REQUIRE(c.size() == want.size() && sameBytes(c.data(), want.data(), c.size()), "a name gives its own contents");
    if (lsx_choose(2, "rename") && one != two) REQUIRE(env->RenameFile(name(one), name(two)).ok(), "an existing file can be renamed");
    else { REQUIRE(env->RemoveFile(name(one)).ok(), "an existing file can be removed"); gone = false; }
    std::vector<std::string> kids;
    REQUIRE(env->GetChildren("/many", &kids).ok() && kids.size() == (size_t)n - 1, "a listing has each existing name once, relative to the directory");
    for (int i = 0; i < n; i++) {
      const bool there = i != one;
      REQUIRE(env->FileExists(name(i)) == there, "a file exists exactly while its name is in use");
      REQUIRE(std::count(kids.begin(), kids.end(), name(i).substr(6)) == (there ? 1 : 0), "a listing has each existing name once, relative to the directory");
      if (!there) continue;
      want = std::to_string(gone && i == two ? one : i) + v;
      c = contents(*env, name(i));
      REQUIRE(c.size() == want.size() && sameBytes(c.data(), want.data(), c.size()), "a name gives its own contents");
    }
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "everything is freed with the environment");
}

// ---------------------------------------------------------------- C20
struct Ino { std::string data; };
struct Handle { int kind; int ino; WritableFile* w; RandomAccessFile* r; SequentialFile* s; size_t pos; };
extern "C" void c20_handles() {
  const int ops = (int)lsx_param("ops", 4), nk = 2;
  StubEnv base;
  int64_t before = lsx_live_allocs();
  {
    Env* env = NewMemEnv(&base);
    Ino ino[8];
    int ni = 0, name[2] = {-1, -1};
    Handle h[8];
    int nh = 0;
    // one file to begin with, a writer held
    h[0] = Handle{0, 0, nullptr, nullptr, nullptr, 0};
    env->NewWritableFile(kName[0], &h[0].w);
    nh = ni = 1;
    name[0] = 0;
    h[0].w->Append("base");
    ino[0].data = "base";
    for (int i = 0; i < ops; i++) {
      uint32_t op = lsx_choose(7, "op");
      int k = op == 5 ? 0 : (int)lsx_choose(nk, "name");
      char c = (char)('0' + i);
      switch (op) {
        case 0: case 1: {  // create or append-open, write, keep the writer
          WritableFile* w = nullptr;
          REQUIRE((op ? env->NewAppendableFile(kName[k], &w) : env->NewWritableFile(kName[k], &w)).ok() && w, "a file can be created or opened for appending");
          if (name[k] < 0) name[k] = ni++;
          else if (!op) ino[name[k]].data.clear();
          h[nh++] = Handle{0, name[k], w, nullptr, nullptr, 0};
          w->Append(Slice(&c, 1));
          ino[name[k]].data.push_back(c);
          break;
        }
        case 2: {
          RandomAccessFile* r = nullptr;
          REQUIRE(env->NewRandomAccessFile(kName[k], &r).ok() == (name[k] >= 0), "exactly existing files can be opened");
          if (r) h[nh++] = Handle{1, name[k], nullptr, r, nullptr, 0};
          break;
        }
        case 3: {
          SequentialFile* s = nullptr;
          REQUIRE(env->NewSequentialFile(kName[k], &s).ok() == (name[k] >= 0), "exactly existing files can be opened");
          if (s) h[nh++] = Handle{2, name[k], nullptr, nullptr, s, 0};
          break;
        }
        case 4: env->RemoveFile(kName[k]); name[k] = -1; break;
        case 5: {
          int s = (int)lsx_choose(nk, "from");
          bool ok = env->RenameFile(kName[s], kName[1 - s]).ok();
          REQUIRE(ok == (name[s] >= 0), "exactly existing files can be renamed");
          if (ok) { name[1 - s] = name[s]; name[s] = -1; }
          break;
        }
        case 6: {  // close one handle
          if (!nh) break;
          int j = k ? nh - 1 : 0;
          delete h[j].w; delete h[j].r; delete h[j].s;
          h[j] = h[--nh];
          break;
        }
      }
      for (int j = 0; j < nh; j++) if (h[j].kind == 0) { h[j].w->Append(Slice(&c, 1)); ino[h[j].ino].data.push_back(c); }
      char buf[64];
      for (int j = 0; j < nh; j++) {
        const std::string& d = ino[h[j].ino].data;
        Slice r;
        if (h[j].kind == 1) {
          REQUIRE(h[j].r->Read(0, sizeof buf, &r, buf).ok() && r == Slice(d), "an open reader keeps reading the same file");
          for (int q = 0; q < nk; q++) if (name[q] == h[j].ino) lsx_cover("reader of a live name");
          if (name[0] != h[j].ino && name[1] != h[j].ino) lsx_cover("reader of a removed file");
        }
        if (h[j].kind == 2 && h[j].pos <= d.size()) {
          REQUIRE(h[j].s->Read(2, &r, buf).ok(), "an open reader keeps reading the same file");
          size_t m = d.size() - h[j].pos < 2 ? d.size() - h[j].pos : 2;
          REQUIRE(r == Slice(d.data() + h[j].pos, m), "an open reader keeps reading the same file");
          h[j].pos += m;
        }
      }
    }
    uint32_t last = lsx_choose(3, "teardown");
    if (last == 0) delete env;
    for (int j = 0; j < nh; j++) {
      int q = last == 2 ? nh - 1 - j : j;
      if (last == 1 && j == nh / 2) { delete env; env = nullptr; }
      if (h[q].kind == 0) { REQUIRE(h[q].w->Append("!").ok() && h[q].w->Close().ok(), "an open writer stays usable"); ino[h[q].ino].data.push_back('!'); }
      if (h[q].kind == 1) {
        char buf[64];
        Slice r;
        REQUIRE(h[q].r->Read(0, sizeof buf, &r, buf).ok() && r == Slice(ino[h[q].ino].data), "an open reader keeps reading the same file");
      }
      delete h[q].w; delete h[q].r; delete h[q].s;
    }
    if (last != 0 && env) delete env;
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "when the environment and all handles are gone, all memory is freed");
}
// a lock, a logger and a directory cost nothing that stays
extern "C" void c20_misc() {
  StubEnv base;
  int64_t before = lsx_live_allocs();
  {
    std::unique_ptr<Env> env(NewMemEnv(&base));
    FileLock* l = nullptr;
    REQUIRE(env->LockFile("/l", &l).ok() && l, "a lock is given");
    REQUIRE(env->UnlockFile(l).ok(), "a lock is taken back");
    Logger* g = nullptr;
    REQUIRE(env->NewLogger("/log", &g).ok() && g, "a logger is given");
    Log(g, "x %d", 1);
    delete g;
    REQUIRE(env->CreateDir("/q").ok() && env->RemoveDir("/q").ok(), "directories can be made and removed");
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "when the environment and all handles are gone, all memory is freed");
}

// very many handles of one file
extern "C" void c20_many() {
  static const int kCount[] = {15, 16, 126, 127, 128, 129, 254, 255, 256, 257, 300, 32767, 65535, 65536, 66000};
  const int n = kCount[lsx_choose((uint32_t)lsx_param("counts", 11), "n")];
  const uint32_t kind = lsx_choose(3, "kind"), how = lsx_choose(4, "how"), order = lsx_choose(2, "order");
  StubEnv base;
  int64_t before = lsx_live_allocs();
  {
    std::unique_ptr<Env> env(NewMemEnv(&base));
    WritableFile* w = nullptr;
    REQUIRE(env->NewWritableFile("/f", &w).ok() && w->Append("content").ok(), "a file is written");
    delete w;
    static RandomAccessFile* r[66000];
    static SequentialFile* q[66000];
    static WritableFile* a[66000];
    All ok;
    for (int i = 0; i < n; i++) {
      Status s = kind == 0 ? env->NewRandomAccessFile("/f", &r[i]) : kind == 1 ? env->NewSequentialFile("/f", &q[i]) : env->NewAppendableFile("/f", &a[i]);
      ok.that(s.ok());
    }
    REQUIRE(ok.ok, "a file can be opened very many times");
    RandomAccessFile* last = nullptr;
    REQUIRE(env->NewRandomAccessFile("/f", &last).ok(), "a file can be opened very many times");
    if (how == 0) REQUIRE(env->RemoveFile("/f").ok(), "an open file can be removed");
    if (how == 1) {
      WritableFile* o = nullptr;
      REQUIRE(env->NewWritableFile("/g", &o).ok() && o->Append("other").ok(), "a file is written");
      delete o;
      REQUIRE(env->RenameFile("/g", "/f").ok(), "an open file can be replaced");
    }
    if (how == 2) env.reset();
    char b[16];
    Slice x;
    auto reads = [&]() { return last->Read(0, sizeof b, &x, b).ok() && x == Slice("content"); };
    REQUIRE(reads(), "a file with very many handles stays usable");
    for (int k = 0; k < n; k++) {
      int i = order ? n - 1 - k : k;
      if (kind == 0) delete r[i];
      else if (kind == 1) delete q[i];
      else delete a[i];
    }
    REQUIRE(reads(), "a file with very many handles stays usable until the last is closed");
    delete last;
    if (how == 3) {
      uint64_t size = 0;
      REQUIRE(env->GetFileSize("/f", &size).ok() && size == 7, "a file that has its name stays when its handles are closed");
    }
  }
  REQUIRE(lsx_live_allocs() == before, "when the environment and all handles are gone, all memory is freed");
  lsx_cover("end");
}
