// C12, C13, C14: the LRU cache, sequential histories.
#include "h.h"
#include "lsmdb/cache.h"
#include "lsmdb/slice.h"
using namespace lsmdb;

// Hash values are chosen by the harness: any collision pattern.
static const int MAXK = 24;
static uint32_t g_hash[MAXK];
static const char* keyText(int k) {
  static const char* t[] = {"a", "b", "ab", "", "aa", "ba", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t"};
  return t[k];
}
static size_t keyLen(int k) { return k == 3 ? 0 : (k == 2 || k == 4 || k == 5) ? 2 : 1; }
static int keyOf(const char* p, size_t n) {
  for (int k = 0; k < MAXK; k++)
    if (keyLen(k) == n && (n < 1 || p[0] == keyText(k)[0]) && (n < 2 || p[1] == keyText(k)[1])) return k;
  return -1;
}
static uint32_t g_stride;
static uint32_t g_split;  // the numbered keys below this share one hash value
extern "C" uint32_t lsxo__ZN5lsmdb4HashEPKcmj(const char* p, size_t n, uint32_t) {
  if (n == 4 && p[0] == '#') {
    uint32_t k = (uint32_t)(unsigned char)p[2] * 256 + (unsigned char)p[3];
    return 0x70000003u + (k < g_split ? 0 : g_stride * k);
  }
  int k = keyOf(p, n);
  return k < 0 ? 0x01234567u : g_hash[k];
}
static void pickHashes(int nk) {
  // full collisions; same bucket; same partition; a mix; different partitions
  uint32_t h = (uint32_t)lsx_choose((uint32_t)lsx_param("hashes", 5), "hashes");
  for (int k = 0; k < nk; k++) {
    switch (h) {
      case 0: g_hash[k] = 0x30000007u; break;
      case 1: g_hash[k] = 0x30000001u + 0x40u * (uint32_t)k; break;
      case 2: g_hash[k] = (uint32_t)k * 0x10000000u; break;
      case 3: g_hash[k] = 0xf0000000u + (uint32_t)k; break;
      default: g_hash[k] = k & 1 ? 0x0fffffffu : 0xf0000003u - (uint32_t)k; break;
    }
  }
}
static uint32_t partOf(int k) { return g_hash[k] >> 28; }

// everything that was ever inserted
struct Ent {
  int key;
  size_t charge;
  int held;       // outstanding handles
  int deleted;    // deleter calls
  bool cached;    // by the model
  uint64_t use;   // when its use ended
};
static Ent g_e[32];
static int g_n;
static int g_order[64], g_no;   // deleter calls in order
static bool g_badDelete;
static void deleter(const Slice& key, void* v) {
  uint64_t i = (uint64_t)v - 1000;
  if (i >= (uint64_t)g_n || key.size() != keyLen(g_e[i].key) || keyOf(key.data(), key.size()) != g_e[i].key) { g_badDelete = true; return; }
  g_e[i].deleted++;
  g_order[g_no++] = (int)i;
}
static Cache::Handle* insert(Cache& c, int key, size_t charge) {
  int id = g_n++;
  g_e[id] = Ent{key, charge, 1, 0, false, 0};
  Buf kb(keyLen(key));  // gone as soon as the insert returns
  memcpy(kb.p, keyText(key), kb.n);
  return c.Insert(Slice(kb.p, kb.n), (void*)(uint64_t)(1000 + id), charge, &deleter);
}
static Cache::Handle* lookup(Cache& c, int key) {
  Buf kb(keyLen(key));
  memcpy(kb.p, keyText(key), kb.n);
  return c.Lookup(Slice(kb.p, kb.n));
}
static void erase(Cache& c, int key) {
  Buf kb(keyLen(key));
  memcpy(kb.p, keyText(key), kb.n);
  c.Erase(Slice(kb.p, kb.n));
}
static int valueOf(Cache& c, Cache::Handle* h) { return (int)((uint64_t)c.Value(h) - 1000); }
static void reset() { g_n = g_no = 0; g_badDelete = false; }

struct Held { Cache::Handle* h; int id; };

// ---------------------------------------------------------------- C12
extern "C" void c12_mapping() {
  reset();
  const int nk = (int)lsx_param("keys", 3), ops = (int)lsx_param("ops", 4);
  pickHashes(nk);
  int64_t before = lsx_live_allocs();
  {
    std::shared_ptr<Cache> c = NewLRUCache(16 * 1000);
    int cur[MAXK];
    for (int k = 0; k < nk; k++) cur[k] = -1;
    Cache::Handle* held = nullptr;
    int heldId = -1;
    auto release = [&]() { if (held) { g_e[heldId].held = 0; c->Release(held); held = nullptr; } };
    for (int i = 0; i < ops; i++) {
      uint32_t op = lsx_choose(i + 1 == ops ? 4 : 5, "op");
      int k = op < 3 ? (int)lsx_choose((uint32_t)nk, "key") : 0;
      switch (op) {
        case 0: {
          size_t charge = 1 + (size_t)g_n * 3;
          Cache::Handle* h = insert(*c, k, charge);
          REQUIRE(h != nullptr && valueOf(*c, h) == g_n - 1, "insert returns a handle to the inserted value");
          if (cur[k] >= 0) lsx_cover("replaced");
          cur[k] = g_n - 1;
          release();
          held = h;
          heldId = g_n - 1;
          break;
        }
        case 1: {
          Cache::Handle* h = lookup(*c, k);
          REQUIRE((h != nullptr) == (cur[k] >= 0), "lookup finds a key exactly when it is cached");
          if (h) {
            REQUIRE(valueOf(*c, h) == cur[k], "lookup returns the latest value of the key");
            c->Release(h);
            lsx_cover("found");
          }
          break;
        }
        case 2: erase(*c, k); cur[k] = -1; break;
        case 3:
          c->Prune();
          for (int j = 0; j < nk; j++) if (!(held && heldId == cur[j])) cur[j] = -1;
          break;
        case 4: release(); break;
      }
      size_t total = 0;
      for (int j = 0; j < nk; j++) if (cur[j] >= 0) total += g_e[cur[j]].charge;
      REQUIRE(c->TotalCharge() == total, "the total charge is the sum over the cached entries");
    }
    release();
    for (int k = 0; k < nk; k++) {
      Cache::Handle* h = lookup(*c, k);
      REQUIRE((h != nullptr) == (cur[k] >= 0), "lookup finds a key exactly when it is cached");
      if (h) { REQUIRE(valueOf(*c, h) == cur[k], "lookup returns the latest value of the key"); c->Release(h); }
    }
    lsx_cover("end");
  }
  (void)before;
}
// many keys in one partition: the table grows (and its chains are rebuilt)
extern "C" void c12_growth() {
  reset();
  static const uint32_t kStride[] = {1, 0, 4, 8, 0x100, 3};
  static const int kCount[] = {4, 5, 8, 9, 17, 20};
  uint32_t stride = kStride[lsx_choose(6, "stride")];
  int n = kCount[lsx_choose((uint32_t)lsx_param("counts", 5), "n")];
  for (int k = 0; k < n; k++) g_hash[k] = 0x50000000u + stride * (uint32_t)k;
  int gone = (int)lsx_choose((uint32_t)n, "erased"), when = (int)lsx_choose(3, "when");
  std::shared_ptr<Cache> c = NewLRUCache(16 * 1000);
  int cur[MAXK];
  for (int k = 0; k < n; k++) {
    c->Release(insert(*c, k, 1));
    cur[k] = g_n - 1;
    if (when == 0 && k == n / 2 && gone <= k) { erase(*c, gone); cur[gone] = -1; }
  }
  if (when == 1) { erase(*c, gone); cur[gone] = -1; }
  if (when == 2) { c->Release(insert(*c, gone, 1)); cur[gone] = g_n - 1; }
  size_t total = 0;
  for (int k = 0; k < n; k++) {
    Cache::Handle* h = lookup(*c, k);
    REQUIRE((h != nullptr) == (cur[k] >= 0), "lookup finds a key exactly when it is cached");
    if (h) {
      REQUIRE(valueOf(*c, h) == cur[k], "lookup returns the latest value of the key");
      c->Release(h);
      total++;
    }
  }
  REQUIRE(c->TotalCharge() == total, "the total charge is the sum over the cached entries");
  lsx_cover("end");
}
// tables of many buckets: keys of four bytes with a zero byte among them
static int g_gone[2048];
static void numberKey(char* b, int k) { b[0] = '#'; b[1] = 0; b[2] = (char)(k >> 8); b[3] = (char)k; }
static void countGone(const Slice& key, void* v) {
  uint64_t i = (uint64_t)v & 0xffff;
  char b[4];
  numberKey(b, (int)i);
  if (key.size() != 4 || memcmp(key.data(), b, 4)) g_badDelete = true;
  g_gone[i]++;
}
static void table(int n) {
  reset();
  int64_t before = lsx_live_allocs();
  {
    std::shared_ptr<Cache> c = NewLRUCache((size_t)1 << 30);
    for (int k = 0; k < n; k++) g_gone[k] = 0;
    auto put = [&](int k, uint64_t round) {
      Buf b(4);
      numberKey(b.p, k);
      c->Release(c->Insert(Slice(b.p, 4), (void*)(round << 16 | (uint64_t)k), 1, &countGone));
    };
    auto check = [&](int k, bool there, uint64_t round) {
      char b[4];
      numberKey(b, k);
      Cache::Handle* h = c->Lookup(Slice(b, 4));
      REQUIRE((h != nullptr) == there, "lookup finds a key exactly when it is cached, among many");
      if (h) { REQUIRE(c->Value(h) == (void*)(round << 16 | (uint64_t)k), "lookup returns the latest value of the key, among many"); c->Release(h); }
    };
    for (int k = 0; k < n; k++) put(k, 1);
    for (int k = 0; k < n; k++) check(k, true, 1);
    REQUIRE(c->TotalCharge() == (size_t)n, "the total charge is the sum over the cached entries");
    for (int k = 0; k < n; k += 3) {
      char b[4];
      numberKey(b, k);
      c->Erase(Slice(b, 4));
    }
    for (int k = 1; k < n; k += 3) put(k, 2);
    for (int k = 0; k < n; k++) check(k, k % 3 != 0, k % 3 == 1 ? 2 : 1);
    REQUIRE(c->TotalCharge() == (size_t)(n - (n + 2) / 3), "the total charge is the sum over the cached entries");
    for (int k = 0; k < n; k += 3) put(k, 3);
    for (int k = 0; k < n; k++) check(k, true, k % 3 == 0 ? 3 : k % 3 == 1 ? 2 : 1);
    All once;
    for (int k = 0; k < n; k++) once.eq((uint64_t)g_gone[k], k % 3 != 2);
    REQUIRE(once.ok && !g_badDelete, "what was erased or replaced is deleted once");
    c->Prune();
    REQUIRE(c->TotalCharge() == 0, "pruning drops everything that is not held");
    for (int k = 0; k < n; k++) check(k, false, 0);
  }
  REQUIRE(lsx_live_allocs() == before, "the cache frees all its memory");
  lsx_cover("end");
}
extern "C" void c12_table() {
  static const int kCount[] = {33, 65, 130, 300, 1100};
  static const uint32_t kStride[] = {1, 64, 0x00100001u, 0};
  const int n = kCount[lsx_choose((uint32_t)lsx_param("counts", 5), "n")];
  g_stride = kStride[lsx_choose(n > 100 ? 3 : 4, "stride")];
  g_split = 0;
  table(n);
}
// one chain of every length beside a spread of others, through every growth
extern "C" void c12_chain() {
  const int n = (int)lsx_param("n", 34);
  g_stride = lsx_choose(2, "stride") ? 5 : 1;
  g_split = lsx_choose((uint32_t)n + 1, "chain");
  table(n);
}
// keys of many lengths that collide and differ in one place, or in length only
static const char* g_kp[4];
static size_t g_kn[4];
static int g_kd[4];
static void keyGone(const Slice& key, void* v) {
  int i = (int)(uint64_t)v;
  g_kd[i]++;
  if (key.size() != g_kn[i]) { g_badDelete = true; return; }
  if (memcmp(key.data(), g_kp[i], g_kn[i])) g_badDelete = true;
}
extern "C" void c12_keys() {
  reset();
  static const size_t kLen[] = {3, 7, 8, 9, 16, 17, 32, 33, 127, 128, 255, 256, 257, 511, 4096, 65535, 65536, 65537};
  const uint32_t pick = lsx_choose(18 + (uint32_t)lsx_param("every", 130), "n");
  const size_t n = pick < 18 ? kLen[pick] : pick - 15;
  const uint32_t where = lsx_choose(3, "where");
  const size_t pos = where == 0 ? 0 : where == 1 ? n / 2 : n - 1;
  int64_t before = lsx_live_allocs();
  {
    Buf a(n), b(n), longer(n + 1), shorter(n - 1);
    fillPattern(a.p, n);
    a.p[1] = 0;
    if (n > 4) a.p[n - 2] = (char)0x80;
    a.p[0] = (char)lsx_sym("c", 8);
    lsx_assume(a.p[0] != '#');
    memcpy(b.p, a.p, n);
    b.p[pos] = (char)lsx_sym("d", 8);
    lsx_assume((b.p[pos] != a.p[pos]) & (b.p[0] != '#'));
    memcpy(longer.p, a.p, n);
    longer.p[n] = (char)lsx_sym("l", 8);
    memcpy(shorter.p, a.p, n - 1);
    g_kp[0] = a.p; g_kp[1] = b.p; g_kp[2] = longer.p; g_kp[3] = shorter.p;
    g_kn[0] = n; g_kn[1] = n; g_kn[2] = n + 1; g_kn[3] = n - 1;
    for (int i = 0; i < 4; i++) g_kd[i] = 0;
    std::shared_ptr<Cache> c = NewLRUCache(16 * 1000);
    auto put = [&](int i) {
      Buf k(g_kn[i]);
      memcpy(k.p, g_kp[i], k.n);
      c->Release(c->Insert(Slice(k.p, k.n), (void*)(uint64_t)i, 1, &keyGone));
    };
    auto check = [&](int i, bool there) {
      Cache::Handle* h = c->Lookup(Slice(g_kp[i], g_kn[i]));
      REQUIRE((h != nullptr) == there, "lookup finds exactly the keys that are cached, whatever their lengths");
      if (h) { REQUIRE(c->Value(h) == (void*)(uint64_t)i, "lookup returns the value of the key, whatever its length"); c->Release(h); }
    };
    put(0);
    for (int i = 0; i < 4; i++) check(i, i == 0);
    put(1);
    put(2);
    for (int i = 0; i < 4; i++) check(i, i < 3);
    put(3);
    for (int i = 0; i < 4; i++) check(i, true);
    c->Erase(Slice(g_kp[0], g_kn[0]));
    for (int i = 0; i < 4; i++) check(i, i != 0);
    c->Erase(Slice(g_kp[2], g_kn[2]));
    for (int i = 0; i < 4; i++) check(i, i & 1);
    REQUIRE(g_kd[0] == 1 && g_kd[1] == 0 && g_kd[2] == 1 && g_kd[3] == 0 && !g_badDelete, "exactly the erased keys' values are deleted");
    c.reset();
    REQUIRE(g_kd[1] == 1 && g_kd[3] == 1 && !g_badDelete, "a deleter gets the entry's own key and value");
  }
  REQUIRE(lsx_live_allocs() == before, "the cache frees all its memory");
  lsx_cover("end");
}
// hash values fully symbolic
extern "C" void c12_hash() {
  reset();
  const int nk = (int)lsx_param("keys", 3);
  for (int k = 0; k < nk; k++) g_hash[k] = (uint32_t)lsx_sym("hash", 32);
  std::shared_ptr<Cache> c = NewLRUCache(16 * 1000);
  for (int k = 0; k < nk; k++) c->Release(insert(*c, k, 1));
  erase(*c, 0);
  for (int k = 0; k < nk; k++) {
    Cache::Handle* h = lookup(*c, k);
    REQUIRE((h != nullptr) == (k != 0), "lookup finds a key exactly when it is cached");
    if (h) { REQUIRE(valueOf(*c, h) == k, "lookup returns the latest value of the key"); c->Release(h); }
  }
  REQUIRE(c->TotalCharge() == (size_t)nk - 1, "the total charge is the sum over the cached entries");
  lsx_cover("end");
}
extern "C" void c12_zero() {
  reset();
  pickHashes(2);
  std::shared_ptr<Cache> c = NewLRUCache(0);
  Cache::Handle* h[3];
  int n = 0;
  for (int i = 0; i < 3; i++) {
    int k = (int)lsx_choose(2, "key");
    switch (lsx_choose(4, "op")) {
      case 0: h[n++] = insert(*c, k, 1 + (size_t)i); REQUIRE(valueOf(*c, h[n - 1]) == g_n - 1, "a cache of capacity zero hands out working handles"); break;
      case 1: REQUIRE(lookup(*c, k) == nullptr, "a cache of capacity zero caches nothing"); break;
      case 2: erase(*c, k); break;
      case 3: c->Prune(); break;
    }
    REQUIRE(c->TotalCharge() == 0, "a cache of capacity zero has no charge");
    for (int j = 0; j < n; j++) REQUIRE(valueOf(*c, h[j]) == j, "a cache of capacity zero hands out working handles");
  }
  for (int j = 0; j < n; j++) c->Release(h[j]);
  lsx_cover("end");
}
// any capacity: what fits is kept
extern "C" void c12_capacity() {
  reset();
  static const size_t kCap[] = {(size_t)-1, (size_t)-2, (size_t)-15, (size_t)-16, (size_t)-17, (size_t)1 << 63, 1, 15, 16, 17, 1 << 20};
  size_t cap = kCap[lsx_choose(11, "capacity")];
  for (int k = 0; k < 2; k++) g_hash[k] = (uint32_t)k * 0x10000000u;
  std::shared_ptr<Cache> c = NewLRUCache(cap);
  c->Release(insert(*c, 0, 1));
  c->Release(insert(*c, 1, 1));
  for (int k = 0; k < 2; k++) {
    Cache::Handle* h = lookup(*c, k);
    REQUIRE(h != nullptr && valueOf(*c, h) == k, "an entry that fits in the cache is kept");
    c->Release(h);
  }
  REQUIRE(c->TotalCharge() == 2, "the total charge is the sum over the cached entries");
  lsx_cover("end");
}

// ---------------------------------------------------------------- C13
// Each entry's charge is a bit of its own, so the total charge names the cached set: what the deleter may and must
// have seen follows from that and the outstanding handles, whatever the eviction policy.
static void checkDeleted(Cache& c, const Held* held, int nh) {
  size_t total = c.TotalCharge();
  All ok;
  for (int i = 0; i < g_n; i++) {
    bool cached = (total >> i) & 1;
    ok.that(g_e[i].deleted == ((cached || g_e[i].held) ? 0 : 1));
  }
  REQUIRE(!g_badDelete, "a deleter gets the entry's own key and value");
  REQUIRE(ok.ok, "an entry is deleted exactly once, as soon as it is neither cached nor held, and not before");
  for (int i = 0; i < nh; i++) REQUIRE(valueOf(c, held[i].h) == held[i].id, "a handle keeps returning its value");
}
extern "C" void c13_handles() {
  reset();
  const int nk = (int)lsx_param("keys", 2), ops = (int)lsx_param("ops", 4);
  pickHashes(nk);
  static const size_t kCap[] = {16 * 1000, 16 * 5, 16, 0};
  size_t cap = kCap[lsx_choose(4, "capacity")];
  int64_t before = lsx_live_allocs();
  {
    std::shared_ptr<Cache> c = NewLRUCache(cap);
    Held held[8];
    int nh = 0;
    for (int i = 0; i < ops; i++) {
      uint32_t op = lsx_choose(nh ? 5 : 4, "op");
      int k = op < 3 ? (int)lsx_choose((uint32_t)nk, "key") : 0;
      switch (op) {
        case 0: held[nh].h = insert(*c, k, (size_t)1 << g_n); held[nh].id = g_n - 1; nh++; break;
        case 1:
          if (Cache::Handle* h = lookup(*c, k)) {
            int id = valueOf(*c, h);
            REQUIRE(id >= 0 && id < g_n, "a handle returns a value that was inserted");
            held[nh].h = h;
            held[nh].id = id;
            g_e[id].held++;
            nh++;
            lsx_cover("second handle");
          }
          break;
        case 2: erase(*c, k); break;
        case 3: c->Prune(); break;
        case 4: {
          int j = (int)lsx_choose((uint32_t)nh, "which");
          Held x = held[j];
          held[j] = held[--nh];
          g_e[x.id].held--;
          c->Release(x.h);
          break;
        }
      }
      checkDeleted(*c, held, nh);
    }
    for (int i = 0; i < g_n; i++) if (g_e[i].deleted) lsx_cover("deleted");
    while (nh) {
      Held x = held[--nh];
      g_e[x.id].held--;
      c->Release(x.h);
      checkDeleted(*c, held, nh);
    }
  }
  All once;
  for (int i = 0; i < g_n; i++) once.that(g_e[i].deleted == 1);
  REQUIRE(once.ok && !g_badDelete, "destroying the cache deletes every entry exactly once");
  REQUIRE(lsx_live_allocs() == before, "the cache frees all its memory");
  lsx_cover("end");
}

// very many handles of one entry
extern "C" void c13_many() {
  reset();
  g_hash[0] = g_hash[1] = 0x30000007u;
  static const int kCount[] = {126, 127, 128, 254, 255, 256, 300, 65534, 65535, 65536, 66000};
  const int n = kCount[lsx_choose((uint32_t)lsx_param("counts", 7), "n")];
  const uint32_t how = lsx_choose(3, "how");
  int64_t before = lsx_live_allocs();
  {
    std::shared_ptr<Cache> c = NewLRUCache(16 * (size_t)lsx_choose(2, "capacity") * 1000 + 16);
    static Cache::Handle* g_many[66000];
    g_many[0] = insert(*c, 0, 1);
    for (int i = 1; i < n; i++) {
      g_many[i] = lookup(*c, 0);
      REQUIRE(g_many[i] != nullptr && valueOf(*c, g_many[i]) == 0, "lookup finds a key however many handles of it there are");
    }
    Cache::Handle* h = g_many[0];
    switch (how) {
      case 0: erase(*c, 0); break;
      case 1: c->Release(insert(*c, 0, 1)); break;
      default: c->Prune(); c->Release(insert(*c, 1, 1)); break;
    }
    All ok;
    for (int i = 1; i < n; i++) { c->Release(g_many[i]); ok.that(g_e[0].deleted == 0); }
    REQUIRE(ok.ok, "an entry with very many handles is not deleted before the last is released");
    REQUIRE(valueOf(*c, h) == 0, "a handle keeps returning its value");
    c->Release(h);
    if (how < 2) REQUIRE(g_e[0].deleted == 1, "an entry with very many handles is deleted when the last is released");
  }
  REQUIRE(g_e[0].deleted == 1 && !g_badDelete, "an entry with very many handles is deleted once");
  REQUIRE(lsx_live_allocs() == before, "the cache frees all its memory");
  lsx_cover("end");
}

// keys of many lengths: the deleter gets the whole key
extern "C" void c13_keys() {
  reset();
  static const size_t kLen[] = {1, 2, 3, 8, 16, 31, 127, 128, 255, 256, 257, 4096, 65535, 65536, 65537, 70001};
  const uint32_t pick = lsx_choose(16 + (uint32_t)lsx_param("every", 130), "n");
  const size_t n = pick < 16 ? kLen[pick] : pick - 15;
  const uint32_t way = lsx_choose(4, "way");
  int64_t before = lsx_live_allocs();
  {
    Buf a(n), b(n + 1);
    fillPattern(a.p, n);
    a.p[0] = (char)lsx_sym("c", 8);
    lsx_assume(a.p[0] != '#');
    memcpy(b.p, a.p, n);
    a.p[n - 1] = (char)lsx_sym("last", 8);
    lsx_assume(a.p[0] != '#');
    b.p[n - 1] = a.p[n - 1];
    b.p[n] = (char)lsx_sym("more", 8);
    g_kp[0] = a.p; g_kp[1] = b.p;
    g_kn[0] = n; g_kn[1] = n + 1;
    for (int i = 0; i < 4; i++) g_kd[i] = 0;
    std::shared_ptr<Cache> c = NewLRUCache(way == 3 ? 0 : 16 * 1000);
    Cache::Handle* h[2];
    for (int i = 0; i < 2; i++) {
      Buf k(g_kn[i]);
      memcpy(k.p, g_kp[i], k.n);
      h[i] = c->Insert(Slice(k.p, k.n), (void*)(uint64_t)i, 1, &keyGone);
    }
    if (way == 0) for (int i = 0; i < 2; i++) c->Erase(Slice(g_kp[i], g_kn[i]));
    REQUIRE(g_kd[0] == 0 && g_kd[1] == 0, "nothing that is held is deleted");
    for (int i = 0; i < 2; i++) c->Release(h[i]);
    if (way == 1) c->Prune();
    if (way != 2) REQUIRE(g_kd[0] == 1 && g_kd[1] == 1, "an entry is deleted exactly once, as soon as it is neither cached nor held, and not before");
    c.reset();
    REQUIRE(g_kd[0] == 1 && g_kd[1] == 1, "destroying the cache deletes every entry exactly once");
    REQUIRE(!g_badDelete, "a deleter gets the entry's own key and value");
  }
  REQUIRE(lsx_live_allocs() == before, "the cache frees all its memory");
  lsx_cover("end");
}

// entries of any charge, nothing too much: what is cached follows from the operations alone
static void weights(bool total) {
  reset();
  const int nk = 2, ops = (int)lsx_param("ops", 4);
  g_hash[0] = 0x30000007u;
  g_hash[1] = lsx_choose(2, "apart") ? 0x50000007u : 0x30000007u;
  int64_t before = lsx_live_allocs();
  {
    std::shared_ptr<Cache> c = NewLRUCache((size_t)1 << 63);
    Held held[8];
    int nh = 0;
    int cur[2] = {-1, -1};
    auto check = [&]() {
      All ok;
      for (int i = 0; i < g_n; i++) ok.that(g_e[i].deleted == ((cur[g_e[i].key] == i || g_e[i].held) ? 0 : 1));
      REQUIRE(!g_badDelete, "a deleter gets the entry's own key and value");
      REQUIRE(ok.ok, "an entry is deleted exactly once, as soon as it is neither cached nor held, and not before");
      for (int i = 0; i < nh; i++) REQUIRE(valueOf(*c, held[i].h) == held[i].id, "a handle keeps returning its value");
      if (total) {
        size_t sum = 0;
        for (int j = 0; j < nk; j++) if (cur[j] >= 0) sum += g_e[cur[j]].charge;
        REQUIRE(c->TotalCharge() == sum, "the total charge is the sum over the cached entries");
      }
    };
    for (int i = 0; i < ops; i++) {
      uint32_t op = lsx_choose(nh ? 5 : 4, "op");
      int k = op < 3 ? (int)lsx_choose((uint32_t)nk, "key") : 0;
      switch (op) {
        case 0:
          held[nh].h = insert(*c, k, (size_t)lsx_sym("charge", 55));
          held[nh].id = cur[k] = g_n - 1;
          nh++;
          break;
        case 1:
          if (Cache::Handle* h = lookup(*c, k)) {
            REQUIRE(valueOf(*c, h) == cur[k], "lookup returns the latest value of the key");
            held[nh].h = h;
            held[nh].id = cur[k];
            g_e[cur[k]].held++;
            nh++;
          } else {
            REQUIRE(cur[k] < 0, "what fits is kept");
          }
          break;
        case 2: erase(*c, k); cur[k] = -1; break;
        case 3:
          c->Prune();
          for (int j = 0; j < nk; j++) if (cur[j] >= 0 && !g_e[cur[j]].held) cur[j] = -1;
          break;
        case 4: {
          int j = (int)lsx_choose((uint32_t)nh, "which");
          Held x = held[j];
          held[j] = held[--nh];
          g_e[x.id].held--;
          c->Release(x.h);
          break;
        }
      }
      check();
    }
    while (nh) {
      Held x = held[--nh];
      g_e[x.id].held--;
      c->Release(x.h);
      check();
    }
  }
  All once;
  for (int i = 0; i < g_n; i++) once.that(g_e[i].deleted == 1);
  REQUIRE(once.ok && !g_badDelete, "destroying the cache deletes every entry exactly once");
  REQUIRE(lsx_live_allocs() == before, "the cache frees all its memory");
  lsx_cover("end");
}

extern "C" void c13_weights() { weights(false); }
extern "C" void c12_charges() { weights(true); }

// ---------------------------------------------------------------- C14
// exact least-recently-used reference
static uint64_t g_clock;
struct Ref {
  size_t cap;
  int order[32], no = 0;         // evictions expected by the current operation, in order
  int gone[32], ng = 0;          // other deletions expected
  int find(int key) { for (int i = g_n - 1; i >= 0; i--) if (g_e[i].cached && g_e[i].key == key) return i; return -1; }
  void drop(int i, bool evict) {
    g_e[i].cached = false;
    if (g_e[i].held == 0) { if (evict) order[no++] = i; else gone[ng++] = i; }
  }
  void inserted(int i) {
    int old = find(g_e[i].key);
    if (!cap) return;
    if (old >= 0) drop(old, false);
    g_e[i].cached = true;
    for (;;) {
      size_t usage = 0;
      int victim = -1;
      for (int j = 0; j < g_n; j++)
        if (g_e[j].cached && partOf(g_e[j].key) == partOf(g_e[i].key)) {
          usage += g_e[j].charge;
          if (!g_e[j].held && (victim < 0 || g_e[j].use < g_e[victim].use)) victim = j;
        }
      if (victim < 0 || usage <= cap) break;
      drop(victim, true);
    }
  }
  void released(int i) {
    if (--g_e[i].held == 0) {
      if (g_e[i].cached) g_e[i].use = ++g_clock;
      else gone[ng++] = i;
    }
  }
  void erased(int k) { int i = find(k); if (i >= 0) drop(i, false); }
  void pruned() { for (int i = 0; i < g_n; i++) if (g_e[i].cached && !g_e[i].held) drop(i, false); }
  void check() {  // against what the deleter saw
    All ok;
    int seen = 0, e = 0;
    ok.that(g_no == no + ng);
    for (int i = 0; i < g_no; i++) {
      if (e < no && g_order[i] == order[e]) { e++; continue; }
      for (int j = 0; j < ng; j++) if (gone[j] == g_order[i]) { seen++; break; }
    }
    ok.that(e == no && seen == ng);
    REQUIRE(ok.ok && !g_badDelete, "entries leave the cache only by capacity, least recently used first, never while in use");
    if (no > 1) lsx_cover("several evictions");
    if (no) lsx_cover("eviction");
    g_no = no = ng = 0;
  }
};
static void lruHistory(std::shared_ptr<Cache> c, Ref& r, int nk, int ops, size_t (*charge)(int)) {
  Held held[12];
  int nh = 0;
  for (int i = 0; i < ops; i++) {
    uint32_t op = lsx_choose(nh ? 7 : 6, "op");
    int k = op < 5 ? (int)lsx_choose((uint32_t)nk, "key") : 0;
    switch (op) {
      case 0: case 1: {  // insert, keeping or releasing the handle
        Cache::Handle* h = insert(*c, k, charge(g_n));
        r.inserted(g_n - 1);
        int id = g_n - 1;
        r.check();
        if (op == 0) { held[nh].h = h; held[nh++].id = id; }
        else { c->Release(h); r.released(id); }
        break;
      }
      case 2: case 3: {
        Cache::Handle* h = lookup(*c, k);
        int id = r.find(k);
        REQUIRE((h != nullptr) == (id >= 0), "exactly the entries that were not evicted remain");
        if (!h) break;
        REQUIRE(valueOf(*c, h) == id, "lookup returns the latest value of the key");
        g_e[id].held++;
        if (op == 2) { held[nh].h = h; held[nh++].id = id; }
        else { c->Release(h); r.released(id); }
        break;
      }
      case 4: erase(*c, k); r.erased(k); break;
      case 5: c->Prune(); r.pruned(); break;
      case 6: {
        int j = (int)lsx_choose((uint32_t)nh, "which");
        Held x = held[j];
        held[j] = held[--nh];
        c->Release(x.h);
        r.released(x.id);
        break;
      }
    }
    r.check();
    size_t total = 0;
    for (int j = 0; j < g_n; j++) if (g_e[j].cached) total += g_e[j].charge;
    REQUIRE(c->TotalCharge() == total, "the total charge is the sum over the cached entries");
  }
  while (nh) { Held x = held[--nh]; c->Release(x.h); r.released(x.id); r.check(); }
  for (int k = 0; k < nk; k++) {
    Cache::Handle* h = lookup(*c, k);
    int id = r.find(k);
    REQUIRE((h != nullptr) == (id >= 0), "exactly the entries that were not evicted remain");
    if (h) { REQUIRE(valueOf(*c, h) == id, "lookup returns the latest value of the key"); c->Release(h); }
  }
  lsx_cover("end");
}
static size_t unit(int) { return 1; }
static size_t mixed(int i) { static const size_t t[] = {2, 1, 1, 3, 1, 2, 1, 4}; return t[i & 7]; }
// entries are inserted and released first, then an arbitrary history follows
static void lru(size_t (*charge)(int)) {
  reset();
  g_clock = 0;
  const int nk = (int)lsx_param("keys", 3), ops = (int)lsx_param("ops", 3), fill = (int)lsx_param("fill", 2);
  pickHashes(nk);
  static const size_t kCap[] = {32, 33, 16, 48, 0};
  size_t total = kCap[lsx_choose((uint32_t)lsx_param("caps", 5), "capacity")];
  Ref r;
  r.cap = (total + 15) / 16;
  std::shared_ptr<Cache> c = NewLRUCache(total);
  int nf = (int)lsx_choose((uint32_t)fill + 1, "fill");
  for (int i = 0; i < nf; i++) {
    Cache::Handle* h = insert(*c, i % nk, charge(g_n));
    r.inserted(g_n - 1);
    r.check();
    c->Release(h);
    r.released(g_n - 1);
    r.check();
  }
  lruHistory(c, r, nk, ops, charge);
}
extern "C" void c14_lru() { lru(&unit); }
extern "C" void c14_charges() { lru(&mixed); }
// symbolic capacity and charges: one partition, entries inserted and released in turn
static size_t g_symCharge[8];
extern "C" void c14_symbolic() {
  reset();
  g_clock = 0;
  const int n = (int)lsx_param("n", 4);
  for (int k = 0; k < n; k++) g_hash[k] = 0x70000000u + (uint32_t)k;
  size_t total = (size_t)lsx_sym("capacity", 64);
  size_t percap = (total >> 4) + ((total & 15) != 0);
  Ref r;
  r.cap = percap;
  int touched = (int)lsx_choose(3, "touched"), kept = (int)lsx_choose(3, "kept");
  std::shared_ptr<Cache> c = NewLRUCache(total);
  Cache::Handle* keep = nullptr;
  for (int i = 0; i < n; i++) {
    g_symCharge[i] = (size_t)lsx_sym("charge", 60);
    Cache::Handle* h = insert(*c, i, g_symCharge[i]);
    r.inserted(g_n - 1);
    r.check();
    if (i == kept) keep = h;
    else { c->Release(h); r.released(g_n - 1); r.check(); }
    if (i == 1 && touched < 2) {
      Cache::Handle* t = lookup(*c, touched);
      int id = r.find(touched);
      REQUIRE((t != nullptr) == (id >= 0), "exactly the entries that were not evicted remain");
      if (t) { g_e[id].held++; c->Release(t); r.released(id); r.check(); }
    }
  }
  if (keep) { c->Release(keep); r.released(kept); r.check(); }
  for (int k = 0; k < n; k++) {
    Cache::Handle* h = lookup(*c, k);
    REQUIRE((h != nullptr) == (r.find(k) >= 0), "exactly the entries that were not evicted remain");
    if (h) c->Release(h);
  }
  lsx_cover("end");
}

// many entries of one partition: one insert may have to evict all of them, and pruning removes all that are not in use
static int g_gorder[2048], g_gn;
static void orderGone(const Slice& key, void* v) { g_gorder[g_gn++] = (int)((uint64_t)v & 0xffff); countGone(key, v); }
extern "C" void c14_many() {
  reset();
  g_gn = 0;
  static const int kN[] = {5, 20, 40, 70, 130, 300, 1030};
  const int n = kN[lsx_choose((uint32_t)lsx_param("sizes", 6), "n")];
  g_stride = lsx_choose(2, "stride") ? 0x11 : 1;
  g_split = 0;
  const uint32_t order = lsx_choose(3, "order"), then = lsx_choose(7, "then"), keep = lsx_choose(3, "keep");
  int64_t before = lsx_live_allocs();
  {
    std::shared_ptr<Cache> c = NewLRUCache(16 * (size_t)n);
    static Cache::Handle* h[1100];
    for (int k = 0; k <= n; k++) g_gone[k] = 0;
    auto put = [&](int k, size_t charge) {
      Buf b(4);
      numberKey(b.p, k);
      return c->Insert(Slice(b.p, 4), (void*)(uint64_t)k, charge, &orderGone);
    };
    for (int k = 0; k < n; k++) h[k] = put(k, 1);
    // released in some order: that is the order of use; some are kept
    static int use[1100];
    int nu = 0;
    auto kept = [&](int k) { return keep == 1 ? k % 3 == 1 : keep == 2 ? k < 2 : false; };
    for (int i = 0; i < n; i++) {
      int k = order == 0 ? i : order == 1 ? n - 1 - i : (i + n / 2) % n;
      if (kept(k)) continue;
      c->Release(h[k]);
      use[nu++] = k;
    }
    int kt = n - nu;
    REQUIRE(g_gn == 0 && c->TotalCharge() == (size_t)n, "nothing is evicted while the capacity is not exceeded");
    int gone = 0;  // how many of use[] leave
    size_t left = (size_t)n;
    if (then == 0) {
      c->Prune();
      gone = nu;
      left = (size_t)kt;
    } else {
      const size_t charge = then == 1 ? 1 : then == 2 ? (size_t)n / 2 : then == 3 ? (size_t)n - 1 : then == 4 ? (size_t)n : then == 5 ? (size_t)n + 7 : (size_t)1 << 40;
      Cache::Handle* x = put(n, charge);
      gone = charge < (size_t)nu ? (int)charge : nu;
      left = (size_t)(n - gone) + charge;
      REQUIRE(c->TotalCharge() == left, "an insert evicts as many entries as it must, however many, and no more");
      REQUIRE(c->Value(x) == (void*)(uint64_t)n && g_gone[n] == 0, "the inserted entry is in use");
      c->Release(x);
    }
    REQUIRE(g_gn == gone, "exactly the entries that have to go leave, however many");
    All ok;
    for (int i = 0; i < gone; i++) ok.that(then == 0 || g_gorder[i] == use[i]);
    for (int k = 0; k < n; k++) if (kept(k)) { ok.that(g_gone[k] == 0); ok.that(c->Value(h[k]) == (void*)(uint64_t)k); }
    for (int i = 0; i < nu; i++) ok.that(g_gone[use[i]] == (i < gone));
    REQUIRE(ok.ok, "many entries are evicted in order of least recent use, and none in use");
    REQUIRE(c->TotalCharge() == left, "the total charge is the sum over the cached entries");
    for (int k = 0; k < n; k++) if (kept(k)) c->Release(h[k]);
    if (gone > 16) lsx_cover("many leave");
  }
  All once;
  for (int k = 0; k < n; k++) once.that(g_gone[k] == 1);
  REQUIRE(once.ok && !g_badDelete, "every entry is deleted exactly once");
  REQUIRE(lsx_live_allocs() == before, "the cache frees all its memory");
  lsx_cover("end");
}
