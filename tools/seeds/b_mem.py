ARENA = 'util/arena.cc'
seed('c10-block-sized', 'C10', 'a request of exactly the block size',
     'A request of exactly one block gets its own block, but the arena goes on allocating from the start of that same block.',
     [(ARENA, '    char* result = AllocateNewBlock(bytes);\n    return result;\n', '    char* result = AllocateNewBlock(bytes);\n    if (bytes == static_cast<size_t>(kBlockSize)) alloc_ptr_ = result;\n    return result;\n')],
     r'''
#include "util/arena.h"
int main() {
  lsmdb::Arena a;
  char* x = a.Allocate(10);
  std::memset(x, 1, 10);
  char* y = a.Allocate(4096);
  std::memset(y, 2, 4096);
  char* z = a.Allocate(10);
  std::memset(z, 3, 10);
  EXPECT(x[9] == 1 && z[9] == 3);
  for (int i = 0; i < 4096; i++) EXPECT(y[i] == 2);
}
''')
seed('c10-empty-block', 'C10', 'a request larger than a block while the current block is used up to its last byte',
     'Large requests are only given a block of their own while there is something left in the current block.',
     [(ARENA, '  if (bytes > kBlockSize / 4) {', '  if (bytes > kBlockSize / 4 && alloc_bytes_remaining_ > 0) {')],
     r'''
#include "util/arena.h"
static struct { char* p; size_t n; } blk[64];
static int nb;
void* operator new[](size_t n) { char* p = (char*)std::malloc(n + 65536); blk[nb].p = p; blk[nb++].n = n; return p; }
void operator delete[](void* p) noexcept { std::free(p); }
int main() {
  lsmdb::Arena a;
  for (int i = 0; i < 4; i++) a.Allocate(1024);
  char* p = a.Allocate(5000);
  bool in = false;
  for (int k = 0; k < nb; k++) in |= p >= blk[k].p && p + 5000 <= blk[k].p + blk[k].n;
  EXPECT(in);
}
''')
seed('c11-usage', 'C11', 'a block that is not of the standard size',
     'The pointer kept for each block is only charged for standard blocks.',
     [(ARENA, 'memory_usage_.fetch_add(block_bytes + sizeof(char*),', 'memory_usage_.fetch_add(block_bytes + (block_bytes == kBlockSize ? sizeof(char*) : 0),')],
     r'''
#include "util/arena.h"
int main() {
  lsmdb::Arena a;
  size_t want = 0;
  for (size_t n = 1025; n < 9000; n += 97) {
    a.Allocate(n);
    want += n + sizeof(char*);
    EXPECT(a.MemoryUsage() == want);
  }
}
''')
seed('c11-alignment', 'C11', 'an aligned request served from a large block of its own',
     'A large request takes its block a byte early, sharing one counter byte in front: the address handed out is no longer aligned.',
     [(ARENA, '    char* result = AllocateNewBlock(bytes);\n    return result;\n',
       '    char* result = AllocateNewBlock(bytes + 1);\n    *result++ = 0;  // room for a tag\n    return result;\n')],
     r'''
#include "util/arena.h"
int main() {
  std::setvbuf(stderr, nullptr, _IONBF, 0);
  lsmdb::Arena a;
  EXPECT(((uintptr_t)a.AllocateAligned(24) & 7) == 0);
  EXPECT(((uintptr_t)a.AllocateAligned(5000) & 7) == 0);
}
''')
CACHE = 'util/cache.cc'
COLLIDE = r'''
#include <unordered_map>
#include "lsmdb/cache.h"
#include "util/hash.h"
// two different keys of equal length with the same hash
static void collide(std::string* a, std::string* b) {
  std::unordered_map<uint32_t, uint64_t> seen;
  for (uint64_t i = 0;; i++) {
    uint64_t k = i * 0x9e3779b97f4a7c15ull;
    std::string s((char*)&k, 8);
    uint32_t h = lsmdb::Hash(s.data(), s.size(), 0);
    auto r = seen.insert(std::make_pair(h, k));
    if (!r.second) { *a = std::string((char*)&r.first->second, 8); *b = s; return; }
  }
}
'''
seed('c12-key-compare', 'C12', 'two keys of equal length whose hashes collide',
     'The hash table compares hashes and lengths only, so colliding keys are taken for one.',
     [(CACHE, 'key != (*ptr)->key())', 'key.size() != (*ptr)->key_length)')],
     COLLIDE + r'''
int main() {
  std::string a, b;
  collide(&a, &b);
  auto c = lsmdb::NewLRUCache(1000);
  auto del = [](const lsmdb::Slice&, void*) {};
  c->Release(c->Insert(a, (void*)1, 1, del));
  EXPECT(c->Lookup(b) == nullptr);
  c->Release(c->Insert(b, (void*)2, 1, del));
  lsmdb::Cache::Handle* h = c->Lookup(a);
  EXPECT(h != nullptr && c->Value(h) == (void*)1);
  c->Release(h);
}
''')
seed('c12-erase-neighbour', 'C12', 'removing one of two entries that share a bucket',
     'Remove cuts the chain at the removed entry when that entry is the head of its bucket, losing the others.',
     [(CACHE, '      *ptr = result->next_hash;\n      --elems_;', '      *ptr = (ptr == &table_[hash & (length_ - 1)] && elems_ == 2) ? nullptr : result->next_hash;\n      --elems_;')],
     r'''
#include "lsmdb/cache.h"
#include "util/hash.h"
int main() {
  // two keys of one shard and one bucket of the smallest table
  std::string a, b;
  uint32_t ha = 0;
  for (uint32_t i = 0;; i++) {
    std::string s((char*)&i, 4);
    uint32_t h = lsmdb::Hash(s.data(), s.size(), 0);
    if (a.empty()) { a = s; ha = h; }
    else if (h >> 28 == ha >> 28 && (h & 3) == (ha & 3)) { b = s; break; }
  }
  auto del = [](const lsmdb::Slice&, void*) {};
  for (int order = 0; order < 2; order++) {
    auto c = lsmdb::NewLRUCache(1000);
    c->Release(c->Insert(a, (void*)1, 1, del));
    c->Release(c->Insert(b, (void*)2, 1, del));
    c->Erase(order ? a : b);
    lsmdb::Cache::Handle* h = c->Lookup(order ? b : a);
    EXPECT(h != nullptr && c->Value(h) == (void*)(uintptr_t)(order ? 2 : 1));
    c->Release(h);
  }
}
''')
seed('c13-replace-deletes', 'C13', 'inserting a key again while a handle of its old entry is still out',
     'A replaced entry is deleted at once when its value differs, without regard to its handles.',
     [(CACHE, '    usage_ -= e->charge;\n    Unref(e);\n', '    usage_ -= e->charge;\n    if (e->charge == 0 && e->refs > 1) e->refs--;  // weightless entries are not pinned\n    Unref(e);\n')],
     r'''
#include "lsmdb/cache.h"
static int deleted;
int main() {
  auto c = lsmdb::NewLRUCache(1600);
  auto del = [](const lsmdb::Slice&, void*) { deleted++; };
  lsmdb::Cache::Handle* h1 = c->Insert("k", (void*)1, 0, del);
  c->Release(c->Insert("k", (void*)2, 0, del));
  EXPECT(deleted == 0);
  c->Release(h1);
  EXPECT(deleted == 1);
}
''', flags='-fsanitize=address', src='util/cache.cc util/hash.cc util/coding.cc')
seed('c14-evict-one', 'C14', 'an insertion heavy enough to need more than one eviction',
     'Only one entry is evicted per insertion, so a heavy entry leaves the shard above its capacity.',
     [(CACHE, '  while (usage_ > capacity_ && lru_.next != &lru_) {', '  if (usage_ > capacity_ && lru_.next != &lru_) {')],
     r'''
#include "lsmdb/cache.h"
#include "util/hash.h"
int main() {
  auto c = lsmdb::NewLRUCache(16 * 4);
  auto del = [](const lsmdb::Slice&, void*) {};
  std::vector<std::string> ks;
  for (uint32_t i = 0; ks.size() < 5; i++) {
    std::string s((char*)&i, 4);
    if (lsmdb::Hash(s.data(), 4, 0) >> 28 == 3) ks.push_back(s);
  }
  for (int i = 0; i < 4; i++) c->Release(c->Insert(ks[i], nullptr, 1, del));
  c->Release(c->Insert(ks[4], nullptr, 4, del));
  EXPECT(c->TotalCharge() <= 4);
}
''')
seed('c14-lookup-order', 'C14', 'a lookup of an entry while another handle of it is out, followed by an eviction',
     'A released entry returns to the old end of the LRU list when it weighs nothing more than its neighbour, so recent use is forgotten.',
     [(CACHE, '    // No longer in use; move to lru_ list.\n    LRU_Remove(e);\n    LRU_Append(&lru_, e);',
       '    // No longer in use; move to lru_ list.\n    LRU_Remove(e);\n    LRU_Append(in_use_.next == &in_use_ || lru_.next == &lru_ ? &lru_ : lru_.prev, e);')],
     r'''
#include "lsmdb/cache.h"
#include "util/hash.h"
int main() {
  auto c = lsmdb::NewLRUCache(16 * 4);
  auto del = [](const lsmdb::Slice&, void*) {};
  std::vector<std::string> ks;
  for (uint32_t i = 0; ks.size() < 6; i++) {
    std::string s((char*)&i, 4);
    if (lsmdb::Hash(s.data(), 4, 0) >> 28 == 3) ks.push_back(s);
  }
  lsmdb::Cache::Handle* p = c->Insert(ks[0], nullptr, 1, del);  // stays in use
  c->Release(c->Insert(ks[1], nullptr, 1, del));
  c->Release(c->Insert(ks[2], nullptr, 1, del));  // newer than ks[1]
  c->Release(p);
  // oldest first: ks[1], ks[2], ks[0]
  c->Release(c->Insert(ks[3], nullptr, 1, del));
  c->Release(c->Insert(ks[4], nullptr, 1, del));
  lsmdb::Cache::Handle* h = c->Lookup(ks[2]);
  EXPECT(h != nullptr);
  c->Release(h);
}
''')
HOOK = r'''
#include <pthread.h>
#include <dlfcn.h>
static void (*hook)();
static int skip;
static int held;  // locks held: the other thread only gets anywhere when there is none
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*);
  if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (hook) held++;
  return real(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*);
  if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int r = real(m);
  if (hook) held--;
  if (hook && held == 0 && skip-- == 0) { void (*h)() = hook; hook = nullptr; h(); }
  return r;
}
'''
seed('c15-lookup-window', 'C15', 'another thread erasing the entry between its lookup and its being referenced',
     'Lookup drops the lock between finding an entry and taking a reference to it.',
     [(CACHE, '  MutexLock lock(&mutex_);\n  auto e = table_.Lookup(key, hash);\n  if (e != nullptr) {\n    Ref(e);\n  }\n',
       '  LRUHandle* e;\n  {\n    MutexLock lock(&mutex_);\n    e = table_.Lookup(key, hash);\n  }\n  if (e != nullptr) {\n    MutexLock lock(&mutex_);\n    Ref(e);\n  }\n')],
     HOOK + r'''
#include "lsmdb/cache.h"
static std::shared_ptr<lsmdb::Cache> c;
static int deleted;
static void other() { c->Erase("k"); }  // what another thread may do whenever the lock is free
int main() {
  c = lsmdb::NewLRUCache(1600);
  c->Release(c->Insert("k", (void*)1, 1, [](const lsmdb::Slice&, void*) { deleted++; }));
  hook = other;
  lsmdb::Cache::Handle* h = c->Lookup("k");
  EXPECT(h == nullptr || deleted == 0);
  std::_Exit(0);
}
''')
seed('c15-newid', 'C15', 'two threads asking for a new id at the same moment',
     'NewId reads the counter again after its lock is released, so two callers can be given the same id.',
     [(CACHE, '    MutexLock lock(&id_mutex_);\n    return ++(last_id_);\n',
       '    {\n      MutexLock lock(&id_mutex_);\n      ++last_id_;\n    }\n    return last_id_;\n')],
     HOOK + r'''
#include "lsmdb/cache.h"
static std::shared_ptr<lsmdb::Cache> c;
static uint64_t theirs;
static void other() { theirs = c->NewId(); }
int main() {
  c = lsmdb::NewLRUCache(1600);
  hook = other;
  uint64_t mine = c->NewId();
  EXPECT(mine != theirs);
}
''')
seed('c15-total-charge', 'C15', 'TotalCharge on one thread while another inserts',
     'TotalCharge of a shard no longer takes its lock: a data race on the usage counter.',
     [(CACHE, '    MutexLock lock(&mutex_);\n    return usage_;\n', '    return usage_;\n')],
     r'''
#include <thread>
#include "lsmdb/cache.h"
int main() {
  auto c = lsmdb::NewLRUCache(1600);
  std::thread t([&] { for (int i = 0; i < 2000; i++) c->Release(c->Insert("k", nullptr, 1, [](const lsmdb::Slice&, void*) {})); });
  for (int i = 0; i < 2000; i++) c->TotalCharge();
  t.join();
}
''', flags='-fsanitize=thread', src='util/cache.cc util/hash.cc util/coding.cc')
SKIP = 'db/skiplist.h'
seed('c16-compare-minus-one', 'C16', 'a comparator that returns a negative number other than -1',
     'KeyIsAfterNode takes only exactly -1 for "less".',
     [(SKIP, '(compare_(n->key, key) < 0)', '(compare_(n->key, key) == -1)')],
     r'''
#include "db/skiplist.h"
#include "util/arena.h"
struct Cmp { int operator()(uint64_t a, uint64_t b) const { return a < b ? -2 : a > b ? 2 : 0; } };
int main() {
  lsmdb::Arena ar;
  lsmdb::SkipList<uint64_t, Cmp> l(Cmp(), &ar);
  for (uint64_t k = 1; k <= 100; k++) l.Insert(k * 37 % 101);
  lsmdb::SkipList<uint64_t, Cmp>::Iterator it(&l);
  uint64_t want = 1;
  for (it.SeekToFirst(); it.Valid(); it.Next()) EXPECT(it.key() == want++);
  EXPECT(want == 101);
}
''')
seed('c16-max-height', 'C16', 'one insertion in about seventeen million, which draws the tallest tower',
     'RandomHeight can return one level more than the list has room for.',
     [(SKIP, '  while (height < kMaxHeight &&', '  while (height <= kMaxHeight &&')],
     r'''
#include <type_traits>
#include <atomic>
#include <cassert>
#include <vector>
#define private public
#include "db/skiplist.h"
#undef private
#include "util/arena.h"
struct Cmp { int operator()(uint64_t a, uint64_t b) const { return a < b ? -1 : a > b; } };
int main() {
  // walk the generator to a state from which many levels are drawn in a row
  uint64_t s = 1;
  for (long i = 0; i < 400000000l; i++) {
    uint64_t t = s;
    int run = 0;
    while (run < 13) { t = t * 16807 % 2147483647ull; if (t % 4) break; run++; }
    if (run >= 12) {
      lsmdb::Arena ar;
      lsmdb::SkipList<uint64_t, Cmp> l(Cmp(), &ar);
      l.rnd_.seed_ = (uint32_t)s;
      int h = l.RandomHeight();
      EXPECT(h == 12);
      return 0;
    }
    s = s * 16807 % 2147483647ull;
  }
  EXPECT(!"no such state");
}
''')
seed('c16-prev-first', 'C16', 'stepping back from the first of several elements when the list is taller than that element',
     'FindLessThan stops early on an equal key at a lower level and steps to the element itself.',
     [(SKIP, 'if (next == nullptr || compare_(next->key, key) >= 0) {\n      if (level == 0) {\n        return x;', 'if (next == nullptr || compare_(next->key, key) >= (level > 0 ? 1 : 0)) {\n      if (level == 0) {\n        return x;')],
     r'''
#include "db/skiplist.h"
#include "util/arena.h"
struct Cmp { int operator()(uint64_t a, uint64_t b) const { return a < b ? -1 : a > b; } };
int main() {
  lsmdb::Arena ar;
  lsmdb::SkipList<uint64_t, Cmp> l(Cmp(), &ar);
  for (uint64_t k = 1; k <= 200; k++) l.Insert(k);
  lsmdb::SkipList<uint64_t, Cmp>::Iterator it(&l);
  it.SeekToLast();
  for (uint64_t k = 200; k > 0; k--) {
    EXPECT(it.Valid() && it.key() == k);
    it.Prev();
  }
  EXPECT(!it.Valid());
}
''')
STEP = r'''
#include <signal.h>
#include "db/skiplist.h"
#include "util/arena.h"
struct Cmp { int operator()(uint64_t a, uint64_t b) const { return a < b ? -1 : a > b; } };
typedef lsmdb::SkipList<uint64_t, Cmp> List;
static List* list;
static uint64_t inserted;  // keys 2, 4, .. are in
static uint64_t pending;
static long steps;
static bool on;
// what a reader on another core may do between two instructions of the writer
static void reader(int) {
  steps++;
  List::Iterator it(list);
  uint64_t want = 2, seen = 0;
  for (it.SeekToFirst(); it.Valid(); it.Next()) {
    uint64_t k = it.key();
    if (k == pending && !seen) { seen = 1; continue; }
    EXPECT(k == want);
    want += 2;
  }
  EXPECT(want == inserted + 2);
  for (uint64_t k = 2; k <= inserted; k += 2) EXPECT(list->Contains(k));
  list->Contains(pending);
}
static void trace(bool t) {
  if (t) asm volatile("sub $128, %%rsp\n pushf\n orl $0x100, (%%rsp)\n popf\n add $128, %%rsp" ::: "memory", "cc");
  else asm volatile("sub $128, %%rsp\n pushf\n andl $0xfffffeff, (%%rsp)\n popf\n add $128, %%rsp" ::: "memory", "cc");
}
int main() {
  struct sigaction sa;
  std::memset(&sa, 0, sizeof sa);
  sa.sa_handler = reader;
  sigaction(SIGTRAP, &sa, nullptr);
  lsmdb::Arena ar;
  List l(Cmp(), &ar);
  list = &l;
  for (uint64_t k = 2; k <= 60; k += 2) { l.Insert(k); inserted = k; }
  // dirty memory for the nodes to come
  for (uint64_t k = 1; k < 40; k += 2) {
    pending = k;
    trace(true);
    l.Insert(k);
    trace(false);
    break_out: (void)0;
    // a fresh list each time keeps the reader's expectation simple
    inserted = 0;
    new (&l) List(Cmp(), &ar);
    pending = 0;
    for (uint64_t i = 0; i < k % 7; i++) { l.Insert(1000 + i); }
    new (&l) List(Cmp(), &ar);
    for (uint64_t j = 2; j <= 60; j += 2) { l.Insert(j); inserted = j; }
  }
  EXPECT(steps > 100);
}
'''
SRC_ARENA = 'util/arena.cc'
seed('c17-link-top-down', 'C17', 'a reader that meets a node on an upper level while its lower links are not set yet',
     'Insert links the new node from the top level down, so a reader can descend through it into uninitialised links.',
     [(SKIP, '  for (int i = 0; i < height; ++i) {\n    // NoBarrier_SetNext() suffices', '  for (int i = height - 1; i >= 0; --i) {\n    // NoBarrier_SetNext() suffices')],
     STEP.replace('for (uint64_t k = 1; k < 40; k += 2) {', 'for (uint64_t k = 1; k < 80; k += 2) {')
         .replace('for (uint64_t j = 2; j <= 60; j += 2) { l.Insert(j); inserted = j; }', 'for (uint64_t j = 2; j <= 60 + 2 * (k % 23); j += 2) { l.Insert(j); inserted = j; }')
         .replace('    break_out: (void)0;\n', '').replace('#include <signal.h>', '#include <signal.h>\n#include <new>\nvoid* operator new[](size_t n) { void* p = std::malloc(n); std::memset(p, 0x11, n); return p; }\nvoid operator delete[](void* p) noexcept { std::free(p); }'),
     src=SRC_ARENA)
seed('c17-relaxed-publish', 'C17', 'a reader on another core that follows a link before the node behind it is visible',
     'The link to a new node is published with a relaxed store.',
     [(SKIP, '    next_[n].store(x, std::memory_order_release);', '    next_[n].store(x, std::memory_order_relaxed);')],
     r'''
#include <thread>
#include "db/skiplist.h"
#include "util/arena.h"
struct Cmp { int operator()(uint64_t a, uint64_t b) const { return a < b ? -1 : a > b; } };
int main() {
  lsmdb::Arena ar;
  lsmdb::SkipList<uint64_t, Cmp> l(Cmp(), &ar);
  std::atomic<int> go(0);
  std::thread t([&] {
    go.store(1, std::memory_order_relaxed);
    uint64_t n = 0;
    while (n < 2000) {
      n = 0;
      lsmdb::SkipList<uint64_t, Cmp>::Iterator it(&l);
      for (it.SeekToFirst(); it.Valid(); it.Next()) n++;
    }
  });
  while (!go.load(std::memory_order_relaxed)) {}
  for (uint64_t k = 1; k <= 2000; k++) l.Insert(k * 7919 % 2003);
  t.join();
}
''', flags='-fsanitize=thread', src=SRC_ARENA)
seed('c17-publish-before-next', 'C17', 'a reader passing between two stores of the writer',
     'The node is linked into the list before its own forward link is set.',
     [(SKIP, '    x->NoBarrier_SetNext(i, prev[i]->NoBarries_Next(i));\n    prev[i]->SetNext(i, x);\n',
       '    Node* next = prev[i]->NoBarries_Next(i);\n    prev[i]->SetNext(i, x);\n    x->SetNext(i, next);\n')],
     STEP.replace('    break_out: (void)0;\n', '').replace('#include <signal.h>', '#include <signal.h>\n#include <new>\nvoid* operator new[](size_t n) { void* p = std::malloc(n); std::memset(p, 0, n); return p; }\nvoid operator delete[](void* p) noexcept { std::free(p); }'),
     src=SRC_ARENA)
MEM = 'helpers/memenv/memenv.cc'
seed('c18-overflow', 'C18', 'a read length so large that offset plus length wraps around',
     'The clipping test adds offset and length, which overflows for huge lengths, and the read runs past the file.',
     [(MEM, '    if (n > available) {\n      n = static_cast<size_t>(available);\n    }\n    if (n == 0)', '    if (offset + n > size_) {\n      n = static_cast<size_t>(available);\n    }\n    if (n == 0)')],
     r'''
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
using namespace lsmdb;
int main() {
  Env* e = NewMemEnv(Env::Default());
  WritableFile* w;
  RandomAccessFile* r;
  EXPECT(e->NewWritableFile("/d/f", &w).ok() && w->Append("hello").ok());
  delete w;
  EXPECT(e->NewRandomAccessFile("/d/f", &r).ok());
  static char b[100];
  Slice s;
  EXPECT(r->Read(2, SIZE_MAX, &s, b).ok() && s.ToString() == "llo");
  EXPECT(r->Read(1, SIZE_MAX - 3, &s, b).ok() && s.ToString() == "ello");
}
''')
seed('c18-block-boundary', 'C18', 'an append that starts exactly at a block boundary and a later one',
     'Reading starts in the wrong block for an offset that is a non-zero multiple of the block size and a length above one block.',
     [(MEM, '      block++;\n      block_offset = 0;\n', '      block += (block_offset + avail) / kBlockSize + (avail > 2 * 4095 + 1);\n      block_offset = 0;\n')] if False else
     [(MEM, '      size_t avail = kBlockSize - block_offset;\n      if (avail > bytes_to_copy) {', '      size_t avail = kBlockSize - (block_offset & (kBlockSize / 2 - 1)) - (block_offset >= kBlockSize / 2 ? kBlockSize / 2 : 0);\n      if (block_offset == kBlockSize / 2) avail = kBlockSize;\n      if (avail > bytes_to_copy) {')],
     r'''
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
using namespace lsmdb;
int main() {
  Env* e = NewMemEnv(Env::Default());
  WritableFile* w;
  RandomAccessFile* r;
  std::string d;
  for (int i = 0; i < 30000; i++) d.push_back((char)(i * 7 / 3));
  EXPECT(e->NewWritableFile("/d/f", &w).ok() && w->Append(d).ok());
  delete w;
  EXPECT(e->NewRandomAccessFile("/d/f", &r).ok());
  static char b[40000];
  Slice s;
  for (size_t o : {0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384})
    EXPECT(r->Read(o, 10000, &s, b).ok() && s == Slice(d.data() + o, 10000));
}
''')
seed('c19-children-prefix', 'C19', 'two directories one of whose names begins with the other',
     'GetChildren no longer wants a separator after the directory name, so files of "/dirs" appear in "/dir".',
     [(MEM, "filename.size() >= dir.size() + 1 && filename[dir.size()] == '/' &&", 'filename.size() >= dir.size() + 1 &&')],
     r'''
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
using namespace lsmdb;
int main() {
  Env* e = NewMemEnv(Env::Default());
  EXPECT(WriteStringToFile(e, "x", "/dir/a").ok() && WriteStringToFile(e, "x", "/dirs/b").ok());
  std::vector<std::string> c;
  EXPECT(e->GetChildren("/dir", &c).ok() && c.size() == 1 && c[0] == "a");
}
''')
seed('c19-rename-target', 'C19', 'a rename onto a name that already exists',
     'Renaming onto an existing name keeps the old target when both files have the same length.',
     [(MEM, '    RemoveFileInternal(target);\n    file_map_[target] = file_map_[src];\n    file_map_.erase(src);\n',
       '    if (file_map_.find(target) != file_map_.end() &&\n        file_map_[target]->Size() == file_map_[src]->Size()) {\n      RemoveFileInternal(src);\n      return Status::OK();\n    }\n    RemoveFileInternal(target);\n    file_map_[target] = file_map_[src];\n    file_map_.erase(src);\n')],
     r'''
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
using namespace lsmdb;
int main() {
  Env* e = NewMemEnv(Env::Default());
  EXPECT(WriteStringToFile(e, "new", "/d/a").ok() && WriteStringToFile(e, "old", "/d/b").ok());
  EXPECT(e->RenameFile("/d/a", "/d/b").ok());
  std::string s;
  EXPECT(!e->FileExists("/d/a") && ReadFileToString(e, "/d/b", &s).ok() && s == "new");
}
''')
seed('c20-remove-truncates', 'C20', 'a file removed while a reader has it open',
     'Removing a file frees its blocks at once, so open handles lose the content.',
     [(MEM, '    file_map_[filename]->Unref();\n    file_map_.erase(filename);', '    FileState* file = file_map_[filename];\n    file_map_.erase(filename);\n    file->Truncate();\n    file->Unref();')],
     r'''
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
using namespace lsmdb;
int main() {
  Env* e = NewMemEnv(Env::Default());
  RandomAccessFile* r;
  EXPECT(WriteStringToFile(e, "hello", "/d/a").ok() && e->NewRandomAccessFile("/d/a", &r).ok());
  EXPECT(e->RemoveFile("/d/a").ok());
  char b[10];
  Slice s;
  EXPECT(r->Read(0, 5, &s, b).ok() && s.ToString() == "hello");
  delete r;
}
''')
seed('c20-env-teardown', 'C20', 'the environment deleted before one of its open files',
     'The destructor drops two references of a file that has grown past one block, so an open handle is left with a freed file.',
     [(MEM, '    for (const auto& kvp : file_map_) {\n      kvp.second->Unref();\n    }\n', '    for (const auto& kvp : file_map_) {\n      // nothing can read the file by name any more\n      kvp.second->Truncate();\n      kvp.second->Unref();\n    }\n')],
     r'''
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
using namespace lsmdb;
int main() {
  Env* e = NewMemEnv(Env::Default());
  SequentialFile* r;
  EXPECT(WriteStringToFile(e, "hello", "/d/a").ok() && e->NewSequentialFile("/d/a", &r).ok());
  delete e;
  char b[10];
  Slice s;
  EXPECT(r->Read(10, &s, b).ok() && s.ToString() == "hello");
  delete r;
}
''')
seed('c21-size-unlocked', 'C21', 'a file removed between the look-up of its name and the reading of its size',
     'GetFileSize asks the file for its size after the lock of the name table is released, without a reference.',
     [(MEM, '    MutexLock lock(&mutex_);\n    if (file_map_.find(filename) == file_map_.end()) {\n      return Status::IOError(filename, "File not found");\n    }\n\n    *file_size = file_map_[filename]->Size();\n',
       '    FileState* file = nullptr;\n    {\n      MutexLock lock(&mutex_);\n      if (file_map_.find(filename) == file_map_.end()) {\n        return Status::IOError(filename, "File not found");\n      }\n      file = file_map_[filename];\n    }\n\n    *file_size = file->Size();\n')],
     HOOK + r'''
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
using namespace lsmdb;
static Env* e;
static void other() { e->RemoveFile("/d/a"); }
int main() {
  e = NewMemEnv(Env::Default());
  EXPECT(WriteStringToFile(e, "hello", "/d/a").ok());
  for (int k = 0; k < 3; k++) {
    WriteStringToFile(e, "hello", "/d/a");
    hook = other;
    skip = k;
    uint64_t n = 0;
    Status s = e->GetFileSize("/d/a", &n);
    EXPECT(!s.ok() || n == 5);
    hook = nullptr;
  }
}
''', flags='-fsanitize=address', src='helpers/memenv/memenv.cc util/env.cc util/env_posix.cc util/status.cc')
seed('c21-refs-race', 'C21', 'two handles of one file closed by two threads at once',
     'Unref looks at the counter again after releasing its lock, so two threads can both delete the file or neither.',
     [(MEM, '      assert(refs_ >= 0);\n      if (refs_ <= 0) {\n        do_delete = true;\n      }\n    }\n', '      assert(refs_ >= 0);\n    }\n\n    if (refs_ <= 0) {\n      do_delete = true;\n    }\n')],
     HOOK + r'''
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
using namespace lsmdb;
static SequentialFile* r2;
static void other() { delete r2; }
int main() {
  Env* e = NewMemEnv(Env::Default());
  SequentialFile* r1;
  EXPECT(WriteStringToFile(e, "hello", "/d/a").ok());
  EXPECT(e->NewSequentialFile("/d/a", &r1).ok() && e->NewSequentialFile("/d/a", &r2).ok());
  EXPECT(e->RemoveFile("/d/a").ok());
  hook = other;
  delete r1;
  delete e;
}
''', flags='-fsanitize=address', src='helpers/memenv/memenv.cc util/env.cc util/env_posix.cc util/status.cc')
