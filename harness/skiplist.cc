// C16, C17: the skip list.
#include <atomic>
#include <cstring>
#include "h.h"
#include "db/skiplist.h"
#include "util/arena.h"
using namespace lsmdb;

// Heights: the generator is replaced, so that the next node gets exactly the height wanted (as far as the list allows).
static int g_ups;
extern "C" uint32_t lsxo__ZN5lsmdb6Random4NextEv(void*) {
  if (g_ups > 0) { g_ups--; return 4u * 1000u; }
  return 4001u;
}
static void pickHeight(uint32_t kinds) {
  static const int ups[] = {0, 1, 100, 2, 10, 11};  // heights 1, 2, the maximum, 3, 11, 12
  g_ups = ups[lsx_choose(kinds, "height")];
}
typedef uint64_t Key;
// any magnitude: only the sign of a comparison counts
struct Cmp {
  int operator()(const Key& a, const Key& b) const { return ((int)(a > b)) * 5 - ((int)(a < b)) * 3; }
};
typedef SkipList<Key, Cmp> List;

// reads everything and compares with the sorted keys s[0..n)
static void checkAll(const List& l, const Key* s, int n) {
  List::Iterator it(&l);
  REQUIRE(!it.Valid(), "a new iterator is not valid");
  it.SeekToFirst();
  for (int i = 0; i < n; i++, it.Next()) {
    REQUIRE(it.Valid(), "iterating forwards visits every key");
    REQUIRE(it.key() == s[i], "iterating forwards visits the keys in order");
  }
  REQUIRE(!it.Valid(), "iterating forwards ends after the last key");
  it.SeekToLast();
  for (int i = n - 1; i >= 0; i--, it.Prev()) {
    REQUIRE(it.Valid(), "iterating backwards visits every key");
    REQUIRE(it.key() == s[i], "iterating backwards visits the keys in reverse order");
  }
  REQUIRE(!it.Valid(), "iterating backwards ends before the first key");
  for (int i = 0; i < n; i++) REQUIRE(l.Contains(s[i]), "an inserted key is contained");
}
static void checkProbe(const List& l, const Key* s, int n, Key t) {
  int at = n, eq = 0;  // reference: first key at or after the target
  for (int i = n - 1; i >= 0; i--)
    if (s[i] >= t) { at = i; eq = s[i] == t; }
  REQUIRE(l.Contains(t) == (bool)eq, "a key is contained exactly if it was inserted");
  List::Iterator it(&l);
  it.Seek(t);
  REQUIRE(it.Valid() == (at < n), "seek is valid exactly if some key is at or after the target");
  if (at < n) {
    REQUIRE(it.key() == s[at], "seek lands on the first key at or after the target");
    List::Iterator back = it;
    back.Prev();
    REQUIRE(back.Valid() == (at > 0), "stepping back from the first key ends the iteration");
    if (at > 0) REQUIRE(back.key() == s[at - 1], "stepping back lands on the previous key");
    it.Next();
    REQUIRE(it.Valid() == (at + 1 < n), "stepping past the last key ends the iteration");
    if (at + 1 < n) REQUIRE(it.key() == s[at + 1], "stepping forward lands on the next key");
  }
}
// symbolic keys, every insertion order, every height up to the bound
extern "C" void c16_symbolic() {
  const int n = (int)lsx_param("n", 3);
  const uint32_t kinds = (uint32_t)lsx_param("heights", 3);
  Arena arena;
  List l(Cmp(), &arena);
  Key s[8];
  int m = 0;
  checkAll(l, s, 0);
  for (int i = 0; i < n; i++) {
    Key k = lsx_sym("key", 64);
    int at = (int)lsx_choose((uint32_t)m + 1, "rank");
    if (at > 0) lsx_assume(s[at - 1] < k);
    if (at < m) lsx_assume(k < s[at]);
    pickHeight(kinds);
    l.Insert(k);
    for (int j = m; j > at; j--) s[j] = s[j - 1];
    s[at] = k;
    m++;
    if (i + 1 == n) checkAll(l, s, m);
  }
  checkProbe(l, s, m, lsx_sym("probe", 64));
  lsx_cover("end");
}
// longer histories on concrete ranks (only the order of keys matters), an iterator kept across the insertions
extern "C" void c16_order() {
  const int n = (int)lsx_param("n", 5);
  const uint32_t kinds = (uint32_t)lsx_param("heights", 2);
  Arena arena;
  List l(Cmp(), &arena);
  Key s[12];
  int m = 0, kept = 0;
  // ranks are fixed first: key i is bigger than exactly rank[i] of the earlier ones
  Key val[12];
  int order[12], no = 0;
  for (int i = 0; i < n; i++) {
    int at = (int)lsx_choose((uint32_t)i + 1, "rank");
    for (int j = no; j > at; j--) order[j] = order[j - 1];
    order[at] = i;
    no++;
  }
  for (int j = 0; j < n; j++) val[order[j]] = 100 + 10 * (Key)j;
  List::Iterator keep(&l);
  for (int i = 0; i < n; i++) {
    Key k = val[i];
    pickHeight(kinds);
    l.Insert(k);
    int at = 0;
    while (at < m && s[at] < k) at++;
    for (int j = m; j > at; j--) s[j] = s[j - 1];
    s[at] = k;
    m++;
    if (i == 0) keep.SeekToLast();
    REQUIRE(keep.Valid() && keep.key() == val[0], "an iterator stays on its key while others are inserted");
    kept = 0;
    while (s[kept] != val[0]) kept++;
    List::Iterator a = keep, b = keep;
    a.Next();
    REQUIRE(a.Valid() == (kept + 1 < m) && (!a.Valid() || a.key() == s[kept + 1]), "stepping forward lands on the next key");
    b.Prev();
    REQUIRE(b.Valid() == (kept > 0) && (!b.Valid() || b.key() == s[kept - 1]), "stepping back lands on the previous key");
  }
  checkAll(l, s, m);
  for (int j = 0; j <= n; j++) {
    checkProbe(l, s, m, 95 + 10 * (Key)j);
    if (j < n) checkProbe(l, s, m, s[j]);
  }
  lsx_cover("end");
}
// the real generator: whatever the seed, heights are in range and the list works
extern "C" void c16_reverse() {
  struct Rev { int operator()(const Key& a, const Key& b) const { return a < b ? 1 : a > b ? -1 : 0; } };
  Arena arena;
  SkipList<Key, Rev> l(Rev(), &arena);
  const int n = (int)lsx_param("n", 4);
  int perm = (int)lsx_choose(2, "direction");
  for (int i = 0; i < n; i++) { pickHeight(3); l.Insert((Key)(perm ? i : n - 1 - i)); }
  SkipList<Key, Rev>::Iterator it(&l);
  it.SeekToFirst();
  for (int i = n - 1; i >= 0; i--, it.Next()) REQUIRE(it.Valid() && it.key() == (Key)i, "iterating forwards visits the keys in comparator order");
  REQUIRE(!it.Valid(), "iterating forwards ends after the last key");
  for (int i = 0; i < n; i++) REQUIRE(l.Contains((Key)i), "an inserted key is contained");
  REQUIRE(!l.Contains((Key)n), "a key is contained exactly if it was inserted");
  lsx_cover("end");
}
// a long history, by a comparator with a state of its own: one probe of any value at any place
struct Dir {
  int sign;
  explicit Dir(int s) : sign(s) {}
  int operator()(const Key& a, const Key& b) const { return a < b ? -sign : a > b ? sign : 0; }
};
extern "C" void c16_long() {
  const int n = (int)lsx_param("n", 150);
  const int sign = lsx_choose(2, "descending") ? -7 : 2;
  const uint32_t how = lsx_choose(4, "order");
  Arena arena;
  SkipList<Key, Dir> l(Dir(sign), &arena);
  auto keyAt = [&](int i) { return (Key)(1ull << 40) + 16 * (Key)i; };  // i-th in the numeric order
  uint32_t r = 12345;
  for (int i = 0; i < n; i++) {
    const int at = how == 0 ? i : how == 1 ? n - 1 - i : how == 2 ? (int)((uint64_t)i * 7919 % (uint64_t)n) : i % 2 ? n - 1 - i / 2 : i / 2;
    g_ups = 0;
    for (; (r = r * 1103515245u + 12345u) >> 30 == 0; g_ups++) {}  // one in four is higher by one
    l.Insert(keyAt(at));
  }
  SkipList<Key, Dir>::Iterator it(&l);
  it.SeekToFirst();
  for (int i = 0; i < n; i++, it.Next()) REQUIRE(it.Valid() && it.key() == keyAt(sign > 0 ? i : n - 1 - i), "iterating forwards visits every key in order");
  REQUIRE(!it.Valid(), "iterating forwards ends after the last key");
  it.SeekToLast();
  for (int i = n - 1; i >= 0; i--, it.Prev()) REQUIRE(it.Valid() && it.key() == keyAt(sign > 0 ? i : n - 1 - i), "iterating backwards visits every key in order");
  REQUIRE(!it.Valid(), "iterating backwards ends before the first key");
  // between two keys, or on one
  const int place = (int)lsx_choose(2 * (uint32_t)n + 1, "place"), k = place / 2;
  Key t = lsx_sym("probe", 64);
  if (place % 2) lsx_assume(t == keyAt(k));
  else {
    if (k > 0) lsx_assume(t > keyAt(k - 1));
    if (k < n) lsx_assume(t < keyAt(k));
  }
  REQUIRE(l.Contains(t) == (bool)(place % 2), "a key is contained exactly if it was inserted");
  int hit = sign > 0 ? k : place % 2 ? k : k - 1;  // numeric place of the first key at or after the target, -1 or n: none
  it.Seek(t);
  const bool some = hit >= 0 && hit < n;
  REQUIRE(it.Valid() == some, "seek is valid exactly if some key is at or after the target");
  if (some) {
    REQUIRE(it.key() == keyAt(hit), "seek lands on the first key at or after the target");
    it.Prev();
    const int before = sign > 0 ? hit - 1 : hit + 1;
    REQUIRE(it.Valid() == (before >= 0 && before < n), "stepping back from the first key ends the iteration");
    if (it.Valid()) REQUIRE(it.key() == keyAt(before), "stepping back lands on the previous key");
  }
  lsx_cover("end");
}

// keys of other sizes, and comparators that answer with any magnitude
template <class K, class C, class Make> static void anyList(C cmp, Make make, int n) {
  Arena arena;
  SkipList<K, C> l(cmp, &arena);
  int order[8], no = 0;
  for (int i = 0; i < n; i++) {
    const int at = (int)lsx_choose((uint32_t)i + 1, "rank");
    for (int j = no; j > at; j--) order[j] = order[j - 1];
    order[at] = i;
    no++;
  }
  int rank[8];
  for (int j = 0; j < n; j++) rank[order[j]] = j;
  bool in[8] = {};
  typedef typename SkipList<K, C>::Iterator It;
  for (int i = 0; i < n; i++) {
    pickHeight(3);
    l.Insert(make(2 * rank[i] + 1));
    in[rank[i]] = true;
    // the keys beside it are as they were
    It it(&l);
    it.SeekToFirst();
    for (int j = 0; j < n; j++) {
      REQUIRE(l.Contains(make(2 * j + 1)) == in[j], "a key is contained exactly if it was inserted");
      if (!in[j]) continue;
      REQUIRE(it.Valid() && cmp(it.key(), make(2 * j + 1)) == 0, "iterating forwards visits every key in order");
      it.Next();
    }
    REQUIRE(!it.Valid(), "iterating forwards ends after the last key");
  }
  It it(&l);
  it.SeekToLast();
  for (int j = n - 1; j >= 0; j--, it.Prev()) REQUIRE(it.Valid() && cmp(it.key(), make(2 * j + 1)) == 0, "iterating backwards visits every key in order");
  REQUIRE(!it.Valid(), "iterating backwards ends before the first key");
  for (int j = 0; j <= n; j++) {
    REQUIRE(!l.Contains(make(2 * j)), "a key is contained exactly if it was inserted");
    it.Seek(make(2 * j));
    REQUIRE(it.Valid() == (j < n) && (j == n || cmp(it.key(), make(2 * j + 1)) == 0), "seek lands on the first key at or after the target");
  }
  lsx_cover("end");
}
struct Wide {
  uint64_t a[3];
  char tail[9];
  Wide(uint64_t v = 0) : a{v, v * 3, v * 5}, tail{} { tail[8] = (char)(v + 7); }
};
struct WideCmp {
  int operator()(const Wide& x, const Wide& y) const {
    REQUIRE((int)(x.a[1] == 3 * x.a[0]) & (int)(x.a[2] == 5 * x.a[0]) & (int)(x.tail[8] == (char)(x.a[0] + 7)), "a key keeps its contents");
    return x.a[0] < y.a[0] ? -1 : x.a[0] > y.a[0];
  }
};
struct ByteCmp { int operator()(const unsigned char& x, const unsigned char& y) const { return (int)x - (int)y; } };
struct TextCmp { int operator()(const char* const& x, const char* const& y) const { return strcmp(x, y); } };
struct Mag {
  int less, more;
  int operator()(const Key& x, const Key& y) const { return x < y ? less : x > y ? more : 0; }
};
extern "C" void c16_types() {
  const int n = (int)lsx_param("n", 4);
  switch (lsx_choose(3, "type")) {
    case 0: anyList<Wide>(WideCmp(), [](int i) { return Wide((uint64_t)i); }, n); break;
    case 1: anyList<unsigned char>(ByteCmp(), [](int i) { return (unsigned char)(i * 28); }, n); break;
    case 2: {
      static const char* const text[] = {"", "a", "aa", "ab", "b", "ba", "bb", "c", "ca", "cb", "d", "da", "db"};
      anyList<const char*>(TextCmp(), [](int i) { return text[i]; }, n);
      break;
    }
  }
}
extern "C" void c16_magnitudes() {
  static const Mag mag[] = {{-256, 256}, {-0x7fffffff, 0x7fffffff}, {-65536, 1}, {-1, 65536}, {-1 << 24, 1 << 24}, {-129, 129}, {-32769, 32768}};
  anyList<Key>(mag[lsx_choose(7, "magnitude")], [](int i) { return (Key)i; }, (int)lsx_param("n", 4));
}

// ---------------------------------------------------------------- C17
struct Shared {
  List* l;
  Key key[4];
  int n;
  std::atomic<int> done;   // insertions finished
  std::atomic<int> begun;
};
static void writer(void* p) {
  Shared* s = (Shared*)p;
  for (int i = 0; i < s->n; i++) {
    pickHeight((uint32_t)lsx_param("heights", 3));
    s->l->Insert(s->key[i]);
    s->done.store(i + 1, std::memory_order_release);
  }
}
static void setup(Shared& s, Arena& arena, List& l, Key* pre, int& npre) {
  static const Key old[] = {30, 60};
  npre = (int)lsx_choose((uint32_t)lsx_param("before", 2) + 1, "before");
  for (int i = 0; i < npre; i++) {
    pickHeight(i ? 1 : 2);
    l.Insert(pre[i] = old[i]);
  }
  static const Key neu[][2] = {{20, 50}, {50, 20}, {40, 50}, {70, 10}};
  s.l = &l;
  s.n = (int)lsx_param("inserts", 1);
  uint32_t w = lsx_choose(s.n == 1 ? 2 : 4, "new");
  for (int i = 0; i < s.n; i++) s.key[i] = neu[w][i];
  s.done.store(0, std::memory_order_relaxed);
}
static bool known(Key k, const Shared& s, const Key* pre, int npre) {
  for (int i = 0; i < npre; i++) if (pre[i] == k) return true;
  for (int i = 0; i < s.n; i++) if (s.key[i] == k) return true;
  return false;
}
static void scan(Shared& s, Arena& arena, List& l, bool back) {
  Key pre[2];
  int npre;
  setup(s, arena, l, pre, npre);
  int th = lsx_thread_create(&writer, &s);
  int done = s.done.load(std::memory_order_acquire);
  Key seen[8];
  int n = 0;
  List::Iterator it(&l);
  if (back) it.SeekToLast(); else it.SeekToFirst();
  while (it.Valid()) {
    REQUIRE(n < 6, "a reader visits each key at most once");
    seen[n] = it.key();
    REQUIRE(known(seen[n], s, pre, npre), "a reader never sees a key that was not inserted");
    if (n) REQUIRE(back ? seen[n] < seen[n - 1] : seen[n - 1] < seen[n], "a reader sees keys in strict order");
    n++;
    if (back) it.Prev(); else it.Next();
  }
  auto saw = [&](Key k) { for (int i = 0; i < n; i++) if (seen[i] == k) return true; return false; };
  for (int i = 0; i < npre; i++) REQUIRE(saw(pre[i]), "a reader sees every key inserted before it started");
  for (int i = 0; i < done; i++) REQUIRE(saw(s.key[i]), "a reader sees every key inserted before it started");
  if (n > npre) lsx_cover("saw a new key");
  if (n == npre) lsx_cover("saw no new key");
  lsx_thread_join(th);
  Key all[6];
  int m = 0;
  for (int i = 0; i < npre; i++) all[m++] = pre[i];
  for (int i = 0; i < s.n; i++) all[m++] = s.key[i];
  for (int i = 0; i < m; i++) for (int j = i + 1; j < m; j++) if (all[j] < all[i]) { Key t = all[i]; all[i] = all[j]; all[j] = t; }
  checkAll(l, all, m);
  lsx_cover("end");
}
extern "C" void c17_forward() { Shared s; Arena a; List l(Cmp(), &a); scan(s, a, l, false); }
extern "C" void c17_backward() { Shared s; Arena a; List l(Cmp(), &a); scan(s, a, l, true); }
extern "C" void c17_lookup() {
  Shared s;
  Arena a;
  List l(Cmp(), &a);
  Key pre[2];
  int npre;
  setup(s, a, l, pre, npre);
  int th = lsx_thread_create(&writer, &s);
  int done = s.done.load(std::memory_order_acquire);
  static const Key probe[] = {50, 20, 30, 45, 60, 15};
  Key t = probe[lsx_choose(6, "probe")];
  bool old = false, fin = false, any = false;
  for (int i = 0; i < npre; i++) old = old || pre[i] == t;
  for (int i = 0; i < s.n; i++) { any = any || s.key[i] == t; if (i < done) fin = fin || s.key[i] == t; }
  if (lsx_choose(2, "how")) {
    bool c = l.Contains(t);
    REQUIRE(!c || old || any, "a reader never sees a key that was not inserted");
    REQUIRE(c || !(old || fin), "a reader sees every key inserted before it started");
    if (c && any && !fin) lsx_cover("saw a new key");
  } else {
    List::Iterator it(&l);
    it.Seek(t);
    if (it.Valid()) {
      REQUIRE(it.key() >= t && known(it.key(), s, pre, npre), "seek lands on an inserted key at or after the target");
      for (int i = 0; i < npre; i++) REQUIRE(!(pre[i] >= t && pre[i] < it.key()), "seek skips no key inserted before it started");
      for (int i = 0; i < done; i++) REQUIRE(!(s.key[i] >= t && s.key[i] < it.key()), "seek skips no key inserted before it started");
    } else {
      for (int i = 0; i < npre; i++) REQUIRE(pre[i] < t, "seek skips no key inserted before it started");
      for (int i = 0; i < done; i++) REQUIRE(s.key[i] < t, "seek skips no key inserted before it started");
    }
  }
  lsx_thread_join(th);
  lsx_cover("end");
}
// two readers
static void reader2(void* p) {
  Shared* s = (Shared*)p;
  List::Iterator it(s->l);
  Key last = 0;
  for (it.SeekToFirst(); it.Valid(); it.Next()) {
    REQUIRE(last < it.key(), "a reader sees keys in strict order");
    last = it.key();
  }
}
extern "C" void c17_readers() {
  Shared s;
  Arena a;
  List l(Cmp(), &a);
  Key pre[2];
  int npre;
  setup(s, a, l, pre, npre);
  int t1 = lsx_thread_create(&writer, &s), t2 = lsx_thread_create(&reader2, &s);
  bool c = l.Contains(s.key[0]), d = l.Contains(s.key[0]);
  REQUIRE(!c || d, "a key once seen stays visible");
  lsx_thread_join(t1);
  lsx_thread_join(t2);
  lsx_cover("end");
}

// two lists, each with a writer of its own
struct Own { List* l; Key first; };
static void ownWriter(void* p) {
  Own* o = (Own*)p;
  for (int i = 0; i < 2; i++) o->l->Insert(o->first + (Key)(i ? 5 : 9));
}
extern "C" void c17_lists() {
  Arena a, b;
  List la(Cmp(), &a), lb(Cmp(), &b);
  Own oa = {&la, 100}, ob = {&lb, 200};
  g_ups = 0;  // no node is higher than one
  for (int i = 0; i < 2; i++) { la.Insert(100 + 7 * (Key)i); lb.Insert(200 + 7 * (Key)i); }
  const int th = lsx_thread_create(&ownWriter, &oa);
  ownWriter(&ob);
  lsx_thread_join(th);
  static const Key want[] = {0, 5, 7, 9};
  Key s[4];
  for (int i = 0; i < 4; i++) s[i] = 100 + want[i];
  checkAll(la, s, 4);
  for (int i = 0; i < 4; i++) s[i] = 200 + want[i];
  checkAll(lb, s, 4);
  lsx_cover("end");
}
