// C07: Status.
#include "h.h"
#include <utility>
#include "lsmdb/status.h"
using namespace lsmdb;

namespace {
struct Model {
  int kind;  // 0 OK, 1.. as below, -1 unspecified (moved from)
  char msg[24];
  size_t n;
};
const char* const kPrefix[] = {"OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: "};
Status make(int kind, const Slice& a, const Slice& b, bool two) {
  switch (kind) {
    case 1: return two ? Status::NotFound(a, b) : Status::NotFound(a);
    case 2: return two ? Status::Corruption(a, b) : Status::Corruption(a);
    case 3: return two ? Status::NotSupported(a, b) : Status::NotSupported(a);
    case 4: return two ? Status::InvalidArgument(a, b) : Status::InvalidArgument(a);
    case 5: return two ? Status::IOError(a, b) : Status::IOError(a);
    default: return Status::OK();
  }
}
void verify(const Status& s, const Model& m) {
  if (m.kind < 0) return;
  REQUIRE(s.ok() == (m.kind == 0), "ok() tells success");
  REQUIRE(s.IsNotFound() == (m.kind == 1), "IsNotFound");
  REQUIRE(s.IsCorruption() == (m.kind == 2), "IsCorruption");
  REQUIRE(s.IsNotSupportedError() == (m.kind == 3), "IsNotSupportedError");
  REQUIRE(s.IsInvalidArgument() == (m.kind == 4), "IsInvalidArgument");
  REQUIRE(s.IsIOError() == (m.kind == 5), "IsIOError");
  std::string t = s.ToString();
  size_t p = strlen(kPrefix[m.kind]);
  if (m.kind == 0) { REQUIRE(t.size() == 2 && t[0] == 'O' && t[1] == 'K', "the OK status prints OK"); return; }
  REQUIRE(t.size() == p + m.n, "text length");
  REQUIRE(sameBytes(t.data(), kPrefix[m.kind], p), "text starts with the prefix of its kind");
  REQUIRE(sameBytes(t.data() + p, m.msg, m.n), "text ends with the message");
}
// one status with its model, message bytes arbitrary
Status fresh(Model* m, int kind, uint32_t n1, uint32_t n2, bool two) {
  Buf a(n1, "a"), b(n2, "b");
  m->kind = kind;
  m->n = 0;
  for (uint32_t i = 0; i < n1; i++) m->msg[m->n++] = a.p[i];
  if (two && n2) {
    m->msg[m->n++] = ':';
    m->msg[m->n++] = ' ';
    for (uint32_t i = 0; i < n2; i++) m->msg[m->n++] = b.p[i];
  }
  return make(kind, Slice(a.p, n1), Slice(b.p, n2), two);
}
}  // namespace

extern "C" void c07_build() {
  const uint32_t N = (uint32_t)lsx_param("n", 3);
  {
    int kind = (int)lsx_choose(6, "kind");
    uint32_t two = lsx_choose(2, "two");
    uint32_t n1 = lsx_choose(N + 1, "n1"), n2 = two ? lsx_choose(N + 1, "n2") : 0;
    Model m;
    Status s = fresh(&m, kind, n1, n2, two);
    verify(s, m);
    Status c(s);
    verify(c, m);
    verify(s, m);
    Status d;
    REQUIRE(d.ok(), "default status is OK");
    d = s;
    verify(d, m);
    Status e(std::move(c));
    verify(e, m);
    Status f;
    f = std::move(e);
    verify(f, m);
    verify(s, m);
    if (kind == 5 && n2) lsx_cover("two messages");
  }
  REQUIRE(lsx_live_allocs() == 0, "all storage is freed");
  lsx_cover("end");
}
// long messages: every length field byte
extern "C" void c07_long() {
  static const uint32_t sizes[] = {0, 1, 15, 127, 128, 200, 255, 256, 257, 300, 4096, 32768, 65531, 65535, 65536, 65537, 70000, 131072, 16777211, 16777216};
  const uint32_t every = (uint32_t)lsx_param("every", 0);
  uint32_t n = every ? lsx_choose(every, "n") : sizes[lsx_choose((uint32_t)lsx_param("sizes", 8), "n")];
  uint32_t two = lsx_choose(3, "two");
  if (two == 2) {  // the first of two messages is the long one
    Buf a(n);
    fillPattern(a.p, n);
    const uint32_t end = n <= 300 && !every ? n : n < 4 ? n : 4;
    lsx_sym_bytes(a.p, end, "a");
    lsx_sym_bytes(a.p + n - end, end, "e");
    char b[3];
    lsx_sym_bytes(b, 3, "b");
    Status s = Status::NotFound(Slice(a.p, n), Slice(b, 3)), d = Status::IOError("x");
    d = s;
    std::string t = d.ToString();
    const char* p = "NotFound: ";
    const size_t k = strlen(p);
    REQUIRE(t.size() == k + n + 5, "text length");
    REQUIRE(sameBytes(t.data(), p, k), "text prefix");
    REQUIRE(sameBytes(t.data() + k, a.p, end) & sameBytes(t.data() + k + n - end, a.p + n - end, end), "first and last message bytes");
    REQUIRE(memcmp(t.data() + k, a.p, n) == 0, "message bytes");
    REQUIRE(sameBytes(t.data() + k + n, ": ", 2) & sameBytes(t.data() + k + n + 2, b, 3), "the second message follows");
    REQUIRE(d.IsNotFound(), "kind of a long status");
  } else {
    Buf a(n);
    fillPattern(a.p, n);
    const uint32_t end = every ? n < 4 ? n : 4 : n <= 300 ? n : 40;
    lsx_sym_bytes(a.p, end, "a");
    lsx_sym_bytes(a.p + n - end, end, "e");
    Status s = two ? Status::IOError("f", Slice(a.p, n)) : Status::Corruption(Slice(a.p, n));
    Status c(s), d;
    d = c;
    std::string t = d.ToString();
    const char* p = two ? (n ? "IO error: f: " : "IO error: f") : "Corruption: ";
    size_t k = strlen(p);
    REQUIRE(t.size() == k + n, "text length");
    REQUIRE(sameBytes(t.data(), p, k), "text prefix");
    REQUIRE(sameBytes(t.data() + k, a.p, end) & sameBytes(t.data() + k + n - end, a.p + n - end, end), "first and last message bytes");
    REQUIRE(memcmp(t.data() + k, a.p, n) == 0, "message bytes");
    REQUIRE(two ? d.IsIOError() : d.IsCorruption(), "kind of a long status");
  }
  REQUIRE(lsx_live_allocs() == 0, "all storage is freed");
  lsx_cover("end");
}
// any sequence of copies, moves and assignments among three statuses
extern "C" void c07_sequence() {
  const uint32_t K = (uint32_t)lsx_param("ops", 3);
  {
    Model m[3];
    Status s[3];
    uint32_t which = lsx_choose(4, "start");
    s[0] = fresh(&m[0], 1, 2, 0, false);
    s[1] = which & 1 ? fresh(&m[1], 5, 1, 1, true) : fresh(&m[1], 0, 0, 0, false);
    s[2] = which & 2 ? fresh(&m[2], 2, 0, 0, false) : fresh(&m[2], 0, 0, 0, false);
    for (uint32_t i = 0; i < K; i++) {
      uint32_t op = lsx_choose(5, "op"), a = lsx_choose(3, "to"), b = lsx_choose(3, "from");
      switch (op) {
        case 0: s[a] = s[b]; m[a] = m[b]; break;
        case 1:
          s[a] = std::move(s[b]);
          if (a != b) { m[a] = m[b]; m[b].kind = -1; }
          break;
        case 2: { Status t(s[b]); verify(t, m[b]); s[a] = t; m[a] = m[b]; verify(t, m[b]); break; }
        case 3: {
          Model x = m[b];
          Status t(std::move(s[b]));
          m[b].kind = -1;
          verify(t, x);
          s[a] = std::move(t);
          m[a] = x;
          break;
        }
        default: {  // a moved-from status may be assigned again
          s[b] = fresh(&m[b], 4, 1, 0, false);
          if (a != b) { s[a] = s[b]; m[a] = m[b]; }
        }
      }
      for (int j = 0; j < 3; j++) verify(s[j], m[j]);
    }
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == 0, "all storage is freed exactly once");
}
// assignment between two statuses of any kinds and any message lengths, equal ones included
extern "C" void c07_assign() {
  const uint32_t N = (uint32_t)lsx_param("n", 2);
  {
    Model m[2];
    Status s[2];
    for (int i = 0; i < 2; i++) {
      uint32_t kind = lsx_choose(6, "kind");
      uint32_t n1 = kind ? lsx_choose(N + 1, "n1") : 0;
      uint32_t n2 = kind ? lsx_choose(N, "n2") : 0;
      s[i] = fresh(&m[i], (int)kind, n1, n2, n2 != 0);
    }
    switch (lsx_choose(4, "op")) {
      case 0:
        s[0] = s[1];
        verify(s[0], m[1]);
        verify(s[1], m[1]);
        s[1] = Status::OK();
        verify(s[0], m[1]);
        break;
      case 1:
        s[0] = std::move(s[1]);
        verify(s[0], m[1]);
        s[1] = s[0];
        verify(s[1], m[1]);
        break;
      case 2: {
        Status t(s[0]);
        s[0] = s[1];
        s[1] = t;
        verify(s[0], m[1]);
        verify(s[1], m[0]);
        verify(t, m[0]);
        break;
      }
      default:
        std::swap(s[0], s[1]);
        verify(s[0], m[1]);
        verify(s[1], m[0]);
        s[0] = s[0];
        verify(s[0], m[1]);
    }
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == 0, "all storage is freed exactly once");
}
