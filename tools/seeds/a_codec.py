CODING = 'util/coding.cc'
seed('c01-varintlength', 'C01', 'a value of at least 2^63 (ten encoded bytes)',
     'VarintLength stops counting at nine bytes, so the length announced for the largest values is one byte short of what EncodeVarint64 writes.',
     [(CODING, '  while (v >= 128) {\n', '  while (v >= 128 && len < 9) {\n') if False else
      (CODING, '    while (v >= 128) {\n', '    while (v >= 128 && len < 9) {\n')],
     r'''
#include "util/coding.h"
int main() {
  for (int b = 0; b < 64; b++) {
    uint64_t v = (uint64_t)1 << b;
    std::string s;
    lsmdb::PutVarint64(&s, v);
    EXPECT(lsmdb::VarintLength(v) == (int)s.size());
  }
}
''')

seed('c01-varint32-edge', 'C01', 'exactly the value 2^28',
     'EncodeVarint32 uses the four-byte form for 2^28 too, leaving a dangling continuation bit, so that one value does not decode.',
     [(CODING, 'v < (1 << 28)', 'v <= (1 << 28)')],
     r'''
#include "util/coding.h"
int main() {
  for (uint64_t b = 1; b <= 0xffffffffull; b <<= 1)
    for (int d = -1; d <= 1; d++) {
      uint32_t v = (uint32_t)(b + d), w = ~v;
      std::string s;
      lsmdb::PutVarint32(&s, v);
      lsmdb::Slice in(s);
      EXPECT(lsmdb::GetVarint32(&in, &w) && w == v && in.empty());
    }
}
''')

seed('c02-signed-length', 'C02', 'a hostile length prefix of 2^31 or more',
     'The bounds check of the pointer form of GetLengthPrefixedSlice is done in int, so a huge length becomes negative and passes.',
     [(CODING, '    if (p + len > limit) return nullptr;\n',
       '    if (static_cast<int>(len) > limit - p) return nullptr;\n')],
     r'''
#include "util/coding.h"
namespace lsmdb { const char* GetLengthPrefixedSlice(const char*, const char*, Slice*); }
int main() {
  const uint32_t lens[] = {4, 100, 0x7fffffffu, 0x80000000u, 0xffffffffu};
  for (uint32_t n : lens) {
    std::string s;
    lsmdb::PutVarint32(&s, n);
    s += "abc";
    lsmdb::Slice r;
    const char* p = s.data();
    const char* q = lsmdb::GetLengthPrefixedSlice(p, p + s.size(), &r);
    EXPECT(q == nullptr);
  }
}
''')

seed('c02-limit-overread', 'C02', 'a varint32 truncated right at the end of its buffer',
     'GetVarint32PtrFallback looks at the byte at limit, so a truncated number is completed with whatever follows the buffer.',
     [(CODING, 'shift <= 28 && p < limit', 'shift <= 28 && p <= limit')],
     r'''
#include "util/coding.h"
int main() {
  const char b[] = {(char)0x80, (char)0x81, 0x01, 0x00};
  for (int n = 0; n < 3; n++) {
    uint32_t v = 7;
    EXPECT(lsmdb::GetVarint32Ptr(b, b + n, &v) == (n < 3 ? nullptr : b + 3));
  }
}
''')

seed('c03-embedded-nul', 'C03', 'a value holding a zero byte',
     'PutLengthPrefixedSlice writes the announced length but only the bytes before the first zero byte, so what follows decodes wrongly.',
     [(CODING, '    dst->append(value.data(), value.size());\n}',
       '    dst->append(value.ToString().c_str());\n}')],
     r'''
#include "util/coding.h"
int main() {
  std::string v("a\0b", 3), s;
  lsmdb::PutLengthPrefixedSlice(&s, v);
  lsmdb::PutLengthPrefixedSlice(&s, "next");
  lsmdb::Slice in(s), a, b;
  EXPECT(lsmdb::GetLengthPrefixedSlice(&in, &a) && a.ToString() == v);
  EXPECT(lsmdb::GetLengthPrefixedSlice(&in, &b) && b.ToString() == "next");
}
''')

seed('c03-slice-stale-input', 'C03', 'a slice whose size is exactly what remains (an empty value at the end)',
     'The slice form of GetLengthPrefixedSlice refuses a value that ends exactly at the end of an otherwise empty input.',
     [(CODING, 'GetVarint32(input, &len) && input->size() >= len', 'GetVarint32(input, &len) && !input->empty() && input->size() >= len')],
     r'''
#include "util/coding.h"
int main() {
  std::string s;
  lsmdb::PutLengthPrefixedSlice(&s, "x");
  lsmdb::PutLengthPrefixedSlice(&s, "");
  lsmdb::Slice in(s), a, b;
  EXPECT(lsmdb::GetLengthPrefixedSlice(&in, &a) && a.ToString() == "x");
  EXPECT(lsmdb::GetLengthPrefixedSlice(&in, &b) && b.empty() && in.empty());
}
''')

LOGGING = 'util/logging.cc'
seed('c04-leading-zeros', 'C04', 'a number written with more than twenty digits because of leading zeros',
     'ConsumeDecimalNumber counts digits to detect overflow and so refuses small numbers with many leading zeros.',
     [(LOGGING, '    // Overflow check.\n', '    // No 64-bit number has more than 20 digits.\n    if (current - start >= 20) return false;\n    // Overflow check.\n')],
     r'''
#include "util/logging.h"
#include "lsmdb/slice.h"
int main() {
  for (int z = 0; z < 40; z++) {
    std::string s = std::string(z, '0') + "42x";
    lsmdb::Slice in(s);
    uint64_t v = 0;
    EXPECT(lsmdb::ConsumeDecimalNumber(&in, &v) && v == 42 && in.ToString() == "x");
  }
}
''')

seed('c05-tilde', 'C05', 'a tilde in the text',
     'The printable range ends one short, so "~" is escaped.',
     [(LOGGING, "c <= '~'", "c < '~'")],
     r'''
#include "util/logging.h"
#include "lsmdb/slice.h"
int main() {
  std::string all;
  for (int c = ' '; c <= '~'; c++) all.push_back((char)c);
  EXPECT(lsmdb::EscapeString(all) == all);
}
''')

seed('c05-sign-extend', 'C05', 'a byte of 0x80 or more',
     'The byte is sign-extended before it is printed, so it becomes "\\xffffff.." cut to the buffer.',
     [(LOGGING, 'static_cast<unsigned int>(c) & 0xff', 'static_cast<unsigned int>(c)')],
     r'''
#include "util/logging.h"
#include "lsmdb/slice.h"
int main() {
  for (int c = 0; c < 256; c++) {
    char b = (char)c, e[8];
    std::snprintf(e, sizeof e, "\\x%02x", c);
    std::string want = (c >= ' ' && c <= '~') ? std::string(1, b) : e;
    EXPECT(lsmdb::EscapeString(lsmdb::Slice(&b, 1)) == want);
  }
}
''')

SLICE = 'include/lsmdb/slice.h'
seed('c06-size-truncation', 'C06', 'slices whose sizes differ by a multiple of 2^32',
     'The length tie-break is computed in int, so a slice and its extension by 4 GB compare equal.',
     [(SLICE, '        if (size_ < b.size_)\n            r = -1;\n        else if (size_ > b.size_)\n            r = +1;\n',
       '        r = static_cast<int>(size_ - b.size_);\n')],
     r'''
#include "lsmdb/slice.h"
int main() {
  static char c[1];
  lsmdb::Slice e(c, 0);
  size_t n[] = {1, 2, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)3 << 31};
  for (size_t k : n) {
    lsmdb::Slice big(c, k);
    EXPECT(e.compare(big) < 0);
    EXPECT(big.compare(e) > 0);
  }
}
''')

seed('c06-starts-with', 'C06', 'a prefix exactly as long as the slice',
     'starts_with refuses a prefix that is the whole slice.',
     [(SLICE, '((size_ >= x.size_) &&', '((size_ > x.size_ || x.size_ == 0) &&')],
     r'''
#include "lsmdb/slice.h"
int main() {
  EXPECT(lsmdb::Slice("abc").starts_with("abc"));
  EXPECT(lsmdb::Slice("abc").starts_with("ab"));
  EXPECT(!lsmdb::Slice("abc").starts_with("abcd"));
}
''')

seed('c07-reuse-buffer', 'C07', 'assignment between two errors of different kinds whose messages have equal length',
     'Copy assignment reuses a buffer of the right size and copies the message but not the code.',
     [('include/lsmdb/status.h',
       '    delete[] state_;\n    state_ = (rhs.state_ == nullptr) ? nullptr : CopyState(rhs.state_);\n  }\n  return *this;',
       '''    unsigned int mine = 0, theirs = 0;
    if (state_ != nullptr) std::memcpy(&mine, state_, sizeof(mine));
    if (rhs.state_ != nullptr) std::memcpy(&theirs, rhs.state_, sizeof(theirs));
    if (state_ != nullptr && rhs.state_ != nullptr && mine == theirs) {
      // Same size: no need to allocate again.
      std::memcpy(const_cast<char*>(state_) + 5, rhs.state_ + 5, theirs);
    } else {
      delete[] state_;
      state_ = (rhs.state_ == nullptr) ? nullptr : CopyState(rhs.state_);
    }
  }
  return *this;''')],
     r'''
#include "lsmdb/status.h"
int main() {
  lsmdb::Status a = lsmdb::Status::NotFound("abc"), b = lsmdb::Status::IOError("xyz");
  a = b;
  EXPECT(a.IsIOError() && !a.IsNotFound());
  EXPECT(a.ToString() == b.ToString());
}
''')

seed('c07-message-separator', 'C07', 'an error built from an empty first and a non-empty second message',
     'The separator is only accounted for, not written, when the first message is empty: the text starts with uninitialised bytes.',
     [('util/status.cc', "  if (len2) {\n    result[5 + len1] = ':';\n    result[6 + len1] = ' ';\n",
       "  if (len2) {\n    if (len1) {\n      result[5 + len1] = ':';\n      result[6 + len1] = ' ';\n    }\n")],
     r'''
#include "lsmdb/status.h"
#include <new>
void* operator new[](size_t n) { void* p = std::malloc(n); std::memset(p, '?', n); return p; }
void operator delete[](void* p) noexcept { std::free(p); }
int main() {
  EXPECT(lsmdb::Status::IOError("", "why").ToString() == "IO error: : why");
  EXPECT(lsmdb::Status::IOError("f", "why").ToString() == "IO error: f: why");
}
''')

seed('c08-tail-overread', 'C08', 'a buffer whose length is no multiple of four, right before unreadable memory',
     'The tail is fetched with one four-byte load and masked: same hash, but up to three bytes past the data are read.',
     [('util/hash.cc', '''        case 3:
            h += static_cast<uint8_t >(data[2]) << 16;
            FALLTHROUGH_INTENDED;
        case 2:
            h += static_cast<uint8_t >(data[1]) << 8;
            FALLTHROUGH_INTENDED;
        case 1:
            h += static_cast<uint8_t >(data[0]);
            h *= m;
''', '''        case 3:
        case 2:
        case 1:
            h += DecodeFixed32(data) & ((1u << (8 * (limit - data))) - 1);
            h *= m;
''')],
     r'''
#include <sys/mman.h>
#include "util/hash.h"
int main() {
  char* p = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  EXPECT(p != MAP_FAILED && mprotect(p + 4096, 4096, PROT_NONE) == 0);
  std::memset(p, 0xa5, 4096);
  for (size_t n = 0; n < 16; n++) lsmdb::Hash(p + 4096 - n, n, 1);
}
''')

seed('c08-signed-middle', 'C08', 'seven or more bytes with one of 0x80 or more as second byte of a three-byte tail',
     'In a three-byte tail after at least one full word the middle byte is sign-extended.',
     [('util/hash.cc', '            h += static_cast<uint8_t >(data[2]) << 16;\n            FALLTHROUGH_INTENDED;\n',
       '            h += static_cast<uint8_t >(data[2]) << 16;\n            if (n > 4) {\n              h += static_cast<uint32_t>(static_cast<int>(data[1]) << 8) +\n                   static_cast<uint8_t>(data[0]);\n              h *= m;\n              h ^= (h >> r);\n              break;\n            }\n            FALLTHROUGH_INTENDED;\n')],
     r'''
#include "util/hash.h"
static uint32_t ref(const unsigned char* d, size_t n, uint32_t seed) {
  const uint32_t m = 0xc6a4a793;
  uint32_t h = seed ^ (uint32_t)(n * m);
  size_t i = 0;
  for (; i + 4 <= n; i += 4) {
    h += d[i] | d[i + 1] << 8 | d[i + 2] << 16 | (uint32_t)d[i + 3] << 24;
    h *= m;
    h ^= h >> 16;
  }
  if (i < n) {
    for (size_t k = n; k-- > i;) h += (uint32_t)d[k] << (8 * (k - i));
    h *= m;
    h ^= h >> 24;
  }
  return h;
}
int main() {
  unsigned char b[16];
  for (int f = 0; f < 256; f += 5)
    for (size_t n = 0; n <= sizeof b; n++) {
      for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(f + 77 * i);
      EXPECT(lsmdb::Hash((char*)b, n, 0xbc9f1d34) == ref(b, n, 0xbc9f1d34));
    }
}
''')

seed('c09-bad-seed', 'C09', 'the seed 2^31-1 (or any that is congruent to it)',
     'The seed 2^31-1 is not replaced, so the generator is stuck at one value.',
     [('util/random.h', 'seed_ == 0 || seed_ == 2147483647L', 'seed_ == 0')],
     r'''
#include "util/random.h"
int main() {
  for (uint32_t s : {0u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) {
    lsmdb::Random r(s);
    EXPECT(r.Next() == 16807);
    EXPECT(r.Next() == 282475249);
  }
}
''')

seed('c09-reduce-twice', 'C09', 'one of the few seeds whose product reduces to just above 2^31-1',
     'The second reduction subtracts 2^31 instead of 2^31-1, which leaves the sequence by one for the rare states that need it.',
     [('util/random.h', '      seed_ -= M;', '      seed_ &= M;')],
     r'''
#include "util/random.h"
int main() {
  // states found by solving for products whose folded value exceeds M
  uint32_t s = 1;
  for (uint64_t k = 1; k < 16807; k++) {
    // seed with product >> 31 == k and a large low part
    uint64_t lo = (k << 31) | 0x7fffffffull;
    uint32_t seed = (uint32_t)(lo / 16807);
    for (uint32_t d = 0; d < 3; d++) {
      uint32_t q = seed - d;
      if (q == 0 || q >= 2147483647u) continue;
      lsmdb::Random r(q);
      EXPECT(r.Next() == (uint32_t)((uint64_t)q * 16807 % 2147483647ull));
    }
  }
}
''')
