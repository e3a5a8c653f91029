// C17: byte swapping and bool/bit conversion.
#include <algorithm>
#include "vp.h"
#include "common/DataConvert.h"
using namespace dp3::common;
typedef unsigned char B;
static std::vector<B> Reversed(const std::vector<B>& v, size_t size, size_t n, size_t from = 0) {
  std::vector<B> r = v;
  for (size_t e = 0; e < n; ++e) std::reverse(r.begin() + from + e * size, r.begin() + from + (e + 1) * size);
  return r;
}
template <typename T> static void Scalar(T v) {
  const T r = byteSwap(v);
  std::vector<B> a(sizeof(T)), b(sizeof(T));
  memcpy(a.data(), &v, sizeof(T)); memcpy(b.data(), &r, sizeof(T));
  std::reverse(a.begin(), a.end());
  vp::Step(4);
  if (a != b || byteSwap(r) != v || dataConvert(LittleEndian, v) != r || dataConvert(BigEndian, v) != r) vp::Fail("value " + vp::Str(+v) + " becomes " + vp::Str(+r));
  vp::Outcome(vp::Hash(b.data(), b.size()));
}
static void Swap(int size, int how, void* out, const void* in, unsigned n) {
  // how: 0 byteSwap array, 1 dataConvert array, 2 float/double named
  if (size == 2) { if (how == 0) byteSwap16(out, in, n); else dataConvert16(BigEndian, out, in, n); }
  if (size == 4) { if (how == 0) byteSwap32(out, in, n); else if (how == 1) dataConvert32(BigEndian, out, in, n); else dataConvertFloat(BigEndian, out, in, n); }
  if (size == 8) { if (how == 0) byteSwap64(out, in, n); else if (how == 1) dataConvert64(BigEndian, out, in, n); else dataConvertDouble(BigEndian, out, in, n); }
}
static void SwapIn(int size, int how, void* p, unsigned n) {
  if (size == 2) { if (how == 0) byteSwap16(p, n); else if (how == 1) dataConvert16(LittleEndian, p, n); else if (how == 2) dataConvert(LittleEndian, (int16_t*)p, n); else dataConvert(LittleEndian, (uint16_t*)p, n); }
  if (size == 4) { if (how == 0) byteSwap32(p, n); else if (how == 1) dataConvert32(LittleEndian, p, n); else if (how == 2) dataConvert(LittleEndian, (int32_t*)p, n); else if (how == 3) dataConvert(LittleEndian, (uint32_t*)p, n); else if (how == 4) dataConvert(LittleEndian, (float*)p, n); else dataConvertFloat(LittleEndian, p, n); }
  if (size == 8) { if (how == 0) byteSwap64(p, n); else if (how == 1) dataConvert64(LittleEndian, p, n); else if (how == 2) dataConvert(LittleEndian, (int64_t*)p, n); else if (how == 3) dataConvert(LittleEndian, (uint64_t*)p, n); else if (how == 4) dataConvert(LittleEndian, (double*)p, n); else dataConvertDouble(LittleEndian, p, n); }
}
static void SwapOne(int size, int how, void* out, const void* in) {
  if (size == 2) { if (how == 0) byteSwap16(out, in); else dataConvert16(BigEndian, out, in); }
  if (size == 4) { if (how == 0) byteSwap32(out, in); else if (how == 1) dataConvert32(BigEndian, out, in); else dataConvertFloat(BigEndian, out, in); }
  if (size == 8) { if (how == 0) byteSwap64(out, in); else if (how == 1) dataConvert64(BigEndian, out, in); else dataConvertDouble(BigEndian, out, in); }
}
static void SwapOneIn(int size, int how, void* p) {
  if (size == 2) { if (how == 0) byteSwap16(p); else dataConvert16(BigEndian, p); }
  if (size == 4) { if (how == 0) byteSwap32(p); else if (how == 1) dataConvert32(BigEndian, p); else dataConvertFloat(BigEndian, p); }
  if (size == 8) { if (how == 0) byteSwap64(p); else if (how == 1) dataConvert64(BigEndian, p); else dataConvertDouble(BigEndian, p); }
}
int main(int argc, char** argv) {
  vp::Init(argc, argv);
  for (int hi = 0; hi < 256; ++hi) {
    if (!vp::CaseF([&] { return "16-bit values " + vp::Str(hi); })) continue;
    for (int lo = 0; lo < 256; ++lo) { Scalar<uint16_t>(hi << 8 | lo); Scalar<int16_t>(hi << 8 | lo); }
    vp::Trace();
  }
  for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) for (int bi = 0; bi < 256; ++bi) {
    if (!vp::CaseF([&] { return "wide values bytes " + vp::Str(i) + "," + vp::Str(j) + " value " + vp::Str(bi); })) continue;
    for (int bj = 0; bj < 256; bj += (vp::Thorough() ? 1 : 3)) {
      const uint64_t v = (uint64_t(bi) << 8 * i) ^ (uint64_t(bj) << 8 * j);
      Scalar<uint64_t>(v); Scalar<int64_t>(int64_t(v));
      if (i < 4 && j < 4) { Scalar<uint32_t>(uint32_t(v)); Scalar<int32_t>(int32_t(v)); }
    }
    vp::Trace();
  }
  for (int v = 0; v < 256; ++v) {
    if (!vp::CaseF([&] { return "bytes " + vp::Str(v); })) continue;
    char c = v; int8_t s = v; uint8_t u = v;
    vp::Check(dataConvert(BigEndian, c) == c && dataConvert(BigEndian, s) == s && dataConvert(BigEndian, u) == u, "a byte is changed");
    dataConvert(BigEndian, &c, 1); dataConvert(BigEndian, &s, 1); dataConvert(BigEndian, &u, 1);
    vp::Check(c == char(v) && s == int8_t(v) && u == uint8_t(v), "a byte is changed in place");
    vp::Step(6); vp::Trace();
    vp::Outcome(vp::Str(v));
  }
  // Arrays: every byte distinct, all lengths, offsets (unaligned) and routes.
  for (int size : {2, 4, 8}) for (unsigned n = 0; n <= (vp::Thorough() ? 24u : 12u); ++n) for (int off = 0; off < 8; ++off) for (int how = 0; how < 6; ++how) for (int v = 0; v < 3; ++v) {
    if (!vp::CaseF([&] { return "array size=" + vp::Str(size) + " n=" + vp::Str(n) + " offset=" + vp::Str(off) + " how=" + vp::Str(how) + " values=" + vp::Str(v); })) continue;
    std::vector<B> in(n * size + 24), out(n * size + 24, 0xEE);
    for (size_t i = 0; i < in.size(); ++i) in[i] = v == 0 ? i + 1 : v == 1 ? 255 - 3 * i : (i * 37 ^ 0x5a);
    if (how < 3 && (how < 2 || size > 2)) {
      const std::vector<B> in0 = in;
      std::vector<B> want = out;
      const std::vector<B> rev = Reversed(in, size, n, off);
      std::copy(rev.begin() + off, rev.begin() + off + n * size, want.begin() + 3);
      Swap(size, how, out.data() + 3, in.data() + off, n);
      vp::Check(in == in0, "the input of the copying conversion changes");
      vp::Check(out == want, "the copying conversion of an array is wrong");
      vp::Step();
      if (n == 1) {
        std::vector<B> o2(out.size(), 0xEE), p2 = in;
        SwapOne(size, how, o2.data() + 3, in.data() + off); SwapOneIn(size, how, p2.data() + off);
        vp::Check(o2 == want, "the copying conversion of one value is wrong");
        vp::Check(p2 == rev, "the in-place conversion of one value is wrong");
        vp::Step(2);
      }
    }
    const int n_in = size == 2 ? 4 : 6;
    if (how < n_in && (how < 2 || how == 5 || off % size == 0)) {
      // The buffer of std::vector is aligned; the typed routes need alignment.
      std::vector<B> p = in;
      SwapIn(size, how, p.data() + off, n);
      vp::Check(p == Reversed(in, size, n, off), "the in-place conversion of an array is wrong");
      SwapIn(size, how, p.data() + off, n);
      vp::Check(p == in, "converting twice does not give the original");
      vp::Step(2);
    }
    vp::Trace();
    vp::Outcome(vp::Hash(out.data(), out.size()));
  }
  // Complex arrays.
  for (unsigned n = 0; n <= 9; ++n) {
    if (!vp::CaseF([&] { return "complex n=" + vp::Str(n); })) continue;
    std::vector<std::complex<float>> f(n + 1); std::vector<std::complex<double>> d(n + 1); std::vector<std::complex<int16_t>> s(n + 1); std::vector<std::complex<int32_t>> i32(n + 1);
    auto fill = [](void* p, size_t k) { for (size_t i = 0; i < k; ++i) ((B*)p)[i] = B(i * 29 + 7); };
    auto test = [&](void* p, size_t bytes, size_t elem, const std::function<void()>& f) {
      fill(p, bytes);
      std::vector<B> a((B*)p, (B*)p + bytes);
      f();
      std::vector<B> b((B*)p, (B*)p + bytes);
      vp::Check(b == Reversed(a, elem, 2 * n), "complex array of element size " + vp::Str(elem));
      f();
      vp::Check(std::vector<B>((B*)p, (B*)p + bytes) == a, "complex array twice, element size " + vp::Str(elem));
      vp::Step(2); vp::Outcome(vp::Hash(b.data(), b.size()));
    };
    test(f.data(), f.size() * 8, 4, [&] { dataConvert(BigEndian, f.data(), n); });
    test(d.data(), d.size() * 16, 8, [&] { dataConvert(BigEndian, d.data(), n); });
    test(s.data(), s.size() * 4, 2, [&] { dataConvert(BigEndian, s.data(), n); });
    test(i32.data(), i32.size() * 8, 4, [&] { dataConvert(BigEndian, i32.data(), n); });
    vp::Trace();
  }
  // Flags <-> bits: all patterns up to a length; structured patterns beyond.
  const unsigned full = vp::Thorough() ? 14 : 11, longest = 40;
  for (unsigned n = 0; n <= longest; ++n) for (unsigned start = 0; start <= 26; ++start) {
    std::vector<uint64_t> patterns;
    if (n <= full) for (uint64_t p = 0; p < (1ull << n); ++p) patterns.push_back(p);
    else { for (unsigned i = 0; i < n; ++i) { patterns.push_back(1ull << i); patterns.push_back(((1ull << n) - 1) ^ (1ull << i)); patterns.push_back((1ull << i) - 1); } patterns.push_back((1ull << n) - 1); patterns.push_back(0xAAAAAAAAAAull & ((1ull << n) - 1)); }
    if (!vp::CaseF([&] { return "bits n=" + vp::Str(n) + " start=" + vp::Str(start); })) continue;
    for (uint64_t p : patterns) for (int bg = 0; bg < 3; ++bg) {
      std::vector<B> bits(12, bg == 0 ? 0 : bg == 1 ? 0xFF : 0x5A);
      const std::vector<B> bits0 = bits;
      bool flags[64], back[64];
      for (unsigned i = 0; i < 64; ++i) { flags[i] = i < n ? p >> i & 1 : i % 2; back[i] = i % 3 == 0; }
      const unsigned used = boolToBit(bits.data(), flags, n, start);
      const unsigned want = n == 0 ? 0 : (n + start % 8 + 7) / 8;
      if (used != want) { vp::Fail("flags to bits uses " + vp::Str(used) + " bytes, expected " + vp::Str(want)); break; }
      bool ok = true;
      for (unsigned i = 0; i < 96 && ok; ++i) {
        const bool bit = bits[i / 8] >> (i % 8) & 1, old = bits0[i / 8] >> (i % 8) & 1;
        if (i >= start && i < start + n) ok = bit == flags[i - start];
        else if (i < start || i >= (start / 8 + want) * 8) ok = bit == old;   // rest of the last byte: unspecified
      }
      if (!ok) { vp::Fail("flags to bits: pattern " + vp::Str(p) + " background " + vp::Str(bg)); break; }
      vp::Step();
      if (n > 0) {
        const std::vector<B> b1 = bits;
        const unsigned used2 = bitToBool(back, bits.data(), n, start);
        for (unsigned i = 0; i < 64; ++i) if (back[i] != (i < n ? flags[i] : i % 3 == 0)) ok = false;
        if (!ok || used2 != want || bits != b1) { vp::Fail("bits to flags: pattern " + vp::Str(p) + " background " + vp::Str(bg)); break; }
        vp::Step();
      }
      vp::Outcome(vp::Hash(bits.data(), bits.size()));
    }
    vp::Trace();
  }
  return vp::Finish();
}
