// C05: scalar conversions of parset texts, all short strings over the numeric
// alphabet and all boundary numerals, against an independent recogniser.
#include "vp.h"
#include "common/ParameterSet.h"
#include "common/ParameterValue.h"
#include "common/StringTools.h"
#include <charconv>
#include <limits>
#include <optional>

using namespace dp3::common;
typedef __int128 I128;

static bool Ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static std::string Trim(const std::string& s) {
  size_t b = 0, e = s.size();
  while (b < e && Ws(s[b])) ++b;
  while (e > b && Ws(s[e - 1])) --e;
  return s.substr(b, e - b);
}

struct Int { enum { kBad, kValue, kHuge, kUnspecified } kind; I128 v = 0; bool neg = false; };
static Int ReadInt(const std::string& text) {
  const std::string t = Trim(text);
  size_t i = 0;
  Int r{Int::kBad};
  if (i < t.size() && (t[i] == '+' || t[i] == '-')) { r.neg = t[i] == '-'; ++i; }
  const bool sign = i > 0;
  int base = 10;
  if (i + 2 < t.size() && t[i] == '0' && (t[i + 1] == 'x' || t[i + 1] == 'X')) { base = 16; i += 2; }
  if (i >= t.size()) return r;
  bool huge = false;
  for (; i < t.size(); ++i) {
    int d;
    const char c = t[i];
    if (c >= '0' && c <= '9') d = c - '0';
    else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10;
    else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10;
    else return r;
    r.v = r.v * base + d;
    if (r.v > (I128(1) << 100)) { huge = true; r.v = I128(1) << 100; }
  }
  if (r.neg) r.v = -r.v;
  r.kind = (base == 16 && sign) ? Int::kUnspecified : Int::kValue;
  (void)huge;
  return r;
}

struct Real { enum { kBad, kValue, kUnspecified } kind; };
static bool DecimalReal(const std::string& t) {
  size_t i = 0, digits = 0;
  if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
  while (i < t.size() && isdigit((unsigned char)t[i])) { ++i; ++digits; }
  if (i < t.size() && t[i] == '.') { ++i; while (i < t.size() && isdigit((unsigned char)t[i])) { ++i; ++digits; } }
  if (!digits) return false;
  if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
    ++i;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
    size_t ed = 0;
    while (i < t.size() && isdigit((unsigned char)t[i])) { ++i; ++ed; }
    if (!ed) return false;
  }
  return i == t.size();
}
// Words and notations beyond decimal that C's strtod knows; unspecified here.
static bool ExoticReal(const std::string& t) {
  std::string u;
  for (char c : t) u += char(tolower(c));
  size_t i = (!u.empty() && (u[0] == '+' || u[0] == '-')) ? 1 : 0;
  return u.compare(i, 3, "inf") == 0 || u.compare(i, 3, "nan") == 0 || u.compare(i, 2, "0x") == 0;
}

template <typename T, typename F>
static void CheckInt(const char* what, const std::string& text, const Int& ref, F get) {
  T got{};
  const std::string e = vp::Throws([&] { got = get(); });
  vp::Step();
  bool in_range = ref.v >= I128(std::numeric_limits<T>::min()) && ref.v <= I128(std::numeric_limits<T>::max());
  if (std::is_unsigned_v<T> && ref.neg && ref.v == 0) {   // "-0" for an unsigned type
    if (e.empty()) vp::Check(got == 0, std::string(what) + " of -0 is not 0");
    return;
  }
  if (ref.kind == Int::kUnspecified) {
    if (e.empty()) vp::Check(I128(got) == ref.v, std::string(what) + " gives another value: " + vp::Str(+got));
    return;
  }
  const bool ok = ref.kind == Int::kValue && in_range;
  if (ok) {
    if (vp::Check(e.empty(), std::string(what) + " fails on a valid value"))
      vp::Check(I128(got) == ref.v, std::string(what) + " gives " + vp::Str(+got));
  } else
    vp::Check(!e.empty(), std::string(what) + " accepts it as " + vp::Str(+got));
}

template <typename T, typename F>
static void CheckReal(const char* what, const std::string& text, F get) {
  const std::string t = Trim(text);
  T got{};
  const std::string e = vp::Throws([&] { got = get(); });
  vp::Step();
  if (!DecimalReal(t)) {
    if (!ExoticReal(t)) vp::Check(!e.empty(), std::string(what) + " accepts it as " + vp::Str(got));
    return;
  }
  T want{};
  const char* b = t.data() + (t[0] == '+' ? 1 : 0);
  const auto r = std::from_chars(b, t.data() + t.size(), want);
  if (r.ec == std::errc::result_out_of_range) {
    // Too large: must fail. Too small: failing or a value close to zero.
    const double d = strtod(t.c_str(), nullptr);
    const bool large = std::fabs(d) > 1;
    if (large) vp::Check(!e.empty(), std::string(what) + " accepts an out-of-range value");
    else if (e.empty()) vp::Check(std::fabs(got) <= std::numeric_limits<T>::min(), std::string(what) + " of a tiny value");
    return;
  }
  const bool subnormal = want != 0 && std::fabs(want) < std::numeric_limits<T>::min();
  if (subnormal && !e.empty()) return;
  if (vp::Check(e.empty(), std::string(what) + " fails on a valid value"))
    vp::Check(got == want && std::signbit(got) == std::signbit(want), std::string(what) + " gives " + vp::Str(got) + " want " + vp::Str(want));
}

// Time: integer, optional white space, optional unit word.
static void CheckTime(const std::string& text) {
  std::string t = Trim(text);
  size_t i = 0;
  if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
  const size_t d0 = i;
  while (i < t.size() && isdigit((unsigned char)t[i])) ++i;
  time_t got = 0;
  const std::string e = vp::Throws([&] { got = ParameterValue(text).getTime(); });
  vp::Step();
  if (i == d0) { vp::Check(!e.empty(), "getTime accepts a text without number as " + vp::Str(got)); return; }
  I128 v = 0;
  for (size_t j = d0; j < i; ++j) { v = v * 10 + (t[j] - '0'); if (v > (I128(1) << 90)) v = I128(1) << 90; }
  if (t[0] == '-') v = -v;
  std::string unit = Trim(t.substr(i));
  int factor = 0;
  const char u = unit.empty() ? 's' : char(tolower(unit[0]));
  if (u == 's') factor = 1; else if (u == 'm') factor = 60; else if (u == 'h') factor = 3600;
  // Units with more than a single letter (sec, min, hours) are accepted by their first letter.
  if (factor == 0) { vp::Check(!e.empty(), "getTime accepts an unknown unit as " + vp::Str(got)); return; }
  if (v * factor > I128(INT64_MAX) || v * factor < I128(INT64_MIN)) return;  // not specified
  if (vp::Check(e.empty(), "getTime fails on a valid time"))
    vp::Check(I128(got) == v * factor, "getTime gives " + vp::Str(got));
}

static void CheckBool(const std::string& text) {
  const std::string t = Trim(text);
  bool got = false;
  const std::string e = vp::Throws([&] { got = ParameterValue(text).getBool(); });
  vp::Step();
  const char c = t.empty() ? ' ' : t[0];
  const bool yes = strchr("tTyY1", c) && c, no = strchr("fFnN0", c) && c;
  if (!yes && !no) { vp::Check(!e.empty(), "getBool accepts it"); return; }
  if (vp::Check(e.empty(), "getBool fails")) vp::Check(got == yes, "getBool gives the wrong value");
}

static void All(const std::string& s) {
  const Int ref = ReadInt(s);
  CheckInt<long>("strToLong", s, ref, [&] { return strToLong(s); });
  CheckInt<int>("strToInt", s, ref, [&] { return strToInt(s); });
  CheckInt<int32_t>("strToInt32", s, ref, [&] { return strToInt32(s); });
  CheckInt<int16_t>("strToInt16", s, ref, [&] { return strToInt16(s); });
  CheckInt<unsigned long>("strToUlong", s, ref, [&] { return strToUlong(s); });
  CheckInt<unsigned int>("strToUint", s, ref, [&] { return strToUint(s); });
  CheckInt<uint32_t>("strToUint32", s, ref, [&] { return strToUint32(s); });
  CheckInt<uint16_t>("strToUint16", s, ref, [&] { return strToUint16(s); });
  CheckInt<int64_t>("strToInt64", s, ref, [&] { return strToInt64(s); });
  CheckInt<uint64_t>("strToUint64", s, ref, [&] { return strToUint64(s); });
  CheckReal<float>("strToFloat", s, [&] { return strToFloat(s); });
  CheckReal<double>("strToDouble", s, [&] { return strToDouble(s); });
  CheckTime(s);
  CheckBool(s);
}

// The same through every route of ParameterValue and ParameterSet. The value
// type of the route is judged too (a too narrow type shows as a wrong value).
static void Routes(const std::string& s) {
  const Int ref = ReadInt(s);
  ParameterSet p;
  p.add("k", s);
  p.add("v", "[" + s + ", " + s + "]");
  const ParameterValue pv(s, false);  // as stored by add
  // Texts without list structure of their own can be list elements.
  const bool plain = s.find_first_of(",[](){}'\"*") == std::string::npos && s.find("..") == std::string::npos;
#define RI(N, T, D)                                                                                \
  CheckInt<T>("ParameterValue::get" #N, s, ref, [&] { const auto x = pv.get##N(); vp::Check(I128(x) == I128(static_cast<T>(x)), "ParameterValue::get" #N " has too narrow a type"); return static_cast<T>(x); }); \
  CheckInt<T>("ParameterSet::get" #N, s, ref, [&] { return p.get##N("k"); });                      \
  CheckInt<T>("ParameterSet::get" #N "+default", s, ref, [&] { return p.get##N("k", D); });        \
  if (plain) {                                                                                     \
    CheckInt<T>("get" #N "Vector", s, ref, [&] { const std::vector<T> x = p.get##N##Vector("v"); vp::Check(x.size() == 2 && x[0] == x[1], "vector size"); return x.at(1); }); \
    CheckInt<T>("get" #N "Vector+default", s, ref, [&] { const std::vector<T> x = p.get##N##Vector("v", std::vector<T>(3)); vp::Check(x.size() == 2, "vector size"); return x.at(0); }); \
    CheckInt<T>("get" #N "Vector+expand", s, ref, [&] { const std::vector<T> x = p.get##N##Vector("v", true); vp::Check(x.size() == 2, "vector size"); return x.at(1); }); \
  }                                                                                                \
  vp::Check(p.get##N("none", D) == D, "get" #N ": default not returned");                          \
  vp::Check(p.get##N##Vector("none", std::vector<T>{D, D, 0}) == std::vector<T>({D, D, 0}), "get" #N "Vector: default not returned");
  RI(Int, int, -3) RI(Uint, unsigned int, 4000000000u) RI(Int16, int16_t, -3) RI(Uint16, uint16_t, 65000)
  RI(Int32, int32_t, -3) RI(Uint32, uint32_t, 4000000000u) RI(Int64, int64_t, -3000000000000) RI(Uint64, uint64_t, 18000000000000000000u)
#define RR(N, T)                                                                                   \
  CheckReal<T>("ParameterValue::get" #N, s, [&] { return pv.get##N(); });                          \
  CheckReal<T>("ParameterSet::get" #N, s, [&] { return p.get##N("k"); });                          \
  CheckReal<T>("ParameterSet::get" #N "+default", s, [&] { return p.get##N("k", T(1.5)); });       \
  if (plain) CheckReal<T>("get" #N "Vector", s, [&] { return p.get##N##Vector("v").at(1); });      \
  vp::Check(p.get##N("none", T(1.1)) == T(1.1), "get" #N ": default not returned");                \
  vp::Check(p.get##N##Vector("none", std::vector<T>{T(1.1)}) == std::vector<T>{T(1.1)}, "get" #N "Vector: default not returned");
  RR(Float, float) RR(Double, double)
  // bool and time agree between the routes.
  auto same = [&](const char* what, std::function<long()> a, std::function<long()> b) {
    long x = -1, y = -1;
    const std::string ea = vp::Throws([&] { x = a(); }), eb = vp::Throws([&] { y = b(); });
    vp::Step();
    vp::Check(ea.empty() == eb.empty() && x == y, std::string(what) + ": routes disagree");
  };
  same("getBool", [&] { return pv.getBool(); }, [&] { return p.getBool("k"); });
  same("getBool+default", [&] { return pv.getBool(); }, [&] { return p.getBool("k", true); });
  same("getBool+default2", [&] { return pv.getBool(); }, [&] { return p.getBool("k", false); });
  same("getTime", [&] { return pv.getTime(); }, [&] { return p.getTime("k"); });
  same("getTime+default", [&] { return pv.getTime(); }, [&] { return p.getTime("k", 99); });
  same("operator bool", [&] { return pv.getBool(); }, [&] { return pv.operator bool(); });
  same("operator int", [&] { return pv.getInt(); }, [&] { return pv.operator int(); });
  same("operator uint", [&] { return pv.getUint(); }, [&] { return pv.operator unsigned int(); });
  same("operator time_t", [&] { return pv.getTime(); }, [&] { return pv.operator time_t(); });
  vp::Check(p.getBool("none", true) && !p.getBool("none", false) && p.getTime("none", 7) == 7, "bool/time default");
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  // All short strings over the numeric alphabet.
  const std::string alpha = "019.e-+x ";
  const int len = vp::Thorough() ? 7 : 6;
  for (int n = 0; n <= len; ++n) {
    std::vector<size_t> h(n, 0);
    for (;;) {
      std::string s;
      for (size_t i : h) s += alpha[i];
      if (vp::CaseF([&] { return "short:" + vp::Show(s); })) { All(s); vp::Trace(); vp::Outcome(vp::Throws([&] { strToDouble(s); }) + vp::Throws([&] { strToInt(s); }) + (vp::Throws([&] { strToInt(s); }).empty() ? vp::Str(strToInt(s)) : "")); }
      int i = n - 1;
      while (i >= 0 && ++h[i] == alpha.size()) h[i--] = 0;
      if (i < 0) break;
    }
  }
  // All one- and two-character strings of the byte range (words, units, signs).
  for (int a = 1; a < 128; ++a) {
    std::string s1(1, char(a));
    if (vp::Case("char:" + vp::Show(s1))) { All(s1); Routes(s1); vp::Trace(); }
    for (int b = 1; b < 128; ++b) {
      std::string s = s1 + char(b);
      if (vp::Case("char2:" + vp::Show(s))) { All(s); vp::Trace(); }
    }
  }
  // Words.
  for (std::string w : {"true", "True", "TRUE", "T", "yes", "Y", "no", "No", "n", "false", "F", "tomato", "on", "off", "abc", "", " ", "\t\n", "''", "one", "0b1", "1,2", "1 2", "0x1g", "0xG", "1..2", "--1", "+-1", "1e", "e1", ".", "1.5", "1f", "1L", "0x", "0x ", "0 x1"})
    for (std::string pre : {"", " "}) for (std::string post : {"", " "})
      if (vp::Case("word:" + vp::Show(pre + w + post))) { All(pre + w + post); Routes(pre + w + post); vp::Trace(); }
  // Times: numbers x units, and a very long unit.
  for (std::string n : {"0", "1", "-5", "60", "100000", "+7", "2147483648", "-99999999999"})
    for (std::string u : {"", "s", "S", "m", "M", "h", "H", "sec", "min", "hour", "d", "x", "days", "ms", "%", ".5", "-", "1s"})
      for (std::string sp : {"", " ", "  "})
        if (vp::Case("time:" + vp::Show(n + sp + u))) { CheckTime(n + sp + u); Routes(n + sp + u); vp::Trace(); }
  for (size_t n : {100, 1022, 1023, 1024, 1025, 5000})
    if (vp::Case("longunit:" + std::to_string(n))) { CheckTime("3" + std::string(n, 'm')); CheckTime("3 " + std::string(n, 'q')); vp::Trace(); }
  // Boundaries of every width: 2^k + d, with all decorations.
  for (int bits : {0, 7, 8, 15, 16, 31, 32, 53, 63, 64, 65, 80})
    for (int d = -2; d <= 2; ++d)
      for (int neg = 0; neg < 2; ++neg)
        for (int hex = 0; hex < 3; ++hex)
          for (std::string pre : {"", " ", "0", "+", "00"})
            for (std::string post : {"", " ", "x", ".", "e0", " 1", ",", "\t"}) {
              I128 v = (I128(1) << bits) + d;
              if (v < 0) continue;
              std::string digits;
              const int base = hex ? 16 : 10;
              I128 w = v;
              do { digits = std::string(1, (hex == 2 ? "0123456789ABCDEF" : "0123456789abcdef")[int(w % base)]) + digits; w /= base; } while (w);
              const std::string s = (pre == " " ? pre : "") + (neg ? "-" : "") + (pre == "+" && !neg ? "+" : "") + (hex == 1 ? "0x" : hex == 2 ? "0X" : "") + (pre == "0" || pre == "00" ? pre : "") + digits + post;
              if (vp::CaseF([&] { return "bound:" + vp::Show(s) + ":" + vp::Show(pre); })) { All(s); Routes(s); vp::Trace(); vp::Outcome(vp::Throws([&] { strToInt64(s); }) + vp::Throws([&] { strToUint64(s); }) + vp::Throws([&] { strToInt16(s); })); }
            }
  // Floating point: mantissas x exponents around the range limits and around rounding ties.
  for (std::string m : {"0", "1", "-1", "3.4028234", "3.4028235", "3.4028236", "1.1754944", "1.17549435", "1.7976931348623157", "1.7976931348623158", "1.7976931348623159", "2.2250738585072014", "4.9", "0.1", "123456789", "16777217", "9007199254740993", "1.00000005960464477539", "1.00000011920928955078125", ".5", "5.", "-.25", "+1.5"})
    for (std::string x : {"", "e0", "e38", "E+38", "e39", "e-38", "e-39", "e-45", "e-46", "e308", "e309", "e-308", "e-324", "e-325", "e400", "e-400", "e1", "e-1", "e10", "e22", "e23"})
      for (std::string post : {"", " ", "f", "e"})
        for (std::string pre : {"", "  "})
          if (vp::Case("real:" + vp::Show(pre + m + x + post))) { All(pre + m + x + post); Routes(pre + m + x + post); vp::Trace(); }
  return vp::Finish();
}
