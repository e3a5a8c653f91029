// C08: string helpers on all short strings.
#include "vp.h"
#include <regex>
#include <algorithm>
#include "common/StringTools.h"
using namespace dp3::common;

// Calls f for every string of length <= n over the alphabet.
static void All(const std::string& alphabet, int n, const std::function<void(const std::string&)>& f) {
  std::string s;
  std::function<void()> rec = [&] {
    f(s);
    if (int(s.size()) == n) return;
    for (char c : alphabet) { s.push_back(c); rec(); s.pop_back(); }
  };
  rec();
}
static std::string Join(const std::vector<std::string>& v) { std::string r; for (auto& s : v) r += vp::Show(s) + " "; return r; }

static bool Match(const char* p, const char* s) {
  if (!*p) return !*s;
  if (*p == '*') return Match(p + 1, s) || (*s && Match(p, s + 1));
  if (!*s) return false;
  return (*p == '?' || *p == *s) && Match(p + 1, s + 1);
}
static int Cmp(const std::string& a, const std::string& b, bool nocase) {   // reference three-way comparison
  for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) {
    unsigned char x = a[i], y = b[i];
    if (nocase) { if (x >= 'a' && x <= 'z') x -= 32; if (y >= 'a' && y <= 'z') y -= 32; }
    if (x != y) return x < y ? -1 : 1;
  }
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const int T = vp::Thorough() ? 1 : 0;
  // Splitting.
  for (std::string delims : {"", ",", ", ", ",;", " \t", "a,", ".*"})
    All("ab, ;.", 6 + T, [&](const std::string& s) {
      if (!vp::CaseF([&] { return "tokenize " + vp::Show(s) + " at " + vp::Show(delims); })) return;
      std::vector<std::string> want;
      std::string cur;
      for (char c : s) {
        if (delims.find(c) != std::string::npos) { if (!cur.empty()) want.push_back(cur); cur.clear(); }
        else cur += c;
      }
      if (!cur.empty()) want.push_back(cur);
      const auto got = stringtools::tokenize(s, delims);
      vp::Step(); vp::Trace();
      vp::Check(got == want, "split into " + Join(got) + "instead of " + Join(want));
      vp::Outcome(Join(got));
    });
  // White space.
  All("a \t,", 7 + T, [&](const std::string& s) {
    if (!vp::CaseF([&] { return "skip white space in " + vp::Show(s); })) return;
    const unsigned n = s.size();
    for (unsigned st = 0; st <= n; ++st)
      for (unsigned e = st; e <= n; ++e) {
        auto ws = [&](unsigned i) { return s[i] == ' ' || s[i] == '\t'; };
        unsigned l = st; while (l < e && ws(l)) ++l;
        unsigned r = e; while (r > st && ws(r - 1)) --r;
        const unsigned gl = lskipws(s, st, e), gr = rskipws(s, st, e);
        vp::Step(2);
        vp::Check(gl == l, "first non-blank of [" + vp::Str(st) + "," + vp::Str(e) + ") is " + vp::Str(gl));
        vp::Check(gr == r, "end of non-blanks of [" + vp::Str(st) + "," + vp::Str(e) + ") is " + vp::Str(gr));
      }
    vp::Trace();
  });
  // Quoted and balanced parts.
  All("a[]'\"", 6 + T, [&](const std::string& s) {
    if (s.empty()) return;
    if (!vp::CaseF([&] { return "skip parts of " + vp::Show(s); })) return;
    const int n = s.size();
    std::string sum;
    for (int st = 0; st < n; ++st) {
      int want = -1;
      for (int i = st + 1; i < n && want < 0; ++i) if (s[i] == s[st]) want = i + 1;
      int got = -1;
      if (vp::Throws([&] { got = skipQuoted(s, st); }) == "!other") vp::Fail("unexpected kind of error");
      vp::Step();
      vp::Check(got == want, "quoted part from " + vp::Str(st) + " ends at " + vp::Str(got) + ", expected " + vp::Str(want) + " (-1: error)");
      sum += vp::Str(got) + ",";
      if (s[st] != '[') continue;
      for (int e = st + 1; e <= n; ++e) {
        int w = -1, depth = 1;
        for (int i = st + 1; i < e && w < 0;) {
          if (s[i] == ']') { ++i; if (--depth == 0) w = i; }
          else if (s[i] == '[') { ++i; ++depth; }
          else if (s[i] == '\'' || s[i] == '"') {
            size_t q = s.find(s[i], i + 1);
            if (q == std::string::npos) break;
            i = q + 1;
          } else ++i;
        }
        // A quoted part that straddles the end is unspecified.
        bool straddle = false;
        for (int i = st + 1; i < e;) {
          if (s[i] == '\'' || s[i] == '"') { size_t q = s.find(s[i], i + 1); if (q == std::string::npos) break; if (int(q) >= e) straddle = true; i = q + 1; }
          else ++i;
        }
        if (straddle) continue;
        int g = -1;
        vp::Throws([&] { g = skipBalanced(s, st, e, ']'); });
        vp::Step();
        vp::Check(g == w, "balanced part from " + vp::Str(st) + " before " + vp::Str(e) + " ends at " + vp::Str(g) + ", expected " + vp::Str(w) + " (-1: error)");
        sum += vp::Str(g) + ";";
      }
    }
    vp::Trace(); vp::Outcome(sum);
  });
  // Ordering: all pairs against the reference (which is a strict weak order,
  // checked on all triples of the reference's own relation being lexicographic).
  std::vector<std::string> words;
  All("aAbB_", 3, [&](const std::string& s) { words.push_back(s); });
  All("zZ[0.", 2 + T, [&](const std::string& s) { words.push_back(s); words.push_back(s + "a"); });
  for (int nocase = 0; nocase < 2; ++nocase) {
    const stringtools::Compare cmp(nocase ? stringtools::Compare::NOCASE : stringtools::Compare::NORMAL);
    for (auto& a : words) {
      if (!vp::CaseF([&] { return std::string(nocase ? "nocase" : "normal") + " order of " + vp::Show(a); })) continue;
      for (auto& b : words) {
        const bool got = cmp(a, b), want = Cmp(a, b, nocase) < 0;
        vp::Step();
        vp::Check(got == want, vp::Show(a) + (got ? " before " : " not before ") + vp::Show(b));
      }
      vp::Trace();
    }
  }
  {
    const stringtools::Compare def;
    if (vp::Case("default order")) vp::Check(def("A", "a") && !def("a", "A") && def("B", "a"), "the default comparison ignores case");
  }
  // Wildcards.
  std::vector<std::string> names;
  All("ab.", 4, [&](const std::string& s) { names.push_back(s); });
  for (std::string s : {"CS001HBA0", "RS208.x", "a_b-c", "aaaaab", "abababa", "a b", "..a..", "1a2"}) names.push_back(s);
  auto wild = [&](const std::string& p) {
    if (!vp::CaseF([&] { return "pattern " + vp::Show(p); })) return;
    std::string rx = "?";
    std::string hits;
    try {
      rx = PatternToRegex(p);
      const std::regex re(rx);
      for (size_t i = 0; i < names.size(); ++i) {
        const bool got = std::regex_match(names[i], re), want = Match(p.c_str(), names[i].c_str());
        vp::Step();
        vp::Check(got == want, std::string(got ? "matches " : "does not match ") + vp::Show(names[i]));
        hits += got ? '1' : '0';
      }
    } catch (std::exception& e) { vp::Fail(std::string("not usable as regular expression (") + rx + "): " + e.what()); }
    vp::Trace(); vp::Outcome(hits);
  };
  All("ab.*?", 5 + T, wild);
  for (std::string p : {"CS*", "*HBA0", "CS???HBA?", "*.x", "RS208.?", "a_b-c", "a?b?c", "*_*", "* *", "CS001HBA0*", "?S*HBA*"}) wild(p);
  // Formatting.
  for (size_t n : {0, 1, 100, 1023, 4096, 10238, 10239, 10240, 20000}) {
    if (!vp::Case("formatString of " + vp::Str(n) + " characters")) continue;
    const std::string s(n, 'x');
    const std::string got = formatString("%s", s.c_str());
    vp::Step(); vp::Trace();
    vp::Check(n < 10240 ? got == s : (got.size() >= 10239 && s.compare(0, got.size(), got) == 0), "returned " + vp::Str(got.size()) + " characters");
  }
  for (int i = -200; i <= 200; ++i) {
    if (!vp::Case("formatString number " + vp::Str(i))) continue;
    char b[64]; snprintf(b, sizeof b, "%d|%05d|%s|%.3f", i, i, "q", i / 8.0);
    vp::Step(); vp::Trace();
    vp::Check(formatString("%d|%05d|%s|%.3f", i, i, "q", i / 8.0) == b, "wrong text");
  }
  return vp::Finish();
}
