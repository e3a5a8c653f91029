// C02: every parset text from a line grammar (up to a number of lines) is read
// by the real reader and compared with what the generator knows it denotes;
// what is then written and read back must be identical.
#include "vp.h"
#include "parset_model.h"
#include "common/ParameterSet.h"
#include <fstream>

using dp3::common::ParameterSet;

// One line of a parset: its text and its meaning.
struct Line {
  std::string text;
  enum Kind { kNone, kDef, kCont, kError } kind;
  std::string key, value;  // value: what this line contributes
  bool quoted = false;     // a continuation that starts with a quote
};

static std::vector<Line> Lines(bool thorough) {
  std::vector<Line> l;
  // Nothing.
  for (const char* t : {"", "   ", "\t", "# comment", "  # a=1", "#", "\r"}) l.push_back({t, Line::kNone, "", ""});
  // Definitions: lead * key * eq * value * tail.
  struct KV { const char *text, *meaning; };
  std::vector<KV> keys = {{"a", "a"}, {"b.c", "b.c"}, {"'k y'", "k y"}};
  std::vector<KV> vals = {{"1", "1"}, {"", ""}, {"x y", "x y"}, {"'p#q=r'", "'p#q=r'"}, {"[1,\"#\"]", "[1,\"#\"]"}, {"u'='v", "u'='v"}};
  std::vector<const char*> eqs = {"=", " = ", "=\t"};
  std::vector<const char*> leads = {"", "  "};
  std::vector<const char*> tails = {"", " # c='", "#z", "  ", " \\", "\\", " \t\r"};
  if (thorough) {
    keys.push_back({"\"a\"", "a"});
    vals.push_back({"{n:'\"'}", "{n:'\"'}"});
    tails.push_back("\\ # c");
  }
  for (auto& k : keys) for (auto& v : vals) for (auto e : eqs) for (auto le : leads) for (auto t : tails) {
    // Vary one or two ingredients at a time away from the plain form to keep the product small.
    const int dev = (e != eqs[0]) + (le != leads[0]) + (t != tails[0]);
    if (dev > (thorough ? 2 : 1)) continue;
    l.push_back({std::string(le) + k.text + e + v.text + t, Line::kDef, k.meaning, v.meaning});
  }
  // Continuations.
  for (auto& v : std::vector<KV>{{"c1", "c1"}, {"'q 1'", "'q 1'"}, {"\"#\"", "\"#\""}, {"c2]", "c2]"}})
    for (auto le : {"", "   "}) for (auto t : {"", " # d", " \\"}) {
      if (*le && *t) continue;
      l.push_back({std::string(le) + v.text + t, Line::kCont, "", v.meaning, v.text[0] == '\'' || v.text[0] == '"'});
    }
  l.push_back({" \\", Line::kCont, "", "", false});   // only a continuation sign
  // Errors.
  l.push_back({"''=1", Line::kError, "", ""});
  l.push_back({"=1", Line::kError, "", ""});
  l.push_back({"  = 2", Line::kError, "", ""});
  l.push_back({"e='x", Line::kError, "", ""});
  l.push_back({"e=x\"y # '", Line::kError, "", ""});
  return l;
}

static std::string Trim(const std::string& s) {
  size_t b = 0, e = s.size();
  while (b < e && isspace((unsigned char)s[b])) ++b;
  while (e > b && isspace((unsigned char)s[e - 1])) --e;
  return s.substr(b, e - b);
}

// Meaning of a sequence of lines. False: must be an error.
// undefined: a continuation before any key (not specified, not generated).
static bool Meaning(const std::vector<const Line*>& ls, const std::string& prefix, RefSet& r, bool& undefined) {
  std::string key, value;
  bool have = false;
  undefined = false;
  for (const Line* l : ls) {
    switch (l->kind) {
      case Line::kNone: break;
      case Line::kError: return false;
      case Line::kDef:
        if (have) r.Define(key, Trim(value));
        have = true; key = prefix + l->key; value = l->value;
        break;
      case Line::kCont:
        if (!have) { undefined = true; return true; }
        if (l->value.empty()) break;
        if (value.empty()) value = l->value;
        else value += (l->quoted ? "" : " ") + l->value;
        break;
    }
  }
  if (have) r.Define(key, Trim(value));
  return true;
}

static std::string Dump(const ParameterSet& s) {
  std::string t;
  for (auto it = s.begin(); it != s.end(); ++it) t += "[" + it->first + "]=[" + it->second.get() + "];";
  return t;
}
static std::string Dump(const RefSet& r) {
  std::string t;
  for (auto& e : r.kv) t += "[" + e.first + "]=[" + e.second + "];";
  return t;
}

static void RoundTrip(const ParameterSet& s) {
  // Keys with quotes or blanks inside are written without quotes; they are
  // still read back as they are.
  std::string text;
  s.writeBuffer(text);
  ParameterSet s2;
  s2.adoptBuffer(text);
  vp::Step();
  vp::Check(Dump(s2) == Dump(s), "write then read gives " + Dump(s2) + " for " + Dump(s));
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const auto lines = Lines(vp::Thorough());
  const std::vector<std::string> prefixes = {"", "p."};
  auto run = [&](const std::vector<const Line*>& ls, bool final_newline, const std::string& prefix, int how) {
    std::string text;
    for (size_t i = 0; i < ls.size(); ++i) text += ls[i]->text + (i + 1 < ls.size() || final_newline ? "\n" : "");
    RefSet r;
    bool undefined;
    const bool ok = Meaning(ls, prefix, r, undefined);
    if (undefined) return;
    if (!vp::CaseF([&] { return std::to_string(how) + prefix + ":" + vp::Show(text); })) return;
    std::string got;
    const std::string e = vp::Throws([&] {
      if (how == 0) { ParameterSet s; s.adoptBuffer(text, prefix); vp::Step(); got = Dump(s); RoundTrip(s); }
      else {
        { std::ofstream f("t.parset", std::ios::binary); f << text; }
        if (how == 1) { ParameterSet s; s.adoptFile("t.parset", prefix); vp::Step(); got = Dump(s); }
        else {
          ParameterSet s("t.parset");
          vp::Step(); got = Dump(s);
          s.writeFile("u.parset");
          ParameterSet s2(std::string("u.parset"), false);
          vp::Check(Dump(s2) == got, "writeFile then read gives " + Dump(s2) + " for " + got);
          ParameterSet extra; extra.add("zz", "9");
          extra.writeFile("u.parset", true);
          ParameterSet s3("u.parset");
          vp::Check(Dump(s3) == got + "[zz]=[9];", "appending to a file gives " + Dump(s3));
        }
      }
    });
    vp::Trace();
    if (!ok) { vp::Check(!e.empty(), "no error for an ill-formed text; got " + got); vp::Outcome("error"); return; }
    vp::Check(e.empty(), "error for a well-formed text");
    if (e.empty()) vp::Check(got == Dump(r), "read " + got + " want " + Dump(r));
    vp::Outcome(got);
  };
  const int depth = 3;
  for (int n = 0; n <= depth; ++n) {
    // Three-line texts use every fourth line form (thorough: every second) in
    // the middle and last place and all forms first; one- and two-line texts
    // use all of them.
    std::vector<size_t> idx(n, 0);
    const size_t stride = vp::Thorough() ? 2 : 3;
    for (;;) {
      std::vector<const Line*> ls;
      for (size_t i : idx) ls.push_back(&lines[i]);
      for (auto& p : prefixes) run(ls, true, p, 0);
      run(ls, false, "", 0);
      if (n <= 1) { run(ls, true, "", 1); run(ls, true, "p.", 1); run(ls, false, "", 2); run(ls, true, "", 2); }
      int i = n - 1;
      while (i >= 0) {
        idx[i] += (n == 3) ? stride : 1;
        if (idx[i] < lines.size()) break;
        idx[i--] = 0;
      }
      if (i < 0) break;
    }
  }
  return vp::Finish();
}
