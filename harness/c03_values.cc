// C03: structured parset values. Part 1: every AST up to a size, rendered with
// white-space variants, is taken apart by the real accessors. Part 2: every
// short raw string over the structural alphabet.
#include "vp.h"
#include "common/ParameterRecord.h"
#include "common/ParameterSet.h"
#include "common/ParameterValue.h"

using namespace dp3::common;

struct Node {
  enum Kind { kWord, kList, kRecord } kind = kWord;
  std::string text;     // kWord: as written
  std::string meaning;  // kWord: with the quotes removed
  std::vector<Node> kids;
  std::vector<std::pair<std::string, std::string>> names;  // kRecord: written, meaning
};

static std::string Render(const Node& n, int ws) {
  static const char* const kPre[] = {"", " ", "\t", ""};
  static const char* const kPost[] = {"", "", "  ", " "};
  const std::string pre = kPre[ws], post = kPost[ws];
  if (n.kind == Node::kWord) return n.text;
  std::string t = n.kind == Node::kList ? "[" : "{";
  for (size_t i = 0; i < n.kids.size(); ++i) {
    if (i) t += ",";
    t += pre;
    if (n.kind == Node::kRecord) t += n.names[i].first + post + ":" + pre;
    t += Render(n.kids[i], ws) + post;
  }
  if (n.kids.empty()) t += pre;
  return t + (n.kind == Node::kList ? "]" : "}");
}

static Node W(const std::string& t, const std::string& m) { Node n; n.text = t; n.meaning = m; return n; }
static Node L(std::vector<Node> k) { Node n; n.kind = Node::kList; n.kids = std::move(k); return n; }
static Node R(std::vector<std::pair<std::string, std::string>> names, std::vector<Node> k) {
  Node n; n.kind = Node::kRecord; n.kids = std::move(k); n.names = std::move(names); return n;
}

static void Compare(const ParameterValue& v, const Node& n, int ws, const std::string& path) {
  const std::string text = Render(n, ws);
  vp::Check(v.get() == text, path + ": text is " + vp::Show(v.get()) + " want " + vp::Show(text));
  vp::Step();
  if (!text.empty()) {
    vp::Check(v.isVector() == (n.kind == Node::kList), path + ": isVector wrong");
    vp::Check(v.isRecord() == (n.kind == Node::kRecord), path + ": isRecord wrong");
  }
  std::vector<ParameterValue> vec = v.getVector();
  vp::Step();
  if (n.kind == Node::kList) {
    if (!vp::Check(vec.size() == n.kids.size(), path + ": list has " + std::to_string(vec.size()) + " elements")) return;
    bool words = true;
    for (size_t i = 0; i < vec.size(); ++i) {
      Compare(vec[i], n.kids[i], ws, path + "[" + std::to_string(i) + "]");
      words = words && n.kids[i].kind == Node::kWord;
    }
    if (words) {
      const auto sv = v.getStringVector();
      const std::vector<std::string> sv2 = v;
      vp::Step(2);
      if (vp::Check(sv.size() == vec.size() && sv2 == sv, path + ": string vector size"))
        for (size_t i = 0; i < sv.size(); ++i)
          vp::Check(sv[i] == n.kids[i].meaning, path + ": string element " + vp::Show(sv[i]) + " want " + vp::Show(n.kids[i].meaning));
    }
  } else if (text.empty()) {
    vp::Check(vec.empty(), path + ": an empty text is not an empty list");
  } else {
    vp::Check(vec.size() == 1 && vec[0].get() == text, path + ": a single value is not a one-element list");
  }
  if (n.kind == Node::kWord) {
    const std::string s = v.getString(), s2 = v;
    vp::Step(2);
    vp::Check(s == n.meaning && s2 == s, path + ": string is " + vp::Show(s) + " want " + vp::Show(n.meaning));
  }
  if (n.kind == Node::kRecord) {
    const ParameterRecord r = v.getRecord();
    vp::Step();
    if (!vp::Check(r.size() == int(n.kids.size()), path + ": record has " + std::to_string(r.size()) + " fields")) return;
    for (size_t i = 0; i < n.kids.size(); ++i) {
      if (!vp::Check(r.isDefined(n.names[i].second), path + ": record has no field " + n.names[i].second)) continue;
      const ParameterValue f(r.get(n.names[i].second).get(), false);
      Compare(f, n.kids[i], ws, path + "." + n.names[i].second);
    }
    // Writing a record and reading it back keeps names and values (names are
    // written in single quotes, so only names without one).
    std::ostringstream os;
    os << r;
    const ParameterRecord r2 = ParameterValue(os.str()).getRecord();
    vp::Step();
    std::string a, b;
    for (auto it = r.begin(); it != r.end(); ++it) a += it->first + "=" + it->second.get() + ";";
    for (auto it = r2.begin(); it != r2.end(); ++it) b += it->first + "=" + it->second.get() + ";";
    vp::Check(a == b, path + ": written record reads back as " + b + " want " + a);
  } else {
    vp::Check(!vp::Throws([&] { v.getRecord(); }).empty(), path + ": a non-record is accepted as record");
  }
}

static void Run(const Node& n, const std::string& tag) {
  for (int ws = 0; ws < 4; ++ws) {
    const std::string text = Render(n, ws);
    for (int outer = 0; outer < 2; ++outer) {
      if (!vp::CaseF([&] { return tag + std::to_string(ws) + (outer ? "o" : "") + ":" + vp::Show(text); })) continue;
      const std::string e = vp::Throws([&] {
        Compare(ParameterValue(outer ? "  " + text + "\t " : text), n, ws, "");
        ParameterSet p;
        p.adoptArguments({"k=" + text});
        if (n.kind == Node::kList) {
          const auto v = p.getVector("k");
          vp::Check(v.size() == n.kids.size(), "ParameterSet::getVector size");
        } else if (n.kind == Node::kRecord) {
          vp::Check(p.getRecord("k").size() == int(n.kids.size()), "ParameterSet::getRecord size");
        } else {
          vp::Check(p.getString("k") == n.meaning && p.getString("k", "zz") == n.meaning, "ParameterSet::getString");
        }
        vp::Step();
      });
      vp::Check(e.empty(), "error on a well-formed value");
      vp::Trace();
      vp::Outcome(text);
    }
    if (n.kind == Node::kWord && ws == 0) break;
  }
}

// ---- Part 2: raw strings ----
static bool Ws(char c) { return c == ' ' || c == '\t'; }
static std::string Trim(const std::string& s) {
  size_t b = 0, e = s.size();
  while (b < e && Ws(s[b])) ++b;
  while (e > b && Ws(s[e - 1])) --e;
  return s.substr(b, e - b);
}
enum class Verdict { kOk, kError, kUnspecified };
// Splits the inside of a list/record at its top-level commas.
static Verdict Split(const std::string& s, std::vector<std::string>& out) {
  std::vector<char> stack;
  int cnt[3] = {0, 0, 0};
  bool misnested = false, negative = false;
  out.clear();
  std::string cur;
  for (size_t i = 0; i < s.size(); ++i) {
    const char c = s[i];
    if (c == '\'' || c == '"') {
      const size_t j = s.find(c, i + 1);
      if (j == std::string::npos) return (misnested || negative) ? (negative ? Verdict::kError : Verdict::kUnspecified) : Verdict::kError;
      cur += s.substr(i, j - i + 1);
      i = j;
      continue;
    }
    const char* open = "([{"; const char* close = ")]}";
    const char* po = strchr(open, c); const char* pc = strchr(close, c);
    if (po && c) {
      if (c != '(' && cnt[0] > 0) misnested = true;  // not allowed inside ()
      stack.push_back(c); cnt[po - open]++;
    } else if (pc && c) {
      if (--cnt[pc - close] < 0) negative = true;
      if (!stack.empty() && stack.back() == open[pc - close]) stack.pop_back(); else misnested = true;
    }
    if (negative) return Verdict::kError;
    if (c == ',' && cnt[0] == 0 && cnt[1] == 0 && cnt[2] == 0) { out.push_back(Trim(cur)); cur.clear(); }
    else cur += c;
  }
  if (cnt[0] || cnt[1] || cnt[2]) return Verdict::kError;
  if (misnested) return Verdict::kUnspecified;
  if (!(out.empty() && Trim(cur).empty())) out.push_back(Trim(cur));
  return Verdict::kOk;
}
static bool Unquote(const std::string& s, std::string& out) {
  out.clear();
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\'' || s[i] == '"') {
      const size_t j = s.find(s[i], i + 1);
      if (j == std::string::npos) return false;
      out += s.substr(i + 1, j - i - 1);
      i = j;
    } else out += s[i];
  }
  return true;
}

static void Raw(const std::string& s) {
  const std::string t = Trim(s);
  const ParameterValue v(s);
  vp::Check(v.get() == t, "trimmed text is " + vp::Show(v.get()));
  std::string str, want;
  const std::string es = vp::Throws([&] { str = v.getString(); });
  vp::Step();
  if (Unquote(t, want)) vp::Check(es.empty() && str == want, "getString gives " + vp::Show(str) + " want " + vp::Show(want));
  else vp::Check(!es.empty(), "getString accepts an unterminated quote as " + vp::Show(str));
  // List.
  std::vector<std::string> got, el;
  const std::string ev = vp::Throws([&] { for (auto& x : v.getVector()) got.push_back(x.get()); });
  vp::Step();
  Verdict verdict = Verdict::kOk;
  if (t.empty()) {}
  else if (t.size() >= 2 && t[0] == '[' && t.back() == ']') verdict = Split(t.substr(1, t.size() - 2), el);
  else el = {t};
  if (verdict == Verdict::kOk) {
    std::string a, b;
    for (auto& x : got) a += vp::Show(x);
    for (auto& x : el) b += vp::Show(x);
    vp::Check(ev.empty() && got == el, "getVector gives " + ev + a + " want " + b);
  } else if (verdict == Verdict::kError) vp::Check(!ev.empty(), "getVector accepts an unbalanced value");
  // Typed list = typed elements.
  if (verdict == Verdict::kOk && ev.empty()) {
    std::vector<std::string> sv;
    const std::string esv = vp::Throws([&] { sv = v.getStringVector(); });
    vp::Step();
    bool all_ok = true;
    std::vector<std::string> wsv;
    for (auto& x : el) { std::string y; if (!Unquote(x, y)) all_ok = false; wsv.push_back(y); }
    if (all_ok) vp::Check(esv.empty() && sv == wsv, "getStringVector differs from its elements");
    else vp::Check(!esv.empty(), "getStringVector accepts an unterminated quote");
  }
  // Record.
  std::map<std::string, std::string> rgot, rwant;
  const std::string er = vp::Throws([&] { const auto r = v.getRecord(); for (auto it = r.begin(); it != r.end(); ++it) rgot[it->first] = it->second.get(); });
  vp::Step();
  verdict = Verdict::kError;
  if (t.size() >= 2 && t[0] == '{' && t.back() == '}') {
    verdict = Split(t.substr(1, t.size() - 2), el);
    if (verdict == Verdict::kOk)
      for (auto& x : el) {
        size_t st = 0;
        if (!x.empty() && (x[0] == '\'' || x[0] == '"')) st = x.find(x[0], 1) + 1;
        const size_t pos = x.find(':', st);
        if (pos == std::string::npos) { verdict = Verdict::kError; break; }
        std::string name;
        const size_t q = x.find_first_of("'\"", st);
        if ((q != std::string::npos && q < pos) || !Unquote(Trim(x.substr(0, pos)), name) || name.empty()) { verdict = Verdict::kUnspecified; break; }
        if (!rwant.emplace(name, Trim(x.substr(pos + 1))).second) { verdict = Verdict::kError; break; }
      }
  }
  if (verdict == Verdict::kOk) vp::Check(er.empty() && rgot == rwant, "getRecord gives " + er + " another result");
  else if (verdict == Verdict::kError) vp::Check(!er.empty(), "getRecord accepts an ill-formed record");
  vp::Outcome(es + ev + er + std::to_string(got.size()) + std::to_string(rgot.size()));
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  // Words and quoted strings.
  std::vector<Node> leaves = {W("a", "a"), W("1", "1"), W("x y", "x y"), W("''", ""), W("'p,q'", "p,q"), W("\"]\"", "]"), W("'['", "["),
                              W("\"it's\"", "it's"), W("'\"'", "\""), W("a'b,c'd", "ab,cd"), W("(1,2)", "(1,2)"), W("'{'\"}\"", "{}"), W("2*3..4", "2*3..4"), W("' s '", " s ")};
  for (auto& l : leaves) Run(l, "leaf");
  Run(W("", ""), "leaf");
  // Lists of up to 3 leaves, records of up to 2 fields.
  std::vector<std::pair<std::string, std::string>> names = {{"n", "n"}, {"'m,:'", "m,:"}, {"\"k\"", "k"}};
  std::vector<Node> d1 = leaves;
  Run(L({}), "list");
  Run(R({}, {}), "rec");
  d1.push_back(L({})); d1.push_back(R({}, {}));
  for (auto& a : leaves) {
    Run(L({a}), "list");
    for (auto& b : leaves) {
      Run(L({a, b}), "list");
      for (auto& c : leaves) Run(L({a, b, c}), "list");
    }
    for (auto& n1 : names) {
      Run(R({n1}, {a}), "rec");
      for (auto& n2 : names) if (n1.second != n2.second) for (auto& b : leaves) Run(R({n1, n2}, {a, b}), "rec");
    }
  }
  // Empty elements.
  const Node none = W("", "");
  for (auto& a : leaves) { Run(L({a, none}), "list"); Run(L({none, a}), "list"); Run(L({a, none, a}), "list"); }
  Run(L({none, none}), "list");
  const size_t nl = th ? leaves.size() : 7;
  for (size_t i = 0; i < nl; ++i) {
    d1.push_back(L({leaves[i]}));
    d1.push_back(R({names[i % 3]}, {leaves[i]}));
    for (size_t j = 0; j < (th ? nl : 3); ++j) d1.push_back(L({leaves[i], leaves[j]}));
  }
  std::vector<Node> d2;
  for (auto& a : d1) {
    Run(L({a}), "nest"); Run(R({names[0]}, {a}), "nest");
    for (auto& b : d1) { Run(L({a, b}), "nest"); Run(R({names[0], names[1]}, {a, b}), "nest"); }
  }
  for (size_t i = 0; i < d1.size(); i += 3) { d2.push_back(L({d1[i], leaves[i % nl]})); d2.push_back(R({names[1]}, {d1[i]})); d2.push_back(d1[i]); }
  for (auto& a : d2) for (auto& b : d2) { Run(L({a, b}), "deep"); Run(R({names[2], names[0]}, {L({a}), b}), "deep"); }
  // Raw strings.
  const std::string alpha = "[]{}(),'\"a: ";
  const int len = th ? 6 : 5;
  for (int n = 0; n <= len; ++n) {
    std::vector<size_t> h(n, 0);
    for (;;) {
      std::string s;
      for (size_t i : h) s += alpha[i];
      if (vp::CaseF([&] { return "raw:" + vp::Show(s); })) { Raw(s); vp::Trace(); }
      // The same inside brackets and braces, so that longer lists occur.
      if (n == len) {
        if (vp::CaseF([&] { return "raw:" + vp::Show("[" + s + "]"); })) { Raw("[" + s + "]"); vp::Trace(); }
        if (vp::CaseF([&] { return "raw:" + vp::Show("{" + s + "}"); })) { Raw("{" + s + "}"); vp::Trace(); }
      }
      int i = n - 1;
      while (i >= 0 && ++h[i] == alpha.size()) h[i--] = 0;
      if (i < 0) break;
    }
  }
  return vp::Finish();
}
