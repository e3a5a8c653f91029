// C04: array expansion. The generator knows the expansion of what it writes.
#include "vp.h"
#include "common/ParameterSet.h"
#include "common/ParameterValue.h"
#include "common/StringTools.h"

using namespace dp3::common;

struct Item {
  std::string text;
  std::vector<std::string> out;  // expanded items, in order
};

static std::string Join(const std::vector<std::string>& v, const std::string& sep = ",") {
  std::string t;
  for (size_t i = 0; i < v.size(); ++i) t += (i ? sep : "") + v[i];
  return t;
}
static std::string Pad(long v, size_t width) {
  std::string s = std::to_string(v);
  while (s.size() < width) s = "0" + s;
  return s;
}
static std::vector<std::string> Series(const std::string& a, const std::string& b) {
  std::vector<std::string> r;
  long x = std::stol(a), y = std::stol(b);
  for (long v = x;; v += (x <= y ? 1 : -1)) { r.push_back(Pad(v, a.size())); if (v == y) break; }
  return r;
}

static std::vector<Item> Plain() {
  std::vector<Item> r;
  for (std::string t : {"a", "12", "x.y", "1.5", "'1..3'", "\"2*a\"", "a*b", "a..b", "'(,]'", "x2*3", "", "RS106HBA", "-1", "a'2..4'b", "\"'\""}) r.push_back({t, {t}});
  return r;
}
static std::vector<Item> Ranges(bool th) {
  std::vector<Item> r;
  const std::vector<std::pair<std::string, std::string>> nums = {
      {"1", "3"}, {"3", "1"}, {"2", "2"}, {"08", "11"}, {"8", "11"}, {"098", "101"}, {"0", "0"}, {"11", "9"}, {"001", "3"}, {"1", "003"}, {"10", "08"},
      {"2147483646", "2147483647"}, {"2147483647", "2147483647"}, {"2147483647", "2147483645"}};
  const std::vector<std::string> pre = {"", "ab", "l-", "{", "a{", "a1b", "p_"};
  const std::vector<std::string> suf = {"", "xx", "}", "}z", "_q.r", "HBA"};
  for (auto& n : nums)
    for (auto& p : pre)
      for (auto& s : suf)
        for (int repeat = 0; repeat < (p.empty() ? 1 : 2); ++repeat)
          for (std::string sp : {"", " "}) {
            if (!th && n.first.size() > 4 && (p.size() > 1 || s.size() > 1)) continue;
            std::string pp = p, ss = s;
            if (!p.empty() && p.back() == '{' && !s.empty() && s[0] == '}') { pp = p.substr(0, p.size() - 1); ss = s.substr(1); }
            Item it;
            it.text = p + n.first + sp + ".." + sp + (repeat ? p : "") + n.second + s;
            for (auto& v : Series(n.first, n.second)) it.out.push_back(pp + v + ss);
            r.push_back(it);
          }
  // Two ranges in one item: the cartesian product, the first one outermost.
  for (auto& p : std::vector<std::string>{"", "a"})
    for (auto& m : std::vector<std::string>{"b", "_"})
      for (auto& s : std::vector<std::string>{"", "ef"}) {
        Item it;
        it.text = p + "00..01" + m + "2..0" + s;
        for (auto& x : Series("00", "01")) for (auto& y : Series("2", "0")) it.out.push_back(p + x + m + y + s);
        r.push_back(it);
      }
  return r;
}
static Item Times(int n, const std::string& sp, const Item& i, int form) {
  // form 0: bare item, 1: in parentheses, 2: in brackets (stays a list).
  Item r;
  std::vector<std::string> one = i.out;
  std::string body = i.text;
  if (form == 1) body = "(" + i.text + ")";
  if (form == 2) { body = "[" + i.text + "]"; one = {"[" + Join(i.out) + "]"}; }
  r.text = std::to_string(n) + sp + "*" + sp + body;
  for (int k = 0; k < n; ++k) r.out.insert(r.out.end(), one.begin(), one.end());
  return r;
}
static Item Group(const std::vector<Item>& v, const std::string& sep) {
  Item r;
  for (size_t i = 0; i < v.size(); ++i) {
    r.text += (i ? sep : "") + v[i].text;
    r.out.insert(r.out.end(), v[i].out.begin(), v[i].out.end());
  }
  return r;
}

static void Run(const std::vector<Item>& items, const std::string& sep, int ws) {
  std::string text = "[", want = "[";
  std::vector<std::string> flat;
  for (size_t i = 0; i < items.size(); ++i) {
    text += (i ? sep : "") + items[i].text;
    want += (i ? sep : "") + Join(items[i].out);
    for (auto& o : items[i].out) flat.push_back(o);
  }
  text += "]"; want += "]";
  if (ws) { text = " " + text + "  "; want = " " + want + "  "; }
  if (!vp::CaseF([&] { return vp::Show(text); })) return;
  std::string got;
  const std::string e = vp::Throws([&] { got = expandArrayString(text); });
  vp::Step();
  if (!vp::Check(e.empty(), "error on a well-formed array")) return;
  vp::Check(got == want, "expands to " + vp::Show(got) + " want " + vp::Show(want));
  // Fixed point.
  vp::Check(expandArrayString(got) == got, "expanding again changes " + vp::Show(got));
  vp::Step();
  // A lone brace cannot be taken apart as a list element.
  if ((want + text).find_first_of("{}") != std::string::npos) { vp::Trace(); vp::Outcome(want); return; }
  // The list the user gets: same elements through the value and the parset.
  std::vector<std::string> el;
  for (auto& v : ParameterValue(text).expand().getVector()) el.push_back(v.get());
  const bool empty_list = items.empty() || (items.size() == 1 && items[0].text.empty());
  vp::Check(el == (empty_list ? std::vector<std::string>() : flat), "expanded list is " + Join(el, "|") + " want " + Join(flat, "|"));
  ParameterSet p;
  p.add("k", text.substr(ws ? 1 : 0, text.size() - (ws ? 3 : 0)));
  const auto sv = p.getStringVector("k", true);
  const auto sv2 = p.getStringVector("k", std::vector<std::string>{"d"}, true);
  vp::Check(sv.size() == el.size() && sv2 == sv, "getStringVector(expandable) has " + std::to_string(sv.size()) + " elements");
  // Without a request for expansion nothing is expanded.
  if (text.find('(') == std::string::npos) vp::Check(p.getStringVector("k") == ParameterValue(p.get("k")).getStringVector() , "unexpanded list");
  vp::Step(4);
  vp::Trace();
  vp::Outcome(want);
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  const auto plain = Plain();
  const auto ranges = Ranges(th);
  std::vector<Item> some = {plain[0], plain[4], plain[2], ranges[0], ranges[2], Item{"ab08..11xx", {"ab08xx", "ab09xx", "ab10xx", "ab11xx"}}};
  std::vector<Item> mult;
  for (int n : {1, 2, 3})
    for (std::string sp : {"", " "})
      for (int form = 0; form < 3; ++form) {
        for (auto& i : some) mult.push_back(Times(n, sp, i, form));
        if (form > 0)
          for (std::string sep : {",", ", ", ";"}) {
            if (form == 2 && sep == ";") continue;
            mult.push_back(Times(n, sp, Group({some[0], some[3]}, sep), form));
            mult.push_back(Times(n, sp, Group({some[1], some[0], some[2]}, sep), form));
          }
      }
  // Separators inside the group are kept in the text for "," but the exact
  // text of ", " groups differs, so normalise those: handled below by using
  // only groups whose expansion text is known.
  std::vector<Item> mult_exact;
  for (auto& m : mult) if (m.text.find(", ") == std::string::npos) mult_exact.push_back(m);
  std::vector<Item> nested;
  for (size_t i = 0; i < mult_exact.size(); i += (th ? 1 : 3)) {
    nested.push_back(Times(2, "", mult_exact[i], 0));
    nested.push_back(Times(2, " ", mult_exact[i], 1));
    nested.push_back(Times(3, "", mult_exact[i], 2));
    nested.push_back({"[" + mult_exact[i].text + "]", {"[" + Join(mult_exact[i].out) + "]"}});
    nested.push_back(Times(2, "", Group({mult_exact[i], some[3]}, ","), 1));
    nested.push_back(Times(2, "", Group({some[0], mult_exact[i]}, ";"), 1));
  }
  std::vector<Item> all;
  for (const std::vector<Item>* v : {&plain, &ranges, (const std::vector<Item>*)&mult_exact, (const std::vector<Item>*)&nested}) all.insert(all.end(), v->begin(), v->end());
  Run({}, ",", 0); Run({}, ",", 1);
  for (auto& a : all) { Run({a}, ",", 0); Run({a}, ",", 1); }
  // Pairs: everything against a representative set, and all pairs of it.
  std::vector<Item> rep;
  for (size_t i = 0; i < all.size(); i += (th ? 3 : 9)) rep.push_back(all[i]);
  rep.push_back({"", {""}});
  rep.push_back({"[1..2]", {"[1,2]"}});
  for (auto& a : all) for (auto& b : some) { Run({a, b}, ",", 0); Run({b, a}, ", ", 0); }
  for (auto& a : rep) for (auto& b : rep) { Run({a, b}, ",", 0); Run({a, b}, ", ", 1); }
  for (auto& a : rep) for (auto& b : some) for (auto& c : some) { Run({a, b, c}, ",", 0); Run({b, a, c}, ",", 0); Run({b, c, a}, ", ", 0); }
  // Not enclosed in brackets: unchanged.
  for (auto& a : all)
    for (std::string pre : {"", "[", "x["}) for (std::string post : {"", "]"}) {
      const std::string t = pre + a.text + post;
      if (t.size() >= 2 && t[0] == '[' && t.back() == ']') continue;
      if (vp::CaseF([&] { return "bare:" + vp::Show(t); })) {
        vp::Check(expandArrayString(t) == t, "a text that is not an array is changed");
        vp::Step(); vp::Trace();
      }
    }
  // Ranges and repetitions on their own.
  for (auto& a : ranges)
    if (vp::CaseF([&] { return "range:" + vp::Show(a.text); })) { vp::Check(expandRangeString(a.text) == Join(a.out), "expandRangeString gives " + expandRangeString(a.text)); vp::Step(); vp::Trace(); }
  // Any short text: terminates, and either fails or gives a fixed point.
  const std::string alpha = "12.*,()a'[";
  const int len = th ? 7 : 6;
  for (int n = 0; n <= len; ++n) {
    std::vector<size_t> h(n, 0);
    for (;;) {
      std::string s;
      for (size_t i : h) s += alpha[i];
      if (vp::CaseF([&] { return "any:" + vp::Show(s); })) {
        std::string got;
        const std::string e = vp::Throws([&] { got = expandArrayString("[" + s + "]"); });
        vp::Step(); vp::Trace();
        if (e.empty()) {
          // Texts without range or repetition signs, or with quotes around everything, stay as they are.
          if (s.find("..") == std::string::npos && s.find('*') == std::string::npos) vp::Check(got == "[" + s + "]", "a text without range or repetition is changed to " + got);
        } else {
          int quotes = 0; for (char c : s) quotes += c == '\'';
          bool bracket = s.find_first_of("([") != std::string::npos;
          vp::Check(quotes % 2 == 1 || bracket || s.find("..") != std::string::npos || s.find('*') != std::string::npos, "unexpected error");
        }
        vp::Outcome(e + got);
      }
      int i = n - 1;
      while (i >= 0 && ++h[i] == alpha.size()) h[i--] = 0;
      if (i < 0) break;
    }
  }
  return vp::Finish();
}
