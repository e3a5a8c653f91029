// Reference dictionary for the parset checks: an ordered list of key/value
// pairs plus the set of consulted keys. Deliberately boring.
#ifndef PARSET_MODEL_H_
#define PARSET_MODEL_H_
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

struct RefSet {
  bool nocase = false;
  std::vector<std::pair<std::string, std::string>> kv;  // sorted
  std::set<std::string> asked;  // spelled as stored

  static char Up(char c) { return (c >= 'a' && c <= 'z') ? char(c - 'a' + 'A') : c; }
  std::string Canon(const std::string& s) const {
    if (!nocase) return s;
    std::string r = s;
    for (char& c : r) c = Up(c);
    return r;
  }
  int Find(const std::string& k) const {
    for (size_t i = 0; i < kv.size(); ++i)
      if (Canon(kv[i].first) == Canon(k)) return int(i);
    return -1;
  }
  void Insert(const std::string& k, const std::string& v) {
    size_t i = 0;
    while (i < kv.size() && Canon(kv[i].first) < Canon(k)) ++i;
    kv.insert(kv.begin() + i, {k, v});
  }
  bool Add(const std::string& k, const std::string& v) {
    if (Find(k) >= 0) return false;
    Insert(k, v);
    return true;
  }
  // Overwrites; an existing key keeps its spelling.
  void Replace(const std::string& k, const std::string& v) {
    int i = Find(k);
    if (i >= 0) kv[i].second = v; else Insert(k, v);
  }
  // A definition read from text: the new spelling of the key is kept.
  void Define(const std::string& k, const std::string& v) { Remove(k); Insert(k, v); }
  void Remove(const std::string& k) {
    int i = Find(k);
    if (i >= 0) kv.erase(kv.begin() + i);
  }
  bool Below(const std::string& key, const std::string& base) const {
    return Canon(key).substr(0, base.size()) == Canon(base) && key.size() >= base.size();
  }
  std::shared_ptr<RefSet> Subset(const std::string& base, const std::string& prefix) {
    auto r = std::make_shared<RefSet>();
    r->nocase = nocase;
    for (auto& e : kv)
      if (Below(e.first, base)) {
        r->Insert(prefix + e.first.substr(base.size()), e.second);
        asked.insert(e.first);
      }
    return r;
  }
  void Subtract(const std::string& base) {
    for (size_t i = 0; i < kv.size();)
      if (Below(kv[i].first, base)) kv.erase(kv.begin() + i); else ++i;
  }
  void Adopt(const std::vector<std::pair<std::string, std::string>>& other, const std::string& prefix) {
    for (auto& e : other) Replace(prefix + e.first, e.second);
  }
  std::vector<std::string> Unused() const {
    std::vector<std::string> r;
    for (auto& e : kv) {
      bool used = false;
      for (auto& a : asked) if (Canon(a) == Canon(e.first)) used = true;
      if (!used) r.push_back(e.first);
    }
    return r;
  }
  std::string Text() const {
    std::string t;
    for (auto& e : kv) t += e.first + "=" + e.second + "\n";
    return t;
  }
};
#endif
