// C34 (1): a filter passes on exactly the selected baselines and channels.
#include "vp.h"
#include "step_kit.h"
#include "base/BaselineSelection.h"
#include "steps/Filter.h"
#include "steps/MsReader.h"
using namespace kit;
using dp3::base::BaselineSelection;
using dp3::steps::Filter;
typedef std::complex<float> F;

// Stand-in (the reader itself needs the casacore tables): numbers and nchan/N, nchan-N.
static double Expr(const std::string& e, double nchan) {
  if (e.rfind("nchan", 0) != 0) return atof(e.c_str());
  if (e.size() == 5) return nchan;
  const double x = atof(e.c_str() + 6);
  return e[5] == '/' ? nchan / x : nchan - x;
}
std::pair<unsigned int, unsigned int> dp3::steps::MsReader::ParseChannelSelection(const std::string& a, const std::string& b, unsigned int n) {
  const unsigned start = Expr(a, n) + 0.001, count = Expr(b, n) + 0.0001;
  if (start >= n) throw std::runtime_error("startchan exceeds the channels");
  return {start, count == 0 ? n - start : std::min(count, n - start)};
}

struct Bl { std::string text; std::function<bool(const std::string&, const std::string&)> sel; };
static bool Is(const std::string& n, const std::string& pat) {
  if (pat.back() == '*') return n.compare(0, pat.size() - 1, pat, 0, pat.size() - 1) == 0;
  return n == pat;
}
static std::function<bool(const std::string&, const std::string&)> Ant(std::string p) { return [=](const std::string& a, const std::string& b) { return Is(a, p) || Is(b, p); }; }
static std::function<bool(const std::string&, const std::string&)> Pair(std::string p, std::string q) { return [=](const std::string& a, const std::string& b) { return (Is(a, p) && Is(b, q)) || (Is(a, q) && Is(b, p)); }; }
static std::function<bool(const std::string&, const std::string&)> Or(std::function<bool(const std::string&, const std::string&)> x, std::function<bool(const std::string&, const std::string&)> y) { return [=](const std::string& a, const std::string& b) { return x(a, b) || y(a, b); }; }

struct Setup {
  int bl = 0; std::string corrtype, range; double min = 0, max = 0;
  std::string start, count;
  bool remove = false, rows = true, direct = false;
  unsigned nchan = 3, ncorr = 2; int order = 0;
  std::string Text(const std::vector<Bl>& all) const { return "baseline=" + all[bl].text + " corrtype=" + corrtype + " blrange=" + range + " startchan=" + start + " nchan=" + count + (remove ? " remove" : "") + (rows ? "" : " norows") + (direct ? " direct" : "") + " channels=" + std::to_string(nchan) + " corr=" + std::to_string(ncorr) + " order=" + std::to_string(order); }
};

static void Run(const Setup& q, const std::vector<Bl>& all) {
  if (!vp::CaseF([&] { return q.Text(all); })) return;
  Shape s{0, q.nchan, q.ncorr, 4};
  s.names = {"CS1", "CS2", "RS3", "DE4"};
  s.pos = {{0, 0, 0}, {30, 40, 0}, {30, 40, 120}, {3000, 4000, 0}};
  if (q.order == 0) AllBaselines(4, true, s.a1, s.a2);
  else if (q.order == 1) { s.a1 = {3, 0, 2, 1, 1, 0, 2, 0, 3, 1}; s.a2 = {3, 2, 2, 0, 3, 0, 1, 3, 2, 1}; }
  else { s.a1 = {0, 1, 0, 1}; s.a2 = {1, 1, 0, 3}; }  // the third station unused
  s.nbl = s.a1.size();
  DPInfo info = Info(s);
  std::vector<std::pair<std::string, std::string>> kv;
  if (q.bl) kv.emplace_back("f.baseline", all[q.bl].text);
  if (!q.corrtype.empty()) kv.emplace_back("f.corrtype", q.corrtype);
  if (!q.range.empty()) kv.emplace_back("f.blrange", q.range);
  if (!q.start.empty()) kv.emplace_back("f.startchan", q.start);
  if (!q.count.empty()) kv.emplace_back("f.nchan", q.count);
  if (q.remove) kv.emplace_back("f.remove", "true");
  // Expected selection.
  std::vector<double> lim;
  for (size_t p = 0; p < q.range.size(); ++p) if (q.range[p] == '[' || q.range[p] == ',') lim.push_back(atof(q.range.c_str() + p + 1));
  std::string ct = q.corrtype; for (char& c : ct) c = tolower(c);
  std::vector<unsigned> keep;
  for (unsigned b = 0; b < s.nbl; ++b) {
    const int x = s.a1[b], y = s.a2[b];
    bool k = all[q.bl].sel(s.names[x], s.names[y]);
    if (ct == "auto") k &= x == y;
    if (ct == "cross") k &= x != y;
    double len = 0; for (int i = 0; i < 3; ++i) len += (s.pos[x][i] - s.pos[y][i]) * (s.pos[x][i] - s.pos[y][i]);
    len = std::sqrt(len);
    bool in = lim.empty();
    for (size_t i = 0; i + 1 < lim.size(); i += 2) in |= len >= lim[i] && len <= lim[i + 1];
    if (k && in) keep.push_back(b);
  }
  const unsigned start = Expr(q.start.empty() ? "0" : q.start, q.nchan);
  unsigned count = Expr(q.count.empty() ? "0" : q.count, q.nchan);
  if (start < q.nchan) count = count ? std::min(count, q.nchan - start) : q.nchan - start;
  const bool bad = start >= q.nchan || keep.empty() || (ct != "" && ct != "auto" && ct != "cross");
  std::shared_ptr<Filter> step = q.direct ? std::make_shared<Filter>(BaselineSelection(Parset(kv), "f.")) : std::make_shared<Filter>(Parset(kv), "f.");
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  const Fields req = step->getRequiredFields(), prov = step->getProvidedFields();
  const std::string err = vp::Throws([&] { step->setInfo(info); });
  vp::Outcome(err.substr(0, 30));
  if (bad) { vp::Check(!err.empty(), "a selection of nothing is accepted"); vp::Step(); vp::Trace(); return; }
  if (!vp::Check(err.empty(), "refused: " + err)) return;
  const bool changes = keep.size() < s.nbl || count < q.nchan;
  vp::Check(step->hasSelection() == changes, "hasSelection is wrong");
  // What the following steps are told.
  const DPInfo& o = step->getInfoOut();
  vp::Check(o.nchan() == count && o.startchan() == start && o.chanFreqs().size() == count && o.chanWidths().size() == count && o.resolutions().size() == count && o.effectiveBW().size() == count, "channel count or start is wrong");
  for (unsigned c = 0; c < count && c < o.chanFreqs().size(); ++c) vp::Check(o.chanFreqs()[c] == info.chanFreqs()[start + c], "channel frequencies are wrong");
  vp::Check(Near(o.totalBW(), 1e6 * count, 1e-12), "total bandwidth is wrong");
  if (!vp::Check(o.nbaselines() == keep.size() && o.ncorr() == q.ncorr, "number of baselines is wrong")) return;
  std::set<int> left;
  for (unsigned b = 0; b < keep.size(); ++b) {
    const int x = s.a1[keep[b]], y = s.a2[keep[b]];
    left.insert(x); left.insert(y);
    const std::string n1 = o.antennaNames().at(o.getAnt1()[b]), n2 = o.antennaNames().at(o.getAnt2()[b]);
    if (!vp::Check(n1 == s.names[x] && n2 == s.names[y], "baseline " + std::to_string(b) + " has stations " + n1 + "," + n2)) return;
    const auto& p1 = o.antennaPos()[o.getAnt1()[b]].getValue().getValue();
    vp::Check(p1[0] == s.pos[x][0] && p1[1] == s.pos[x][1] && p1[2] == s.pos[x][2], "station positions do not follow the names");
    double len = 0; for (int i = 0; i < 3; ++i) len += (s.pos[x][i] - s.pos[y][i]) * (s.pos[x][i] - s.pos[y][i]);
    vp::Check(Near(o.getBaselineLengths()[b], std::sqrt(len), 1e-12, 1e-12), "baseline lengths are wrong");
  }
  vp::Check(o.antennaNames().size() == (q.remove ? left.size() : 4), "number of stations left is wrong");
  vp::Check(o.antennaUsed().size() == left.size(), "stations in use are wrong");
  vp::Check(o.getBaselineLengths().size() == keep.size(), "number of baseline lengths is wrong");
  for (unsigned b : step->getIndicesBL()) vp::Check(b < s.nbl, "index of selected baseline is wrong");
  vp::Check(step->getIndicesBL().empty() || std::equal(keep.begin(), keep.end(), step->getIndicesBL().begin(), step->getIndicesBL().end()), "indices of selected baselines are wrong");
  vp::Check(keep.size() == s.nbl || step->getIndicesBL().size() == keep.size(), "indices of selected baselines are missing");
  vp::Check(!changes || (prov.Data() && prov.Flags() && prov.Weights()), "a selecting filter must announce the fields it changes");
  vp::Check(keep.size() == s.nbl || prov.Uvw(), "a filter selecting baselines must announce uvw");
  // Data.
  for (unsigned t = 0; t < 2; ++t) {
    auto b = Buffer(s, t);
    b->SetExposure(1.5 + t);
    for (unsigned i = 0; i < s.nbl; ++i) {
      for (int k = 0; k < 3; ++k) b->GetUvw()(i, k) = 100 * t + 10 * i + k;
      for (unsigned c = 0; c < q.nchan; ++c) for (unsigned p = 0; p < q.ncorr; ++p) { b->GetData()(i, c, p) = F(i + 100 * t, c + 10 * p); b->GetFlags()(i, c, p) = (i * 3 + c * 5 + p + t) % 4 == 0; b->GetWeights()(i, c, p) = 1 + i + 16 * c + 64 * p + t; }
    }
    if (q.rows) { casacore::Vector<dp3::common::rownr_t> r(s.nbl); for (unsigned i = 0; i < s.nbl; ++i) r[i] = 50 * t + 2 * i; b->SetRowNumbers(r); }
    DPBuffer in(*b);
    const bool wantall = t == 1;
    if (!wantall) Strip(*b, req);
    step->process(std::move(b));
    vp::Step();
    if (!vp::Check(sink->out.size() == t + 1, "time slot not passed on")) return;
    const DPBuffer& r = *sink->out.back();
    vp::Check(r.GetTime() == in.GetTime() && r.GetExposure() == in.GetExposure(), "time or exposure changed");
    auto have = [&](bool needed) { return needed || wantall; };
    if (have(req.Data()) && !vp::Check(r.GetData().shape(0) == keep.size() && r.GetData().shape(1) == count && r.GetData().shape(2) == q.ncorr && r.GetFlags().size() == r.GetData().size() && r.GetWeights().size() == r.GetData().size(), "wrong shape")) return;
    for (unsigned i = 0; i < keep.size(); ++i) {
      const unsigned k = keep[i];
      if (have(req.Data())) for (unsigned c = 0; c < count; ++c) for (unsigned p = 0; p < q.ncorr; ++p)
        if (!vp::Check(r.GetData()(i, c, p) == in.GetData()(k, start + c, p) && r.GetFlags()(i, c, p) == in.GetFlags()(k, start + c, p) && r.GetWeights()(i, c, p) == in.GetWeights()(k, start + c, p), "baseline " + std::to_string(i) + " channel " + std::to_string(c) + " correlation " + std::to_string(p) + " is not that of the input")) return;
      if (have(req.Uvw())) for (int x = 0; x < 3; ++x) if (!vp::Check(r.GetUvw()(i, x) == in.GetUvw()(k, x), "uvw of baseline " + std::to_string(i) + " is not that of the input")) return;
      if (q.rows && !vp::Check(r.GetRowNumbers().size() == keep.size() && r.GetRowNumbers()[i] == in.GetRowNumbers()[k], "row number of baseline " + std::to_string(i) + " is not that of the input")) return;
    }
    if (!q.rows) vp::Check(r.GetRowNumbers().empty(), "row numbers made up");
  }
  step->finish();
  vp::Check(sink->finished == 1 && !sink->after_finish, "finish is not passed on once at the end");
  std::string sel; for (unsigned k : keep) sel += char('a' + k);
  vp::Outcome(sel + std::to_string(start) + "+" + std::to_string(count));
  vp::Trace();
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  auto any = [](const std::string&, const std::string&) { return true; };
  const std::vector<Bl> bl{{"", any}, {"[]", any}, {"[CS1]", Ant("CS1")}, {"[DE*]", Ant("DE*")}, {"[CS*,RS3]", Or(Ant("CS*"), Ant("RS3"))}, {"[[CS1,CS2]]", Pair("CS1", "CS2")}, {"[[DE4,CS*]]", Pair("DE4", "CS*")},
                           {"[[RS3,RS3],[CS2]]", Or(Pair("RS3", "RS3"), Ant("CS2"))}, {"[XX9]", Ant("XX9")}, {"[[CS*,CS*],[DE4,RS3]]", Or(Pair("CS*", "CS*"), Pair("DE4", "RS3"))}, {"[*]", any}};
  const std::vector<std::string> types{"", "auto", "cross", "AUTO", "Cross", "other"}, ranges{"", "[0,50]", "[0,0.5,60,200]", "[120,120.5]", "[49.9,50.1]", "[1e5,1e6]"};
  const std::vector<std::string> starts{"", "0", "1", "nchan/2", "nchan-1", "nchan", "2"}, counts{"", "0", "1", "2", "nchan/2", "100"};
  int k = 0;
  for (int b = 0; b < int(bl.size()); ++b) for (auto& ct : types) for (auto& r : ranges) for (int order = 0; order < 3; ++order) for (int rm = 0; rm < 2; ++rm) {
    Setup q; q.bl = b; q.corrtype = ct; q.range = r; q.order = order; q.remove = rm; q.rows = k % 3 != 0; q.ncorr = 1 + k % 4;
    Run(q, bl);
    q.direct = true; if (!rm) Run(q, bl);
    q.direct = false;
    q.start = starts[k % 5]; q.count = counts[k % 6]; q.nchan = 2 + k % 3;
    Run(q, bl);
    ++k;
  }
  for (auto& st : starts) for (auto& c : counts) for (unsigned n : {1u, 2u, 3u, 6u, 9u}) for (unsigned p : {1u, 2u, 4u}) for (int b : {0, 1, 2, 5}) for (int rm = 0; rm < 2; ++rm) for (int rows = 0; rows < 2; ++rows) for (int order = 0; order < (th ? 3 : 1); ++order) {
    Setup q; q.start = st; q.count = c; q.nchan = n; q.ncorr = p; q.bl = b; q.remove = rm; q.rows = rows; q.order = th ? order : (n + p + rm) % 3;
    Run(q, bl);
  }
  if (vp::Case("uneven range")) { vp::Check(!vp::Throws([&] { BaselineSelection(Parset({{"f.blrange", "[1,2,3]"}}), "f."); }).empty(), "uneven number of lengths accepted"); vp::Step(); vp::Trace(); }
  // Two filters in a row act as one after the other.
  for (int b1 : {0, 2, 4, 9}) for (int b2 : {0, 3, 5, 7}) for (unsigned s1 = 0; s1 < 3; ++s1) for (unsigned s2 = 0; s2 < 2; ++s2) for (int rm = 0; rm < 4; ++rm) {
    if (!vp::CaseF([&] { return "two filters " + bl[b1].text + " " + bl[b2].text + " " + std::to_string(s1) + " " + std::to_string(s2) + " " + std::to_string(rm); })) continue;
    Shape s{0, 5, 2, 4}; s.names = {"CS1", "CS2", "RS3", "DE4"}; AllBaselines(4, true, s.a1, s.a2); s.nbl = s.a1.size();
    const DPInfo info = Info(s);
    std::vector<unsigned> keep;
    for (unsigned b = 0; b < s.nbl; ++b) if (bl[b1].sel(s.names[s.a1[b]], s.names[s.a2[b]]) && bl[b2].sel(s.names[s.a1[b]], s.names[s.a2[b]])) keep.push_back(b);
    auto kv = [&](int b, unsigned st, bool r) { std::vector<std::pair<std::string, std::string>> v{{"f.startchan", std::to_string(st)}, {"f.nchan", st ? "2" : "0"}}; if (b) v.emplace_back("f.baseline", bl[b].text); if (r) v.emplace_back("f.remove", "true"); return Parset(v); };
    auto f1 = std::make_shared<Filter>(kv(b1, s1, rm & 1), "f."), f2 = std::make_shared<Filter>(kv(b2, s2, rm & 2), "f.");
    auto sink = std::make_shared<Sink>();
    f1->setNextStep(f2); f2->setNextStep(sink);
    const std::string err = vp::Throws([&] { f1->setInfo(info); });
    if (keep.empty()) { vp::Check(!err.empty(), "a selection of nothing is accepted"); continue; }
    if (!vp::Check(err.empty(), "refused: " + err)) continue;
    const unsigned n1 = s1 ? 2 : 5, n2 = s2 ? std::min(2u, n1 - s2) : n1;
    vp::Check(f2->getInfoOut().startchan() == s1 + s2 && f2->getInfoOut().nchan() == n2 && f2->getInfoOut().nbaselines() == keep.size(), "metadata after two filters is wrong");
    auto b = Buffer(s, 0);
    for (unsigned i = 0; i < s.nbl; ++i) for (unsigned c = 0; c < 5; ++c) for (unsigned p = 0; p < 2; ++p) b->GetData()(i, c, p) = F(i, c + 10 * p);
    f1->process(std::move(b));
    vp::Step();
    const DPBuffer& r = *sink->out.at(0);
    if (!vp::Check(r.GetData().shape(0) == keep.size() && r.GetData().shape(1) == n2, "wrong shape after two filters")) continue;
    for (unsigned i = 0; i < keep.size(); ++i) for (unsigned c = 0; c < n2; ++c) vp::Check(r.GetData()(i, c, 1) == F(keep[i], s1 + s2 + c + 10), "wrong data after two filters");
    vp::Trace();
  }
  return vp::Finish();
}
