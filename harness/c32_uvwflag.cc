// C32: flagging on UVW coordinates.
#include "vp.h"
#include "step_kit.h"
#include "base/UVWCalculator.h"
#include "steps/UVWFlagger.h"
using namespace kit;
using dp3::steps::UVWFlagger;
typedef std::complex<float> F;
static const double kC = 299792458.0;

// Stand-in for the calculator (needs the ephemerides of casacore): records
// what it is made for and gives coordinates depending on antennas and time.
namespace {
struct Made { casacore::MDirection dir; std::vector<casacore::MPosition> pos; casacore::MPosition array; };
std::vector<Made> made;
std::array<double, 3> Calc(unsigned a, unsigned b, double t) {
  const double k = std::fmod(t, 16);
  return {{double(a) * 7 - double(b) * 3 + k, double(b) * 5 - 6 - k, double(a) * 2 - double(b) + 1}};
}
}  // namespace
namespace dp3::base {
UVWCalculator::UVWCalculator(const casacore::MDirection& d, const casacore::MPosition& a, const std::vector<casacore::MPosition>& s) { made.push_back({d, s, a}); }
std::array<double, 3> UVWCalculator::getUVW(unsigned int a, unsigned int b, double t) { return Calc(a, b, t); }
}  // namespace dp3::base

struct Crit { std::string key, value; std::vector<std::pair<double, double>> ranges; };
static const char* kNames[] = {"uvm", "um", "vm", "wm", "uvlambda", "ulambda", "vlambda", "wlambda"};
// Open ranges meant by a criterion.
static const double kInf = 1e300;
static std::vector<Crit> Criteria() {
  std::vector<Crit> v;
  for (std::string n : kNames) {
    const bool uv = n == "uvm" || n == "uvlambda";
    v.push_back({n + "range", "[5.5..10.5]", {{5.5, 10.5}}});
    v.push_back({n + "range", "[2.5+-1,8.5..9.25]", {{1.5, 3.5}, {8.5, 9.25}}});
    v.push_back({n + "range", "[-3.5..4.5]", {{-3.5, 4.5}}});
    v.push_back({n + "range", "[0+-3.5]", {{-3.5, 3.5}}});
    v.push_back({n + "range", uv ? "[7.5..20.5,-8..-2.5]" : "[-1e3..-2.5,7.5..20.5]", {{7.5, 20.5}, {uv ? -8 : -1e3, -2.5}}});
    v.push_back({n + "min", "3.25", {{-kInf, 3.25}}});
    v.push_back({n + "max", "6.75", {{6.75, kInf}}});
    v.push_back({n + "min", "0", {}});
  }
  return v;
}
static const double kUvw[7][3] = {{0, 0, 0}, {3, 4, 0}, {-3, 4, 2}, {6, 8, -3}, {-9, 0, 9}, {2, -7, -6}, {0, 3, 30}};

struct Setup {
  std::vector<const Crit*> crit;
  int centre = 0;  // 0 none, 1 name, 2 angles, 3 angles and type
  bool bda = false, show = false;
  unsigned ncorr = 2, nchan = 3, prior = 0, ntime = 2, shift = 0;
  std::string Text() const {
    std::string s;
    for (auto* c : crit) s += c->key + "=" + c->value + " ";
    return s + "centre=" + std::to_string(centre) + (bda ? " bda" : "") + " ncorr=" + std::to_string(ncorr) + " nchan=" + std::to_string(nchan) + " prior=" + std::to_string(prior) + " shift=" + std::to_string(shift) + " ntime=" + std::to_string(ntime);
  }
};
static bool Match(const Setup& q, const std::array<double, 3>& u, double freq, bool& close) {
  bool hit = false;
  for (auto* c : q.crit) {
    const bool lambda = c->key.find("lambda") != std::string::npos;
    double x = c->key[0] == 'u' && c->key[1] == 'v' ? std::hypot(u[0], u[1]) : c->key[0] == 'u' ? u[0] : c->key[0] == 'v' ? u[1] : u[2];
    if (lambda) x *= freq / kC;
    for (auto& r : c->ranges) {
      if (std::fabs(x - r.first) < 1e-9 || std::fabs(x - r.second) < 1e-9) close = true;
      hit |= x > r.first && x < r.second;
    }
  }
  return hit;
}
static long Reported(UVWFlagger& f) {
  std::ostringstream o;
  f.showCounts(o);
  const std::string s = o.str();
  const size_t p = s.find("Total flagged:"), q = s.find('(', p);
  return p == std::string::npos ? -1 : atol(s.c_str() + q + 1);
}

static void Run(const Setup& q) {
  if (!vp::CaseF([&] { return q.Text(); })) return;
  std::vector<std::pair<std::string, std::string>> kv;
  for (auto* c : q.crit) kv.emplace_back("u." + c->key, c->value);
  if (q.centre == 1) kv.emplace_back("u.phasecenter", q.shift % 2 ? "[jupiter]" : "[Sun]");
  if (q.centre == 2) kv.emplace_back("u.phasecenter", "[30deg,-0.5rad]");
  if (q.centre == 3) kv.emplace_back("u.phasecenter", q.shift % 2 ? "[30deg,-0.5rad,azel]" : "[30deg,-0.5rad,B1950]");
  bool degenerate = true;
  for (auto* c : q.crit) degenerate &= c->ranges.empty();
  Shape s{0, q.nchan, q.ncorr, 4};
  AllBaselines(4, true, s.a1, s.a2);
  s.a1.resize(7); s.a2.resize(7); std::swap(s.a1[2], s.a2[2]);
  s.nbl = 7; s.freq0 = kC * 0.53; s.width = kC * 0.75;
  DPInfo info = Info(s);
  std::vector<std::vector<double>> freq(s.nbl);
  for (unsigned b = 0; b < s.nbl; ++b) {
    const unsigned n = q.bda ? 1 + (b + q.shift) % q.nchan : q.nchan;
    for (unsigned c = 0; c < n; ++c) freq[b].push_back(kC * (q.bda ? 0.53 + 0.75 * (c + 0.5) * q.nchan / n : 0.53 + 0.75 * c));
  }
  if (q.bda) {
    std::vector<std::vector<double>> w;
    for (auto& f : freq) w.emplace_back(f.size(), kC * 0.75 * q.nchan / f.size());
    info.setChannels(std::vector<std::vector<double>>(freq), std::move(w));
  }
  made.clear();
  const auto type = q.bda ? Step::MsType::kBda : Step::MsType::kRegular;
  auto step = std::make_shared<UVWFlagger>(Parset(kv), "u.", type);
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  vp::Check(step->accepts(type) && !step->accepts(q.bda ? Step::MsType::kRegular : Step::MsType::kBda) && step->outputs() == type, "wrong kind of data accepted or announced");
  const std::string err = vp::Throws([&] { step->setInfo(info); });
  if (!vp::Check(err.empty(), "refused: " + err)) return;
  vp::Check(step->isDegenerate() == degenerate, "degenerate is wrong");
  const Fields req = step->getRequiredFields(), prov = step->getProvidedFields();
  vp::Check(degenerate || prov.Flags(), "flags not among the provided fields");
  // Where the coordinates are wanted.
  if (q.centre && !degenerate) {
    if (!vp::Check(made.size() == 1, "no calculator made for the phase centre")) return;
    const auto want = q.centre == 1 ? (q.shift % 2 ? casacore::MDirection::JUPITER : casacore::MDirection::SUN) : q.centre == 2 ? casacore::MDirection::J2000 : q.shift % 2 ? casacore::MDirection::AZEL : casacore::MDirection::B1950;
    vp::Check(made[0].dir.getRef().getType() == unsigned(want), "phase centre: wrong type of direction");
    if (q.centre > 1) {
      const auto a = made[0].dir.getValue();
      vp::Check(Near(a.getLong(), M_PI / 6, 1e-12) && Near(a.getLat(), -0.5, 1e-12), "phase centre: wrong direction");
    }
    bool same = made[0].pos.size() == info.antennaPos().size();
    for (size_t i = 0; same && i < made[0].pos.size(); ++i) for (int k = 0; k < 3; ++k) same &= made[0].pos[i].getValue().getValue()[k] == info.antennaPos()[i].getValue().getValue()[k];
    for (int k = 0; k < 3; ++k) same &= made[0].array.getValue().getValue()[k] == info.arrayPos().getValue().getValue()[k];
    vp::Check(same, "phase centre: wrong station or array positions");
  }
  // Input; a step gets only the fields it asks for.
  long fresh = 0;
  auto prior = [&](unsigned t, unsigned b, unsigned c) { const unsigned k = (t * 7 + b) * 5 + c; return q.prior == 1 ? k % 3 == 0 : q.prior == 2 ? true : q.prior == 3 ? b % 2 == 1 : false; };
  auto coord = [&](unsigned t, unsigned b) { const double* u = kUvw[(b + 3 * t + q.shift) % 7]; return std::array<double, 3>{{u[0], u[1], u[2]}}; };
  auto used = [&](unsigned t, unsigned b, double time) { return q.centre ? Calc(s.a1[b], s.a2[b], time) : coord(t, b); };
  if (!q.bda) {
    std::vector<DPBuffer> in;
    for (unsigned t = 0; t < q.ntime; ++t) {
      auto b = Buffer(s, t);
      for (unsigned i = 0; i < s.nbl; ++i) {
        const auto u = coord(t, i);
        for (int k = 0; k < 3; ++k) b->GetUvw()(i, k) = u[k];
        for (unsigned c = 0; c < q.nchan; ++c) for (unsigned p = 0; p < q.ncorr; ++p) { b->GetFlags()(i, c, p) = prior(t, i, c); b->GetData()(i, c, p) = F(i + 1, c + 10 * p); b->GetWeights()(i, c, p) = 1 + i + c; }
      }
      in.emplace_back(*b);
      Fields have = req;
      if (q.shift % 3) have |= Step::kDataField | Step::kWeightsField | Step::kUvwField;
      auto g = std::make_unique<DPBuffer>(*b, have | Step::kFlagsField);
      Strip(*g, have | Step::kFlagsField);
      step->process(std::move(g));
      vp::Step();
      if (!vp::Check(sink->out.size() == t + 1, "time slot not passed on")) return;
      const DPBuffer& o = *sink->out.back();
      if (q.shift % 3) Kept(in.back()).Check(o, prov);
      unsigned long h = 0;
      for (unsigned i = 0; i < s.nbl; ++i) for (unsigned c = 0; c < q.nchan; ++c) {
        bool close = false;
        const bool hit = Match(q, used(t, i, o.GetTime()), freq[i][c], close);
        if (close) vp::Fail("internal: a coordinate on the border of a range");
        fresh += hit && !prior(t, i, c);
        for (unsigned p = 0; p < q.ncorr; ++p) {
          const bool f = o.GetFlags()(i, c, p);
          h = h * 3 + f;
          if (!vp::Check(f == (hit || prior(t, i, c)), "time slot " + std::to_string(t) + " baseline " + std::to_string(i) + " channel " + std::to_string(c) + " correlation " + std::to_string(p) + ": " + (f ? "flagged" : "not flagged") + ", criteria " + (hit ? "match" : "do not match") + (prior(t, i, c) ? ", was flagged" : ", was not flagged"))) return;
        }
      }
      vp::Outcome(std::to_string(h));
    }
  } else {
    for (unsigned part = 0; part < q.ntime; ++part) {
      auto buf = std::make_unique<BdaBuffer>(1000, Step::kDataField | Step::kFlagsField | Step::kWeightsField);
      struct R { unsigned t, b; double time; };
      std::vector<R> rows;
      for (unsigned t = 0; t < 2; ++t) for (unsigned b = 0; b < s.nbl; ++b) {
        if (t == 1 && b % 2 == 0) continue;  // longer averaged
        const unsigned k = part * 2 + t;
        const double width = b % 2 ? 2 : 4, time = 100 + 4.0 * part + (b % 2 ? 2.0 * t + 1 : 2);
        const size_t n = freq[b].size();
        std::vector<F> d(n * q.ncorr, F(b, k)); std::vector<float> w(n * q.ncorr, 1 + b); std::unique_ptr<bool[]> f(new bool[n * q.ncorr]);
        for (size_t i = 0; i < n * q.ncorr; ++i) f[i] = prior(k, b, i / q.ncorr);
        const auto u = coord(k, b);
        if (!buf->AddRow(time, width, width, b, n, q.ncorr, 3 * k + b, d.data(), f.get(), w.data(), u.data())) vp::Fail("internal: row not added");
        rows.push_back({k, b, time});
      }
      step->process(std::move(buf));
      vp::Step();
      if (!vp::Check(sink->bda.size() == part + 1, "buffer not passed on")) return;
      const BdaBuffer& o = *sink->bda.back();
      if (!vp::Check(o.GetRows().size() == rows.size(), "rows lost")) return;
      unsigned long h = 0;
      for (size_t r = 0; r < rows.size(); ++r) {
        const unsigned b = rows[r].b;
        const auto u = used(rows[r].t, b, rows[r].time);
        const bool* f = o.GetFlags(r); const F* d = o.GetData(r); const float* w = o.GetWeights(r);
        for (unsigned c = 0; c < freq[b].size(); ++c) {
          bool close = false;
          const bool hit = Match(q, u, freq[b][c], close), was = prior(rows[r].t, b, c);
          if (close) continue;
          fresh += hit && !was;
          for (unsigned p = 0; p < q.ncorr; ++p, ++f, ++d, ++w) {
            h = h * 3 + *f;
            if (!vp::Check(*f == (hit || was), "row " + std::to_string(r) + " baseline " + std::to_string(b) + " channel " + std::to_string(c) + ": " + (*f ? "flagged" : "not flagged") + ", criteria " + (hit ? "match" : "do not match"))) return;
            if (!vp::Check(*d == F(b, rows[r].t) && *w == 1 + b, "visibilities or weights changed")) return;
          }
        }
      }
      vp::Outcome(std::to_string(h));
    }
  }
  step->finish();
  vp::Check(sink->finished == 1 && !sink->after_finish, "finish is not passed on once at the end");
  const long rep = Reported(*step);
  vp::Check(degenerate ? rep == -1 : rep == fresh, "reported " + std::to_string(rep) + " newly flagged points, there are " + std::to_string(fresh));
  vp::Trace();
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const auto crit = Criteria();
  if (vp::Case("shapes")) { std::ostringstream o; o << crit.size() << " criteria"; vp::Outcome(o.str()); }
  const bool th = vp::Thorough();
  // Single criteria in every setting.
  for (auto& c : crit) for (int centre = 0; centre < 4; ++centre) for (int bda = 0; bda < 2; ++bda) for (unsigned ncorr : {1u, 2u, 4u}) for (unsigned nchan : {1u, 2u, 4u}) for (unsigned prior = 0; prior < 4; ++prior) {
    Setup q; q.crit = {&c}; q.centre = centre; q.bda = bda; q.ncorr = ncorr; q.nchan = nchan; q.prior = prior; q.shift = (ncorr + nchan + prior) % 7; q.ntime = 1 + (prior + ncorr) % 3;
    Run(q);
  }
  // Pairs (of different parameters) and triples.
  for (size_t i = 0; i < crit.size(); ++i) for (size_t j = 0; j < crit.size(); ++j) {
    if (i == j || crit[i].key == crit[j].key) continue;
    if (j < i && !th) continue;
    for (int bda = 0; bda < 2; ++bda) { Setup q; q.crit = {&crit[i], &crit[j]}; q.bda = bda; q.centre = (i + j) % 5 == 0 ? 1 + j % 3 : 0; q.shift = (i + 2 * j) % 7; q.prior = (i + j) % 4; Run(q); }
    for (size_t k = j + 1; k < crit.size(); ++k) {
      if (crit[k].key == crit[i].key || crit[k].key == crit[j].key || (!th && (i * 5 + j * 3 + k) % 9)) continue;
      Setup q; q.crit = {&crit[i], &crit[j], &crit[k]}; q.bda = (i + j + k) % 2; q.shift = (i + k) % 7; q.prior = k % 4; q.ncorr = 1 + j % 4; Run(q);
    }
  }
  // No criterion at all.
  for (int centre = 0; centre < 2; ++centre) for (int bda = 0; bda < 2; ++bda) for (unsigned prior = 0; prior < 4; ++prior) { Setup q; q.bda = bda; q.prior = prior; q.centre = 0; q.shift = centre; Run(q); }
  // Refused settings.
  struct Bad { const char *k, *v; bool at_info; };
  for (const Bad& b : {Bad{"uvmrange", "[5]", false}, Bad{"ulambdarange", "[3..4,7]", false}, Bad{"wmrange", "[a..4]", false}, Bad{"vmrange", "[1..]", false}, Bad{"phasecenter", "[nosuchbody]", true}, Bad{"phasecenter", "[1deg,2deg,nosuch]", true}, Bad{"phasecenter", "[1deg,2deg,J2000,4]", true}, Bad{"phasecenter", "[xx,2deg]", true}, Bad{"phasecenter", "[1deg,xx]", true}}) {
    if (!vp::Case(std::string("refused ") + b.k + "=" + b.v)) continue;
    std::shared_ptr<UVWFlagger> st;
    const Shape sh{3, 2, 2};
    const DPInfo info = Info(sh);
    std::string e = vp::Throws([&] { st = std::make_shared<UVWFlagger>(Parset({{"u.ummin", "3"}, {std::string("u.") + b.k, b.v}}), "u.", Step::MsType::kRegular); });
    if (e.empty()) e = vp::Throws([&] { st->setInfo(info); });
    vp::Check(!e.empty(), std::string("accepted ") + b.k + "=" + b.v);
    vp::Step(); vp::Trace();
  }
  return vp::Finish();
}
