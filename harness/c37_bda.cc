// C37: baseline-dependent averaging, and expanding it again.
#include "vp.h"
#include "step_kit.h"
#include "steps/BDAAverager.h"
#include "steps/BdaExpander.h"
using namespace kit;
using dp3::steps::BdaAverager;
using dp3::steps::BdaExpander;
typedef std::complex<float> F;

struct Setup {
  double timebase = 0, freqbase = 0, maxinterval = 0; int minchan = 1;
  unsigned nchan = 3, ntime = 3, ncorr = 2; int flags = 0, weights = 0; bool use = true, extra = false, expand = false; int requests = 0, order = 0;
  std::string Text() const {
    auto n = [](double x) { std::ostringstream o; o << x; return o.str(); };
    return "timebase=" + n(timebase) + " frequencybase=" + n(freqbase) + " maxinterval=" + n(maxinterval) + " minchannels=" + n(minchan) + " nchan=" + n(nchan) + " slots=" + n(ntime) + " ncorr=" + n(ncorr) + " flags=" + n(flags) + " weights=" + n(weights) + (use ? "" : " ignore") + (extra ? " extra" : "") + (expand ? " expand" : "") + " requests=" + n(requests) + " order=" + n(order);
  }
};
static bool Flag(int mode, unsigned t, unsigned b, unsigned c, unsigned p) {
  switch (mode) {
    case 1: return true;
    case 2: return b % 2 == 1;
    case 3: return (t * 7 + b * 3 + c * 5 + p) % 3 == 0;
    case 4: return t % 2 == 0 || c == 1;
    case 5: return (t + c) % 4 != 3;
    case 6: return p == 0 && (t + b) % 2;
    default: return false;
  }
}
static float Weight(int mode, unsigned t, unsigned b, unsigned c, unsigned p) { return mode == 0 ? 1 : mode == 1 ? 0.5f + (t * 3 + b + c * 2 + p) % 5 : (t + b + c + p) % 3 ? 2 + c : 0; }
static F Vis(unsigned t, unsigned b, unsigned c, unsigned p) { return F(float((t * 13 + b * 7 + c * 3 + p) % 19) - 6, float((t * 5 + b * 11 + c * 2 + p * 3) % 23) - 9); }
static F Vis2(unsigned t, unsigned b, unsigned c, unsigned p) { return F(2.0f * b + c, float(t) - p); }
static double Uvw(unsigned t, unsigned b, unsigned k) { return t * 1.5 + b * 10 - k * 7; }

struct Row { double time, interval, exposure; unsigned bl, n; std::vector<std::complex<double>> data, extra; std::vector<double> weights; std::vector<bool> flags; double uvw[3]; unsigned t0, t1; };

static void Run(const Setup& q) {
  if (!vp::CaseF([&] { return q.Text(); })) return;
  Shape s{0, q.nchan, q.ncorr, 4};
  s.ntime = std::max(1u, q.ntime);
  s.interval = 2;
  s.pos = {{{0, 0, 0}}, {{10, 0, 0}}, {{10, 60, 0}}, {{10, 20, 90}}};
  AllBaselines(4, true, s.a1, s.a2);
  if (q.order == 1) { std::reverse(s.a1.begin(), s.a1.end()); std::reverse(s.a2.begin(), s.a2.end()); }
  if (q.order == 2) { s.a1 = {2, 0}; s.a2 = {3, 1}; }
  if (q.order == 3) { s.a1 = {0, 1, 3}; s.a2 = {3, 1, 1}; }
  s.nbl = s.a1.size();
  const DPInfo info = Info(s);
  std::vector<std::pair<std::string, std::string>> kv;
  auto n = [](double x) { std::ostringstream o; o << x; return o.str(); };
  if (q.timebase) kv.emplace_back("b.timebase", n(q.timebase));
  if (q.freqbase) kv.emplace_back("b.frequencybase", n(q.freqbase));
  if (q.maxinterval) kv.emplace_back("b.maxinterval", n(q.maxinterval));
  if (q.minchan != 1) kv.emplace_back("b.minchannels", n(q.minchan));
  auto avg = std::make_shared<BdaAverager>(Parset(kv), "b.", q.use);
  auto sink = std::make_shared<Sink>();
  auto expander = std::make_shared<BdaExpander>("e.");
  auto expanded = std::make_shared<Sink>();
  avg->setNextStep(sink);
  const std::string err = vp::Throws([&] { avg->setInfo(info); });
  if (!vp::Check(err.empty(), "refused: " + err)) return;
  // The averaging of each baseline.
  std::vector<unsigned> tf(s.nbl), nch(s.nbl);
  for (unsigned b = 0; b < s.nbl; ++b) {
    double len = 0;
    for (int k = 0; k < 3; ++k) len += std::pow(s.pos[s.a1[b]][k] - s.pos[s.a2[b]][k], 2);
    len = std::sqrt(len);
    double f = std::floor(q.timebase / std::max(len, 0.1));
    if (q.maxinterval > 0) f = std::min(f, std::floor(q.maxinterval / s.interval));
    tf[b] = std::max(f, 1.0);
    nch[b] = q.nchan;
    if (q.freqbase > 0) nch[b] = std::min<double>(q.nchan, std::max({std::ceil(len / q.freqbase * q.nchan), 1.0, double(q.minchan)}));
  }
  const DPInfo& out = sink->getInfoIn();
  if (!vp::Check(out.ntimeAvgs() == tf, "time averaging factors in the meta data")) return;
  double saved = 0;
  for (unsigned b = 0; b < s.nbl; ++b) {
    if (!vp::Check(out.chanFreqs(b).size() == nch[b] && out.chanWidths(b).size() == nch[b], "number of channels of a baseline")) return;
    saved += double(nch[b]) / q.nchan / tf[b];
    for (unsigned c = 0; c < nch[b]; ++c) {
      const unsigned c0 = c * q.nchan / nch[b], c1 = (c + 1) * q.nchan / nch[b];
      vp::Check(Near(out.chanWidths(b)[c], s.width * (c1 - c0), 1e-12) && Near(out.chanFreqs(b)[c], s.freq0 + s.width * (c0 + c1 - 1) / 2.0, 1e-12), "channel frequency or width of a baseline");
    }
  }
  vp::Check(out.isBDAIntervalFactorInteger() && out.nbaselines() == s.nbl && out.ncorr() == q.ncorr, "meta data");
  vp::Check(Near(avg->TotalAveragingFactor(), s.nbl / saved, 1e-5), "total averaging factor");
  vp::Check(avg->outputs() == Step::MsType::kBda && avg->accepts(Step::MsType::kRegular) && !avg->accepts(Step::MsType::kBda), "kinds of data");
  size_t max_row = 0, default_pool = 0; double rel = 0;
  for (unsigned b = 0; b < s.nbl; ++b) max_row = std::max<size_t>(max_row, nch[b] * q.ncorr), rel += double(nch[b]) / tf[b];
  default_pool = std::max<size_t>(max_row, std::ceil(rel - 1e-4) * q.ncorr);
  std::vector<size_t> req;
  if (q.requests == 1) req = {max_row, max_row + 1, max_row};
  if (q.requests == 2) req = {max_row * s.nbl * 2};
  if (q.requests == 3) req = {max_row * 2, 1000, max_row};
  for (size_t r : req) avg->PushBufferSizeRequest(r);
  // Data and reference rows.
  const Fields want = avg->getRequiredFields();
  std::vector<Row> rows;
  std::vector<Row> open(s.nbl);
  std::vector<unsigned> count(s.nbl, 0);
  auto close = [&](unsigned b) {
    Row& r = open[b];
    r.time = (r.t0 + r.t1) / 2.0 * s.interval + s.first_time;
    r.interval = (r.t1 - r.t0 + 1) * s.interval;
    for (int k = 0; k < 3; ++k) r.uvw[k] /= count[b];
    for (size_t e = 0; e < r.data.size(); ++e) if (r.weights[e] > 0) { r.data[e] /= r.weights[e]; r.extra[e] /= r.weights[e]; }
    rows.push_back(r);
    count[b] = 0;
  };
  for (unsigned t = 0; t < q.ntime; ++t) {
    auto buf = Buffer(s, t);
    buf->SetExposure(s.interval * (t % 2 ? 0.5 : 1));
    if (q.extra) { buf->AddData("more"); buf->GetData("more").resize({s.nbl, s.nchan, s.ncorr}); }
    for (unsigned b = 0; b < s.nbl; ++b) {
      Row& r = open[b];
      if (count[b]++ == 0) { r = Row(); r.bl = b; r.n = nch[b]; r.t0 = t; r.data.resize(r.n * q.ncorr); r.extra.resize(r.n * q.ncorr); r.weights.resize(r.n * q.ncorr); r.flags.assign(r.n * q.ncorr, true); r.exposure = 0; r.uvw[0] = r.uvw[1] = r.uvw[2] = 0; }
      r.t1 = t;
      r.exposure += buf->GetExposure();
      for (int k = 0; k < 3; ++k) { buf->GetUvw()(b, k) = Uvw(t, b, k); r.uvw[k] += Uvw(t, b, k); }
      for (unsigned o = 0; o < nch[b]; ++o) for (unsigned c = o * q.nchan / nch[b]; c < (o + 1) * q.nchan / nch[b]; ++c) for (unsigned p = 0; p < q.ncorr; ++p) {
        buf->GetData()(b, c, p) = Vis(t, b, c, p);
        buf->GetFlags()(b, c, p) = Flag(q.flags, t, b, c, p);
        buf->GetWeights()(b, c, p) = Weight(q.weights, t, b, c, p);
        if (q.extra) buf->GetData("more")(b, c, p) = Vis2(t, b, c, p);
        if (q.use && Flag(q.flags, t, b, c, p)) continue;
        const double w = q.use ? Weight(q.weights, t, b, c, p) : 1;
        const size_t e = o * q.ncorr + p;
        r.data[e] += std::complex<double>(Vis(t, b, c, p)) * w; r.extra[e] += std::complex<double>(Vis2(t, b, c, p)) * w; r.weights[e] += w; r.flags[e] = false;
      }
    }
    Strip(*buf, want);
    avg->process(std::move(buf));
    vp::Step();
    for (unsigned b = 0; b < s.nbl; ++b) if (count[b] == tf[b]) close(b);
  }
  avg->finish();
  for (unsigned b = 0; b < s.nbl; ++b) if (count[b]) close(b);
  vp::Check(sink->finished == 1 && !sink->after_finish && sink->out.empty(), "next step not finished once, at the end");
  // Rows in the order in which they get complete, numbered.
  size_t i = 0, nb = 0;
  std::string seen;
  for (auto& buf : sink->bda) {
    size_t elements = 0;
    vp::Check(!buf->GetRows().empty(), "an empty buffer is passed on");
    vp::Check(buf->GetDataNames().size() == (q.extra ? 2 : 1) && (!q.extra || buf->HasData("more")), "other named visibilities");
    for (size_t k = 0; k < buf->GetRows().size(); ++k, ++i) {
      const BdaBuffer::Row& g = buf->GetRows()[k];
      if (!vp::Check(i < rows.size(), "more rows than there should be")) return;
      const Row& r = rows[i];
      elements += r.n * q.ncorr;
      if (!vp::Check(g.baseline_nr == r.bl && g.n_channels == r.n && g.n_correlations == q.ncorr, "row " + std::to_string(i) + ": another baseline or shape")) return;
      vp::Check(g.row_nr == i, "row number");
      vp::Check(Near(g.time, r.time, 1e-14, 1e-9) && Near(g.interval, r.interval, 1e-12) && Near(g.exposure, r.exposure, 1e-12), "time, interval or exposure of row " + std::to_string(i));
      for (int x = 0; x < 3; ++x) vp::Check(Near(g.uvw[x], r.uvw[x], 1e-9), "uvw of row " + std::to_string(i));
      if (!vp::Check(buf->GetData(k) && buf->GetFlags(k) && buf->GetWeights(k), "a field is missing")) return;
      for (size_t e = 0; e < r.data.size(); ++e) {
        vp::Check(Near(buf->GetData(k)[e], r.data[e]), "visibility of row " + std::to_string(i));
        vp::Check(!q.extra || Near(buf->GetData(k, "more")[e], r.extra[e]), "named visibility of row " + std::to_string(i));
        vp::Check(Near(buf->GetWeights(k)[e], r.weights[e]), "weight of row " + std::to_string(i));
        vp::Check(buf->GetFlags(k)[e] == r.flags[e], "flag of row " + std::to_string(i));
      }
    }
    const size_t pool = nb < req.size() ? req[nb] : default_pool, pool_max = nb < req.size() ? req[nb] : std::max<size_t>(max_row, std::ceil(rel + 1e-4) * q.ncorr);
    vp::Check(elements <= pool_max, "a buffer is larger than requested");
    // Only passed on when the next row does not fit, or at the end.
    vp::Check(i == rows.size() || elements + rows[i].n * q.ncorr > pool, "a buffer is passed on before it is full");
    ++nb;
  }
  if (!vp::Check(i == rows.size(), "rows are missing")) return;
  vp::Trace();
  vp::Outcome(std::to_string(rows.size()) + "/" + std::to_string(nb) + "/" + std::to_string(default_pool) + q.Text().substr(0, 40));
  if (!q.expand) return;

  // Expanding gives back all time slots, with the averages spread out.
  expander->setNextStep(expanded);
  const std::string err2 = vp::Throws([&] { expander->setInfo(out); });
  if (!vp::Check(err2.empty(), "the expander refuses: " + err2)) return;
  const DPInfo& xinfo = expanded->getInfoIn();
  const unsigned X = *std::max_element(nch.begin(), nch.end());  // the finest resolution that is left
  bool exact = true;
  for (unsigned b = 0; b < s.nbl; ++b) for (unsigned o = 1; o < nch[b]; ++o) exact &= (o * q.nchan / nch[b] * X) % q.nchan == 0;
  if (!vp::Check(xinfo.nchan() == X && xinfo.chanFreqs().size() == X && xinfo.chanWidths().size() == X, "expanded: number of channels " + std::to_string(xinfo.nchan()))) return;
  const double xwidth = s.width * q.nchan / X;
  for (unsigned c = 0; c < X; ++c) vp::Check(Near(xinfo.chanFreqs()[c], s.freq0 - s.width / 2 + xwidth * (c + 0.5), 1e-12) && Near(xinfo.chanWidths()[c], xwidth, 1e-12), "expanded: channel frequencies");
  for (auto& b : sink->bda) { auto copy = std::make_unique<BdaBuffer>(*b, avg->getProvidedFields()); expander->process(std::move(copy)); vp::Step(); }
  expander->finish();
  vp::Check(expanded->finished == 1 && !expanded->after_finish, "expanded: next step not finished once, at the end");
  if (!vp::Check(expanded->out.size() == q.ntime, "expanded: " + std::to_string(expanded->out.size()) + " time slots")) return;
  std::vector<double> total(s.nbl * q.ncorr, 0), given(s.nbl * q.ncorr, 0);
  for (const Row& r : rows) {
    for (unsigned o = 0; o < r.n; ++o) for (unsigned p = 0; p < q.ncorr; ++p) given[r.bl * q.ncorr + p] += r.weights[o * q.ncorr + p];
    for (unsigned t = r.t0; t <= r.t1; ++t) {
      const DPBuffer& b = *expanded->out[t];
      for (int k = 0; k < 3; ++k) vp::Check(Near(b.GetUvw()(r.bl, k), r.uvw[k], 1e-9), "expanded: uvw");
      unsigned last = 0;
      if (!vp::Check(b.GetData().shape(0) == s.nbl && b.GetData().shape(1) == X && b.GetData().shape(2) == q.ncorr, "expanded: shape")) return;
      for (unsigned c = 0; c < X; ++c) {
        // Averaged channels that the expanded channel [c, c+1) * N / X touches.
        bool found = false;
        for (unsigned o = last; o < r.n && !found; ++o) {
          const unsigned c0 = o * q.nchan / r.n, c1 = (o + 1) * q.nchan / r.n;
          if (c1 * X <= c * q.nchan || c0 * X >= (c + 1) * q.nchan) continue;
          bool same = true;
          for (unsigned p = 0; p < q.ncorr; ++p) { const size_t e = o * q.ncorr + p; same &= Near(b.GetData()(r.bl, c, p), r.data[e]) && b.GetFlags()(r.bl, c, p) == r.flags[e]; }
          if (!same && exact) break;
          if (!same) continue;
          found = true; last = o;
          const unsigned share = (r.t1 - r.t0 + 1) * (c1 - c0) * X / q.nchan;
          for (unsigned p = 0; p < q.ncorr; ++p) vp::Check(!exact || Near(b.GetWeights()(r.bl, c, p), r.weights[o * q.ncorr + p] / share), "expanded: weight");
        }
        vp::Check(found, "expanded: visibility or flag is not that of the averaged channel");
        for (unsigned p = 0; p < q.ncorr; ++p) total[r.bl * q.ncorr + p] += b.GetWeights()(r.bl, c, p);
      }
    }
  }
  for (size_t e = 0; e < total.size(); ++e) vp::Check((!exact && total[e] <= given[e] * (1 + 1e-4)) || Near(total[e], given[e], 1e-4), "expanded: total weight");
  for (unsigned t = 0; t < q.ntime; ++t) vp::Check(Near(expanded->out[t]->GetTime(), s.first_time + t * s.interval, 1e-14, 1e-6) && expanded->out[t]->GetData().shape(0) == s.nbl, "expanded: time or shape");
  if (!exact || X != q.nchan) return;
  // Averaging with the same factors gives the same rows again.
  auto again = std::make_shared<BdaAverager>(Parset({}), "c.");
  auto sink2 = std::make_shared<Sink>();
  again->setNextStep(sink2);
  again->SetAveragingParameters(out);
  const std::string err3 = vp::Throws([&] { again->setInfo(xinfo); });
  if (!vp::Check(err3.empty(), "averaging again is refused: " + err3)) return;
  vp::Check(sink2->getInfoIn().ntimeAvgs() == tf, "averaging again: time averaging factors");
  for (auto& b : sink->bda) again->PushBufferSizeRequest(b->GetNumberOfElements());
  for (auto& b : expanded->out) { again->process(std::move(b)); vp::Step(); }
  again->finish();
  size_t j = 0;
  vp::Check(sink2->bda.size() == sink->bda.size(), "averaging again: number of buffers");
  for (auto& b : sink2->bda) for (size_t k = 0; k < b->GetRows().size(); ++k, ++j) {
    const BdaBuffer::Row& g = b->GetRows()[k];
    if (!vp::Check(j < rows.size() && g.baseline_nr == rows[j].bl && g.n_channels == rows[j].n && g.row_nr == j, "averaging again: another row")) return;
    vp::Check(Near(g.time, rows[j].time, 1e-14, 1e-6) && Near(g.interval, rows[j].interval, 1e-9), "averaging again: time or interval");
    for (size_t e = 0; e < rows[j].data.size(); ++e) {
      vp::Check(rows[j].weights[e] == 0 || Near(b->GetData(k)[e], rows[j].data[e], 1e-4, 1e-5), "averaging again: visibility");
      vp::Check(Near(b->GetWeights(k)[e], rows[j].weights[e], 1e-4), "averaging again: weight");
      vp::Check(b->GetFlags(k)[e] == rows[j].flags[e], "averaging again: flag");
    }
  }
  vp::Check(j == rows.size(), "averaging again: rows are missing");
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool T = vp::Thorough();
  const std::vector<double> tb = T ? std::vector<double>{0, 15, 25, 65, 95, 200, 450, 1e5} : std::vector<double>{0, 25, 65, 200, 1e5};
  const std::vector<double> fb = T ? std::vector<double>{0, 15, 45, 95, 150, 400, 1e4} : std::vector<double>{0, 15, 45, 150, 1e4};
  unsigned k = 0;
  for (double a : tb) for (double b : fb) for (double m : {0., 1., 5., 6.}) for (int mc : {0, 1, 2, 9}) for (unsigned nchan : T ? std::vector<unsigned>{1, 2, 3, 4, 5, 6, 7, 8, 9} : std::vector<unsigned>{1, 2, 3, 5, 6}) for (unsigned nt : T ? std::vector<unsigned>{0, 1, 2, 3, 4, 5, 6, 8, 11} : std::vector<unsigned>{0, 1, 3, 4, 7}) {
    if (m && a == 0) continue;
    if (mc != 1 && b == 0) continue;
    for (int f = 0; f < (T ? 7 : 2); ++f) {
      ++k;
      Setup q; q.timebase = a; q.freqbase = b; q.maxinterval = m; q.minchan = mc; q.nchan = nchan; q.ntime = nt;
      q.flags = T ? f : (f * 3 + k) % 7; q.weights = k % 3; q.ncorr = k % 5 == 0 ? 4 : 1 + k % 2; q.use = k % 4 != 3; q.extra = k % 3 == 1; q.expand = nt > 0; q.requests = k % 7 < 4 ? 0 : k % 7 - 3; q.order = k % 6 < 3 ? 0 : k % 6 - 2;
      Run(q);
    }
  }
  for (double a : {0., 65., 200.}) for (double b : {0., 45.}) for (unsigned nt : {1, 2, 5, 6}) for (int f = 0; f < 7; ++f) for (int w = 0; w < 3; ++w) for (int r = 0; r < 4; ++r) for (int o = 0; o < 4; ++o) for (int x = 0; x < 2; ++x) for (int u = 0; u < 2; ++u) {
    Setup q; q.timebase = a; q.freqbase = b; q.ntime = nt; q.flags = f; q.weights = w; q.requests = r; q.order = o; q.extra = x; q.use = u; q.expand = true;
    Run(q);
  }
  return vp::Finish();
}
