// C33: flagging on the median of a window in time and frequency.
#include "vp.h"
#include "step_kit.h"
#include "steps/MadFlagger.h"
using namespace kit;
using dp3::steps::MadFlagger;
typedef std::complex<float> F;

struct Setup {
  unsigned nant = 3, nchan = 3, ncorr = 2, ntime = 3;
  unsigned info_ntime = 0;  // 0: as ntime
  bool autos = true, apply = false;
  std::string fw = "1", tw = "1", th = "1";
  std::vector<int> corrs;
  double blmin = -1, blmax = 1e30;
  int data = 0;
  unsigned long flags = 0;  // bit per (time, channel) for every baseline shifted
  int fmode = 0;
  std::string Text() const {
    std::string s = "nant=" + std::to_string(nant) + " nchan=" + std::to_string(nchan) + " ncorr=" + std::to_string(ncorr) + " ntime=" + std::to_string(ntime) + "/" + std::to_string(info_ntime ? info_ntime : ntime) + (autos ? " autos" : "") + (apply ? " apply" : "") +
                    " fw=" + fw + " tw=" + tw + " th=" + th + " bl=" + vp::Str(blmin) + ".." + vp::Str(blmax) + " data=" + std::to_string(data) + " flags=" + std::to_string(flags) + "/" + std::to_string(fmode) + " corr=";
    for (int c : corrs) s += std::to_string(c) + ",";
    return s;
  }
};
static double Eval(const std::string& e, double bl) {
  if (e == "bl") return bl;
  if (e.rfind("iif(bl<", 0) == 0) {
    double lim; char a[64]; double x, y;
    if (sscanf(e.c_str(), "iif(bl<%lf,%lf,%lf)", &lim, &x, &y) == 3) return bl < lim ? x : y;
    (void)a;
  }
  return atof(e.c_str());
}
static float Med(std::vector<float> v) {
  std::sort(v.begin(), v.end());
  const size_t n = v.size();
  return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2;
}
static float Value(int kind, unsigned t, unsigned b, unsigned c, unsigned p, unsigned nchan, unsigned ncorr) {
  const unsigned k = ((t * 7 + b) * nchan + c) * ncorr + p;
  switch (kind) {
    case 0: return 1 + (k * 2654435761u >> 20) % 11;
    case 1: return (t + c) % 3 == 1 && (b + p) % 2 == 0 ? 40 : 3 + (k % 4);
    case 2: return 5;
    case 3: return 1 + 2 * t + 3 * c + b;
    case 4: return (k * 40503u >> 4) % 5 == 0 ? 25 + b : 2 + (k * 97u >> 3) % 3;
    default: return 1 + (k * 2246822519u >> 18) % 5;
  }
}

static void Run(const Setup& q) {
  if (!vp::CaseF([&] { return q.Text(); })) return;
  Shape s{0, q.nchan, q.ncorr, q.nant};
  AllBaselines(q.nant, q.autos, s.a1, s.a2);
  s.nbl = s.a1.size();
  s.ntime = q.info_ntime ? q.info_ntime : std::max(1u, q.ntime);
  for (unsigned i = 0; i < q.nant; ++i) s.pos.push_back({double(40 * i * i), double(30 * i), 0});
  std::vector<double> len;
  for (unsigned b = 0; b < s.nbl; ++b) { const double dx = 40.0 * (s.a1[b] * s.a1[b] - s.a2[b] * s.a2[b]), dy = 30.0 * (s.a1[b] - s.a2[b]); len.push_back(std::sqrt(dx * dx + dy * dy)); }
  std::vector<std::pair<std::string, std::string>> kv{{"m.freqwindow", q.fw}, {"m.timewindow", q.tw}, {"m.threshold", q.th}};
  if (!q.corrs.empty()) { std::string c = "["; for (int x : q.corrs) c += (c.size() > 1 ? "," : "") + std::to_string(x); kv.emplace_back("m.correlations", c + "]"); }
  if (q.apply) kv.emplace_back("m.applyautocorr", "true");
  if (q.blmin != -1) kv.emplace_back("m.blmin", vp::Str(q.blmin));
  if (q.blmax != 1e30) kv.emplace_back("m.blmax", vp::Str(q.blmax));
  Order(int(q.flags + q.data + q.ntime) % 3); Threads(1 + (q.data + q.nchan + q.ntime) % 4);
  const DPInfo info = Info(s);
  auto step = std::make_shared<MadFlagger>(Parset(kv), "m.");
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  const std::string err = vp::Throws([&] { step->setInfo(info); });
  if (q.apply && !q.autos) { vp::Check(!err.empty(), "applyautocorr without autocorrelations accepted"); vp::Step(); vp::Trace(); return; }
  if (!vp::Check(err.empty(), "refused: " + err)) return;

  // Input.
  const unsigned n = q.ntime, nb = s.nbl, nc = q.nchan, np = q.ncorr;
  auto at = [&](unsigned t, unsigned b, unsigned c, unsigned p) { return ((t * nb + b) * nc + c) * np + p; };
  std::vector<float> amp(n * nb * nc * np); std::vector<char> flag(amp.size());
  std::vector<DPBuffer> in;
  for (unsigned t = 0; t < n; ++t) {
    auto b = Buffer(s, t);
    for (unsigned i = 0; i < nb; ++i) for (unsigned c = 0; c < nc; ++c) for (unsigned p = 0; p < np; ++p) {
      const float v = Value(q.data, t, i, c, p, nc, np);
      const int rot = (t + i + c + p) % 4;
      const F z = rot == 0 ? F(v, 0) : rot == 1 ? F(0, v) : rot == 2 ? F(-v, 0) : F(0, -v);
      b->GetData()(i, c, p) = z;
      amp[at(t, i, c, p)] = v;
      const unsigned k = t * nc + c;
      bool f = (q.flags >> ((k + (q.fmode & 1 ? i : 0)) % (n * nc))) & 1;
      if (q.fmode & 2) f = f && (p == (k + i) % np);
      b->GetFlags()(i, c, p) = f; flag[at(t, i, c, p)] = f;
      b->GetWeights()(i, c, p) = 1 + k;
    }
    for (unsigned i = 0; i < nb; ++i) b->GetUvw()(i, 0) = i + 10.0 * t;
    in.emplace_back(*b);
  }
  const Fields all = Step::kDataField | Step::kFlagsField | Step::kWeightsField | Step::kUvwField;
  for (unsigned t = 0; t < n; ++t) { step->process(std::make_unique<DPBuffer>(in[t], all)); vp::Step(); }
  step->finish();
  vp::Check(sink->finished == 1 && !sink->after_finish, "finish is not passed on once at the end");
  if (!vp::Check(sink->out.size() == n, std::to_string(n) + " time slots in, " + std::to_string(sink->out.size()) + " out")) return;
  for (unsigned t = 0; t < n; ++t) {
    if (!vp::Check(sink->out[t]->GetFlags().size() == nb * nc * np && sink->out[t]->GetData().size() == nb * nc * np && sink->out[t]->GetTime() == in[t].GetTime(), "time slot " + std::to_string(t) + " is out of order or incomplete")) return;
    Kept(in[t]).Check(*sink->out[t], step->getProvidedFields());
  }
  if (!n) { vp::Trace(); return; }

  // Expected flags. For time slots handled before a too long window is known
  // to be too long, either window is fine.
  std::vector<unsigned> corr;
  for (int c : q.corrs) if (unsigned(c) < np) corr.push_back(c);
  if (q.corrs.empty()) for (unsigned p = 0; p < np; ++p) corr.push_back(p);
  if (corr.empty()) corr.push_back(0);
  unsigned maxtw = 0;
  std::vector<unsigned> fws, tws; std::vector<double> ths;
  for (unsigned b = 0; b < nb; ++b) {
    int f = std::min(std::max(1, int(Eval(q.fw, len[b]) + 0.5)), int(nc)), w = std::min(std::max(1, int(Eval(q.tw, len[b]) + 0.5)), int(s.ntime));
    f -= f % 2 == 0; w -= w % 2 == 0;
    fws.push_back(f); tws.push_back(w); ths.push_back(float(Eval(q.th, len[b])));
    maxtw = std::max<unsigned>(maxtw, w);
  }
  const int reduced = n % 2 ? n : n - 1;
  auto mirror = [](int i, int m) { return i < 0 ? -i : i >= m ? 2 * (m - 1) - i : i; };
  std::vector<char> want(nb * nc);  // 0 no, 1 yes, 2 either
  for (unsigned t = 0; t < n; ++t) {
    auto decide = [&](unsigned b, unsigned c, int tw) {
      bool hit = false;
      for (unsigned p : corr) {
        if (flag[at(t, b, c, p)]) return true;
        std::vector<float> v;
        for (int i = -tw / 2; i <= tw / 2; ++i) for (int j = -int(fws[b]) / 2; j <= int(fws[b]) / 2; ++j) {
          const unsigned k = at(mirror(t + i, n), b, mirror(c + j, nc), p);
          if (!flag[k]) v.push_back(amp[k]);
        }
        const float z1 = Med(v);
        for (float& x : v) x = std::fabs(x - z1);
        if (amp[at(t, b, c, p)] > z1 + ths[b] * double(Med(v)) * 1.4826f) { hit = true; break; }
      }
      return hit;
    };
    auto inrange = [&](unsigned b) { return len[b] >= q.blmin && len[b] <= q.blmax; };
    auto expect = [&](bool orig, unsigned b, unsigned c) {
      int tw = tws[b];
      if (n < maxtw && !(orig && t + maxtw / 2 < n)) tw = std::min(tw, reduced);
      if (q.apply ? s.a1[b] != s.a2[b] : !inrange(b)) return false;
      return decide(b, c, tw);
    };
    const DPBuffer& out = *sink->out[t];
    unsigned long h = 0;
    for (unsigned b = 0; b < nb; ++b) for (unsigned c = 0; c < nc; ++c) {
      const bool x = expect(true, b, c), y = expect(false, b, c);
      want[b * nc + c] = x == y ? x : 2;
    }
    for (unsigned b = 0; b < nb; ++b) for (unsigned c = 0; c < nc; ++c) {
      int w = want[b * nc + c];
      if (q.apply && s.a1[b] != s.a2[b] && inrange(b) && !flag[at(t, b, c, 0)]) {
        // Flagged when a present autocorrelation of its antennas is flagged.
        for (unsigned k = 0; k < nb; ++k) if (s.a1[k] == s.a2[k] && (s.a1[k] == s.a1[b] || s.a1[k] == s.a2[b])) {
          const int wk = want[k * nc + c];
          // An autocorrelation that is not fully flagged counts by its first correlation.
          const int fk = wk == 0 ? flag[at(t, k, c, 0)] : wk;
          w = w == 1 || fk == 1 ? 1 : w == 2 || fk == 2 ? 2 : 0;
        }
      }
      for (unsigned p = 0; p < np; ++p) {
        const bool e = w == 1 || flag[at(t, b, c, p)], g = out.GetFlags()(b, c, p);
        h = h * 31 + g + 1;
        if (w != 2 && e != g) { vp::Fail("flag of time slot " + std::to_string(t) + " baseline " + std::to_string(b) + " channel " + std::to_string(c) + " correlation " + std::to_string(p) + " is " + std::to_string(g)); return; }
      }
    }
    vp::Outcome(h);
  }
  vp::Trace();
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  const std::vector<std::string> fws{"1", "2", "3", "5", "iif(bl<100,1,5)", "iif(bl<100,3,1)"}, tws{"1", "3", "4", "5", "9", "iif(bl<100,5,1)", "iif(bl<100,1,3)"}, ths{"1", "0.37", "2.3", "iif(bl<100,0.3,1.7)"};
  const std::vector<std::vector<int>> corrs{{}, {0}, {1}, {3, 0}, {0, 5}, {7}, {2, 1, 0, 3}, {3}};
  // Windows, thresholds and numbers of time slots.
  for (unsigned fw = 0; fw < fws.size(); ++fw) for (unsigned tw = 0; tw < tws.size(); ++tw) for (unsigned ntime = 0; ntime <= (th ? 12u : 9u); ++ntime) for (unsigned nchan = 1; nchan <= 6; ++nchan) for (int extra : {0, 1, 7}) for (int k = 0; k < (th ? 8 : 2); ++k) {
    Setup q; q.fw = fws[fw]; q.tw = tws[tw]; q.ntime = ntime; q.nchan = nchan;
    q.info_ntime = extra ? ntime + extra : 0;
    const unsigned x = fw + 3 * tw + 5 * ntime + 7 * nchan + k;
    q.data = x % 6; q.th = ths[(x / 2) % 4]; q.ncorr = k % 4 == 0 ? 1 : x % 3 == 0 ? 4 : 2;
    q.flags = k % 2 ? 0 : 0x9249249249249249ul >> (x % 5); q.fmode = x % 4;
    q.corrs = corrs[x % corrs.size()];
    q.autos = x % 5 != 0;
    Run(q);
  }
  // All sets of flagged points in a small block.
  for (unsigned nchan = 1; nchan <= 4; ++nchan) for (unsigned ntime = 1; ntime <= 5; ++ntime) {
    if (nchan * ntime > (th ? 12u : 9u)) continue;
    for (unsigned long f = 0; f < 1ul << (nchan * ntime); ++f) for (int m = 0; m < 4; ++m) {
      Setup q; q.nant = 2; q.nchan = nchan; q.ntime = ntime; q.flags = f; q.fmode = m; q.data = (f + m) % 6; q.fw = "3"; q.tw = (f / 3) % 2 ? "3" : "5"; q.th = ths[(f + m) % 4]; q.ncorr = m < 2 ? 1 : 2;
      q.corrs = corrs[(f / 4) % 4];
      Run(q);
    }
  }
  // Correlations and selections of baselines.
  for (unsigned c = 0; c < corrs.size(); ++c) for (unsigned ncorr = 1; ncorr <= 4; ++ncorr) for (int apply = 0; apply < 2; ++apply) for (int autos = 0; autos < 2; ++autos) for (double lo : {-1.0, 0.0, 50.0, 100.0, 130.0}) for (double hi : {0.0, 60.0, 120.0, 1e30}) for (int d = 0; d < (th ? 6 : 3); ++d) for (unsigned nant = 2; nant <= 4; ++nant) {
    Setup q; q.nant = nant; q.ncorr = ncorr; q.corrs = corrs[c]; q.apply = apply; q.autos = autos; q.blmin = lo; q.blmax = hi; q.data = d; q.fw = d % 2 ? "3" : "1"; q.tw = "3"; q.th = "0.5"; q.ntime = 3 + d % 2; q.flags = d == 1 ? 0x124 : 0; q.fmode = d;
    Run(q);
  }
  return vp::Finish();
}
