// C29: steps that change the visibilities of a time slot: removing Stokes
// parameters, scaling with station polynomials, adding or subtracting a named
// buffer.
#include "vp.h"
#include "step_kit.h"
#include "steps/Combine.h"
#include "steps/NullStokes.h"
#include "steps/ScaleData.h"
using namespace kit;
using namespace dp3::steps;
typedef std::complex<double> Z;
typedef std::complex<float> F;

static void Fill(const Shape& s, DPBuffer& b, unsigned seed) {
  unsigned k = seed;
  for (auto& v : b.GetData()) { v = F(float(int(k * 37 % 41) - 20), float(int(k * 17 % 29) - 14)); ++k; }
  for (auto& w : b.GetWeights()) w = 0.5f + (k++ % 3);
  for (auto f = b.GetFlags().begin(); f != b.GetFlags().end(); ++f) *f = k++ % 3 == 0;
  for (auto& u : b.GetUvw()) u = 3.0 * k++;
}
// Sends the buffer through the step, with all fields and with only the
// required ones, and returns what came out with all fields.
static std::unique_ptr<DPBuffer> Send(const std::shared_ptr<Step>& step, Sink& sink, const DPBuffer& in) {
  const Fields all = Step::kDataField | Step::kFlagsField | Step::kWeightsField | Step::kUvwField;
  sink.out.clear();
  step->process(std::make_unique<DPBuffer>(in, all));
  if (!vp::Check(sink.out.size() == 1, "one time slot in, " + std::to_string(sink.out.size()) + " out")) return nullptr;
  auto r = std::move(sink.out[0]);
  Kept(in).Check(*r, step->getProvidedFields());
  auto bare = std::make_unique<DPBuffer>(in, all);
  Strip(*bare, step->getRequiredFields());
  sink.out.clear();
  step->process(std::move(bare));
  if (!vp::Check(sink.out.size() == 1, "one time slot in, " + std::to_string(sink.out.size()) + " out")) return nullptr;
  vp::Check(std::equal(r->GetData().begin(), r->GetData().end(), sink.out[0]->GetData().begin(), sink.out[0]->GetData().end()), "result depends on a field that is not required");
  vp::Step(2);
  return r;
}

static void Stokes(bool th) {
  static const F grid[] = {{0, 0}, {1.5f, 0}, {-2, 1}, {0, 3}, {-4.25f, -0.5f}};
  for (int m = 0; m < 16; ++m) for (unsigned nbl = 1; nbl <= 3; ++nbl) for (unsigned nchan = 1; nchan <= 3; ++nchan) {
    if (!vp::CaseF([&] { return "nullstokes modify=" + std::to_string(m) + " " + std::to_string(nbl) + "x" + std::to_string(nchan); })) continue;
    Shape s{nbl, nchan, 4};
    std::vector<std::pair<std::string, std::string>> kv;
    for (int i = 0; i < 4; ++i) if ((m >> i & 1) || i % 2) kv.emplace_back(std::string("n.modify_") + "iquv"[i], (m >> i & 1) ? "true" : "false");
    auto step = std::make_shared<NullStokes>(Parset(kv), "n.");
    auto sink = std::make_shared<Sink>();
    step->setNextStep(sink);
    step->setInfo(Info(s));
    unsigned code = 0;
    while (code < 625) {
      auto b = Buffer(s, 0);
      Fill(s, *b, code);
      const unsigned start = code;
      for (unsigned i = 0; i < nbl * nchan; ++i, ++code) { unsigned c = code % 625; for (int p = 0; p < 4; ++p, c /= 5) b->GetData().data()[4 * i + p] = grid[c % 5]; }
      auto r = Send(step, *sink, *b);
      if (!r) return;
      for (unsigned i = 0; i < nbl * nchan; ++i) {
        const F* in = b->GetData().data() + 4 * i; const F* out = r->GetData().data() + 4 * i;
        const F si[4] = {in[0] + in[3], in[0] - in[3], in[1] + in[2], in[1] - in[2]}, so[4] = {out[0] + out[3], out[0] - out[3], out[1] + out[2], out[1] - out[2]};
        for (int k = 0; k < 4; ++k)
          if (!Near(so[k], (m >> k & 1) ? Z(0) : Z(si[k]))) { vp::Fail(std::string("Stokes ") + "IQUV"[k] + " of input " + std::to_string((start + i) % 625) + " is " + vp::Str(so[k]) + ", was " + vp::Str(si[k])); return; }
        vp::Outcome(vp::Hash(out, 4 * sizeof(F), m));
      }
    }
    step->finish();
    vp::Check(sink->finished == 1, "finish is not passed on");
    vp::Trace();
  }
  // Stokes parameters need all four correlations.
  for (unsigned nc = 1; nc <= 3; ++nc) if (vp::Case("nullstokes with " + std::to_string(nc) + " correlations")) {
    NullStokes n(Parset({{"modify_q", "true"}}), "");
    vp::Check(!vp::Throws([&] { n.setInfo(Info(Shape{2, 3, nc})); }).empty(), "accepted");
    vp::Step(); vp::Trace();
  }
}

// Shell pattern with * ? [] and {,}, as used for station names.
static bool Matches(const char* p, const char* s) {
  if (*p == 0) return *s == 0;
  if (*p == '*') return Matches(p + 1, s) || (*s && Matches(p, s + 1));
  if (*p == '[') { const char* e = strchr(p, ']'); return *s && memchr(p + 1, *s, e - p - 1) && Matches(e + 1, s + 1); }
  if (*p == '{') {
    const char* e = strchr(p, '}'); std::string all(p + 1, e); size_t at = 0;
    while (at <= all.size()) { size_t c = std::min(all.find(',', at), all.size()); if (Matches((all.substr(at, c - at) + (e + 1)).c_str(), s)) return true; at = c + 1; }
    return false;
  }
  return *s && (*p == '?' || *p == *s) && Matches(p + 1, s + 1);
}

static void Scale(bool th) {
  struct P { const char* text; std::vector<double> c; };
  static const std::vector<P> coeffs = {{"[4]", {4}}, {"[1, 0.5]", {1, 0.5}}, {"[0,0,1e-3]", {0, 0, 1e-3}}, {"[200,-3,0.0125,1e-5]", {200, -3, 0.0125, 1e-5}}, {"9", {9}}};
  static const char* patterns[] = {"*", "ant0", "ant?", "ant[12]", "{ant0,ant2}", "x*", "*1"};
  static const std::vector<double> lba{1.02306755e+06, -7.31426342e+04, 2.05537660e+03, -2.61310245e+01, 1.26031118e-01}, hba{2.35166277e+05, -6.20793100e+03, 6.22685124e+01, -2.78418826e-01, 4.67920578e-04};
  const int np = 7, nc = 5, combos = 1 + np * nc + np * nc * np * nc;
  static const char* sets[] = {"LBA_INNER", "HBA_DUAL", "", "LBA"};
  for (int combo = 0; combo < combos; ++combo) for (int set = 0; set < 4; ++set) for (int bda = 0; bda < 3; ++bda) {
    if (combo > np * nc && !th && (combo * 7 + set * 3 + bda) % 6) continue;
    if (!vp::CaseF([&] { return "scaledata combination " + std::to_string(combo) + " antennas " + sets[set] + " bda" + std::to_string(bda); })) continue;
    std::vector<std::pair<int, int>> use;
    if (combo > np * nc) { const int k = combo - 1 - np * nc; use = {{k % np, k / np % nc}, {k / (np * nc) % np, k / (np * nc * np)}}; }
    else if (combo) use = {{(combo - 1) % np, (combo - 1) / np}};
    std::string st = "[", cs = "[";
    for (auto& u : use) { if (st.size() > 1) { st += ","; cs += ","; } st += std::string("'") + patterns[u.first] + "'"; cs += std::string("'") + coeffs[u.second].text + "'"; }
    std::vector<std::pair<std::string, std::string>> kv = {{"s.scalesize", "false"}};
    if (combo) { kv.emplace_back("s.stations", st + "]"); kv.emplace_back("s.coeffs", cs + "]"); }
    const unsigned ncorr = combo % 3 == 2 ? 4 : 1 + combo % 3;
    Shape s{6, 1 + unsigned(combo + set) % 4, ncorr, 3};
    s.freq0 = set % 2 ? 150e6 : 60e6;
    s.width = 0.7e6;
    auto step = std::make_shared<ScaleData>(Parset(kv), "s.", bda ? Step::MsType::kBda : Step::MsType::kRegular);
    vp::Check(step->accepts(bda ? Step::MsType::kBda : Step::MsType::kRegular) && !step->accepts(bda ? Step::MsType::kRegular : Step::MsType::kBda), "accepts the wrong kind of data");
    auto sink = std::make_shared<Sink>();
    step->setNextStep(sink);
    DPInfo info(ncorr, s.nchan, sets[set]);
    { const DPInfo i = Info(s); info.setAntennas(i.antennaNames(), i.antennaDiam(), i.antennaPos(), i.getAnt1(), i.getAnt2()); info.setTimes(s.first_time, s.first_time + 6, 2); }
    // Per baseline channels: baseline b averages its channels by 1 or nchan.
    std::vector<std::vector<double>> freqs(6), widths(6);
    for (unsigned b = 0; b < 6; ++b) {
      if (bda == 2 && (b + combo) % 3 == 1) { freqs[b] = {s.freq0 + (s.nchan - 1) / 2.0 * s.width}; widths[b] = {s.width * s.nchan}; }
      else for (unsigned c = 0; c < s.nchan; ++c) { freqs[b].push_back(s.freq0 + c * s.width); widths[b].push_back(s.width); }
    }
    if (bda == 2) { auto f = freqs; auto w = widths; info.setChannels(std::move(f), std::move(w)); }
    else { auto f = freqs[0]; auto w = widths[0]; info.setChannels(std::move(f), std::move(w)); }
    const std::string err = vp::Throws([&] { step->setInfo(info); });
    if (!vp::Check(err.empty(), "refused: " + err)) continue;
    auto station = [&](int a, double f) {
      const std::vector<double>* c = (std::string(sets[set]).substr(0, 3) == "LBA") ? &lba : &hba;
      for (auto u = use.rbegin(); u != use.rend(); ++u) if (Matches(patterns[u->first], ("ant" + std::to_string(a)).c_str())) c = &coeffs[u->second].c;
      double v = 0; for (size_t k = c->size(); k-- > 0;) v = v * f / 1e6 + (*c)[k];
      return v;
    };
    auto factor = [&](unsigned b, unsigned ch) { return std::sqrt(station(info.getAnt1()[b], freqs[b][ch]) * station(info.getAnt2()[b], freqs[b][ch])); };
    auto same = [&](F out, F in, double f) {
      if (std::isnan(f)) return true;   // polynomials of opposite sign
      return std::abs(Z(out) - Z(in) * f) <= 1e-4 * std::abs(Z(in) * f) + 1e-6;
    };
    if (!bda) {
      auto b = Buffer(s, 0);
      Fill(s, *b, combo);
      auto r = Send(step, *sink, *b);
      if (!r) continue;
      for (unsigned i = 0; i < 6; ++i) for (unsigned c = 0; c < s.nchan; ++c) for (unsigned p = 0; p < ncorr; ++p)
        if (!same(r->GetData()(i, c, p), b->GetData()(i, c, p), factor(i, c))) { vp::Fail("baseline " + std::to_string(i) + " channel " + std::to_string(c) + ": " + vp::Str(r->GetData()(i, c, p)) + " for " + vp::Str(b->GetData()(i, c, p)) + " x " + vp::Str(factor(i, c))); i = 6; break; }
      vp::Outcome(vp::Hash(r->GetData().data(), r->GetData().size() * sizeof(F)));
    } else {
      auto b = std::make_unique<BdaBuffer>(1000, Step::kDataField | Step::kFlagsField | Step::kWeightsField);
      std::vector<std::vector<F>> in;
      for (unsigned k = 0; k < 9; ++k) {
        const unsigned bl = (k * 5 + combo) % 6; const size_t n = freqs[bl].size() * ncorr;
        std::vector<F> d(n); std::vector<float> w(n, 0.5f + k); bool f[64]; double uvw[3] = {1. * k, 2, 3};
        for (size_t i = 0; i < n; ++i) { d[i] = F(1 + (k * 31 + i * 7) % 11, -3 + int(i)); f[i] = (i + k) % 2; }
        b->AddRow(100 + k, 2, 2, bl, freqs[bl].size(), ncorr, k, d.data(), f, w.data(), uvw);
        in.push_back(d);
      }
      step->process(std::move(b));
      if (!vp::Check(sink->bda.size() == 1 && sink->bda[0]->GetRows().size() == 9, "the rows are not passed on")) continue;
      for (unsigned k = 0; k < 9; ++k) {
        const BdaBuffer::Row& row = sink->bda[0]->GetRows()[k];
        for (size_t i = 0; i < in[k].size(); ++i) {
          if (!same(sink->bda[0]->GetData(k)[i], in[k][i], factor(row.baseline_nr, i / ncorr))) { vp::Fail("row " + std::to_string(k) + " value " + std::to_string(i) + ": " + vp::Str(sink->bda[0]->GetData(k)[i]) + " for " + vp::Str(in[k][i]) + " x " + vp::Str(factor(row.baseline_nr, i / ncorr))); break; }
          if (sink->bda[0]->GetWeights(k)[i] != 0.5f + k || sink->bda[0]->GetFlags(k)[i] != bool((i + k) % 2)) { vp::Fail("weights or flags changed"); break; }
        }
        vp::Outcome(vp::Hash(sink->bda[0]->GetData(k), in[k].size() * sizeof(F)));
      }
    }
    vp::Step(2);
    step->finish();
    vp::Check(sink->finished == 1, "finish is not passed on");
    vp::Trace();
  }
  if (vp::Case("scaledata settings that do not fit")) {
    vp::Check(!vp::Throws([&] { ScaleData d(Parset({{"stations", "[a,b]"}, {"coeffs", "['[1]']"}}), "", Step::MsType::kRegular); }).empty(), "lists of different length accepted");
    vp::Check(!vp::Throws([&] { ScaleData d(Parset({{"stations", "[a]"}, {"coeffs", "['[]']"}, {"scalesize", "false"}}), "", Step::MsType::kRegular); d.setInfo(Info(Shape{2, 2, 2})); }).empty(), "empty coefficients accepted");
    vp::Step(2); vp::Trace();
  }
}

static void Sum(bool th) {
  static const char* names[] = {"model", "x.y", "a"};
  for (int op = 0; op < 3; ++op) for (int bda = 0; bda < 2; ++bda) for (int present = 0; present < 8; ++present) for (int pick = 0; pick < 3; ++pick) for (unsigned nbl = 1; nbl <= 3; ++nbl) for (unsigned nchan = 1; nchan <= 3; ++nchan) for (unsigned nc : {1u, 2u, 4u}) {
    if (!vp::CaseF([&] { return "combine op=" + std::to_string(op) + (bda ? " bda" : "") + " buffers=" + std::to_string(present) + " pick=" + std::to_string(pick) + " " + std::to_string(nbl) + "x" + std::to_string(nchan) + "x" + std::to_string(nc); })) continue;
    auto kv = std::vector<std::pair<std::string, std::string>>{{"c.buffername", names[pick]}};
    if (op) kv.emplace_back("c.operation", op == 1 ? "add" : "subtract");
    auto step = std::make_shared<Combine>(Parset(kv), "c.", bda ? Step::MsType::kBda : Step::MsType::kRegular);
    auto sink = std::make_shared<Sink>();
    step->setNextStep(sink);
    Shape s{nbl, nchan, nc};
    step->setInfo(Info(s));
    const float sign = op == 1 ? 1 : -1;
    const bool there = present >> pick & 1;
    std::vector<F> main, other;
    if (!bda) {
      auto b = Buffer(s, 0);
      Fill(s, *b, present);
      for (int i = 0; i < 3; ++i) if (present >> i & 1) { b->AddData(names[i]); unsigned k = 0; for (auto& v : b->GetData(names[i])) v = F(i + 1, float(k++)); }
      main.assign(b->GetData().begin(), b->GetData().end());
      if (there) other.assign(b->GetData(names[pick]).begin(), b->GetData(names[pick]).end());
      Kept kept(*b);
      if (!there) continue;
      step->process(std::move(b));
      vp::Step();
      if (!vp::Check(sink->out.size() == 1, "not passed on")) continue;
      DPBuffer& r = *sink->out[0];
      kept.Check(r, step->getProvidedFields());
      for (size_t i = 0; i < main.size(); ++i) if (!vp::Check(r.GetData().data()[i] == main[i] + sign * other[i], "value " + std::to_string(i))) break;
      for (int i = 0; i < 3; ++i) {
        vp::Check(r.HasData(names[i]) == ((present >> i & 1) && i != pick), std::string("buffer ") + names[i]);
        if (r.HasData(names[i])) { unsigned k = 0; for (auto& v : r.GetData(names[i])) if (!vp::Check(v == F(i + 1, float(k++)), "another buffer changed")) break; }
      }
      vp::Outcome(vp::Hash(r.GetData().data(), main.size() * sizeof(F)));
    } else {
      auto b = std::make_unique<BdaBuffer>(400, Step::kDataField | (present % 2 ? Step::kFlagsField : Fields()) | (pick % 2 ? Step::kWeightsField : Fields()));
      for (unsigned k = 0; k < nbl + 1; ++k) { std::vector<F> d(nchan * nc * (1 + k % 2), F(float(k), 2)); b->AddRow(100 + k, 2, 2, k % nbl, nchan * (1 + k % 2), nc, k, d.data()); }
      for (int i = 0; i < 3; ++i) if (present >> i & 1) { b->AddData(names[i]); for (unsigned k = 0; k < b->GetNumberOfElements(); ++k) b->GetData(names[i])[k] = F(i + 1, float(k)); }
      const size_t n = b->GetNumberOfElements();
      main.assign(b->GetData(), b->GetData() + n);
      if (there) other.assign(b->GetData(names[pick]), b->GetData(names[pick]) + n);
      const std::string err = vp::Throws([&] { step->process(std::move(b)); });
      vp::Step();
      if (!vp::Check(err.empty() == there, there ? "error: " + err : "a missing buffer is accepted") || !there) continue;
      if (!vp::Check(sink->bda.size() == 1 && sink->bda[0]->GetRows().size() == nbl + 1, "not passed on")) continue;
      BdaBuffer& r = *sink->bda[0];
      for (size_t i = 0; i < n; ++i) if (!vp::Check(r.GetData()[i] == main[i] + sign * other[i], "value " + std::to_string(i))) break;
      for (int i = 0; i < 3; ++i) {
        vp::Check(r.HasData(names[i]) == ((present >> i & 1) && i != pick), std::string("buffer ") + names[i]);
        if (r.HasData(names[i])) for (size_t k = 0; k < n; ++k) if (!vp::Check(r.GetData(names[i])[k] == F(i + 1, float(k)), "another buffer changed")) break;
      }
      vp::Outcome(vp::Hash(r.GetData(), n * sizeof(F)));
    }
    step->finish();
    vp::Check(sink->finished == 1, "finish is not passed on");
    vp::Trace();
  }
  if (vp::Case("combine settings")) {
    vp::Check(!vp::Throws([&] { Combine c(Parset({{"operation", "add"}}), "", Step::MsType::kRegular); }).empty(), "no buffer name accepted");
    for (auto op : {"", "Add", "multiply", "sub", "addx"}) vp::Check(!vp::Throws([&] { Combine c(Parset({{"operation", op}, {"buffername", "a"}}), "", Step::MsType::kRegular); }).empty(), std::string("operation accepted: ") + op);
    vp::Step(6); vp::Trace();
  }
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  Stokes(th);
  Scale(th);
  Sum(th);
  return vp::Finish();
}
