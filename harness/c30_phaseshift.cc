// C30: moving the phase centre turns the visibilities of any set of sources
// with respect to the old centre into those with respect to the new one.
#include "vp.h"
#include "step_kit.h"
#include "steps/PhaseShift.h"
using namespace kit;
using dp3::steps::PhaseShift;
typedef std::complex<double> Z;
typedef std::array<double, 2> Dir;

static std::array<double, 3> Lmn(const Dir& s, const Dir& c) {
  return {std::cos(s[1]) * std::sin(s[0] - c[0]), std::sin(s[1]) * std::cos(c[1]) - std::cos(s[1]) * std::sin(c[1]) * std::cos(s[0] - c[0]),
          std::sin(s[1]) * std::sin(c[1]) + std::cos(s[1]) * std::cos(c[1]) * std::cos(s[0] - c[0])};
}
struct Source { Dir d; Z a[4]; };
static Z Model(const std::vector<Source>& src, const Dir& c, const double* uvw, double f, unsigned p) {
  Z v = 0;
  for (const Source& s : src) {
    const auto l = Lmn(s.d, c);
    v += s.a[p] * std::polar(1.0, 2 * M_PI * f / 2.99792458e8 * (uvw[0] * l[0] + uvw[1] * l[1] + uvw[2] * (l[2] - 1)));
  }
  return v;
}
static std::string Text(double v, int form) {
  char t[80];
  if (form == 0) snprintf(t, sizeof t, "%.17grad", v);
  else if (form == 1) snprintf(t, sizeof t, "%.17g", v);
  else snprintf(t, sizeof t, "%.17gdeg", v * 180 / M_PI);
  return t;
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  std::vector<Dir> dirs;
  for (double ra : {0.0, 0.3, 2.0, 3.3, -1.0, 6.1}) for (double dec : {-1.2, -0.4, 0.0, 0.8, 1.4}) dirs.push_back({ra, dec});
  dirs.push_back({0.7, M_PI / 2}); dirs.push_back({0.31, 0.8}); dirs.push_back({0.3, 0.80001});
  const std::vector<std::array<double, 3>> uvws = {{0, 0, 0}, {35, 0, 0}, {0, -80, 0}, {0, 0, 120}, {-310.5, 42.25, 17}, {900, -1200, 333}, {1, 2, 3}};
  const std::vector<Dir> sky = {{0.32, 0.81}, {0.0, 0.05}, {2.1, -0.4}, {3.3, 1.4}, {5, -1.1}, {0.3, 0.8}};
  const int n = dirs.size();
  for (int from = 0; from < n; ++from) for (int to = -1; to < n; ++to) for (int set = 0; set < (th ? 12 : 4); ++set) {
    if (!vp::CaseF([&] { return "from " + std::to_string(from) + " to " + std::to_string(to) + " sources " + std::to_string(set); })) continue;
    Order(set % 3); Threads(1 + set % 4);
    const unsigned nc = set % 3 == 2 ? 1 : set % 3 == 1 ? 2 : 4, nchan = 1 + (from + set) % 3;
    Shape s{unsigned(uvws.size()), nchan, nc, 4};
    s.freq0 = 30e6 + 20e6 * set; s.width = 3e6;
    DPInfo info = Info(s);
    const casacore::MDirection original(casacore::MVDirection(1.0, 0.5), casacore::MDirection::J2000), old(casacore::MVDirection(dirs[from][0], dirs[from][1]), casacore::MDirection::J2000);
    info.setArrayInformation(casacore::MPosition(casacore::MVPosition(3826577, 461022, 5064892), casacore::MPosition::ITRF), original, original, original);
    info.setPhaseCenter(old);
    std::vector<Source> src;
    for (unsigned i = 0; i < sky.size(); ++i) if ((set + 1) * 5 >> i & 1 || i == unsigned(set) % sky.size()) { Source q{sky[i], {}}; for (int p = 0; p < 4; ++p) q.a[p] = Z(1 + i, p - 0.5 * i); src.push_back(q); }
    std::string centre = "[]";
    const int form = (from + to + set + 1) % 3;
    const Dir target = to < 0 ? Dir{1.0, 0.5} : dirs[to];
    if (to >= 0) centre = "[" + Text(target[0], form) + ", " + Text(target[1], form) + "]";
    std::shared_ptr<Step> step;
    if (set % 2) step = std::make_shared<PhaseShift>(Parset({{"p.phasecenter", centre}}), "p.");
    else step = std::make_shared<PhaseShift>(Parset({}), "p.", to < 0 ? std::vector<std::string>{} : std::vector<std::string>{Text(target[0], form), Text(target[1], form)});
    auto sink = std::make_shared<Sink>();
    step->setNextStep(sink);
    const std::string err = vp::Throws([&] { step->setInfo(info); });
    if (!vp::Check(err.empty(), "refused: " + err)) continue;
    const DPInfo& out = step->getInfoOut();
    vp::Check(out.metaChanged() && Near(out.phaseCenter().getValue().get()[1], target[1]) && std::fabs(std::remainder(out.phaseCenter().getValue().get()[0] - target[0], 2 * M_PI)) < (std::cos(target[1]) < 1e-6 ? 7 : 1e-6), "phase centre of the output");
    vp::Check(Near(out.originalPhaseCenter().getValue().get()[0], 1.0), "the original phase centre changed");
    for (unsigned t = 0; t < 3; ++t) {
      auto b = Buffer(s, t);
      for (unsigned k = 0; k < s.nbl; ++k) {
        double u[3];
        for (int i = 0; i < 3; ++i) b->GetUvw()(k, i) = u[i] = uvws[k][(i + t) % 3];
        for (unsigned c = 0; c < nchan; ++c) for (unsigned p = 0; p < nc; ++p) {
          b->GetData()(k, c, p) = std::complex<float>(Model(src, dirs[from], u, s.freq0 + c * s.width, p));
          b->GetFlags()(k, c, p) = (k + c + p) % 3 == 0;
          b->GetWeights()(k, c, p) = k + c + 0.5f * p;
        }
      }
      const DPBuffer in(*b);
      Kept kept(in);
      const Fields all = Step::kDataField | Step::kFlagsField | Step::kWeightsField | Step::kUvwField;
      if (t == 1) Strip(*b, step->getRequiredFields());
      sink->out.clear();
      step->process(std::move(b));
      if (!vp::Check(sink->out.size() == 1, "not passed on")) break;
      const DPBuffer& r = *sink->out[0];
      if (t != 1) kept.Check(r, step->getProvidedFields());
      for (unsigned k = 0; k < s.nbl; ++k) {
        double u[3], v[3]; bool ok = true;
        for (int i = 0; i < 3; ++i) { u[i] = in.GetUvw()(k, i); v[i] = r.GetUvw()(k, i); }
        // The baseline is the same vector: same projection on any direction.
        for (const Dir& d : sky) {
          const auto a = Lmn(d, dirs[from]), c = Lmn(d, target);
          ok = ok && Near(u[0] * a[0] + u[1] * a[1] + u[2] * a[2], v[0] * c[0] + v[1] * c[1] + v[2] * c[2], 1e-9, 1e-6);
        }
        if (!vp::Check(ok, "uvw of baseline " + std::to_string(k) + ": " + vp::Str(v[0]) + "," + vp::Str(v[1]) + "," + vp::Str(v[2]) + " from " + vp::Str(u[0]) + "," + vp::Str(u[1]) + "," + vp::Str(u[2]))) break;
        for (unsigned c = 0; c < nchan; ++c) for (unsigned p = 0; p < nc; ++p) {
          const Z want = Model(src, target, v, s.freq0 + c * s.width, p);
          if (!Near(r.GetData()(k, c, p), want, 1e-4, 1e-4)) { vp::Fail("baseline " + std::to_string(k) + " channel " + std::to_string(c) + " correlation " + std::to_string(p) + ": " + vp::Str(r.GetData()(k, c, p)) + " instead of " + vp::Str(want)); k = s.nbl; c = nchan; break; }
        }
      }
      // The factors that were applied.
      const auto& ph = static_cast<PhaseShift&>(*step).getPhasors();
      if (vp::Check(ph.shape(0) == s.nbl && ph.shape(1) == nchan, "shape of the phase factors"))
        for (unsigned k = 0; k < s.nbl; ++k) for (unsigned c = 0; c < nchan; ++c)
          if (!Near(r.GetData()(k, c, 0), Z(in.GetData()(k, c, 0)) * ph(k, c), 1e-5, 1e-5)) { vp::Fail("phase factors differ from the ones applied"); k = s.nbl; break; }
      vp::Outcome(vp::Hash(r.GetData().data(), r.GetData().size() * 8));
      vp::Step();
    }
    step->finish();
    vp::Check(sink->finished == 1, "finish is not passed on");
    vp::Trace();
  }
  for (const char* bad : {"[1,2,3]", "[1,x]", "[x,1]", "[1m,2]", "[1deg,2kg]", "[1,'']"})
    if (vp::Case(std::string("centre ") + bad)) {
      vp::Check(!vp::Throws([&] { PhaseShift p(Parset({{"phasecenter", bad}}), ""); p.setInfo(Info(Shape{2, 2, 2})); }).empty(), "accepted");
      vp::Step(); vp::Trace();
    }
  return vp::Finish();
}
