// C47 (3): the constraints with parallel loops, under every schedule.
#include "par_kit.h"
#include "solver_kit.h"
#include "ddecal/constraints/FaradayConstraint.h"
#include "ddecal/constraints/SmoothnessConstraint.h"
#include "ddecal/constraints/TecConstraint.h"
#include "ddecal/constraints/TecOffsetDelayConstraint.h"
#include "base/CalType.h"
using namespace skit;
using dp3::base::CalType;

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  for (int type = 0; type < 8; ++type) for (size_t na : {1, 2, 3, 4}) for (int set = 0; set < 3; ++set) for (int bad = 0; bad < 2; ++bad) for (size_t threads : {2, 3}) for (int way = 0; way < 3; ++way) {
    if (!th && type < 6 && (na + set + bad + threads + way) % 2) continue;
    if (!vp::CaseF([&] { return "constraint " + std::to_string(type) + " antennas=" + std::to_string(na) + " set=" + std::to_string(set) + " bad=" + std::to_string(bad) + " threads=" + std::to_string(threads) + " way=" + std::to_string(way); })) continue;
    const std::vector<uint32_t> spd = set == 0 ? std::vector<uint32_t>{1} : set == 1 ? std::vector<uint32_t>{1, 2} : std::vector<uint32_t>{3};
    size_t ns = 0; for (uint32_t x : spd) ns += x;
    const size_t nc = 6, np = type == 6 ? 4 : type == 7 ? 2 : 1;
    std::vector<double> f; for (size_t c = 0; c < nc; ++c) f.push_back(120e6 + 8e6 * c);
    par::AllSchedules([&]() -> std::function<par::Out()> {
      std::shared_ptr<Constraint> k;
      switch (type) {
        case 0: k = std::make_shared<TecConstraint>(TecConstraint::Mode::kTecOnly); break;
        case 1: k = std::make_shared<TecConstraint>(TecConstraint::Mode::kTecAndCommonScalar); break;
        case 2: k = std::make_shared<ApproximateTECConstraint>(TecConstraint::Mode::kTecOnly); break;
        case 3: k = std::make_shared<ApproximateTECConstraint>(TecConstraint::Mode::kTecAndCommonScalar); break;
        case 4: k = std::make_shared<TecOffsetDelayConstraint>(false, 2, true); break;
        case 5: k = std::make_shared<TecOffsetDelayConstraint>(true, 2, true); break;
        case 6: k = std::make_shared<FaradayConstraint>(CalType::kDiagonalPhase, std::nullopt); break;
        default: k = std::make_shared<SmoothnessConstraint>(20e6, 0.0, 1.0, true); break;
      }
      k->Initialize(na, spd, f);
      if (type == 7) { auto& s = static_cast<SmoothnessConstraint&>(*k); s.SetAntennaFactors(std::vector<double>(na, 1.5)); s.SetDdSmoothingFactors(std::vector<double>(ns, 0.5)); }
      k->SetWeights(std::vector<double>(na * nc, 1.0));
      auto x = std::make_shared<SolutionTensor>(std::array<size_t, 4>{nc, na, ns, np});
      for (size_t c = 0; c < nc; ++c) for (size_t a = 0; a < na; ++a) for (size_t s = 0; s < ns; ++s) for (size_t p = 0; p < np; ++p) {
        const double phase = (0.02 * a - 0.03 * s) * -8.44797245e9 / f[c] + (type == 1 || type > 2 ? 0.3 * a : 0);
        D v = np == 4 && (p == 1 || p == 2) ? D(p == 1 ? 0.3 : -0.3) : std::polar(1.0, phase + 0.2 * p);
        if (bad && (c + a + 2 * s) % 5 == 1 && a) v = D(NAN, NAN);
        x->data()[((c * na + a) * ns + s) * np + p] = v;
      }
      return [k, x, type] {
        // The pieces and their sum; a second time with the first results.
        par::Out o;
        for (int round = 0; round < 2; ++round) {
          k->PrepareIteration(false, round || type != 2 ? 40 * round : 1, round == 1);
          SolutionSpan span = aocommon::xt::CreateSpan(*x);
          k->Apply(span, 1e9);
          for (size_t i = 0; i < x->size(); ++i) { o.push_back(x->data()[i].real()); o.push_back(x->data()[i].imag()); }
          for (auto& r : k->GetResult()) { o.insert(o.end(), r.vals.begin(), r.vals.end()); o.insert(o.end(), r.weights.begin(), r.weights.end()); }
        }
        return o;
      };
    }, 0, threads, way, false, 2, th ? 60 : 30);
    vp::Trace();
  }
  return vp::Finish();
}
