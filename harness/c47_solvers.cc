// C47 (2): the gain solvers, under every schedule.
#include <Eigen/Dense>
#include "par_kit.h"
#include "solver_kit.h"
using namespace skit;

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  for (int which = 0; which < kNWhich; ++which) for (unsigned blocks : {1u, 2u, 3u}) for (unsigned ndir : {1u, 2u}) for (int flags : {0, 2, 3}) for (int subs : {1, 2}) for (int iterations : {1, 2})
    for (size_t threads : {2, 3}) for (int way = 0; way < 3; ++way) for (int inner = 0; inner < 2; ++inner) {
      if (subs > 1 && !SubSolutions(which)) continue;
      Problem p;
      p.nant = 3; p.slots = 2; p.nchan = blocks; p.blocks = blocks; p.flags = flags;
      p.sols.assign(ndir, 1); p.sols[0] = subs; p.linear = which == kLowRank;
      if (which == kAntenna) { p.nant = 4; if (flags == 2) continue; }
      if (!th && (blocks + ndir + flags + subs + iterations + int(threads) + way + inner) % 4) continue;
      // Loops over antennas in a loop over blocks have many schedules.
      if (threads == 3 && (blocks == 3 || iterations == 2) && !th) continue;
      if (!vp::CaseF([&] { return std::string(Name(which)) + " " + p.Text() + " iterations=" + std::to_string(iterations) + " threads=" + std::to_string(threads) + " way=" + std::to_string(way) + " inner=" + std::to_string(inner); })) continue;
      par::AllSchedules([&]() -> std::function<par::Out()> {
        std::shared_ptr<SolverBase> s = Make(which);
        s->SetStepSize(0.6); s->SetMaxIterations(iterations); s->SetAccuracy(0); s->SetDetectStalling(false, 0.1);
        s->SetLLSSolverType(LLSSolverType::QR);
        s->Initialize(p.N(), p.sols, p.blocks);
        auto data = std::make_shared<Data>(p, which);
        auto sol = std::make_shared<Solutions>(Off(p, Pols(which)));
        return [s, data, sol] {
          const SolverBase::SolveResult r = data->Solve(*s, *sol);
          par::Out o{double(r.iterations), double(r.constraint_iterations)};
          for (auto& b : *sol) for (auto& x : b) { o.push_back(x.real()); o.push_back(x.imag()); }
          return o;
        };
      }, 1e-4, threads, way, inner, 1, th ? 14 : 9);
      vp::Trace();
    }
  // The weights of the solutions, and the weighting of the data.
  for (int kind = 0; kind < 3; ++kind) for (unsigned blocks : {1u, 2u, 4u}) for (size_t threads : {2, 3}) {
    Problem p; p.nant = 3; p.nchan = 4; p.blocks = blocks; p.sols = {1, 2}; p.flags = 3;
    const int which = kind == 0 ? kIterScalarFull : kind == 1 ? kIterScalarDuo : kIterScalarUni;
    if (!vp::CaseF([&] { return "data kind=" + std::to_string(kind) + " blocks=" + std::to_string(blocks) + " threads=" + std::to_string(threads); })) continue;
    par::AllSchedules([&]() -> std::function<par::Out()> {
      return [&] {
        const Data d(p, which);
        auto w = d.full ? d.full->GetSolutionWeights() : d.duo ? d.duo->GetSolutionWeights() : d.uni->GetSolutionWeights();
        par::Out o;
        for (auto& x : w) for (double y : x) o.push_back(y);
        return o;
      };
    }, 1e-6, threads, 0, false, 2, 100);
    vp::Trace();
  }
  return vp::Finish();
}
