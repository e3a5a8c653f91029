// C11: linear least-squares solvers on all small Gaussian-integer systems,
// and reuse of one solver object, against exact Cramer's rule.
#include "vp.h"
#include <array>
#include <complex>
#include "ddecal/linear_solvers/LLSSolver.h"
#include "ddecal/linear_solvers/QRSolver.h"
#include "ddecal/linear_solvers/SVDSolver.h"
#include "ddecal/linear_solvers/NormalEquationsSolver.h"
using dp3::ddecal::LLSSolver;
using dp3::ddecal::LLSSolverType;
typedef std::complex<float> CF;
typedef __int128 I;
struct G { I r = 0, i = 0; };
static G operator+(G a, G b) { return {a.r + b.r, a.i + b.i}; }
static G operator-(G a, G b) { return {a.r - b.r, a.i - b.i}; }
static G operator*(G a, G b) { return {a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; }
static G conj(G a) { return {a.r, -a.i}; }
typedef std::vector<std::vector<G>> Mat;
static G Det(const Mat& m) {
  const size_t n = m.size();
  if (n == 1) return m[0][0];
  G d;
  for (size_t c = 0; c < n; ++c) {
    Mat s;
    for (size_t r = 1; r < n; ++r) { s.emplace_back(); for (size_t k = 0; k < n; ++k) if (k != c) s.back().push_back(m[r][k]); }
    const G t = m[0][c] * Det(s);
    d = c % 2 ? d - t : d + t;
  }
  return d;
}
struct System { int m, n, p; std::vector<G> a, b; };   // column major
struct Exact { bool full = false; std::vector<std::complex<double>> x; double cond = 0; };
static Exact SolveExact(const System& s) {
  Exact e;
  Mat ata(s.n, std::vector<G>(s.n));
  double norm = 0;
  for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) {
    for (int k = 0; k < s.m; ++k) ata[i][j] = ata[i][j] + conj(s.a[k + i * s.m]) * s.a[k + j * s.m];
    norm += std::hypot(double(ata[i][j].r), double(ata[i][j].i));
  }
  const G d = Det(ata);
  if (d.r == 0 && d.i == 0) return e;
  e.full = true;
  double inv = 0;   // norm of the inverse
  for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) {
    Mat t = ata;
    for (int r = 0; r < s.n; ++r) t[r][i] = {r == j ? I(1) : I(0), 0};
    const G c = Det(t);
    inv += std::hypot(double(c.r), double(c.i)) / std::fabs(double(d.r));
  }
  e.cond = norm * inv;
  for (int p = 0; p < s.p; ++p) for (int i = 0; i < s.n; ++i) {
    Mat t = ata;
    for (int r = 0; r < s.n; ++r) {
      G v;
      for (int k = 0; k < s.m; ++k) v = v + conj(s.a[k + r * s.m]) * s.b[k + p * s.m];
      t[r][i] = v;
    }
    const G c = Det(t);
    e.x.emplace_back(double(c.r) / double(d.r), double(c.i) / double(d.r));   // d is real
  }
  return e;
}
static const LLSSolverType kTypes[] = {LLSSolverType::QR, LLSSolverType::SVD, LLSSolverType::NORMAL_EQUATIONS};
static const char* kNames[] = {"QR", "SVD", "normal equations"};

// Solves with the given object and compares.
static bool SolveAndCompare(LLSSolver& solver, int type, const System& s, const Exact& e, bool with_guess, const std::string& what) {
  std::vector<CF> a, b;
  for (G g : s.a) a.emplace_back(float(double(g.r)), float(double(g.i)));
  for (G g : s.b) b.emplace_back(float(double(g.r)), float(double(g.i)));
  std::vector<CF> guess(s.n * s.p, CF(3.0f, -1.0f));
  const bool ok = with_guess ? solver.Solve(a.data(), b.data(), guess.data()) : solver.Solve(a.data(), b.data());
  vp::Step();
  if (!ok) { vp::Fail(what + kNames[type] + " reports failure for a full-rank system"); return false; }
  double scale = 1;
  for (auto& x : e.x) scale = std::max(scale, std::abs(x));
  for (int p = 0; p < s.p; ++p) for (int i = 0; i < s.n; ++i) {
    // QR and SVD keep the leading dimension of b, normal equations pack.
    const CF got = b[i + p * (type == 2 ? s.n : s.m)];
    const std::complex<double> want = e.x[i + p * s.n];
    if (!(std::abs(std::complex<double>(got) - want) <= 2e-6 * (1 + e.cond) * scale)) {
      vp::Fail(what + kNames[type] + " returns " + vp::Str(got) + " instead of " + vp::Str(want) + " for unknown " + vp::Str(i) + " of right-hand side " + vp::Str(p));
      return false;
    }
  }
  return true;
}

static std::string Key(const System& s) {
  std::string k = vp::Str(s.m) + "x" + vp::Str(s.n) + " rhs=" + vp::Str(s.p) + " A=";
  for (G g : s.a) k += vp::Str(int(g.r)) + (g.i < 0 ? "-" : "+") + vp::Str(std::abs(int(g.i))) + "i,";
  k += " b=";
  for (G g : s.b) k += vp::Str(int(g.r)) + (g.i < 0 ? "-" : "+") + vp::Str(std::abs(int(g.i))) + "i,";
  return k;
}
static G kAlpha[] = {{0, 0}, {1, 0}, {0, 1}, {-2, 1}, {3, 0}};
static std::vector<G> Rhs(int m, int p, int which) {
  std::vector<G> b;
  for (int i = 0; i < m * p; ++i) {
    if (which == 0) b.push_back({I(i * 7 % 5 - 2), I(i * 3 % 4 - 1)});
    else if (which == 1) b.push_back({I(i == 0), I(0)});
    else b.push_back({I(1 + i), I(-2 * i)});
  }
  return b;
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  struct Shape { int m, n, alpha; };
  std::vector<Shape> shapes = {{1, 1, 5}, {2, 1, 5}, {3, 1, 5}, {4, 1, 4}, {5, 1, 3}, {2, 2, 5}, {3, 2, 4}, {4, 2, 3}, {3, 3, 3}, {5, 2, 2}, {4, 3, 2}};
  if (vp::Thorough()) { shapes.push_back({3, 2, 5}); shapes.push_back({4, 2, 4}); shapes.push_back({4, 3, 3}); shapes.push_back({4, 4, 2}); }
  for (const Shape& sh : shapes) {
    const int n_el = sh.m * sh.n;
    std::vector<int> idx(n_el, 0);
    while (true) {
      for (int p = 1; p <= 3; ++p) for (int r = 0; r < 3; ++r) {
        if (p == 3 && r != 0) continue;
        System s{sh.m, sh.n, p, {}, Rhs(sh.m, p, r)};
        for (int i : idx) s.a.push_back(kAlpha[i]);
        if (!vp::CaseF([&] { return Key(s); })) continue;
        const Exact e = SolveExact(s);
        if (!e.full) { vp::Count("singular systems (no claim)"); continue; }
        if (e.cond > 2e4) { vp::Count("ill-conditioned systems (no claim)"); continue; }
        for (int t = 0; t < 3; ++t) {
          auto solver = LLSSolver::Make(kTypes[t], s.m, s.n, s.p);
          if (!vp::Check(bool(solver), "no solver made")) continue;
          if (SolveAndCompare(*solver, t, s, e, false, "") && (idx[0] & 1)) SolveAndCompare(*solver, t, s, e, true, "second use: ");
        }
        vp::Trace();
        vp::Outcome(vp::Str(e.x[0]) + vp::Str(e.cond));
      }
      int q = 0;
      while (q < n_el && ++idx[q] == sh.alpha) idx[q++] = 0;
      if (q == n_el) break;
    }
  }
  // Histories: one object solves a sequence of different systems of its shape.
  {
    struct SH { int m, n, p; };
    for (SH sh : {SH{2, 1, 1}, SH{2, 2, 1}, SH{3, 2, 2}, SH{4, 2, 1}, SH{4, 3, 2}, SH{5, 3, 3}, SH{6, 4, 2}}) {
      std::vector<System> pool;
      for (int v = 0; v < 5; ++v) {
        System s{sh.m, sh.n, sh.p, {}, {}};
        for (int i = 0; i < sh.m * sh.n; ++i) s.a.push_back({I((i * i * (v + 2) + 3 * i + v) % 7 - 3), I((i * (v + 1) * 5 + i / 2) % 5 - 2)});
        for (int i = 0; i < sh.n; ++i) s.a[i + i * sh.m] = s.a[i + i * sh.m] + G{I(6 + v), 0};
        s.b = Rhs(sh.m, sh.p, v % 3);
        pool.push_back(s);
      }
      std::vector<Exact> ex;
      for (auto& s : pool) ex.push_back(SolveExact(s));
      for (int t = 0; t < 3; ++t) {
        const int len = vp::Thorough() ? 5 : 4;
        int total = 1;
        for (int i = 0; i < len; ++i) total *= 5;
        for (int c = 0; c < total; ++c) {
          if (!vp::CaseF([&] { return std::string("reuse ") + kNames[t] + " " + vp::Str(sh.m) + "x" + vp::Str(sh.n) + "x" + vp::Str(sh.p) + " sequence " + vp::Str(c); })) continue;
          auto solver = LLSSolver::Make(kTypes[t], sh.m, sh.n, sh.p);
          int v = c;
          for (int i = 0; i < len; ++i, v /= 5) {
            if (!ex[v % 5].full) continue;
            if (!SolveAndCompare(*solver, t, pool[v % 5], ex[v % 5], i % 2, "solve " + vp::Str(i) + ": ")) break;
          }
          vp::Trace();
        }
      }
    }
  }
  // Underdetermined systems are refused by QR.
  for (int m = 1; m <= 4; ++m) for (int n = m + 1; n <= 5; ++n) for (int p = 1; p <= 3; ++p) {
    if (!vp::Case("underdetermined " + vp::Str(m) + "x" + vp::Str(n) + "x" + vp::Str(p))) continue;
    std::vector<CF> a(m * n, CF(1, 2)), b(n * p, CF(1, 0));
    dp3::ddecal::QRSolver solver(m, n, p);
    vp::Step(); vp::Trace();
    vp::Check(!solver.Solve(a.data(), b.data()), "QR reports a solution of an underdetermined system");
  }
  // Names.
  const std::string names[] = {"qr", "svd", "normalequations"};
  for (int t = 0; t < 3; ++t) {
    const std::string& n = names[t];
    for (unsigned mask = 0; mask < (1u << n.size()); mask += (n.size() > 5 ? 37 : 1)) {
      std::string v = n;
      for (size_t i = 0; i < n.size(); ++i) if (mask >> i & 1) v[i] = toupper(v[i]);
      if (!vp::CaseF([&] { return "name " + v; })) continue;
      vp::Step(); vp::Trace();
      const std::string err = vp::Throws([&] { vp::Check(LLSSolver::ParseType(v) == kTypes[t], "parsed as another kind"); });
      vp::Check(err.empty(), "not accepted");
    }
    for (size_t i = 0; i <= n.size(); ++i) for (std::string ins : {" ", "x", "-", "q"}) for (int op = 0; op < 2; ++op) {
      std::string v = op && i < n.size() ? n.substr(0, i) + n.substr(i + 1) : n.substr(0, i) + ins + n.substr(i);
      if (!vp::CaseF([&] { return "no name " + vp::Show(v); })) continue;
      vp::Step(); vp::Trace();
      vp::Check(vp::Throws([&] { LLSSolver::ParseType(v); }) == "!exception", "accepted");
    }
  }
  for (int t = 0; t < 3; ++t) if (vp::Case(std::string("kind ") + kNames[t])) {
    auto s = LLSSolver::Make(kTypes[t], 3, 2, 1);
    vp::Step(); vp::Trace();
    vp::Check(t == 0 ? dynamic_cast<dp3::ddecal::QRSolver*>(s.get()) != nullptr : t == 1 ? dynamic_cast<dp3::ddecal::SVDSolver*>(s.get()) != nullptr
              : dynamic_cast<dp3::ddecal::NormalEquationsSolver*>(s.get()) != nullptr, "another kind of solver is made");
  }
  return vp::Finish();
}
