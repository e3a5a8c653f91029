// C23: settings of the direction-dependent calibration. Every key alone and
// every pair of keys, in every mode and with every algorithm, against a table of
// the documented keys and defaults; sub-solutions, smoothness factors and
// re-used directions over all small inputs.
#include "vp.h"
#include <algorithm>
#include <optional>
#include "common/ParameterSet.h"
#include "ddecal/Settings.h"
using dp3::ddecal::Settings;
using dp3::base::CalType;
typedef std::map<std::string, std::string> Parset;   // without the prefix
typedef std::map<std::string, std::string> Fields;

static std::string D(double v) { return vp::Str(v); }
static std::string B(bool b) { return b ? "true" : "false"; }
static std::string L(const std::vector<std::string>& v) { std::string s = "["; for (auto& e : v) s += e + ";"; return s + "]"; }
static std::string LD(const std::vector<double>& v) { std::string s = "["; for (auto e : v) s += D(e) + ";"; return s + "]"; }
static std::string LU(const std::vector<size_t>& v) { std::string s = "["; for (auto e : v) s += vp::Str(e) + ";"; return s + "]"; }
static std::string LS(const std::vector<std::set<std::string>>& v) { std::string s = "["; for (auto& e : v) { s += "{"; for (auto& f : e) s += f + ";"; s += "}"; } return s + "]"; }

static Fields Read(const Settings& s) {
  Fields f;
  f["name"] = s.name;
  f["h5parm"] = s.h5parm_name; f["statfilename"] = s.stat_filename;
  f["mode"] = vp::Str(int(s.mode));
  f["propagatesolutions"] = B(s.propagate_solutions); f["propagateconvergedonly"] = B(s.propagate_converged_only);
  f["flagunconverged"] = B(s.flag_unconverged); f["flagdivergedonly"] = B(s.flag_diverged_only);
  f["onlypredict"] = B(s.only_predict); f["subtract"] = B(s.subtract); f["keepmodel"] = B(s.keep_model_data);
  f["solveralgorithm"] = vp::Str(int(s.solver_algorithm));
  f["solint"] = vp::Str(s.solution_interval); f["minvisratio"] = D(s.min_vis_ratio); f["nchan"] = vp::Str(s.n_channels);
  f["solutions_per_direction"] = LU(s.sub_solutions_per_direction);
  f["antenna_averaging_factors"] = L(s.antenna_averaging_factors);
  f["model_weighted_constraints"] = B(s.model_weighted_constraints);
  f["coreconstraint"] = D(s.core_constraint); f["antennaconstraint"] = LS(s.antenna_constraint);
  f["smoothnessconstraint"] = D(s.smoothness_constraint); f["smoothnessreffrequency"] = D(s.smoothness_ref_frequency);
  f["smoothnessrefdistance"] = D(s.smoothness_ref_distance); f["smoothnessrefantenna"] = s.smoothness_ref_antenna;
  f["smoothnessspectralexponent"] = D(s.smoothness_spectral_exponent); f["smoothness_kernel_truncation"] = B(s.smoothness_kernel_truncation);
  f["smoothness_dd_factors"] = LD(s.smoothness_dd_factors); f["antenna_smoothness_factors"] = L(s.antenna_smoothness_factors);
  f["tecscreen.coreconstraint"] = D(s.screen_core_constraint);
  f["llssolver"] = vp::Str(int(s.lls_solver_type)); f["maxiter"] = vp::Str(s.max_iterations); f["tolerance"] = D(s.tolerance);
  f["stepsize"] = D(s.step_size); f["datause"] = vp::Str(int(s.solver_data_use)); f["detectstalling"] = B(s.detect_stalling);
  f["stepsigma"] = D(s.step_diff_sigma); f["approximatetec"] = B(s.approximate_tec); f["phasereference"] = B(s.phase_reference);
  f["approxtolerance"] = D(s.approx_tolerance); f["maxapproxiter"] = vp::Str(s.max_approx_iterations); f["approxchunksize"] = vp::Str(s.approx_chunk_size);
  f["rotationreference"] = B(s.rotation_reference); f["rotationdiagonalmode"] = vp::Str(int(s.rotation_diagonal_mode));
  f["faradaydiagonalmode"] = vp::Str(int(s.faraday_diagonal_mode)); f["max_tec_delay_wraps"] = vp::Str(s.max_tec_delay_wraps);
  f["faradaylimit"] = s.faraday_limit ? D(*s.faraday_limit) : "none";
  f["solverlbfgs.dof"] = D(s.lbfgs_robust_nu); f["solverlbfgs.iter"] = vp::Str(s.lbfgs_max_iter); f["solverlbfgs.history"] = vp::Str(s.lbfgs_history_size);
  f["solverlbfgs.minibatches"] = vp::Str(s.lbfgs_minibatches); f["solverlbfgs.min_solution"] = D(s.lbfgs_min_solution); f["solverlbfgs.max_solution"] = D(s.lbfgs_max_solution);
  f["usegpu"] = B(s.use_gpu); f["keep_host_buffers"] = B(s.keep_host_buffers);
  f["lra.iterations"] = vp::Str(s.n_lra_iterations); f["lra.power_iterations"] = vp::Str(s.n_lra_power_iterations);
  f["modeldatacolumns"] = L(s.model_data_columns); f["reusemodel"] = L(s.reuse_model_data);
  f["idg.regions"] = s.idg_region_filename; f["idg.images"] = L(s.idg_image_filenames);
  f["sagecalpredict"] = B(s.use_sagecal_predict); f["directions"] = L(s.directions); f["sourcedb"] = s.source_db;
  return f;
}

// ---- the reference: what the documentation says ----
enum Kind { kStr, kBool, kUint, kDouble, kList, kDoubles, kUints, kGroups };
struct Key { const char* name; Kind kind; const char* def; std::vector<const char*> values; };
static const std::vector<Key>& Table() {
  static const std::vector<Key> t = {
    {"h5parm", kStr, "", {"out.h5"}}, {"statfilename", kStr, "", {"st.txt"}},
    {"propagatesolutions", kBool, "false", {"true", "F"}}, {"propagateconvergedonly", kBool, "false", {"1"}},
    {"flagunconverged", kBool, "false", {"T"}}, {"flagdivergedonly", kBool, "false", {"yes"}},
    {"onlypredict", kBool, "false", {"true"}}, {"subtract", kBool, "false", {"true"}}, {"keepmodel", kBool, "false", {"true"}},
    {"solint", kUint, "1", {"0", "12"}}, {"minvisratio", kDouble, "0", {"0.6"}}, {"nchan", kUint, "1", {"0", "7"}},
    {"solutions_per_direction", kUints, "", {"[2,1,3]", "[4]"}}, {"antenna_averaging_factors", kList, "", {"[RS*:2,CS*:1]"}},
    {"model_weighted_constraints", kBool, "false", {"true"}}, {"coreconstraint", kDouble, "0", {"2000"}},
    {"antennaconstraint", kGroups, "", {"[[a,b],[c,d,c]]"}},
    {"smoothnessconstraint", kDouble, "0", {"2e6"}}, {"smoothnessreffrequency", kDouble, "0", {"150e6"}}, {"smoothnessrefdistance", kDouble, "0", {"1500"}},
    {"smoothnessrefantenna", kStr, "", {"CS001"}}, {"smoothnessspectralexponent", kDouble, "-1", {"-2"}},
    {"smoothness_kernel_truncation", kBool, "true", {"false"}}, {"smoothness_dd_factors", kDoubles, "", {"[0.5,1]", "[0.25]"}},
    {"antenna_smoothness_factors", kList, "", {"[CS*:2.5]"}}, {"tecscreen.coreconstraint", kDouble, "0", {"300"}},
    {"maxiter", kUint, "50", {"101", "1"}}, {"tolerance", kDouble, "1e-5", {"0.001"}}, {"stepsize", kDouble, "0.2", {"0.7"}},
    {"detectstalling", kBool, "true", {"false"}}, {"stepsigma", kDouble, "0.1", {"0.3"}},
    {"approximatetec", kBool, "false", {"true"}}, {"phasereference", kBool, "true", {"false"}}, {"approxtolerance", kDouble, "", {"0.5"}},
    {"maxapproxiter", kUint, "", {"9"}}, {"approxchunksize", kUint, "0", {"3"}},
    {"rotationreference", kBool, "false", {"true"}}, {"max_tec_delay_wraps", kUint, "5", {"8"}}, {"faradaylimit", kDouble, "0", {"2.5"}},
    {"solverlbfgs.dof", kDouble, "200", {"30"}}, {"solverlbfgs.iter", kUint, "4", {"6"}}, {"solverlbfgs.history", kUint, "10", {"5"}},
    {"solverlbfgs.minibatches", kUint, "1", {"3"}}, {"solverlbfgs.min_solution", kDouble, "0", {"-2"}}, {"solverlbfgs.max_solution", kDouble, "0", {"4"}},
    {"usegpu", kBool, "false", {"true"}}, {"keep_host_buffers", kBool, "false", {"true"}},
    {"lra.iterations", kUint, "25", {"7"}}, {"lra.power_iterations", kUint, "10", {"4"}},
    {"modeldatacolumns", kList, "", {"[M1,M2]"}}, {"reusemodel", kList, "", {"[a.*,b.c]"}}, {"idg.regions", kStr, "", {"r.reg"}},
    {"idg.images", kList, "", {"[i1.fits,i2.fits]"}}, {"sagecalpredict", kBool, "false", {"true"}}, {"directions", kList, "", {"[[p1,p2],[p3]]"}}, {"sourcedb", kStr, "", {"sky.txt"}},
  };
  return t;
}
struct Mode { const char* text; CalType type; };
static const Mode kModes[] = {
  {"diagonal", CalType::kDiagonal}, {"complexgain", CalType::kDiagonal}, {"ScalarPhase", CalType::kScalarPhase}, {"scalaramplitude", CalType::kScalarAmplitude},
  {"scalar", CalType::kScalar}, {"diagonalphase", CalType::kDiagonalPhase}, {"diagonalamplitude", CalType::kDiagonalAmplitude}, {"fulljones", CalType::kFullJones},
  {"tec", CalType::kTec}, {"TEC+phase", CalType::kTecAndPhase}, {"tecandphase", CalType::kTecAndPhase}, {"tec+delay", CalType::kTecAndDelay}, {"tec+phase+delay", CalType::kTecPhaseAndDelay},
  {"tecscreen", CalType::kTecScreen}, {"rotation", CalType::kRotation}, {"Rotation+Diagonal", CalType::kRotationAndDiagonal}, {"faradayrotation", CalType::kFaradayRotation},
  {"leakage", CalType::kLeakage}, {"leakageamplitude", CalType::kLeakageAmplitude}};
struct Alg { const char* text; dp3::ddecal::SolverAlgorithm type; };
static const Alg kAlgs[] = {
  {"directionsolve", dp3::ddecal::SolverAlgorithm::kDirectionSolve}, {"AntennaSolve", dp3::ddecal::SolverAlgorithm::kAntennaSolve}, {"lowrank", dp3::ddecal::SolverAlgorithm::kLowRank},
  {"directionIterative", dp3::ddecal::SolverAlgorithm::kDirectionIterative}, {"HYBRID", dp3::ddecal::SolverAlgorithm::kHybrid}, {"lbfgs", dp3::ddecal::SolverAlgorithm::kLBFGS}};

static std::optional<CalType> RefMode(std::string t) {
  for (char& c : t) c = tolower(c);
  for (auto& m : kModes) { std::string n = m.text; for (char& c : n) c = tolower(c); if (n == t) return m.type; }
  return {};
}
static bool Truth(const std::string& v) { return v == "true" || v == "T" || v == "1" || v == "yes"; }

struct Expect { Fields f; std::set<std::string> unread; bool error = false; };

static std::vector<std::string> SplitTop(const std::string& v) {   // "[a,[b,c]]" -> a, [b,c]
  std::vector<std::string> out;
  std::string cur;
  int depth = 0;
  for (size_t i = 1; i + 1 < v.size(); ++i) {
    if (v[i] == '[') ++depth;
    if (v[i] == ']') --depth;
    if (v[i] == ',' && depth == 0) { out.push_back(cur); cur.clear(); } else cur += v[i];
  }
  if (!cur.empty()) out.push_back(cur);
  return out;
}

static Expect Model(const Parset& p, const std::string& prefix, const std::string& msin, const std::string& modelcolumn) {
  Expect e;
  Fields& f = e.f;
  auto has = [&](const char* k) { return p.count(k) > 0; };
  auto get = [&](const char* k, const std::string& d) { auto i = p.find(k); return i == p.end() ? d : i->second; };
  f["name"] = prefix;
  std::optional<CalType> mode = RefMode(get("mode", "diagonal"));
  if (!mode) { e.error = true; return e; }
  f["mode"] = vp::Str(int(*mode));
  bool found = false;
  dp3::ddecal::SolverAlgorithm alg = kAlgs[0].type;
  std::string at = get("solveralgorithm", "directionsolve");
  for (char& c : at) c = tolower(c);
  for (auto& a : kAlgs) { std::string n = a.text; for (char& c : n) c = tolower(c); if (n == at) { alg = a.type; found = true; } }
  if (!found) { e.error = true; return e; }
  f["solveralgorithm"] = vp::Str(int(alg));
  std::string ll = get("llssolver", "qr");
  for (char& c : ll) c = tolower(c);
  if (ll == "qr") f["llssolver"] = vp::Str(int(dp3::ddecal::LLSSolverType::QR));
  else if (ll == "svd") f["llssolver"] = vp::Str(int(dp3::ddecal::LLSSolverType::SVD));
  else if (ll == "normalequations") f["llssolver"] = vp::Str(int(dp3::ddecal::LLSSolverType::NORMAL_EQUATIONS));
  else { e.error = true; return e; }
  std::string du = get("datause", "full");
  for (char& c : du) c = tolower(c);
  if (du == "full") f["datause"] = vp::Str(int(dp3::ddecal::SolverDataUse::kFull));
  else if (du == "dual") f["datause"] = vp::Str(int(dp3::ddecal::SolverDataUse::kDual));
  else if (du == "single") f["datause"] = vp::Str(int(dp3::ddecal::SolverDataUse::kSingle));
  else { e.error = true; return e; }
  for (const Key& k : Table()) {
    const std::string v = get(k.name, k.def);
    switch (k.kind) {
      case kStr: f[k.name] = v; break;
      case kBool: f[k.name] = B(Truth(v)); break;
      case kUint: f[k.name] = vp::Str(strtoul(v.c_str(), nullptr, 10)); break;
      case kDouble: f[k.name] = D(strtod(v.c_str(), nullptr)); break;
      case kList: f[k.name] = L(SplitTop(v)); break;
      case kDoubles: { std::vector<double> d; for (auto& t : SplitTop(v)) d.push_back(strtod(t.c_str(), nullptr)); f[k.name] = LD(d);
        if (k.name == std::string("smoothness_dd_factors")) for (double x : d) if (!(x > 0 && x <= 1)) e.error = true; break; }
      case kUints: { std::vector<size_t> d; for (auto& t : SplitTop(v)) d.push_back(strtoul(t.c_str(), nullptr, 10)); f[k.name] = LU(d); break; }
      case kGroups: { std::vector<std::set<std::string>> d; for (auto& t : SplitTop(v)) { std::vector<std::string> g = t[0] == '[' ? SplitTop(t) : std::vector<std::string>{t}; d.emplace_back(g.begin(), g.end()); if (d.back().size() == 1) e.error = true; } f[k.name] = LS(d); break; }
    }
  }
  // Conditional keys.
  auto off = [&](const char* k, const std::string& v) { f[k] = v; if (has(k)) e.unread.insert(k); };
  const bool tec = *mode == CalType::kTec || *mode == CalType::kTecAndPhase;
  const bool delay = *mode == CalType::kTecAndDelay || *mode == CalType::kTecPhaseAndDelay;
  if (!tec) off("approximatetec", "false");
  if (!tec && !delay) off("phasereference", "false");
  const bool approx = tec && Truth(get("approximatetec", "false"));
  const double tol = strtod(get("tolerance", "1e-5").c_str(), nullptr);
  const size_t maxit = strtoul(get("maxiter", "50").c_str(), nullptr, 10);
  if (!approx) { off("approxtolerance", "0"); off("maxapproxiter", "0"); off("approxchunksize", "0"); }
  else {
    if (!has("approxtolerance")) f["approxtolerance"] = D(tol * 10.0);
    if (!has("maxapproxiter")) f["maxapproxiter"] = vp::Str(maxit / 2);
  }
  if (!Truth(get("detectstalling", "true"))) off("stepsigma", D(0.1));
  if (!delay) off("max_tec_delay_wraps", "0");
  if (*mode != CalType::kRotationAndDiagonal) { off("rotationreference", "false"); off("rotationdiagonalmode", vp::Str(int(CalType::kDiagonal))); }
  else { auto m = RefMode(get("rotationdiagonalmode", "diagonal")); if (!m) e.error = true; else f["rotationdiagonalmode"] = vp::Str(int(*m)); }
  if (*mode != CalType::kFaradayRotation) { off("faradaylimit", "none"); off("faradaydiagonalmode", vp::Str(int(CalType::kDiagonal))); }
  else {
    auto m = RefMode(get("faradaydiagonalmode", "rotation")); if (!m) e.error = true; else f["faradaydiagonalmode"] = vp::Str(int(*m));
    if (strtod(get("faradaylimit", "0").c_str(), nullptr) == 0.0) f["faradaylimit"] = "none";
  }
  if (alg != dp3::ddecal::SolverAlgorithm::kLBFGS) {
    off("solverlbfgs.dof", "200"); off("solverlbfgs.iter", "4"); off("solverlbfgs.history", "10"); off("solverlbfgs.minibatches", "1"); off("solverlbfgs.min_solution", "0"); off("solverlbfgs.max_solution", "0");
  }
  if (alg != dp3::ddecal::SolverAlgorithm::kLowRank) { off("lra.iterations", "1"); off("lra.power_iterations", "1"); }
  if (strtod(get("smoothnessrefdistance", "0").c_str(), nullptr) == 0.0) off("smoothnessrefantenna", "");
  // The solution file.
  if (Truth(get("onlypredict", "false"))) off("h5parm", "");
  else if (!has("h5parm")) { if (msin.empty()) e.error = true; else f["h5parm"] = msin + "/instrument.h5"; }
  // Model columns.
  if (SplitTop(get("modeldatacolumns", "")).empty()) {
    if (Truth(get("usemodelcolumn", "false"))) f["modeldatacolumns"] = L({modelcolumn.empty() ? "MODEL_DATA" : modelcolumn});
  } else if (has("usemodelcolumn")) e.unread.insert("usemodelcolumn");
  return e;
}

static void One(const Parset& p, const std::string& prefix, const std::string& msin, const std::string& modelcolumn, bool decoys) {
  dp3::common::ParameterSet ps;
  for (auto& kv : p) ps.add(prefix + kv.first, kv.second);
  if (!msin.empty()) ps.add("msin", msin);
  if (!modelcolumn.empty()) ps.add("msin.modelcolumn", modelcolumn);
  if (decoys)   // the same keys of other steps are not to be looked at
    for (const Key& k : Table()) { ps.add("other." + std::string(k.name), "wrong"); if (!prefix.empty()) ps.add("x" + prefix + k.name, "wrong"); }
  Expect want = Model(p, prefix, msin, modelcolumn);
  Fields got;
  std::string text;
  vp::Step(); vp::Trace();
  const std::string t = vp::Throws([&] { Settings s(ps, prefix); got = Read(s); text = s.parset_string; });
  if (!vp::Check(t.empty() != want.error, want.error ? "invalid settings are accepted" : "valid settings are refused")) return;
  if (want.error) { vp::Outcome("error"); return; }
  for (auto& kv : want.f) vp::Check(got.count(kv.first) && got[kv.first] == kv.second, "'" + kv.first + "' is '" + got[kv.first] + "', expected '" + kv.second + "'");
  vp::Check(got.size() == want.f.size(), "the reference does not cover all settings");
  std::ostringstream whole;
  whole << ps;
  vp::Check(text == whole.str(), "the stored text is not the parameter set");
  std::vector<std::string> unused = ps.unusedKeys();
  std::set<std::string> un(unused.begin(), unused.end());
  for (auto& kv : p) vp::Check(un.count(prefix + kv.first) == want.unread.count(kv.first), "'" + kv.first + (want.unread.count(kv.first) ? "' has no effect but is not reported as unused" : "' is used but reported as unused"));
  std::string h;
  for (auto& kv : got) h += kv.second + "|";
  vp::Outcome(h);
}

static std::string ShowP(const Parset& p) { std::string s; for (auto& kv : p) s += " " + kv.first + "=" + kv.second; return s; }

static void Keys() {
  struct Setting { std::string k, v; };
  std::vector<Setting> all;
  for (const Key& k : Table()) for (const char* v : k.values) all.push_back({k.name, v});
  for (const char* v : {"scalar", "diagonalphase", "DiagonalAmplitude"}) { all.push_back({"rotationdiagonalmode", v}); all.push_back({"faradaydiagonalmode", v}); }
  all.push_back({"llssolver", "SVD"}); all.push_back({"llssolver", "normalequations"}); all.push_back({"datause", "Dual"}); all.push_back({"datause", "single"});
  all.push_back({"usemodelcolumn", "true"});
  // Values that are errors.
  for (auto& s : std::vector<Setting>{{"mode", "nomode"}, {"solveralgorithm", "none"}, {"llssolver", "lu"}, {"datause", "triple"}, {"rotationdiagonalmode", "x"}, {"faradaydiagonalmode", "x"},
        {"smoothness_dd_factors", "[0.5,0]"}, {"smoothness_dd_factors", "[1.1]"}, {"smoothness_dd_factors", "[-0.5]"}, {"smoothness_dd_factors", "[0.5,1,1.0001]"}, {"antennaconstraint", "[a,b]"}, {"antennaconstraint", "[[a,a]]"}, {"antennaconstraint", "[[a,b],[c]]"}}) all.push_back(s);
  // In every mode with every algorithm: no further key, every key, and (with the
  // first two algorithms for few modes, all in the thorough tier) every pair.
  int combo = 0;
  for (auto& m : kModes)
    for (auto& a : kAlgs) {
      const std::string prefix = (combo % 3 == 0) ? "" : (combo % 3 == 1) ? "ddecal." : "a.b.";
      ++combo;
      Parset base{{"h5parm", "sol.h5"}, {"mode", m.text}, {"solveralgorithm", a.text}};
      auto run = [&](const Parset& p) {
        if (vp::CaseF([&] { return "settings prefix " + vp::Show(prefix) + ShowP(p); })) One(p, prefix, "", "", true);
      };
      run(base);
      const bool cond = m.type == CalType::kTec || m.type == CalType::kTecPhaseAndDelay || m.type == CalType::kRotationAndDiagonal || m.type == CalType::kFaradayRotation || m.type == CalType::kDiagonal;
      const bool pairs = vp::Thorough() || (cond && (combo % 6 == 1 || a.type == dp3::ddecal::SolverAlgorithm::kLBFGS));
      for (size_t i = 0; i < all.size(); ++i) {
        Parset p = base;
        p[all[i].k] = all[i].v;
        run(p);
        if (m.type == CalType::kTec || m.type == CalType::kTecAndPhase) { Parset q = p; q["approximatetec"] = "true"; q[all[i].k] = all[i].v; run(q); }
        if (pairs) for (size_t j = i + 1; j < all.size(); ++j) { if (all[j].k == all[i].k) continue; Parset q = p; q[all[j].k] = all[j].v; run(q); }
      }
    }
  // The solution file and model column, with and without msin.
  for (const char* prefix : {"", "ddecal."})
    for (const char* msin : {"", "in.MS"})
      for (const char* mc : {"", "COL"})
        for (int h5 = 0; h5 < 2; ++h5) for (int only = 0; only < 3; ++only) for (int use = 0; use < 3; ++use) for (int cols = 0; cols < 3; ++cols) {
          Parset p;
          if (h5) p["h5parm"] = "s.h5";
          if (only) p["onlypredict"] = only == 1 ? "true" : "false";
          if (use) p["usemodelcolumn"] = use == 1 ? "true" : "false";
          if (cols) p["modeldatacolumns"] = cols == 1 ? "[A,B]" : "[]";
          if (vp::CaseF([&] { return "files prefix " + vp::Show(prefix) + " msin " + vp::Show(msin) + " column " + vp::Show(mc) + ShowP(p); })) One(p, prefix, msin, mc, false);
        }
}

static Settings Make(const Parset& p) {
  dp3::common::ParameterSet ps;
  ps.add("h5parm", "x.h5");
  for (auto& kv : p) ps.add(kv.first, kv.second);
  return Settings(ps, "");
}

static void SubSolutions() {
  const std::vector<int> vals = {0, 1, 2, 3, 4, 5, 6};
  const int max_len = vp::Thorough() ? 5 : 4;
  std::vector<int> v;
  std::function<void()> rec = [&] {
    for (int solint : {0, 1, 2, 4, 6, 12})
      for (size_t nd = 1; nd <= 4; ++nd)
        for (int dd = 0; dd < 3; ++dd) {
          if (dd && v.size() > 2) continue;
          auto name = [&] { std::string s; for (int x : v) s += " " + vp::Str(x); return s; };
          if (!vp::CaseF([&] { return "subsolutions" + name() + " solint " + vp::Str(solint) + " directions " + vp::Str(nd) + " factors " + vp::Str(dd); })) continue;
          Parset p{{"solint", vp::Str(solint)}};
          std::string t = "[";
          for (size_t i = 0; i < v.size(); ++i) t += (i ? "," : "") + vp::Str(v[i]);
          if (!v.empty()) p["solutions_per_direction"] = t + "]";
          std::vector<double> factors;
          const size_t nf = dd == 0 ? 0 : dd == 1 ? nd : nd + 1;
          for (size_t i = 0; i < nf; ++i) factors.push_back(1.0 / (i + 1));
          if (nf) { std::string ft = "["; for (size_t i = 0; i < nf; ++i) ft += (i ? "," : "") + vp::Str(factors[i]); p["smoothness_dd_factors"] = ft + "]"; }
          Settings s = Make(p);
          if (v.empty()) vp::Check(s.GetExpandedSmoothnessDdFactors() == factors, "smoothness factors changed before the number of directions is known");
          bool error = v.size() > nd || dd == 2;
          std::vector<size_t> want(v.begin(), v.end());
          want.resize(std::max(nd, v.size()), 1);
          size_t sum = 0;
          for (size_t x : want) { if (x == 0 || (solint != 0 && solint % x != 0) || (solint == 0 && x > 1)) error = true; sum += x; }
          const std::string r = vp::Throws([&] { s.PrepareSubSolutionsPerDirection(nd); });
          vp::Step(3); vp::Trace();
          if (!vp::Check(r.empty() != error, error ? "impossible sub-solutions are accepted" : "possible sub-solutions are refused") || error) continue;
          vp::Check(s.sub_solutions_per_direction == want, "the sub-solutions are " + LU(s.sub_solutions_per_direction));
          vp::Check(s.GetNSolutions() == sum, "the number of solutions is " + vp::Str(s.GetNSolutions()));
          std::vector<double> ex;
          std::vector<size_t> dir;
          for (size_t d = 0; d < nd; ++d) for (size_t k = 0; k < want[d]; ++k) { if (nf) ex.push_back(factors[d]); dir.push_back(d); }
          vp::Check(s.GetExpandedSmoothnessDdFactors() == ex, "the expanded smoothness factors are wrong");
          vp::Check(dp3::ddecal::GetSolutionToDirectionVector(std::vector<uint32_t>(want.begin(), want.end())) == dir, "the solution-to-direction list is wrong");
          s.PrepareSubSolutionsPerDirection(nd);   // once more changes nothing
          vp::Check(s.sub_solutions_per_direction == want, "preparing twice changes the sub-solutions");
          vp::Outcome(LU(want));
        }
    if (int(v.size()) == max_len) return;
    for (int x : vals) { v.push_back(x); rec(); v.pop_back(); }
  };
  rec();
}

static bool Wild(const char* p, const char* n) {
  if (!*p) return !*n;
  if (*p == '*') return Wild(p + 1, n) || (*n && Wild(p, n + 1));
  return *n && (*p == '?' || *p == *n) && Wild(p + 1, n + 1);
}

static void Reuse() {
  const std::vector<std::string> names = {"a", "ab", "s.a", "s.b", "t.a.b", "sxa", "s1.a"};
  const std::vector<std::string> pats = {"*", "a", "s.*", "?.a", "*.a", "s.a", "t.a?b", "q", "??", "s*a"};
  std::vector<std::vector<int>> sets;
  for (size_t i = 0; i < pats.size(); ++i) { sets.push_back({int(i)}); for (size_t j = 0; j < pats.size(); ++j) if (i != j) { sets.push_back({int(i), int(j)}); if (vp::Thorough()) for (size_t k = 0; k < pats.size(); ++k) if (k != i && k != j) sets.push_back({int(i), int(j), int(k)}); } }
  sets.push_back({});
  for (auto& ps : sets)
    for (unsigned mask = 0; mask < (1u << names.size()); ++mask) {
      if (!vp::CaseF([&] { std::string k = "reuse patterns"; for (int i : ps) k += " " + pats[i]; k += " of"; for (size_t n = 0; n < names.size(); ++n) if (mask >> n & 1) k += " " + names[n]; return k; })) continue;
      std::string t = "[";
      for (size_t i = 0; i < ps.size(); ++i) t += (i ? "," : "") + pats[ps[i]];
      Settings s = Make(ps.empty() ? Parset{} : Parset{{"reusemodel", t + "]"}});
      std::map<std::string, dp3::base::Direction> dirs;
      for (size_t n = 0; n < names.size(); ++n) if (mask >> n & 1) dirs[names[n]] = dp3::base::Direction(n, 0);
      std::vector<std::pair<std::string, std::string>> want, got;
      for (auto& d : dirs)
        for (int i : ps) if (Wild(pats[i].c_str(), d.first.c_str())) {
          const size_t dot = d.first.find('.');
          want.emplace_back(d.first, dot == std::string::npos ? d.first : d.first.substr(dot + 1));
          break;
        }
      bool any_unmatched = false;
      for (int i : ps) {
        bool m = false;
        for (auto& d : dirs) m = m || Wild(pats[i].c_str(), d.first.c_str());
        if (!m) any_unmatched = true;
      }
      vp::Step(); vp::Trace();
      const std::string r = vp::Throws([&] { got = s.GetReusedDirections(dirs); });
      if (any_unmatched) vp::Check(!r.empty(), "a pattern without a match is accepted");
      else if (vp::Check(r.empty(), "matching patterns are refused")) vp::Check(got == want, "the re-used directions are wrong");
      vp::Outcome(vp::Str(got.size()) + r);
    }
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  Keys();
  SubSolutions();
  Reuse();
  if (vp::Case("algorithm names")) {
    vp::Step(6); vp::Trace();
    for (auto& a : kAlgs) {
      std::string n = dp3::ddecal::ToString(a.type);
      for (char& c : n) c = tolower(c);
      std::string w = a.text;
      for (char& c : w) c = tolower(c);
      vp::Check(n == w, std::string("algorithm ") + a.text + " prints as " + n);
    }
  }
  return vp::Finish();
}
