// C24: axes, grids and boxes of the parameter data base: every axis up to a
// size on a small lattice (regular, irregular, with gaps), every search,
// subset, union, mapping and grid built from them.
#include "vp.h"
#include <algorithm>
#include "parmdb/Axis.h"
#include "parmdb/AxisMapping.h"
#include "parmdb/Box.h"
#include "parmdb/Grid.h"
using namespace dp3::parmdb;

typedef std::vector<std::pair<int, int>> Cells;  // lattice intervals

// The lattice: integers mapped to coordinates in a few ways (rounding).
struct Lattice { const char* name; double origin, unit; double At(double i) const { return origin + unit * i; } };
static const Lattice kLattices[] = {{"unit", 0, 1}, {"tenths", 0, 0.1}, {"mjd", 4.9e9, 1.5}, {"shift", -3, 1}, {"hz", 1.2e8, 195312.5}};

static std::string Show(const Cells& c) {
  std::string s;
  for (auto& p : c) s += "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]";
  return s.empty() ? "-" : s;
}

static bool Near(double a, double b, const Lattice& l) { return std::fabs(a - b) <= 1e-6 * l.unit + 16e-15 * std::max({std::fabs(a), std::fabs(b), std::fabs(l.origin)}); }

static std::vector<Cells> AllAxes(int limit, bool gaps) {
  std::vector<Cells> out;
  std::function<void(Cells&, int)> rec = [&](Cells& c, int from) {
    if (!c.empty()) out.push_back(c);
    for (int s = from; s < limit; ++s) {
      if (!c.empty() && !gaps && s != from) break;
      for (int e = s + 1; e <= limit; ++e) { c.emplace_back(s, e); rec(c, e); c.pop_back(); }
    }
  };
  Cells c;
  rec(c, 0);
  return out;
}
static bool Consecutive(const Cells& c) {
  for (size_t i = 1; i < c.size(); ++i) if (c[i].first != c[i - 1].second) return false;
  return true;
}
static bool Regular(const Cells& c) {
  for (size_t i = 1; i < c.size(); ++i) if (c[i].second - c[i].first != c[0].second - c[0].first) return false;
  return Consecutive(c);
}

// The ways to make an axis with these cells.
static std::vector<std::pair<std::string, Axis::ShPtr>> Make(const Cells& c, const Lattice& l, bool all) {
  std::vector<double> lo, hi, ce, wi;
  for (auto& p : c) {
    lo.push_back(l.At(p.first)); hi.push_back(l.At(p.second));
    ce.push_back(l.At((p.first + p.second) * 0.5)); wi.push_back(l.unit * (p.second - p.first));
  }
  std::vector<std::pair<std::string, Axis::ShPtr>> out;
  out.emplace_back("ordered", std::make_shared<OrderedAxis>(lo, hi, true));
  if (all) out.emplace_back("centres", std::make_shared<OrderedAxis>(ce, wi));
  if (Regular(c)) {
    out.emplace_back("regular", std::make_shared<RegularAxis>(lo[0], wi[0], c.size()));
    if (all) out.emplace_back("startend", std::make_shared<RegularAxis>(lo[0], hi.back(), c.size(), true));
  }
  if (all && Consecutive(c)) out.emplace_back("made", Axis::makeAxis(lo, hi));
  if (all) { out.emplace_back("clone", out[0].second->clone()); }
  return out;
}

static std::string Text(const Axis& a) {
  std::string s;
  for (size_t i = 0; i < a.size(); ++i) s += "[" + vp::Str(a.lower(i)) + "," + vp::Str(a.upper(i)) + "]";
  return s;
}

static bool Same(const Axis& a, const Cells& c, const Lattice& l, const std::string& what) {
  bool ok = a.size() == c.size() && a.centers().size() == c.size() && a.widths().size() == c.size() && a.lowers().size() == c.size() && a.uppers().size() == c.size();
  for (size_t i = 0; ok && i < c.size(); ++i) {
    const double lo = l.At(c[i].first), hi = l.At(c[i].second);
    ok = Near(a.lower(i), lo, l) && Near(a.upper(i), hi, l) && Near(a.center(i), (lo + hi) / 2, l) && Near(a.width(i), hi - lo, l) &&
         a.lower(i) == a.lowers()[i] && a.upper(i) == a.uppers()[i] && a.center(i) == a.centers()[i] && a.width(i) == a.widths()[i];
  }
  if (ok) ok = Near(a.start(), l.At(c.front().first), l) && Near(a.end(), l.At(c.back().second), l) && a.range() == std::make_pair(a.start(), a.end());
  return vp::Check(ok, what + " is " + Text(a) + ", expected " + Show(c));
}
static bool IsDefault(const Axis& a) { return a.size() == 1 && a.lower(0) <= -0.9e30 && a.upper(0) >= 0.9e30; }

// Cells (indices) that overlap the open interval (s,e), in half lattice units.
static Cells Overlap(const Cells& c, double s, double e, size_t* first = nullptr) {
  Cells out;
  for (size_t i = 0; i < c.size(); ++i)
    if (c[i].second > s && c[i].first < e) { if (out.empty() && first) *first = i; out.push_back(c[i]); }
  return out;
}

static void SingleAxis(int limit) {
  for (const Lattice& l : kLattices)
    for (const Cells& c : AllAxes(limit, true))
      for (size_t w = 0; w < Make(c, l, true).size(); ++w) {
        std::string kind = Make(c, l, true)[w].first;
        if (!vp::CaseF([&] { return std::string("axis ") + l.name + " " + kind + " " + Show(c); })) continue;
        Axis::ShPtr a = Make(c, l, true)[w].second;
        Same(*a, c, l, "the axis");
        vp::Check(a->isRegular() == (dynamic_cast<RegularAxis*>(a.get()) != nullptr), "isRegular is wrong");
        if (kind == "made") vp::Check(a->isRegular() == Regular(c), "makeAxis gives the wrong kind");
        // Searches: at every quarter lattice point, both biases, every hint.
        for (int q = -4; q <= 4 * limit + 4; ++q)
          for (int bias = 0; bias < 2; ++bias)
            for (size_t hint = 0; hint <= c.size() + 1; ++hint) {
              const double p = q * 0.25;
              size_t want = c.size();
              bool found = false;
              for (size_t i = 0; i < c.size() && want == c.size(); ++i) {
                const bool in = bias ? (p >= c[i].first && p < c[i].second) : (p > c[i].first && p <= c[i].second);
                if (in) { want = i; found = true; }
                else if (bias ? c[i].second > p : c[i].second >= p) want = i;   // the next higher cell
              }
              auto got = a->find(l.At(p), bias, hint);
              vp::Step();
              vp::Check(got.second == found && got.first == want,
                        "find(" + vp::Str(p) + ", bias " + vp::Str(bias) + ", hint " + vp::Str(hint) + ") gives " + vp::Str(got.first) + (got.second ? "" : " not found") + ", expected " + vp::Str(want) + (found ? "" : " not found"));
              std::string t = vp::Throws([&] { vp::Check(a->locate(l.At(p), bias, hint) == want, "locate differs from find"); });
              vp::Check(t.empty() == found, "locate throws exactly if there is no cell");
            }
        // Subsets by value and by index.
        for (int s = -1; s <= 2 * limit + 1; ++s)
          for (int e = s + 1; e <= 2 * limit + 2; ++e) {
            size_t first = 0, index = 99;
            Cells want = Overlap(c, s * 0.5, e * 0.5, &first);
            Axis::ShPtr sub = a->subset(l.At(s * 0.5), l.At(e * 0.5), index);
            Axis::ShPtr sub2 = a->subset(l.At(s * 0.5), l.At(e * 0.5));
            vp::Step(2);
            const std::string what = "the subset " + vp::Str(s * 0.5) + ".." + vp::Str(e * 0.5);
            if (want.empty()) vp::Check(IsDefault(*sub), what + " without cells gives " + Text(*sub));
            else if (Same(*sub, want, l, what)) vp::Check(index == first, what + " starts at " + vp::Str(index) + ", expected " + vp::Str(first));
            vp::Check(*sub == *sub2, "both ways to take a subset differ");
          }
        for (size_t s = 0; s < c.size(); ++s)
          for (size_t e = s; e <= c.size() + 1; ++e) {
            Axis::ShPtr sub = a->subset(s, e);
            vp::Step();
            Same(*sub, Cells(c.begin() + s, c.begin() + std::min(e + 1, c.size())), l, "the subset of cells " + vp::Str(s) + ".." + vp::Str(e));
          }
        // Compression.
        for (size_t f = 1; f <= c.size() + 1; ++f) {
          Cells want;
          for (size_t i = 0; i < c.size(); i += f) want.emplace_back(c[i].first, c[std::min(i + f, c.size()) - 1].second);
          Axis::ShPtr z = a->compress(f);
          vp::Step();
          Same(*z, want, l, "the axis compressed by " + vp::Str(f));
        }
        vp::Check(*a == *a->clone() && !(*a != *a->clone()), "a clone differs");
        vp::Trace();
        vp::Outcome(std::string(l.name) + Show(c));
      }
}

static void Pairs(int limit) {
  std::vector<Cells> axes = AllAxes(limit, true);
  for (size_t li = 0; li < 3; ++li) {
    const Lattice& l = kLattices[li];
    for (const Cells& c1 : axes)
      for (const Cells& c2 : axes)
        for (int k = 0; k < 4; ++k) {
          if ((k & 1) && !Regular(c1)) continue;
          if ((k & 2) && !Regular(c2)) continue;
          if (!vp::CaseF([&] { return std::string("pair ") + l.name + " " + Show(c1) + " " + Show(c2) + " kinds " + vp::Str(k); })) continue;
          Axis::ShPtr a = Make(c1, l, false)[k & 1 ? 1 : 0].second, b = Make(c2, l, false)[k & 2 ? 1 : 0].second;
          const Cells o1 = Overlap(c1, c2.front().first, c2.back().second), o2 = Overlap(c2, c1.front().first, c1.back().second);
          const bool match = o1 == o2;
          if (li == 0) vp::Check((*a == *b) == (c1 == c2), "equality is wrong");
          vp::Check(a->checkIntervals(*b) == match, std::string("checkIntervals gives ") + (match ? "false for matching" : "true for different") + " intervals");
          vp::Step(3);
          // The union.
          int s1 = -9, e1 = -9, s2 = -9, e2 = -9;
          Axis::ShPtr u;
          std::string t = vp::Throws([&] { u = a->combine(*b, s1, e1, s2, e2); });
          const bool disjoint = c1.back().second <= c2.front().first || c2.back().second <= c1.front().first;
          // The ranges overlap but no cell is shared: not a documented input.
          const bool undefined = !disjoint && o1.empty() && o2.empty();
          if (undefined) { vp::Trace(); continue; }
          if (vp::Check(t.empty() == match, match ? "matching axes cannot be combined" : "mismatching axes are combined to " + (u ? Text(*u) : "")) && match) {
            Cells all = c1;
            for (auto& p : c2) if (std::find(all.begin(), all.end(), p) == all.end()) all.push_back(p);
            if (disjoint) {
              if (c1.back().second < c2.front().first) all.emplace_back(c1.back().second, c2.front().first);
              if (c2.back().second < c1.front().first) all.emplace_back(c2.back().second, c1.front().first);
            }
            std::sort(all.begin(), all.end());
            if (Same(*u, all, l, "the union")) {
              // Kind: only the union of consecutive equal-width cells is regular.
              if (!Regular(all)) vp::Check(!u->isRegular(), "an irregular union is called regular");
              auto at = [&](const Cells& c, int s, int e, const char* who) {
                bool ok = s >= 0 && e - s == int(c.size()) && e <= int(all.size());
                for (int i = s; ok && i < e; ++i) ok = all[i] == c[i - s];
                vp::Check(ok, std::string(who) + " axis is said to be at " + vp::Str(s) + ".." + vp::Str(e) + " of the union");
              };
              at(c1, s1, e1, "the first");
              at(c2, s2, e2, "the second");
            }
          }
          // Mapping cells of a onto b.
          AxisMapping m(*a, *b);
          AxisMappingCache cache;
          const AxisMapping& mc = cache.get(*a, *b);
          const AxisMapping& mc2 = cache.get(*b, *a);
          vp::Check(&mc == &cache.get(*a, *b) && &mc2 == &cache.get(*b, *a) && cache.size() == 2, "the mapping cache does not find the mapping back");
          vp::Step(5);
          std::vector<int> want, borders;
          for (size_t i = 0; i < c1.size(); ++i) {
            const double mid = (c1[i].first + c1[i].second) * 0.5;
            int to = int(c2.size()) - 1;
            for (size_t j = 0; j < c2.size(); ++j) if (mid < c2[j].second) { to = j; break; }
            if (i > 0 && to != want.back()) borders.push_back(i);
            want.push_back(to);
          }
          borders.push_back(c1.size());
          bool ok = m.size() == want.size() && std::vector<int>(m.begin(), m.end()) == want && std::vector<int>(mc.begin(), mc.end()) == want && m.getBorders() == borders;
          for (size_t i = 0; ok && i < want.size(); ++i) {
            const double sc = ((c1[i].first + c1[i].second) * 0.5 - c2[want[i]].first) / (c2[want[i]].second - c2[want[i]].first);
            ok = m[i] == want[i] && std::fabs(m.getScaledCenters()[i] - sc) < 1e-6;
          }
          vp::Check(ok, "the mapping of the first on the second axis is wrong");
          vp::Trace();
          vp::Outcome(Show(c1) + (match ? "+" : "-") + vp::Str(s1) + vp::Str(e1) + vp::Str(s2) + vp::Str(e2));
        }
  }
}

static void Grids(int limit) {
  const Lattice& lx = kLattices[4];
  const Lattice& ly = kLattices[2];
  std::vector<Cells> axes = AllAxes(limit, true);
  for (const Cells& cx : axes)
    for (const Cells& cy : axes) {
      if (!vp::CaseF([&] { return "grid " + Show(cx) + " x " + Show(cy); })) continue;
      Axis::ShPtr ax = Make(cx, lx, false).back().second, ay = Make(cy, ly, false).back().second;
      Grid g(ax, ay);
      const size_t nx = cx.size(), ny = cy.size();
      vp::Check(!g.isDefault() && g.nx() == nx && g.ny() == ny && g.size() == nx * ny && g.shape() == std::make_pair(nx, ny) && g[0] == ax && g.getAxis(1) == ay, "the shape is wrong");
      auto box = [&](const Box& b, size_t x0, size_t y0, size_t x1, size_t y1, const std::string& what) {
        vp::Check(Near(b.lowerX(), lx.At(cx[x0].first), lx) && Near(b.upperX(), lx.At(cx[x1].second), lx) && Near(b.lowerY(), ly.At(cy[y0].first), ly) && Near(b.upperY(), ly.At(cy[y1].second), ly), what + " is wrong");
      };
      std::set<unsigned> ids;
      std::vector<Grid::Location> order;
      for (CellIterator it(Grid::Location(0, 0), Grid::Location(nx - 1, ny - 1)); !it.atEnd(); ++it) order.push_back(*it);
      vp::Check(order.size() == nx * ny, "the cell iterator visits " + vp::Str(order.size()) + " cells");
      for (size_t y = 0; y < ny; ++y)
        for (size_t x = 0; x < nx; ++x) {
          Grid::Location loc(x, y);
          const unsigned id = g.getCellId(loc);
          ids.insert(id);
          vp::Check(id < nx * ny && g.getCellLocation(id) == loc, "cell ids and locations are not inverse");
          vp::Check(id < order.size() && order[id] == loc, "cells are not visited in id order");
          box(g.getCell(loc), x, y, x, y, "a cell");
          vp::Check(g.getCell(id) == g.getCell(loc), "the cell by id differs");
          Point p = g.getCellCenter(loc);
          vp::Check(g.locate(p) == loc && g.locate(p, false) == loc, "a cell's centre is located elsewhere");
          for (size_t y1 = y; y1 < ny; ++y1)
            for (size_t x1 = x; x1 < nx; ++x1) {
              box(g.getBoundingBox(loc, Grid::Location(x1, y1)), x, y, x1, y1, "a bounding box of cells");
              Grid sub = g.subset(loc, Grid::Location(x1, y1));
              vp::Check(sub.nx() == x1 - x + 1 && sub.ny() == y1 - y + 1, "a subset by location has the wrong shape");
              box(sub.getBoundingBox(), x, y, x1, y1, "a subset by location");
              Grid::Location at(99, 99);
              Grid sub2 = g.subset(g.getBoundingBox(loc, Grid::Location(x1, y1)), at);
              vp::Check(sub2.nx() == sub.nx() && sub2.ny() == sub.ny() && at == loc, "a subset by its bounding box has the wrong shape or start");
              box(sub2.getBoundingBox(), x, y, x1, y1, "a subset by box");
              vp::Check(g.checkIntervals(sub) && sub.checkIntervals(g), "a subset does not match its grid");
              vp::Step(8);
            }
        }
      vp::Check(ids.size() == nx * ny, "cell ids are not unique");
      box(g.getBoundingBox(), 0, 0, nx - 1, ny - 1, "the bounding box");
      // Domains and back.
      std::vector<Box> domains(1, Box(Point(-1, -1), Point(0, 0)));
      g.toDomains(domains);
      vp::Step();
      if (vp::Check(domains.size() == nx * ny + 1 && domains[0] == Box(Point(-1, -1), Point(0, 0)), "toDomains does not append one domain per cell")) {
        domains.erase(domains.begin());
        for (size_t i = 0; i < domains.size(); ++i) box(domains[i], i % nx, i / nx, i % nx, i / nx, "a domain");
        for (int sorted = 0; sorted < 2; ++sorted) {
          std::vector<Box> d(domains);
          if (sorted) std::reverse(d.begin(), d.end());
          Grid h(d, sorted);
          vp::Step();
          Same(*h[0], cx, lx, "the x axis from domains");
          Same(*h[1], cy, ly, "the y axis from domains");
          vp::Check(h[0]->isRegular() == Regular(cx) && h[1]->isRegular() == Regular(cy), "an axis from domains has the wrong kind");
        }
      }
      // A grid put together from every split in subgrids.
      if (nx <= 3 && ny <= 3)
        for (size_t mx = 0; mx < (1u << (nx - 1)); ++mx)
          for (size_t my = 0; my < (1u << (ny - 1)); ++my)
            for (int sorted = 0; sorted < 2; ++sorted) {
              std::vector<std::pair<size_t, size_t>> px, py;
              for (size_t i = 0, b = 0; i < nx; ++i) if (i == nx - 1 || (mx >> i & 1)) { px.emplace_back(b, i); b = i + 1; }
              for (size_t i = 0, b = 0; i < ny; ++i) if (i == ny - 1 || (my >> i & 1)) { py.emplace_back(b, i); b = i + 1; }
              std::vector<Grid> parts;
              for (auto& y : py) for (auto& x : px) parts.push_back(g.subset(Grid::Location(x.first, y.first), Grid::Location(x.second, y.second)));
              for (size_t i = 1; i < parts.size(); ++i) vp::Check(parts[i - 1] < parts[i] && parts[i] > parts[i - 1] && !(parts[i] < parts[i - 1]), "the order of grids is wrong");
              if (sorted) std::reverse(parts.begin(), parts.end());
              Grid h(parts, sorted);
              vp::Step();
              Same(*h[0], cx, lx, "the x axis put together");
              Same(*h[1], cy, ly, "the y axis put together");
            }
      vp::Trace();
      vp::Outcome(Show(cx) + "x" + Show(cy));
    }
  if (vp::Case("grid default")) {
    Grid d, e(std::vector<Box>{}), f(std::vector<Grid>{});
    vp::Step(3);
    for (Grid* g : {&d, &e, &f}) vp::Check(g->isDefault() && g->size() == 1 && IsDefault(*(*g)[0]) && IsDefault(*(*g)[1]), "an empty grid is not the default grid");
    OrderedAxis o; RegularAxis r;
    vp::Check(IsDefault(o) && IsDefault(r), "a default axis is not infinite");
    vp::Trace();
  }
  // Locations in one grid seen from another.
  std::vector<Cells> few = AllAxes(std::min(limit, 3), false);
  for (const Cells& x1 : few) for (const Cells& y1 : few) for (const Cells& x2 : few) for (const Cells& y2 : few) {
    if (!vp::CaseF([&] { return "gridmap " + Show(x1) + Show(y1) + " to " + Show(x2) + Show(y2); })) continue;
    Grid a(Make(x1, lx, false)[0].second, Make(y1, ly, false)[0].second), b(Make(x2, lx, false)[0].second, Make(y2, ly, false)[0].second);
    AxisMappingCache cache;
    auto to = [](const Cells& f, size_t i, const Cells& t) { double m = (f[i].first + f[i].second) * 0.5; for (size_t j = 0; j < t.size(); ++j) if (m < t[j].second) return j; return t.size() - 1; };
    for (size_t y = 0; y < y1.size(); ++y) for (size_t x = 0; x < x1.size(); ++x) {
      Grid::Location loc(x, y), want(to(x1, x, x2), to(y1, y, y2));
      const unsigned id = a.getCellId(loc), wid = b.getCellId(want);
      vp::Check(GridMapping::findLocation(cache, loc, a, b) == want && GridMapping::findLocation(cache, id, a, b) == want &&
                GridMapping::findCellId(cache, loc, a, b) == wid && GridMapping::findcellId(cache, id, a, b) == wid, "cell " + vp::Str(x) + "," + vp::Str(y) + " is mapped wrongly");
      vp::Step(4);
    }
    vp::Trace();
  }
}

static void Boxes() {
  std::vector<std::array<int, 4>> all;   // x0,y0,x1,y1
  const int n = vp::Thorough() ? 5 : 4;
  for (int x0 = 0; x0 < n; ++x0) for (int x1 = x0; x1 < n; ++x1) for (int y0 = 0; y0 < n; ++y0) for (int y1 = y0; y1 < n; ++y1) all.push_back({x0, y0, x1, y1});
  for (const Lattice* l : {&kLattices[1], &kLattices[2], &kLattices[3]})
    for (auto& a : all) for (auto& b : all) {
      auto name = [](const std::array<int, 4>& q) { return "(" + vp::Str(q[0]) + "," + vp::Str(q[1]) + ".." + vp::Str(q[2]) + "," + vp::Str(q[3]) + ")"; };
      if (!vp::CaseF([&] { return std::string("box ") + l->name + " " + name(a) + " " + name(b); })) continue;
      auto mk = [&](const std::array<int, 4>& q, int how) {
        const double x0 = l->At(q[0]), y0 = l->At(q[1]), x1 = l->At(q[2]), y1 = l->At(q[3]);
        if (how == 0) return Box(Point(x0, y0), Point(x1, y1));
        if (how == 1) return Box(x0, x1, y0, y1, true);
        if (how == 2) return Box(std::vector<double>{x0, y0, x1, y1});
        return Box((x0 + x1) / 2, x1 - x0, (y0 + y1) / 2, y1 - y0);
      };
      Box A = mk(a, 0), B = mk(b, 0);
      vp::Check(A == mk(a, 1) && A == mk(a, 2) && !(A != mk(a, 1)), "constructors differ");
      Box C = mk(a, 3);
      vp::Check(Near(C.lowerX(), A.lowerX(), *l) && Near(C.upperX(), A.upperX(), *l) && Near(C.lowerY(), A.lowerY(), *l) && Near(C.upperY(), A.upperY(), *l), "centre and width give another box");
      vp::Check(A.lower() == Point(A.lowerX(), A.lowerY()) && A.upper() == Point(A.upperX(), A.upperY()) && A.widthX() == A.upperX() - A.lowerX() && A.widthY() == A.upperY() - A.lowerY(), "accessors differ");
      vp::Check((A == B) == (a == b), "equality is wrong");
      const bool ea = a[0] == a[2] || a[1] == a[3];
      vp::Check(A.empty() == ea, "empty is wrong");
      const bool cont = b[0] >= a[0] && b[2] <= a[2] && b[1] >= a[1] && b[3] <= a[3];
      vp::Check(A.contains(B) == cont, "contains is wrong");
      const int ix0 = std::max(a[0], b[0]), iy0 = std::max(a[1], b[1]), ix1 = std::min(a[2], b[2]), iy1 = std::min(a[3], b[3]);
      const bool inter = ix0 < ix1 && iy0 < iy1;
      const bool eb = b[0] == b[2] || b[1] == b[3];
      if (!ea && !eb) vp::Check(A.intersects(B) == inter, "intersects is wrong");
      Box I = A & B, U = A | B;
      vp::Check(inter ? I == mk({ix0, iy0, ix1, iy1}, 0) : I.empty(), "the intersection is wrong");
      vp::Check(U == mk({std::min(a[0], b[0]), std::min(a[1], b[1]), std::max(a[2], b[2]), std::max(a[3], b[3])}, 0), "the union is wrong");
      const bool less = a[1] < b[1] || (a[1] == b[1] && a[0] < b[0]), more = b[1] < a[1] || (a[1] == b[1] && b[0] < a[0]);
      vp::Check((A < B) == less && (A > B) == more, "the order is wrong");
      vp::Step(12); vp::Trace();
      vp::Outcome(name(a) + name(b));
    }
  for (size_t k = 0; k <= 5; ++k)
    if (vp::Case("box from " + vp::Str(k) + " values")) {
      std::vector<double> v{1, 2, 3, 4, 5};
      v.resize(k);
      Box b(v);
      vp::Step(); vp::Trace();
      vp::Check(b.lowerX() == (k > 0 ? 1 : -1e30) && b.lowerY() == (k > 1 ? 2 : -1e30) && b.upperX() == (k > 2 ? 3 : 1e30) && b.upperY() == (k > 3 ? 4 : 1e30), "absent values have the wrong default");
    }
  if (vp::Case("box default")) { Box b; vp::Step(); vp::Trace(); vp::Check(b.empty(), "a default box is not empty"); }
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool t = vp::Thorough();
  SingleAxis(t ? 7 : 6);
  Pairs(t ? 6 : 5);
  Grids(t ? 5 : 4);
  Boxes();
  return vp::Finish();
}
