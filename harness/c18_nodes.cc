// C18: node descriptions.
#include <algorithm>
#include <sstream>
#include "vp.h"
#include "common/NodeDesc.h"
using dp3::common::NodeDesc; using dp3::common::ParameterSet;
typedef std::vector<std::string> VS;
int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const VS mounts = {"/", "/a", "/b", "/a/b", "/a/bc", "/ab", "/a/b/c", "/b/a"};
  VS files;
  // All paths of depth <=4 over components a, b, ab, bc, c.
  const VS comp = {"a", "b", "ab", "bc", "c"};
  std::vector<VS> level(1, VS{""});
  for (int d = 0; d < 4; ++d) { VS next; for (auto& p : level[d]) for (auto& c : comp) next.push_back(p + "/" + c); for (auto& p : next) files.push_back(p); level.push_back(next); }
  auto expected = [](const VS& mp, const VS& fs, const std::string& file) -> std::string {
    // Longest mount point that is a proper path prefix of the file.
    size_t best = 0; std::string r; bool found = false;
    for (size_t i = 0; i < mp.size(); ++i) {
      const bool is_prefix = mp[i] == "/" || (file.size() > mp[i].size() && file.compare(0, mp[i].size(), mp[i]) == 0 && file[mp[i].size()] == '/');
      if (is_prefix && (!found || mp[i].size() > best)) { best = mp[i].size(); r = fs[i]; found = true; }
    }
    return r;
  };
  // All ordered selections of up to 4 (5) distinct mount points.
  const size_t L = vp::Thorough() ? 5 : 4;
  std::vector<std::vector<size_t>> sel(1);
  for (size_t i = 0; i < sel.size(); ++i) if (sel[i].size() < L) for (size_t m = 0; m < mounts.size(); ++m) if (std::find(sel[i].begin(), sel[i].end(), m) == sel[i].end()) { auto s = sel[i]; s.push_back(m); sel.push_back(s); }
  for (auto& s : sel) {
    if (!vp::CaseF([&] { std::string k = "mounts"; for (size_t m : s) k += " " + mounts[m]; return k; })) continue;
    for (int route = 0; route < 3; ++route) {       // direct, with /auto, via a parset
      NodeDesc node;
      VS mp, fs;
      for (size_t m : s) { mp.push_back(mounts[m]); fs.push_back("fs" + vp::Str(m)); }
      if (route < 2) for (size_t i = 0; i < s.size(); ++i) node.addFileSys(fs[i], (route == 1 ? "/auto" : "") + mp[i]);
      else {
        ParameterSet ps;
        auto join = [](const VS& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i]; return r + "]"; };
        ps.add("NodeName", "n"); ps.add("NodeMountPoints", join(mp)); ps.add("NodeFileSys", join(fs));
        node = NodeDesc(ps);
      }
      vp::Check(node.getMountPoints() == mp && node.getFileSys() == fs, "mount points or file systems are not kept");
      for (auto& f : files) {
        if (std::find(mp.begin(), mp.end(), f) != mp.end()) continue;   // a file is not a mount point
        const std::string got = node.findFileSys(f);
        if (got != expected(mp, fs, f)) { vp::Fail("file system of " + f + " is '" + got + "', expected '" + expected(mp, fs, f) + "' (route " + vp::Str(route) + ")"); break; }
        vp::Step();
      }
      vp::Trace();
    }
    { std::string k; for (size_t m : s) k += mounts[m] + ' '; vp::Outcome(k); }
  }
  // Mount point spelling: a leading /auto directory is dropped, nothing else.
  for (auto& pr : std::vector<std::pair<std::string, std::string>>{{"/auto/data", "/data"}, {"/auto/data/x", "/data/x"}, {"/auto", "/auto"}, {"/automount", "/automount"}, {"/automount/x", "/automount/x"}, {"/autodata1", "/autodata1"}, {"/data/auto/x", "/data/auto/x"}, {"/auto/auto/x", "/auto/x"}, {"/a", "/a"}, {"/autos/x", "/autos/x"}, {"/Auto/x", "/Auto/x"}}) {
    if (!vp::CaseF([&] { return "spelling " + pr.first; })) continue;
    NodeDesc node;
    node.addFileSys("fs", pr.first);
    vp::Step(); vp::Trace();
    vp::Check(node.getMountPoints() == VS{pr.second}, "mount point becomes " + node.getMountPoints()[0]);
    vp::Check(node.findFileSys(pr.second + "/file") == "fs", "the file system is not found");
    vp::Outcome(node.getMountPoints()[0]);
  }
  // Write, read back: names, types, all lists of up to 3 file systems.
  const VS fsn = {"fs1", "node1:/data", "x.y", "A"}, mps = {"/", "/data", "/data1/sub", "/a-b_c.d"};
  for (auto& name : VS{"n", "node-1.lofar", "locus_001", "N"}) for (int type = 0; type < 4; ++type) for (int prefix = 0; prefix < 3; ++prefix) for (int code = 0; code < 1 + 16 + 256 + 4096; ++code) {
    if (!vp::CaseF([&] { return "write " + name + " type=" + vp::Str(type) + " prefix=" + vp::Str(prefix) + " list=" + vp::Str(code); })) continue;
    int n = 0, x = code, sz = 1;
    while (x >= sz) { x -= sz; sz *= 16; ++n; }
    NodeDesc node;
    vp::Check(node.getType() == NodeDesc::Any, "the default type is not Any");
    node.setName(name); node.setType(NodeDesc::NodeType(type));
    VS fs, mp;
    for (int i = 0; i < n; ++i, x /= 16) { fs.push_back(fsn[x % 4]); mp.push_back(mps[x / 4 % 4]); node.addFileSys(fs.back(), mp.back()); }
    std::ostringstream os;
    const std::string pre = prefix == 0 ? "" : prefix == 1 ? "Node0." : "Cluster.Node12.";
    node.write(os, pre);
    ParameterSet ps;
    ps.adoptBuffer(os.str());
    vp::Check(ps.size() == 4, "number of written keys is " + vp::Str(ps.size()));
    const std::string err = vp::Throws([&] {
      const NodeDesc back(prefix ? ps.makeSubset(pre) : ps);
      vp::Check(back.getName() == name && back.getType() == node.getType(), "name or type differs after reading: " + back.getName() + " " + vp::Str(back.getType()));
      vp::Check(back.getFileSys() == fs && back.getMountPoints() == mp, "file systems or mount points differ after reading");
    });
    vp::Check(err.empty(), "reading back fails");
    vp::Step(2); vp::Trace();
    vp::Outcome(os.str());
  }
  // Reading: defaults, type names in any case, errors.
  for (auto& t : VS{"Compute", "compute", "COMPUTE", "Storage", "sTORAGE", "Head", "HEAD", "Any", "any", "-"}) for (int m = 0; m < 12; ++m) {
    if (!vp::CaseF([&] { return "read type=" + t + " mounts=" + vp::Str(m); })) continue;
    static const char* ml[] = {"[]", "[/a]", "[/a,/b]", "[/a,b]", "[/a,'']", "/a", "[/d1..3]", "[/a]", "[/a,/b]", "[/a,/b]", "[/a]", "[2*/a]"};
    static const char* fl[] = {"", "", "", "", "", "", "", "[f]", "[f]", "[f,'']", "[]", "[f1..2]"};
    static const int want[] = {0, 1, 2, -1, -1, 1, 3, 1, -1, -1, -1, 2};
    ParameterSet ps;
    ps.add("NodeName", "n");
    if (t != "-") ps.add("NodeType", t);
    ps.add("NodeMountPoints", ml[m]);
    if (*fl[m]) ps.add("NodeFileSys", fl[m]);
    int n = -1; NodeDesc::NodeType type = NodeDesc::Any; VS mp, fs;
    const std::string err = vp::Throws([&] { NodeDesc d(ps); n = d.getMountPoints().size(); type = d.getType(); mp = d.getMountPoints(); fs = d.getFileSys(); });
    vp::Step(); vp::Trace();
    vp::Check(n == want[m] && err == (want[m] < 0 ? "!exception" : ""), "reading gives " + vp::Str(n) + " mount points" + err);
    const std::string tl = [&] { std::string s; for (char c : t) s += tolower(c); return s; }();
    const NodeDesc::NodeType tw = tl == "compute" || tl == "-" ? NodeDesc::Compute : tl == "storage" ? NodeDesc::Storage : tl == "head" ? NodeDesc::Head : NodeDesc::Any;
    if (n >= 0) vp::Check(type == tw, "type is " + vp::Str(type));
    if (n >= 0 && !*fl[m]) vp::Check(fs == mp, "default file system names are not the mount points");
    if (m == 6 && n == 3) vp::Check(mp == VS{"/d1", "/d2", "/d3"}, "ranges are not expanded");
    if (m == 11 && n == 2) vp::Check(mp == VS{"/a", "/a"} && fs == VS{"f1", "f2"}, "repetitions are not expanded");
    vp::Outcome(t + vp::Str(n));
  }
  for (auto& miss : VS{"NodeName", "NodeMountPoints"}) {
    if (!vp::CaseF([&] { return "missing " + miss; })) continue;
    ParameterSet ps;
    ps.add("NodeName", "n"); ps.add("NodeMountPoints", "[/a]"); ps.remove(miss);
    vp::Check(vp::Throws([&] { NodeDesc d(ps); }) == "!exception", "a missing key is accepted");
    vp::Step(); vp::Trace(); vp::Outcome(miss);
  }
  return vp::Finish();
}
