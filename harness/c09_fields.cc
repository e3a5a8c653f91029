// C09: field sets and field requirements of every chain of steps.
#include "vp.h"
#include <sstream>
#include "common/Fields.h"
using dp3::common::Fields;
typedef unsigned Bits;   // reference: bit 0 data, 1 flags, 2 weights, 3 uvw
static Fields Make(Bits b) {
  Fields f;
  static const Fields::Single s[] = {Fields::Single::kData, Fields::Single::kFlags, Fields::Single::kWeights, Fields::Single::kUvw};
  for (int i = 0; i < 4; ++i) if (b >> i & 1) f |= Fields(s[i]);
  return f;
}
static Bits Get(const Fields& f) { return f.Data() | f.Flags() << 1 | f.Weights() << 2 | f.Uvw() << 3; }
int main(int argc, char** argv) {
  vp::Init(argc, argv);
  static const char* names[] = {"data", "flags", "weights", "uvw"};
  for (Bits a = 0; a < 16; ++a)
    for (Bits b = 0; b < 16; ++b) {
      if (!vp::Case("sets " + vp::Str(a) + "," + vp::Str(b))) continue;
      const Fields fa = Make(a), fb = Make(b);
      vp::Step(8); vp::Trace();
      vp::Check(Get(fa) == a, "members differ from the ones set: " + vp::Str(Get(fa)));
      vp::Check(Get(fa | fb) == (a | b), "union has " + vp::Str(Get(fa | fb)));
      vp::Check(Get(fa) == a && Get(fb) == b, "union changed an operand");
      Fields fc = fa; Fields& ref = (fc |= fb);
      vp::Check(Get(fc) == (a | b) && &ref == &fc, "in-place union");
      Fields self = fa; self |= self;
      vp::Check(Get(self) == a, "union with itself");
      vp::Check((fa == fb) == (a == b) && (fa != fb) == (a != b), "equality");
      std::string want = "[";
      for (int i = 0; i < 4; ++i) if (a >> i & 1) want += (want.size() > 1 ? ", " : "") + std::string(names[i]);
      std::ostringstream os; os << "x" << fa << "y";
      vp::Check(os.str() == "x" + want + "]y", "printed as " + os.str());
      vp::Outcome(os.str() + vp::Str(Get(fa | fb)));
    }
  // Chains: per step required r and provided p; 4 independent field kinds.
  // Depth <= 3 over all 256 (r,p) combinations per step (16.8M chains), and
  // longer ones over single-kind alphabets in every kind.
  const int depth = 3;
  const unsigned step2 = vp::Thorough() ? 1 : 3;   // quick: every third middle step
  for (unsigned s0 = 0; s0 < 256; ++s0) {
    for (unsigned s1 = 0; s1 < 256; ++s1) {
      if (!vp::CaseF([&] { return "chain " + vp::Str(s0) + "," + vp::Str(s1) + ",*"; })) continue;
      for (unsigned s2 = (s0 + s1) % step2; s2 < 256; s2 += step2) {
        const unsigned st[depth] = {s0, s1, s2};
        for (unsigned init = 0; init < 16; init += 5) {
          Fields f = Make(init);
          Bits r = init;
          for (int i = depth - 1; i >= 0; --i) {
            const Bits req = st[i] & 15, prov = st[i] >> 4;
            Fields& out = f.UpdateRequirements(Make(req), Make(prov));
            if (&out != &f) vp::Fail("does not return the object itself");
            Bits n = 0;   // needed before the step: required by it, or needed after it and not created by it
            for (int k = 0; k < 4; ++k) {
              const bool needs = req >> k & 1, gives = prov >> k & 1, after = r >> k & 1;
              if (needs || (after && !gives)) n |= 1u << k;
            }
            r = n;
          }
          vp::Step(depth);
          if (Get(f) != r) vp::Fail("chain with third step " + vp::Str(s2) + " and initially " + vp::Str(init) + " needs " + vp::Str(Get(f)) + ", expected " + vp::Str(r));
          vp::Trace();
        }
      }
      vp::Outcome(vp::Str(s0 & 15) + "," + vp::Str(s1));
    }
  }
  // Whole-chain meaning, forward: field k is needed from the input iff some
  // step requires it before any step created it. All chains of <= 6 steps.
  for (int k = 0; k < 4; ++k)
    for (int n = 1; n <= 6; ++n) {
      int total = 1;
      for (int i = 0; i < n; ++i) total *= 4;
      if (!vp::Case("kind " + vp::Str(k) + " length " + vp::Str(n))) continue;
      for (int c = 0; c < total; ++c) {
        Fields f;
        bool need = false, made = false;
        for (int i = 0; i < n; ++i) {
          const int s = c >> (2 * i) & 3;
          if ((s & 1) && !made) need = true;
          if ((s & 2) && !(s & 1)) made = true;
        }
        for (int i = n - 1; i >= 0; --i) {
          const int s = c >> (2 * i) & 3;
          f.UpdateRequirements(Make((s & 1) << k), Make((s >> 1 & 1) << k));
        }
        vp::Step(n); vp::Trace();
        if (Get(f) != (need ? 1u << k : 0u)) vp::Fail("chain " + vp::Str(c) + " needs " + vp::Str(Get(f)));
      }
    }
  return vp::Finish();
}
