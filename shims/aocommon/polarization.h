#ifndef VP_AOCOMMON_POLARIZATION_H
#define VP_AOCOMMON_POLARIZATION_H
#include <set>
#include <string>
namespace aocommon {
class Polarization {
 public:
  enum PolarizationEnum { StokesI, StokesQ, StokesU, StokesV, RR, RL, LR, LL, XX, XY, YX, YY, FullStokes, Instrumental, DiagonalInstrumental };
};
using PolarizationEnum = Polarization::PolarizationEnum;
}
#endif
