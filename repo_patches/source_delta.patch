From c8fd5a5c8f6a10e3893089cb1888925f7975bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:04 +0000
Subject: [PATCH 01/89] fix: report an empty parset key instead of using the
 equal sign as key

---
 common/ParameterSetImpl.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 44ddfd9..a43ad14 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -244,12 +244,10 @@ void ParameterSetImpl::readStream(std::istream& inputStream,
     if (line[st] != '#') {  // skip if only comment
       unsigned int end = rskipws(line, st, line.size());
       if (st < end) {             // skip empty line
-        unsigned int nonbl = st;  // Position of last non-blank character
         unsigned int stval = st;  // Start of value
         while (st < end) {
           if (line[st] == '"' || line[st] == '\'') {
             st = skipQuoted(line, st);
-            nonbl = st - 1;  // last char of quoted string
           } else if (line[st] == '#') {
             end = rskipws(line, stval, st);  // A comment ends the line
           } else {
@@ -260,15 +258,13 @@ void ParameterSetImpl::readStream(std::istream& inputStream,
                 value.erase();
               }
               // Use ParameterValue to get the key without possible quotes.
-              ParameterValue pvkey(line.substr(stval, nonbl - stval + 1),
-                                   false);
+              ParameterValue pvkey(
+                  line.substr(stval, rskipws(line, stval, st) - stval), false);
               key = pvkey.getString();
               if (key.empty())
                 throw APSException("Empty key given in line " + line);
               key = prefix + key;
               stval = st + 1;
-            } else if (line[st] != ' ' && line[st] != '\t') {
-              nonbl = st;  // Position of last non-blank
             }
             st++;
           }
-- 
2.43.0


From b5c59e1fa690eff1a07c01855150f7feaf5f05cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:04 +0000
Subject: [PATCH 02/89] fix: do not report a parset key as unused if it was
 asked in another case

---
 common/ParameterSetImpl.cc | 4 ++--
 common/ParameterSetImpl.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index a43ad14..8aa222c 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -33,14 +33,14 @@ namespace common {
 // Default constructor
 //
 ParameterSetImpl::ParameterSetImpl(KeyCompare::Mode mode)
-    : KVMap(mode), itsMode(mode) {}
+    : KVMap(mode), itsMode(mode), itsAskedParms(mode) {}
 
 //
 // Construction by reading a parameter file.
 //
 ParameterSetImpl::ParameterSetImpl(const std::string& theFilename,
                                    KeyCompare::Mode mode)
-    : KVMap(mode), itsMode(mode) {
+    : KVMap(mode), itsMode(mode), itsAskedParms(mode) {
   readFile(theFilename, "", false);
 }
 
diff --git a/common/ParameterSetImpl.h b/common/ParameterSetImpl.h
index 741b35d..d5e19aa 100644
--- a/common/ParameterSetImpl.h
+++ b/common/ParameterSetImpl.h
@@ -330,8 +330,8 @@ class ParameterSetImpl : public KVMap {
 
   /// Key comparison mode.
   const KeyCompare::Mode itsMode;
-  /// The set of keys that have been asked.
-  mutable std::set<std::string> itsAskedParms;
+  /// The set of keys that have been asked, compared like the keys themselves.
+  mutable std::set<std::string, KeyCompare> itsAskedParms;
   /// Mutex to make access to parset thread-safe.
   mutable std::mutex itsMutex;
 };
-- 
2.43.0


From d1c0bd719997d88957cb6eb71be298ed8669d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:04 +0000
Subject: [PATCH 03/89] fix: return an unsigned value from
 ParameterValue::getUint32

---
 common/ParameterValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ParameterValue.h b/common/ParameterValue.h
index 6c37057..97e9f47 100644
--- a/common/ParameterValue.h
+++ b/common/ParameterValue.h
@@ -56,7 +56,7 @@ class ParameterValue {
   int16_t getInt16() const { return strToInt16(itsValue); }
   uint16_t getUint16() const { return strToUint16(itsValue); }
   int32_t getInt32() const { return strToInt32(itsValue); }
-  int32_t getUint32() const { return strToUint32(itsValue); }
+  uint32_t getUint32() const { return strToUint32(itsValue); }
   int64_t getInt64() const { return strToInt64(itsValue); }
   uint64_t getUint64() const { return strToUint64(itsValue); }
   float getFloat() const { return strToFloat(itsValue); }
-- 
2.43.0


From e3f812a9a94b7a49c779c87f87c4057656807450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:45 +0000
Subject: [PATCH 04/89] fix: do not convert a blank string to the number 0

---
 common/StringTools.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/StringTools.cc b/common/StringTools.cc
index 6628312..dd27dd3 100644
--- a/common/StringTools.cc
+++ b/common/StringTools.cc
@@ -102,7 +102,7 @@ long strToLong(const std::string& aString) {
   } else {
     val = strtol(str + st, &endPtr, 10);
   }
-  if (endPtr != str + end)
+  if (endPtr == str + st || endPtr != str + end)
     throw std::runtime_error(aString + " is not an integer value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString + " is invalid or outside long int range");
@@ -158,7 +158,7 @@ unsigned long strToUlong(const std::string& aString) {
   } else {
     val = strtoul(str + st, &endPtr, 10);
   }
-  if (endPtr != str + end)
+  if (endPtr == str + st || endPtr != str + end)
     throw std::runtime_error(aString + " is not an integer value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString +
@@ -203,7 +203,7 @@ float strToFloat(const std::string& aString) {
   // Clear errno since strtof does not do it.
   errno = 0;
   double val = strtof(str, &endPtr);
-  if (endPtr != str + end)
+  if (endPtr == str || endPtr != str + end)
     throw std::runtime_error(aString + " is not a floating point value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString + " is invalid or outside float range");
@@ -217,7 +217,7 @@ double strToDouble(const std::string& aString) {
   // Clear errno since strtod does not do it.
   errno = 0;
   double val = strtod(str, &endPtr);
-  if (endPtr != str + end)
+  if (endPtr == str || endPtr != str + end)
     throw std::runtime_error(aString + " is not a floating point value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString + " is invalid or outside double range");
@@ -243,7 +243,7 @@ int64_t strToInt64(const std::string& aString) {
   } else {
     val = strtoll(str + st, &endPtr, 10);
   }
-  if (endPtr != str + end)
+  if (endPtr == str + st || endPtr != str + end)
     throw std::runtime_error(aString + " is not an integer value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString +
@@ -275,7 +275,7 @@ uint64_t strToUint64(const std::string& aString) {
   } else {
     val = strtoull(str + st, &endPtr, 10);
   }
-  if (endPtr != str + end)
+  if (endPtr == str + st || endPtr != str + end)
     throw std::runtime_error(aString + " is not an integer value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(
-- 
2.43.0


From fe70b1ad92dfff003f51d13d9f1aec378c090871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:45 +0000
Subject: [PATCH 05/89] fix: reject unknown time units and do not overflow the
 unit buffer

---
 common/ParameterValue.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/ParameterValue.cc b/common/ParameterValue.cc
index 4839575..5f0df13 100644
--- a/common/ParameterValue.cc
+++ b/common/ParameterValue.cc
@@ -303,7 +303,7 @@ time_t ParameterValue::StringToTime_t(const std::string& aString) {
   time_t theTime;
   char unit[1024];
   unit[0] = '\0';
-  if (sscanf(aString.c_str(), "%ld%s", &theTime, unit) < 1) {
+  if (sscanf(aString.c_str(), "%ld%1023s", &theTime, unit) < 1) {
     throw ParException(aString + " is not a time value");
   }
   switch (unit[0]) {
@@ -319,6 +319,8 @@ time_t ParameterValue::StringToTime_t(const std::string& aString) {
     case 'H':
       theTime *= 3600;
       break;
+    default:
+      throw ParException(aString + " has an unknown time unit");
   }
   return theTime;
 }
-- 
2.43.0


From 74a49a2b58bba99081b254c30cb3e92ef015cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:45 +0000
Subject: [PATCH 06/89] fix: do not overflow when expanding a range ending at
 the largest int

---
 common/StringTools.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/StringTools.cc b/common/StringTools.cc
index dd27dd3..47c6659 100644
--- a/common/StringTools.cc
+++ b/common/StringTools.cc
@@ -321,7 +321,7 @@ std::string expandRangeString(const std::string& strng) {
       }
       int lennum = endnum - stnum - 1;
       if (lennum > 0) {
-        int num = strToInt(str.substr(stnum + 1, lennum));
+        long num = strToInt(str.substr(stnum + 1, lennum));
         // Found number, now find possible prefix.
         // We could say that the prefix has to be alphanumeric, but more
         // general is to accept all characters except ([,*; blank and tab.
-- 
2.43.0


From 0b9909619bcf4a7b2693484b1436b318bfaeed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:52 +0000
Subject: [PATCH 07/89] fix: keep the upper middle value in place when
 computing an even-sized median

---
 common/Median.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/Median.h b/common/Median.h
index 56ad3e6..1f9cb49 100644
--- a/common/Median.h
+++ b/common/Median.h
@@ -24,7 +24,8 @@ T Median(std::vector<T>& v) {
     return *target;
   } else {
     auto before = target - 1;
-    std::nth_element(v.begin(), before, v.end());
+    // Exclude 'target' and the values after it: They should not move anymore.
+    std::nth_element(v.begin(), before, target);
     return (*target + *before) / static_cast<T>(2);
   }
 }
-- 
2.43.0


From 38a42241b0cd53b402fe1a5fc6dbdd06505bd06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:52 +0000
Subject: [PATCH 08/89] fix: do not truncate the baseline index to int in
 ComputeBaseline

---
 common/baseline_indices.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/baseline_indices.h b/common/baseline_indices.h
index dd94a85..3f251ce 100644
--- a/common/baseline_indices.h
+++ b/common/baseline_indices.h
@@ -106,7 +106,7 @@ inline std::pair<size_t, size_t> ComputeBaseline(size_t baseline_index,
   } else {
     const size_t antenna2 = (1 + std::sqrt(1 + 8 * baseline_index)) / 2;
     // n is the number of baselines (a,b) with b < antenna2
-    const size_t n = int((antenna2 * (antenna2 - 1)) / 2);
+    const size_t n = (antenna2 * (antenna2 - 1)) / 2;
     const size_t antenna1 = baseline_index - n;
     return {antenna1, antenna2 - 1};
   }
-- 
2.43.0


From a729d69cdc18d7c05977844774c0fd247f23ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:02 +0000
Subject: [PATCH 09/89] fix: do not use the input value of beta when fitting
 the TEC2 model

---
 base/PhaseFitter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/PhaseFitter.cc b/base/PhaseFitter.cc
index 6b1b9ef..35d406b 100644
--- a/base/PhaseFitter.cc
+++ b/base/PhaseFitter.cc
@@ -109,6 +109,7 @@ void PhaseFitter::fillDataWithTEC1Model(double alpha) {
 
 void PhaseFitter::FitTEC2ModelParameters(double& alpha, double& beta) const {
   double lowerAlpha = -40000.0e6, upperAlpha = 40000.0e6;
+  beta = 0.0;  // The value on input is not used and may be uninitialized.
   bruteForceSearchTEC2Model(lowerAlpha, upperAlpha, beta);
   alpha = (lowerAlpha + upperAlpha) * 0.5;
   // beta = fitBeta(alpha, beta);
-- 
2.43.0


From addfc1b37ca166b07b628ec4bd534e06e6752d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:02 +0000
Subject: [PATCH 10/89] fix: use the documented 3/4 (1 - x^2) for the
 Epanechnikov kernel

---
 ddecal/constraints/KernelSmoother.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ddecal/constraints/KernelSmoother.h b/ddecal/constraints/KernelSmoother.h
index a76376e..f60f4d6 100644
--- a/ddecal/constraints/KernelSmoother.h
+++ b/ddecal/constraints/KernelSmoother.h
@@ -93,13 +93,11 @@ class KernelSmoother {
         else
           return std::exp(-x * x * NumType(9.0));
       case EpanechnikovKernel:
-        /// 3/4 * (1-x)^2;
-        if (_truncate && (x < NumType(-1.0) || x > NumType(1.0))) {
-          return 0.0;
-        } else {
-          x = NumType(1.0) - x;
-          return (NumType(3.0) / NumType(4.0)) * x * x;
-        }
+        /// 3/4 * (1-x^2), which is only defined (non-negative) for |x| <= 1.
+        if (x < NumType(-1.0) || x > NumType(1.0))
+          return NumType(0.0);
+        else
+          return (NumType(3.0) / NumType(4.0)) * (NumType(1.0) - x * x);
     }
   }
 
-- 
2.43.0


From 432a91582156cc076d24a7c739a53271615bc02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:04 +0000
Subject: [PATCH 11/89] fix: only strip a leading /auto directory, not a name
 starting with auto

---
 common/NodeDesc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/NodeDesc.cc b/common/NodeDesc.cc
index ade7eee..cc35810 100644
--- a/common/NodeDesc.cc
+++ b/common/NodeDesc.cc
@@ -49,7 +49,7 @@ void NodeDesc::addFileSys(const std::string& fsName,
                           const std::string& mountPoint) {
   assert(fsName.size() > 0);
   string mp(mountPoint);
-  if (mp.size() > 5 && mp.substr(0, 5) == "/auto") {
+  if (mp.size() > 5 && mp.substr(0, 6) == "/auto/") {
     mp = mp.substr(5);
   }
   assert(mp.size() > 0 && mp[0] == '/');
-- 
2.43.0


From 83ad19cc555b4e49a4a8cd6b93856764e4c06377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:41 +0000
Subject: [PATCH 12/89] fix: let an offset not cause wraps inside the
 TEC/offset/delay grid search

With an unknown offset the residual of the nearest grid point could still
wrap inside the band, so that the search ended in a local minimum although
the noiseless model was inside the grid.
---
 ddecal/constraints/TecOffsetDelayFitting.cc | 24 +++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ddecal/constraints/TecOffsetDelayFitting.cc b/ddecal/constraints/TecOffsetDelayFitting.cc
index b2bc9d0..96e1a17 100644
--- a/ddecal/constraints/TecOffsetDelayFitting.cc
+++ b/ddecal/constraints/TecOffsetDelayFitting.cc
@@ -157,6 +157,18 @@ inline double Wrap(double x) {
   return wrap;
 }
 
+/// Returns the phase of the weighted sum of the phasors of the given phases.
+double CircularAverage(std::span<const double> phases,
+                       std::span<const double> weights) {
+  double real = 0.0;
+  double imag = 0.0;
+  for (size_t i = 0; i != phases.size(); ++i) {
+    real += std::cos(phases[i]) * weights[i];
+    imag += std::sin(phases[i]) * weights[i];
+  }
+  return std::atan2(imag, real);
+}
+
 inline constexpr double UnwrappedModel(double x, double a, double b, double c) {
   return a / x + b + c * x;
 }
@@ -345,10 +357,14 @@ TecOffsetDelayValues TecOffsetDelayGridSearch(
       // The a and c values are used as starting guess by subtracting the
       // corresponding model from the data and wrapping them all to [-pi, pi].
       // The linear fit is then done on the residual to determine coefficient
-      // offsets. The b values are solved for so we don't need to unwrap for b.
+      // offsets. When b is solved for, the (circular) average is subtracted
+      // before wrapping, because an offset would otherwise cause wraps inside
+      // the residual.
       for (size_t i = 0; i != x_data.size(); ++i)
-        residual_data[i] =
-            Wrap(y_data[i] - UnwrappedModel(x_data[i], a, 0.0, c));
+        residual_data[i] = y_data[i] - UnwrappedModel(x_data[i], a, 0.0, c);
+      const double b =
+          include_b ? CircularAverage(residual_data, weights) : 0.0;
+      for (double& residual : residual_data) residual = Wrap(residual - b);
 
       std::optional<TecOffsetDelayValues> residual_fit;
       if (method == TecOffsetDelayFittingMethod::LeastSquares) {
@@ -360,7 +376,7 @@ TecOffsetDelayValues TecOffsetDelayGridSearch(
       }
       if (residual_fit) {
         const TecOffsetDelayValues fit = {.a = residual_fit->a + a,
-                                          .b = residual_fit->b,
+                                          .b = residual_fit->b + b,
                                           .c = residual_fit->c + c};
         const double cost = TecOffsetDelayCost(x_data, y_data, weights, fit);
         if (cost < best_cost) {
-- 
2.43.0


From 6dcef495eeb8e20972ae595d970dcad4db9094d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:15 +0000
Subject: [PATCH 13/89] fix: do not keep spectral terms of the previously
 inspected component

---
 base/ComponentInfo.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/ComponentInfo.cc b/base/ComponentInfo.cc
index 138fbcb..1549ece 100644
--- a/base/ComponentInfo.cc
+++ b/base/ComponentInfo.cc
@@ -37,10 +37,10 @@ void ComponentInfo::update(const PointSource& component) {
     throw std::runtime_error(
         "Cannot handle spectra with more than three components");
   }
-  const size_t spec_size = (spec.size() > 3 ? 3 : spec.size());
-  for (size_t index = 0; index < spec_size; index++) {
-    spectrum_[index] = spec[index];
-  }
+  // Terms that the component does not have are zero, also when the previously
+  // inspected component had them.
+  std::fill(spectrum_.begin(), spectrum_.end(), 0.0);
+  std::copy(spec.begin(), spec.end(), spectrum_.begin());
   f0_ = component.referenceFreq();
 }
 
-- 
2.43.0


From 51dc8d7fb9924867880808f47047c19b1c50c31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:15 +0000
Subject: [PATCH 14/89] fix: print the faraday rotation mode by the name that
 is accepted

---
 base/CalType.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/CalType.cc b/base/CalType.cc
index 46694f9..0cc5a24 100644
--- a/base/CalType.cc
+++ b/base/CalType.cc
@@ -78,7 +78,7 @@ std::string ToString(CalType caltype) {
     case CalType::kRotationAndDiagonal:
       return "rotation+diagonal";
     case CalType::kFaradayRotation:
-      return "faraday";
+      return "faradayrotation";
     case CalType::kLeakage:
       return "leakage";
     case CalType::kLeakageAmplitude:
-- 
2.43.0


From e65e6380ab0106b48e0bf6791eb41f7a8b48e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:15 +0000
Subject: [PATCH 15/89] fix: initialize the position angle mode in both
 GaussianSource constructors

---
 base/GaussianSource.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/GaussianSource.cc b/base/GaussianSource.cc
index ec76e49..7a0b736 100644
--- a/base/GaussianSource.cc
+++ b/base/GaussianSource.cc
@@ -14,6 +14,7 @@ namespace base {
 GaussianSource::GaussianSource(const Direction &direction)
     : PointSource(direction),
       itsPositionAngle(0.0),
+      itsPositionAngleIsAbsolute(true),
       itsMajorAxis(0.0),
       itsMinorAxis(0.0) {}
 
-- 
2.43.0


From 6cf2ff295bed346143d588d15427e55498e55151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:15 +0000
Subject: [PATCH 16/89] fix: use the direction of the average vector as
 declination of a patch

The average of unit vectors is shorter than one, so its z coordinate is not
the sine of its declination.
---
 sky_model/Patch.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sky_model/Patch.cc b/sky_model/Patch.cc
index ee0fa42..76f62df 100644
--- a/sky_model/Patch.cc
+++ b/sky_model/Patch.cc
@@ -26,7 +26,8 @@ void Patch::ComputeDirection() {
     y /= components_.size();
     z /= components_.size();
 
-    direction_ = base::Direction(std::atan2(y, x), std::asin(z));
+    direction_ =
+        base::Direction(std::atan2(y, x), std::atan2(z, std::hypot(x, y)));
   }
 }
 
-- 
2.43.0


From e4889fbe88e6d1d2f1f6cef9ac962b4be24cadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:09 +0000
Subject: [PATCH 17/89] fix: make concurrent use of a parameter set safe

Getters used an iterator after releasing the lock, isDefined, locateModule,
fullModuleName, size, empty and clear did not lock, and adopting a collection
did not lock the collection that is read.
---
 common/ParameterSet.cc     |   2 +-
 common/ParameterSet.h      |   2 +-
 common/ParameterSetImpl.cc |  35 +++++++++--
 common/ParameterSetImpl.h  | 125 ++++++++++++++++++++++---------------
 4 files changed, 104 insertions(+), 60 deletions(-)

diff --git a/common/ParameterSet.cc b/common/ParameterSet.cc
index 3735dc6..30559ba 100644
--- a/common/ParameterSet.cc
+++ b/common/ParameterSet.cc
@@ -56,7 +56,7 @@ ParameterSet& ParameterSet::operator=(const ParameterSet& that) {
 }
 
 ParameterRecord ParameterSet::getRecord(const std::string& aKey) const {
-  return get(aKey).getRecord();
+  return itsSet->getValue(aKey).getRecord();
 }
 
 //
diff --git a/common/ParameterSet.h b/common/ParameterSet.h
index 3e276ce..a82bd08 100644
--- a/common/ParameterSet.h
+++ b/common/ParameterSet.h
@@ -464,7 +464,7 @@ inline std::string ParameterSet::fullModuleName(
 
 inline std::vector<ParameterValue> ParameterSet::getVector(
     const std::string& aKey) const {
-  return get(aKey).getVector();
+  return itsSet->getValue(aKey).getVector();
 }
 
 // getBool(key)
diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 8aa222c..e9ec487 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -158,15 +158,17 @@ void ParameterSetImpl::adoptBuffer(const std::string& theBuffer,
 //
 void ParameterSetImpl::adoptCollection(const ParameterSetImpl& theCollection,
                                        const std::string& thePrefix) {
-  // Thread-safety.
-  std::lock_guard<std::mutex> locker(itsMutex);
   // Cannot adopt itself.
   if (&theCollection != this) {
+    // Thread-safety. Locks both mutexes without a risk of deadlock.
+    std::scoped_lock locker(itsMutex, theCollection.itsMutex);
     for (const_iterator iter = theCollection.begin();
          iter != theCollection.end(); ++iter) {
       replaceUnlocked(thePrefix + iter->first, iter->second);
     }
   } else if (!thePrefix.empty()) {
+    // Thread-safety.
+    std::lock_guard<std::mutex> locker(itsMutex);
     // However, adopt itself if a prefix is given.
     // Iterate on a copy, otherwise an endless loop occurs.
     KVMap tmp(theCollection);
@@ -315,7 +317,27 @@ ParameterSetImpl::const_iterator ParameterSetImpl::findKV(
     const std::string& aKey, bool doThrow) const {
   // Thread-safety.
   std::lock_guard<std::mutex> locker(itsMutex);
+  return findKVUnlocked(aKey, doThrow);
+}
+
+ParameterValue ParameterSetImpl::getValue(const std::string& aKey) const {
+  // The value is copied while holding the lock. Another thread may replace or
+  // remove it afterwards.
+  std::lock_guard<std::mutex> locker(itsMutex);
+  return findKVUnlocked(aKey, true)->second;
+}
+
+bool ParameterSetImpl::findValue(const std::string& aKey,
+                                 ParameterValue& value) const {
+  std::lock_guard<std::mutex> locker(itsMutex);
+  const const_iterator iter = findKVUnlocked(aKey, false);
+  if (iter == end()) return false;
+  value = iter->second;
+  return true;
+}
 
+ParameterSetImpl::const_iterator ParameterSetImpl::findKVUnlocked(
+    const std::string& aKey, bool doThrow) const {
   const_iterator iter = find(aKey);
 
   if (iter == end()) {
@@ -397,7 +419,7 @@ void ParameterSetImpl::remove(const std::string& aKey) {
 #define PARAMETERSETIMPL_GETVECTOR(TPC, TPL)                                   \
   std::vector<TPL> ParameterSetImpl::get##TPC##Vector(const std::string& aKey, \
                                                       bool expandable) const { \
-    ParameterValue value(findKV(aKey)->second);                                \
+    ParameterValue value(getValue(aKey));                                      \
     if (expandable) value = value.expand();                                    \
     return value.get##TPC##Vector();                                           \
   }                                                                            \
@@ -405,9 +427,8 @@ void ParameterSetImpl::remove(const std::string& aKey) {
   std::vector<TPL> ParameterSetImpl::get##TPC##Vector(                         \
       const std::string& aKey, const std::vector<TPL>& aValue,                 \
       bool expandable) const {                                                 \
-    const_iterator it = findKV(aKey, false);                                   \
-    if (it == end()) return aValue;                                            \
-    ParameterValue value(it->second);                                          \
+    ParameterValue value;                                                      \
+    if (!findValue(aKey, value)) return aValue;                                \
     if (expandable) value = value.expand();                                    \
     return value.get##TPC##Vector();                                           \
   }
@@ -597,6 +618,7 @@ int32_t indexValue(const std::string& label, const char indexMarker[2]) {
 // Searches for a key ending in the given 'shortkey' and returns it full name.
 // e.g: a.b.c.d.param=xxxx --> locateModule(d)-->a.b.c.
 std::string ParameterSetImpl::locateModule(const std::string& shortKey) const {
+  std::lock_guard<std::mutex> locker(itsMutex);
   const_iterator iter = begin();
   const_iterator eom = end();
   while ((iter != eom)) {
@@ -621,6 +643,7 @@ std::string ParameterSetImpl::locateModule(const std::string& shortKey) const {
 // e.g: a.b.c.d.param=xxxx --> fullModuleName(d.param)-->
 std::string ParameterSetImpl::fullModuleName(
     const std::string& shortKey) const {
+  std::lock_guard<std::mutex> locker(itsMutex);
   const_iterator iter = begin();
   const_iterator eom = end();
   while ((iter != eom)) {
diff --git a/common/ParameterSetImpl.h b/common/ParameterSetImpl.h
index d5e19aa..a1fddf4 100644
--- a/common/ParameterSetImpl.h
+++ b/common/ParameterSetImpl.h
@@ -72,9 +72,21 @@ class ParameterSetImpl : public KVMap {
   /// @}
 
   /// Get the ParameterValue.
+  /// The returned reference is only valid until the key is replaced or removed,
+  /// possibly by another thread.
   /// @{
   const ParameterValue& get(const std::string& aKey) const;
 
+  /// Get a copy of the ParameterValue.
+  ParameterValue getValue(const std::string& aKey) const;
+
+  /// \name Size of the collection
+  /// @{
+  bool empty() const;
+  size_t size() const;
+  void clear();
+  /// @}
+
   /// Return the key comparison mode.
   KeyCompare::Mode keyCompareMode() const { return itsMode; }
 
@@ -165,6 +177,7 @@ class ParameterSetImpl : public KVMap {
 
   /// Checks if the given Key is defined in the ParameterSetImpl.
   bool isDefined(const std::string& searchKey) const {
+    std::lock_guard<std::mutex> locker(itsMutex);
     return (find(searchKey) != end());
   };
 
@@ -318,6 +331,12 @@ class ParameterSetImpl : public KVMap {
   /// returned.
   const_iterator findKV(const std::string& aKey, bool doThrow = true) const;
 
+  /// Copy the value of key \p aKey to \p value. Returns false if it is not found.
+  bool findValue(const std::string& aKey, ParameterValue& value) const;
+
+  /// Same as findKV, without locking.
+  const_iterator findKVUnlocked(const std::string& aKey, bool doThrow) const;
+
   /// Merge in a key/value. A warning is logged if already existing
   /// and merge=false.
   void addMerge(const std::string& key, const std::string& value, bool merge);
@@ -395,146 +414,148 @@ inline const ParameterValue& ParameterSetImpl::get(
   return findKV(aKey)->second;
 }
 
+inline bool ParameterSetImpl::empty() const {
+  std::lock_guard<std::mutex> locker(itsMutex);
+  return KVMap::empty();
+}
+
+inline size_t ParameterSetImpl::size() const {
+  std::lock_guard<std::mutex> locker(itsMutex);
+  return KVMap::size();
+}
+
+inline void ParameterSetImpl::clear() {
+  std::lock_guard<std::mutex> locker(itsMutex);
+  KVMap::clear();
+}
+
 inline bool ParameterSetImpl::getBool(const std::string& aKey) const {
-  return findKV(aKey)->second.getBool();
+  return getValue(aKey).getBool();
 }
 
 inline bool ParameterSetImpl::getBool(const std::string& aKey,
                                       bool aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
-  return it->second.getBool();
+  ParameterValue value;
+  return findValue(aKey, value) ? value.getBool() : aValue;
 }
 
 inline int ParameterSetImpl::getInt(const std::string& aKey) const {
-  return findKV(aKey)->second.getInt();
+  return getValue(aKey).getInt();
 }
 
 inline int ParameterSetImpl::getInt(const std::string& aKey, int aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
-  return it->second.getInt();
+  ParameterValue value;
+  return findValue(aKey, value) ? value.getInt() : aValue;
 }
 
 inline unsigned int ParameterSetImpl::getUint(const std::string& aKey) const {
-  return findKV(aKey)->second.getUint();
+  return getValue(aKey).getUint();
 }
 
 inline unsigned int ParameterSetImpl::getUint(const std::string& aKey,
                                               unsigned int aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
-  return it->second.getUint();
+  ParameterValue value;
+  return findValue(aKey, value) ? value.getUint() : aValue;
 }
 
 inline int16_t ParameterSetImpl::getInt16(const std::string& aKey) const {
-  return findKV(aKey)->second.getInt16();
+  return getValue(aKey).getInt16();
 }
 
 inline int16_t ParameterSetImpl::getInt16(const std::string& aKey,
                                           int16_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
-  return it->second.getInt16();
+  ParameterValue value;
+  return findValue(aKey, value) ? value.getInt16() : aValue;
 }
 
 inline uint16_t ParameterSetImpl::getUint16(const std::string& aKey) const {
-  return findKV(aKey)->second.getUint16();
+  return getValue(aKey).getUint16();
 }
 
 inline uint16_t ParameterSetImpl::getUint16(const std::string& aKey,
                                             uint16_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
-  return it->second.getUint16();
+  ParameterValue value;
+  return findValue(aKey, value) ? value.getUint16() : aValue;
 }
 
 inline int32_t ParameterSetImpl::getInt32(const std::string& aKey) const {
-  return findKV(aKey)->second.getInt32();
+  return getValue(aKey).getInt32();
 }
 
 inline int32_t ParameterSetImpl::getInt32(const std::string& aKey,
                                           int32_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
-  return it->second.getInt32();
+  ParameterValue value;
+  return findValue(aKey, value) ? value.getInt32() : aValue;
 }
 
 inline uint32_t ParameterSetImpl::getUint32(const std::string& aKey) const {
-  return findKV(aKey)->second.getUint32();
+  return getValue(aKey).getUint32();
 }
 
 inline uint32_t ParameterSetImpl::getUint32(const std::string& aKey,
                                             uint32_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
-  return it->second.getUint32();
+  ParameterValue value;
+  return findValue(aKey, value) ? value.getUint32() : aValue;
 }
 
 inline int64_t ParameterSetImpl::getInt64(const std::string& aKey) const {
-  return findKV(aKey)->second.getInt64();
+  return getValue(aKey).getInt64();
 }
 
 inline int64_t ParameterSetImpl::getInt64(const std::string& aKey,
                                           int64_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
-  return it->second.getInt64();
+  ParameterValue value;
+  return findValue(aKey, value) ? value.getInt64() : aValue;
 }
 
 inline uint64_t ParameterSetImpl::getUint64(const std::string& aKey) const {
-  return findKV(aKey)->second.getUint64();
+  return getValue(aKey).getUint64();
 }
 
 inline uint64_t ParameterSetImpl::getUint64(const std::string& aKey,
                                             uint64_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
-  return it->second.getUint64();
+  ParameterValue value;
+  return findValue(aKey, value) ? value.getUint64() : aValue;
 }
 
 inline float ParameterSetImpl::getFloat(const std::string& aKey) const {
-  return findKV(aKey)->second.getFloat();
+  return getValue(aKey).getFloat();
 }
 
 inline float ParameterSetImpl::getFloat(const std::string& aKey,
                                         float aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
-  return it->second.getFloat();
+  ParameterValue value;
+  return findValue(aKey, value) ? value.getFloat() : aValue;
 }
 
 inline double ParameterSetImpl::getDouble(const std::string& aKey) const {
-  return findKV(aKey)->second.getDouble();
+  return getValue(aKey).getDouble();
 }
 
 inline double ParameterSetImpl::getDouble(const std::string& aKey,
                                           double aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
-  return it->second.getDouble();
+  ParameterValue value;
+  return findValue(aKey, value) ? value.getDouble() : aValue;
 }
 
 inline std::string ParameterSetImpl::getString(const std::string& aKey) const {
-  return findKV(aKey)->second.getString();
+  return getValue(aKey).getString();
 }
 
 inline std::string ParameterSetImpl::getString(
     const std::string& aKey, const std::string& aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
-  return it->second.getString();
+  ParameterValue value;
+  return findValue(aKey, value) ? value.getString() : aValue;
 }
 
 inline time_t ParameterSetImpl::getTime(const std::string& aKey) const {
-  return findKV(aKey)->second.getTime();
+  return getValue(aKey).getTime();
 }
 
 inline time_t ParameterSetImpl::getTime(const std::string& aKey,
                                         const time_t& aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
-  return it->second.getTime();
+  ParameterValue value;
+  return findValue(aKey, value) ? value.getTime() : aValue;
 }
 
 }  // namespace common
-- 
2.43.0


From 4fce7b39184936096d34b84ac3c60c2abf4a9610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:15 +0000
Subject: [PATCH 18/89] fix: accept every reuse pattern that matches a
 direction

---
 ddecal/Settings.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ddecal/Settings.cc b/ddecal/Settings.cc
index 4906276..d225b4d 100644
--- a/ddecal/Settings.cc
+++ b/ddecal/Settings.cc
@@ -453,6 +453,7 @@ std::vector<std::pair<std::string, std::string>> Settings::GetReusedDirections(
   std::vector<std::pair<std::string, std::string>> reused_direction_names;
 
   for (const auto& [name, dir] : input_directions) {
+    bool is_reused = false;
     for (const std::string& pattern : reuse_model_data) {
       // Convert the * wildcards to a regular expression.
       const std::regex regex_pattern(common::PatternToRegex(pattern));
@@ -460,19 +461,20 @@ std::vector<std::pair<std::string, std::string>> Settings::GetReusedDirections(
       if (std::regex_match(name, regex_pattern)) {
         // Keep track of the number of directions matched to each pattern.
         pattern_match_count[pattern] += 1;
+        is_reused = true;
+      }
+    }
 
-        // Remove any old prefix from the model data name.
-        std::string name_without_prefix = name;
-        const std::size_t period_position = name_without_prefix.find(".");
-
-        if (period_position != std::string::npos) {
-          name_without_prefix = name_without_prefix.substr(period_position + 1);
-        }
-
-        reused_direction_names.emplace_back(name, name_without_prefix);
+    if (is_reused) {
+      // Remove any old prefix from the model data name.
+      std::string name_without_prefix = name;
+      const std::size_t period_position = name_without_prefix.find(".");
 
-        break;
+      if (period_position != std::string::npos) {
+        name_without_prefix = name_without_prefix.substr(period_position + 1);
       }
+
+      reused_direction_names.emplace_back(name, name_without_prefix);
     }
   }
 
-- 
2.43.0


From e163744e18adbdf5b812ebec0b25f3ad9ac3b987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:15 +0000
Subject: [PATCH 19/89] fix: size the y ranges in Grid::toDomains by the y axis

---
 parmdb/Grid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parmdb/Grid.cc b/parmdb/Grid.cc
index b79a7ed..2b7e43d 100644
--- a/parmdb/Grid.cc
+++ b/parmdb/Grid.cc
@@ -240,7 +240,7 @@ void Grid::toDomains(std::vector<Box>& domains) const {
   unsigned int nry = ny();
   // Prefetch the lower and upper values for both axes.
   std::vector<double> sx(nrx), ex(nrx);
-  std::vector<double> sy(nrx), ey(nrx);
+  std::vector<double> sy(nry), ey(nry);
   for (unsigned int i = 0; i < nrx; ++i) {
     sx[i] = xaxis.lower(i);
     ex[i] = xaxis.upper(i);
-- 
2.43.0


From e69821196c488001175701edd320703875518ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:15 +0000
Subject: [PATCH 20/89] fix: refuse to combine axes whose overlapping parts
 differ in length

---
 parmdb/Axis.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parmdb/Axis.cc b/parmdb/Axis.cc
index 24c81ae..2cbfa85 100644
--- a/parmdb/Axis.cc
+++ b/parmdb/Axis.cc
@@ -226,6 +226,10 @@ Axis::ShPtr Axis::combine(const Axis& that, int& s1, int& e1, int& s2,
   }
   ++nr;
   // Check if the overlapping parts match.
+  if (s2 + nr > nr1 || s1 + nr > nr2)
+    throw std::runtime_error(
+        "Axis::combine: the overlapping parts have a different number of "
+        "intervals");
   for (int i = 0; i < nr; ++i) {
     double low1 = lower(s2 + i);
     double upp1 = upper(s2 + i);
-- 
2.43.0


From c91d208cfce83dedbefa7047cf0c9191dd87413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:15 +0000
Subject: [PATCH 21/89] fix: do not make a regular axis of cells with gaps

---
 parmdb/Axis.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parmdb/Axis.cc b/parmdb/Axis.cc
index 2cbfa85..10dd141 100644
--- a/parmdb/Axis.cc
+++ b/parmdb/Axis.cc
@@ -322,10 +322,12 @@ Axis::ShPtr Axis::add(const Axis& that) const {
 Axis::ShPtr Axis::makeAxis(const std::vector<double>& low,
                            const std::vector<double>& upp) {
   assert(low.size() == upp.size() && low.size() > 0);
-  // Check if the width is constant, thus if the result is a regular axis.
+  // Check if the width is constant and there are no gaps, thus if the result is
+  // a regular axis.
   double width = upp[0] - low[0];
   for (unsigned int i = 1; i < low.size(); ++i) {
-    if (!casacore::near(width, upp[i] - low[i])) {
+    if (!casacore::near(width, upp[i] - low[i]) ||
+        !casacore::near(upp[i - 1], low[i])) {
       return std::make_shared<OrderedAxis>(low, upp, true);
     }
   }
-- 
2.43.0


From f0298bcbfe65de642afc6775794cc36a4122bc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:15 +0000
Subject: [PATCH 22/89] fix: exclude the cell after a gap from an axis subset
 ending in the gap

---
 parmdb/Axis.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parmdb/Axis.cc b/parmdb/Axis.cc
index 10dd141..049b46e 100644
--- a/parmdb/Axis.cc
+++ b/parmdb/Axis.cc
@@ -344,10 +344,15 @@ Axis::ShPtr Axis::subset(double start, double end, size_t& index) const {
   if (end < rng.second) {
     std::pair<size_t, bool> res = find(end, false);
     einx = res.first;
-    if (einx == 0 && !res.second) {
-      // Entire interval before the range, so make sinx>einx to return
-      // a default axis.
-      sinx = 1;
+    if (!res.second) {
+      if (einx == 0) {
+        // Entire interval before the range, so make sinx>einx to return
+        // a default axis.
+        sinx = 1;
+      } else {
+        // The end is in a gap, so the cell before the gap is the last one.
+        --einx;
+      }
     }
   }
 
-- 
2.43.0


From f322e39ebc6aca9250f314e4cacd94b32f6bf47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:30 +0000
Subject: [PATCH 23/89] fix: keep the total bandwidth in step with the selected
 channels

---
 base/DPInfo.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/DPInfo.cc b/base/DPInfo.cc
index 0163300..b467243 100644
--- a/base/DPInfo.cc
+++ b/base/DPInfo.cc
@@ -396,6 +396,8 @@ void DPInfo::SelectChannels(unsigned int start_channel,
       std::vector<double>(resol_begin, resol_begin + n_channels);
   effective_bandwidth_.front() =
       std::vector<double>(effbw_begin, effbw_begin + n_channels);
+  total_bandwidth_ = std::accumulate(effective_bandwidth_.front().begin(),
+                                     effective_bandwidth_.front().end(), 0.0);
 
   // Add the new start channel to an existing start_channel, so MSUpdater can
   // still update the correct channel(s) in the original input MS.
-- 
2.43.0


From 430bdfd4b02b4c5138771844151ab2780d5be88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:30 +0000
Subject: [PATCH 24/89] fix: forget cached baseline properties when the
 antennas are replaced

---
 base/DPInfo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/DPInfo.cc b/base/DPInfo.cc
index b467243..b560deb 100644
--- a/base/DPInfo.cc
+++ b/base/DPInfo.cc
@@ -266,6 +266,9 @@ void DPInfo::setAntennas(const std::vector<std::string>& antNames,
   antenna_positions_ = antPos;
   antenna1_ = ant1;
   antenna2_ = ant2;
+  // Clear; they'll be recalculated if needed.
+  baseline_lengths_.clear();
+  auto_correlation_indices_.clear();
   // Set which antennae are used.
   setAntUsed();
 }
-- 
2.43.0


From b115e95fceb35e3aa9c3ba3c22cbb911e39f6158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:24 +0000
Subject: [PATCH 25/89] fix: give the rows of a BDA buffer an offset when no
 field is enabled

---
 base/BdaBuffer.cc | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/base/BdaBuffer.cc b/base/BdaBuffer.cc
index 26c2ecf..0c4ecd1 100644
--- a/base/BdaBuffer.cc
+++ b/base/BdaBuffer.cc
@@ -114,10 +114,12 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
   if (remaining_capacity_ < n_elements) {
     return false;
   }
+  // The offset does not depend on which fields are enabled: Fields that are
+  // added later also use it.
+  const std::size_t offset = GetNumberOfElements();
   remaining_capacity_ -= n_elements;
-  std::size_t offset = 0;
   for (auto data_it = data_.begin(); data_it != data_.end(); ++data_it) {
-    offset = data_it->second.size();
+    assert(offset == data_it->second.size());
     aocommon::UVector<std::complex<float>>& data_vector = data_it->second;
     if (data_it->first == "" && data) {
       data_vector.insert(data_vector.end(), data, data + n_elements);
@@ -126,11 +128,7 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
     }
   }
   if (flags_.capacity() > 0) {
-    if (offset == 0) {
-      offset = flags_.size();
-    } else {
-      assert(offset == flags_.size());
-    }
+    assert(offset == flags_.size());
     if (flags) {
       flags_.insert(flags_.end(), flags, flags + n_elements);
     } else {
@@ -138,11 +136,7 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
     }
   }
   if (weights_.capacity() > 0) {
-    if (offset == 0) {
-      offset = weights_.size();
-    } else {
-      assert(offset == weights_.size());
-    }
+    assert(offset == weights_.size());
     if (weights) {
       weights_.insert(weights_.end(), weights, weights + n_elements);
     } else {
-- 
2.43.0


From 90f0620a072d83e941bf0957eee05ce3a426c29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:01 +0000
Subject: [PATCH 26/89] fix: refuse NullStokes on data without four
 correlations

---
 steps/NullStokes.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/steps/NullStokes.cc b/steps/NullStokes.cc
index 26f02d6..db56b67 100644
--- a/steps/NullStokes.cc
+++ b/steps/NullStokes.cc
@@ -11,6 +11,7 @@
 #include "common/ParameterSet.h"
 
 #include <iostream>
+#include <stdexcept>
 
 using dp3::base::DPBuffer;
 using dp3::base::DPInfo;
@@ -98,6 +99,9 @@ bool NullStokes::process(std::unique_ptr<DPBuffer> buffer) {
 
 void NullStokes::updateInfo(const base::DPInfo& info_in) {
   Step::updateInfo(info_in);
+  if (info_in.ncorr() != 4)
+    throw std::runtime_error(
+        "NullStokes requires data with four correlations");
 }
 
 void NullStokes::finish() {
-- 
2.43.0


From 3881d987401545e4a99234fb8774749d4eb2f058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:31 +0000
Subject: [PATCH 27/89] fix: refuse a filter whose baseline selection matches
 nothing

---
 steps/Filter.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/steps/Filter.cc b/steps/Filter.cc
index 304e14a..1ca9ab7 100644
--- a/steps/Filter.cc
+++ b/steps/Filter.cc
@@ -8,6 +8,7 @@
 
 #include <cassert>
 #include <cstddef>
+#include <stdexcept>
 #include <tuple>
 
 #include <casacore/tables/Tables/ScalarColumn.h>
@@ -93,6 +94,11 @@ void Filter::updateInfo(const base::DPInfo& infoIn) {
         itsSelBL.push_back(i);
       }
     }
+    if (itsSelBL.empty() && !ant1.empty()) {
+      // An empty itsSelBL would mean that all baselines are kept.
+      throw std::runtime_error("Filter " + itsName +
+                               ": the baseline selection matches no baselines");
+    }
     if (itsSelBL.size() < ant1.size()) {
       itsDoSelect = true;
     }
-- 
2.43.0


From 014edbe12a7323398747f16715912a4349ec87e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:34 +0000
Subject: [PATCH 28/89] fix: let Upsample finish without any time slot

---
 steps/Upsample.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steps/Upsample.cc b/steps/Upsample.cc
index 80e236c..6083fa4 100644
--- a/steps/Upsample.cc
+++ b/steps/Upsample.cc
@@ -159,8 +159,8 @@ bool Upsample::process(std::unique_ptr<base::DPBuffer> buffer) {
 }
 
 void Upsample::finish() {
-  // Flush prev_buffers_
-  for (unsigned int i = first_to_flush_; i < time_step_; ++i) {
+  // Flush prev_buffers_, which is empty if there were no time slots.
+  for (std::size_t i = first_to_flush_; i < prev_buffers_.size(); ++i) {
     getNextStep()->process(std::move(prev_buffers_[i]));
   }
 
-- 
2.43.0


From 53372ba8b63a0404ef0cca2a1e1e0e9a7d95af5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:37 +0000
Subject: [PATCH 29/89] fix: do not read a frequency beyond the last channel in
 FlagTransfer

---
 steps/FlagTransfer.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/steps/FlagTransfer.cc b/steps/FlagTransfer.cc
index b7ab603..30b9c77 100644
--- a/steps/FlagTransfer.cc
+++ b/steps/FlagTransfer.cc
@@ -172,11 +172,8 @@ bool FlagTransfer::process(std::unique_ptr<DPBuffer> buffer) {
          ++channel_block) {
       const double source_channel_edge =
           source_channel_upper_edges_[channel_block];
-      while (target_frequencies[target_channel] < source_channel_edge) {
-        if (target_channel >= getInfoOut().nchan()) {
-          break;
-        }
-
+      while (target_channel < getInfoOut().nchan() &&
+             target_frequencies[target_channel] < source_channel_edge) {
         for (std::size_t source_row = 0; source_row < n_source_baselines;
              ++source_row) {
           common::rownr_t target_row = filtered_row_numbers[source_row];
-- 
2.43.0


From f13452cf11675e4f67922d88b17032a767a7c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:19 +0000
Subject: [PATCH 30/89] fix: do not read a frequency beyond the last channel in
 Transfer

---
 steps/Transfer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steps/Transfer.cc b/steps/Transfer.cc
index 9a3cb87..0904e05 100644
--- a/steps/Transfer.cc
+++ b/steps/Transfer.cc
@@ -145,8 +145,8 @@ void Transfer::TransferSingleTimeSlot(
          ++channel_block) {
       const double source_channel_edge =
           source_channel_upper_edges_[channel_block];
-      while (target_frequencies[target_channel] < source_channel_edge &&
-             target_channel < n_target_channels) {
+      while (target_channel < n_target_channels &&
+             target_frequencies[target_channel] < source_channel_edge) {
         for (std::size_t source_row = 0; source_row < n_source_baselines;
              ++source_row) {
           const common::rownr_t target_row = target_row_numbers[source_row];
-- 
2.43.0


From 2d899de6576c81dd8426f60f9f7ce2f21de5ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:42 +0000
Subject: [PATCH 31/89] fix: scale baselines with different channels by their
 own factors

---
 steps/ScaleData.cc | 56 +++++++++++++++++++++++++++++++++++++++++-----
 steps/ScaleData.h  |  2 ++
 2 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/steps/ScaleData.cc b/steps/ScaleData.cc
index 7d0a0b2..311578b 100644
--- a/steps/ScaleData.cc
+++ b/steps/ScaleData.cc
@@ -41,6 +41,18 @@ using casacore::Regex;
 namespace dp3 {
 namespace steps {
 
+namespace {
+/// Evaluates the polynomial with the given coefficients for a frequency in Hz.
+double evaluatePolynomial(const std::vector<double>& coeff, double freq) {
+  double fact = coeff[coeff.size() - 1];
+  for (unsigned int k = coeff.size() - 1; k > 0; --k) {
+    fact *= freq / 1e6;  // use freq in MHz
+    fact += coeff[k - 1];
+  }
+  return fact;
+}
+}  // namespace
+
 ScaleData::ScaleData(const common::ParameterSet& parset,
                      const std::string& prefix, MsType inputType)
     : itsName(prefix),
@@ -88,6 +100,7 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
   // Get the frequencies.
   const std::vector<double>& freqs = infoIn.chanFreqs();
   // Convert the coefficients to scale factors per freq per station regex.
+  std::vector<std::vector<double>> coeffVec(itsStationExp.size());
   std::vector<std::vector<float>> scaleVec(itsStationExp.size());
   std::vector<Regex> stationRegex(itsStationExp.size());
   for (unsigned int i = 0; i < scaleVec.size(); ++i) {
@@ -102,13 +115,9 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
     scales.reserve(freqs.size());
     // Evaluate the polynomial for each frequency giving the scale factors.
     for (unsigned int j = 0; j < freqs.size(); ++j) {
-      double fact = coeff[coeff.size() - 1];
-      for (unsigned int k = coeff.size() - 1; k > 0; --k) {
-        fact *= freqs[j] / 1e6;  // use freq in MHz
-        fact += coeff[k - 1];
-      }
-      scales.push_back(fact);
+      scales.push_back(evaluatePolynomial(coeff, freqs[j]));
     }
+    coeffVec[i] = std::move(coeff);
   }
   // If needed, find the nr of tiles/dipoles used for each station and
   // fill the size scale factors.
@@ -125,10 +134,12 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
   // The first matching regex is used.
   // The nr of tiles in use gives an extra scale factor.
   itsStationFactors.reserve(nant);
+  std::vector<unsigned int> stationIndex(nant, 0);
   for (unsigned int i = 0; i < nant; ++i) {
     for (unsigned int j = 0; j < stationRegex.size(); ++j) {
       if (casacore::String(infoIn.antennaNames()[i]).matches(stationRegex[j])) {
         itsStationFactors.push_back(scaleVec[j]);
+        stationIndex[i] = j;
         // If needed, scale with the nr of dipoles/tiles actually used.
         // Do that if explicitly told so or if default coeffs are used.
         if (itsScaleSize ||
@@ -136,11 +147,32 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
           for (unsigned int k = 0; k < itsStationFactors[i].size(); ++k) {
             itsStationFactors[i][k] *= extraFactors[i];
           }
+        } else {
+          extraFactors[i] = 1.0;
         }
         break;
       }
     }
   }
+  if (infoIn.hasBDAChannels()) {
+    // Each baseline has its own channels.
+    itsBdaFactors.resize(infoIn.nbaselines());
+    for (unsigned int i = 0; i < infoIn.nbaselines(); ++i) {
+      const unsigned int ant1 = infoIn.getAnt1()[i];
+      const unsigned int ant2 = infoIn.getAnt2()[i];
+      itsBdaFactors[i].clear();
+      for (const double freq : infoIn.chanFreqs(i)) {
+        const float f1 =
+            extraFactors[ant1] *
+            float(evaluatePolynomial(coeffVec[stationIndex[ant1]], freq));
+        const float f2 =
+            extraFactors[ant2] *
+            float(evaluatePolynomial(coeffVec[stationIndex[ant2]], freq));
+        itsBdaFactors[i].push_back(sqrt(f1 * f2));
+      }
+    }
+    return;
+  }
   // Now calculate the factors per baseline,freq,pol.
   unsigned int nb = infoIn.nbaselines();
   unsigned int nf = freqs.size();
@@ -197,6 +229,18 @@ bool ScaleData::process(std::unique_ptr<BdaBuffer> bda_buffer) {
   itsTimer.start();
   std::vector<BdaBuffer::Row> rows = bda_buffer->GetRows();
   for (std::size_t row_nr = 0; row_nr < rows.size(); ++row_nr) {
+    if (!itsBdaFactors.empty()) {
+      const std::vector<float>& factors =
+          itsBdaFactors[rows[row_nr].baseline_nr];
+      assert(factors.size() == rows[row_nr].n_channels);
+      std::complex<float>* data = bda_buffer->GetData(row_nr);
+      for (const float factor : factors) {
+        for (std::size_t i = 0; i < rows[row_nr].n_correlations; ++i) {
+          *data++ *= factor;
+        }
+      }
+      continue;
+    }
     auto factors =
         xt::view(itsFactors, rows[row_nr].baseline_nr, xt::all(), xt::all());
     [[maybe_unused]] const std::size_t n_elements =
diff --git a/steps/ScaleData.h b/steps/ScaleData.h
index 652ddb5..eb51d82 100644
--- a/steps/ScaleData.h
+++ b/steps/ScaleData.h
@@ -93,6 +93,8 @@ class ScaleData : public Step {
   std::vector<std::vector<float>>
       itsStationFactors;             ///< scale factor per station,freq
   xt::xtensor<float, 3> itsFactors;  ///< scale factor per baseline,freq,pol
+  std::vector<std::vector<float>>
+      itsBdaFactors;  ///< scale factor per baseline,freq; for BDA channels only
   common::NSTimer itsTimer;
 };
 
-- 
2.43.0


From 2b283af58c4131a3c29b6325e18c4896a7eeb1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 32/89] fix: MadFlagger uses the correlations given by the user

The list of correlations was indexed with its own values.
---
 steps/MadFlagger.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index 5504ed3..3ff6ba0 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -137,8 +137,8 @@ void MadFlagger::updateInfo(const DPInfo& infoIn) {
   } else {
     for (const unsigned int ip : itsFlagCorr) {
       // Only take valid corrrelations.
-      if (itsFlagCorr[ip] < ncorr) {
-        flagCorr.push_back(itsFlagCorr[ip]);
+      if (ip < ncorr) {
+        flagCorr.push_back(ip);
       }
     }
     // If no valid left, use first one.
-- 
2.43.0


From 8eb445f49bd3a7dbce182d51208bbe38b1df7355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 33/89] fix: MadFlagger with fewer time slots than the time
 window

The stored time slots were looked up with the reduced window size, a run
without time slots got a window of 4294967295 entries, and windows per
baseline could exceed the number of entries.
---
 steps/MadFlagger.cc | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index 3ff6ba0..2128f44 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -200,40 +200,43 @@ void MadFlagger::finish() {
   itsTimer.start();
   // Adjust window size if there are fewer time entries.
   if (itsNTimes < itsTimeWindow) {
-    itsTimeWindow = 1 + ((itsNTimes - 1) / 2) * 2;  // make sure it is odd
+    itsTimeWindow =  // make sure it is odd
+        itsNTimes == 0 ? 1 : 1 + ((itsNTimes - 1) / 2) * 2;
   }
   unsigned int halfWindow = itsTimeWindow / 2;
+  // The entries were stored using the original window size.
+  const unsigned int nbuffers = itsBuffers.size();
   std::vector<unsigned int> timeEntries(itsTimeWindow);
   // Process possible leading entries.
   // This can happen if the window was larger than number of times.
   while (itsNTimesDone < itsNTimes - halfWindow) {
     // Process in the same way as in process.
     unsigned int inx = 0;
-    timeEntries[inx++] = itsNTimesDone % itsTimeWindow;  // center
+    timeEntries[inx++] = itsNTimesDone % nbuffers;  // center
     for (unsigned int i = 1; i <= halfWindow; ++i) {
       timeEntries[inx++] =
-          std::abs(int(itsNTimesDone) - int(i)) % itsTimeWindow;
-      timeEntries[inx++] = (itsNTimesDone + i) % itsTimeWindow;
+          std::abs(int(itsNTimesDone) - int(i)) % nbuffers;
+      timeEntries[inx++] = (itsNTimesDone + i) % nbuffers;
     }
-    flag(itsNTimesDone, timeEntries);
+    flag(itsNTimesDone % nbuffers, timeEntries);
     itsNTimesDone++;
   }
   assert(itsNTimes - itsNTimesDone == halfWindow);
   // Process the remaining time entries.
   while (itsNTimesDone < itsNTimes) {
     unsigned int inx = 0;
-    timeEntries[inx++] = itsNTimesDone % itsTimeWindow;  // center
+    timeEntries[inx++] = itsNTimesDone % nbuffers;  // center
     for (unsigned int i = 1; i <= halfWindow; ++i) {
       timeEntries[inx++] =
-          std::abs(int(itsNTimesDone) - int(i)) % itsTimeWindow;
+          std::abs(int(itsNTimesDone) - int(i)) % nbuffers;
       // Time entries might need to be mirrored at the end.
       unsigned int ri = itsNTimesDone + i;
       if (ri >= itsNTimes) {
         ri = 2 * (itsNTimes - 1) - ri;
       }
-      timeEntries[inx++] = ri % itsTimeWindow;
+      timeEntries[inx++] = ri % nbuffers;
     }
-    flag(itsNTimesDone % itsTimeWindow, timeEntries);
+    flag(itsNTimesDone % nbuffers, timeEntries);
     itsNTimesDone++;
   }
   itsTimer.stop();
@@ -422,7 +425,8 @@ void MadFlagger::computeFactors(const std::vector<unsigned int>& timeEntries,
   }
   // Iterate over all time entries.
   const unsigned int* iter = &(timeEntries[0]);
-  const unsigned int* endIter = iter + itsTimeWindowArr[bl];
+  const unsigned int* endIter =
+      iter + std::min<size_t>(itsTimeWindowArr[bl], timeEntries.size());
   for (; iter != endIter; ++iter) {
     const base::DPBuffer& inbuf = *itsBuffers[*iter];
     const xt::xtensor<float, 3>& ampl = itsAmplitudes[*iter];
-- 
2.43.0


From 10012d0500e95eb3ad603e90c77a8d1adcf32292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 34/89] fix: MadFlagger median only uses the collected values

Values of earlier calls or zeros were part of the median when points in the
window were flagged.
---
 steps/MadFlagger.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index 2128f44..e9d8032 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -332,7 +332,7 @@ void MadFlagger::flag(unsigned int index,
 
   // Create thread-private counter.
   for (ThreadData& data : threadData) {
-    data.tempBuffer.resize(itsFreqWindow * timeEntries.size());
+    data.tempBuffer.reserve(itsFreqWindow * timeEntries.size());
     data.counter.init(getInfoOut());
   }
 
@@ -406,7 +406,7 @@ void MadFlagger::computeFactors(const std::vector<unsigned int>& timeEntries,
   moveTimer.start();
   // Collect all non-flagged data points for given baseline, channel,
   // and correlation in the window around the channel.
-  unsigned int np = 0;
+  tempBuffer.clear();
   // At the beginning or end of the window the values are wrapped.
   // So we might need to move in two parts.
   // This little piece of code is tested in tMirror.cc.
@@ -437,26 +437,26 @@ void MadFlagger::computeFactors(const std::vector<unsigned int>& timeEntries,
     // Now move data from the two channel parts.
     for (int i = s1 * ncorr; i < e1 * ncorr; i += ncorr) {
       if (!flagPtr[i]) {
-        tempBuffer[np++] = dataPtr[i];
+        tempBuffer.push_back(dataPtr[i]);
       }
     }
     for (int i = s2 * ncorr; i < e2 * ncorr; i += ncorr) {
       if (!flagPtr[i]) {
-        tempBuffer[np++] = dataPtr[i];
+        tempBuffer.push_back(dataPtr[i]);
       }
     }
   }
   moveTimer.stop();
   // If only flagged data, don't do anything.
-  if (np == 0) {
+  if (tempBuffer.empty()) {
     Z1 = -1.0;
     Z2 = 0.0;
   } else {
     medianTimer.start();
     // Get median of data and get median of absolute difference.
     Z1 = dp3::common::Median(tempBuffer);
-    for (unsigned int i = 0; i < np; ++i) {
-      tempBuffer[i] = std::abs(tempBuffer[i] - Z1);
+    for (float& value : tempBuffer) {
+      value = std::abs(value - Z1);
     }
     Z2 = dp3::common::Median(tempBuffer);
     medianTimer.stop();
-- 
2.43.0


From f583063d3dafe16a81cfe37bfa380b87f6157b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 35/89] fix: PreFlagger channel selection matching no channel
 flags nothing

---
 steps/PreFlagger.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/steps/PreFlagger.cc b/steps/PreFlagger.cc
index bf7b759..5740fb0 100644
--- a/steps/PreFlagger.cc
+++ b/steps/PreFlagger.cc
@@ -318,9 +318,7 @@ void PreFlagger::PSet::updateInfo(const DPInfo& info) {
   // Determine the channels to be flagged.
   if (!(itsStrChan.empty() && itsStrFreq.empty())) {
     fillChannels(info);
-    if (!itsChannels.empty()) {
-      itsFlagOnTimeOnly = false;
-    }
+    itsFlagOnTimeOnly = false;
   }
   // Do the same for the child steps.
   for (unsigned int i = 0; i < itsPSets.size(); ++i) {
@@ -508,8 +506,8 @@ xt::xtensor<uint8_t, 2>* PreFlagger::PSet::process(
     }
     flagPtr += n_channels;
   }
-  // Flag on channel if necessary.
-  if (!itsChannels.empty()) {
+  // Flag on channel if necessary (also if no channel matches).
+  if (itsChanFlags.size() != 0) {
     flagChannels();
   }
   // Flag on amplitude, phase or real/imaginary if necessary.
-- 
2.43.0


From 4f45f7b62bac4a796cffee4363f6c856dce67029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 36/89] fix: UVWFlagger keeps negative limits of uvm ranges
 negative

---
 steps/UVWFlagger.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steps/UVWFlagger.cc b/steps/UVWFlagger.cc
index 8c9702f..b1d0c6d 100644
--- a/steps/UVWFlagger.cc
+++ b/steps/UVWFlagger.cc
@@ -363,7 +363,8 @@ std::vector<double> UVWFlagger::fillUVW(const common::ParameterSet& parset,
   if (square) {
     for (std::vector<double>::iterator iter = vals.begin(); iter != vals.end();
          ++iter) {
-      if (*iter != -1e15) {
+      // A UV distance is never negative, so keep negative limits as such.
+      if (*iter > 0) {
         *iter = *iter * *iter;
       }
     }
-- 
2.43.0


From e89fedb6cb735b2251d62975c4105513f012b710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 37/89] fix: UVWFlagger uses the direction type of the phase
 center

---
 steps/UVWFlagger.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steps/UVWFlagger.cc b/steps/UVWFlagger.cc
index b1d0c6d..ade7345 100644
--- a/steps/UVWFlagger.cc
+++ b/steps/UVWFlagger.cc
@@ -406,6 +406,7 @@ void UVWFlagger::handleCenter() {
         throw std::runtime_error(str +
                                  " is an invalid direction type in UVWFlagger"
                                  " in UVWFlagger phasecenter");
+      type = tp;
     }
     phaseCenter = casacore::MDirection(q0, q1, type);
   }
-- 
2.43.0


From 18763b44d1f020b027c0c483221fb783faf5844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 38/89] fix: Clipper finds the selected baselines without row
 numbers

Inserted or averaged time slots have no row numbers.
---
 steps/Clipper.cc | 29 +++++++++++++----------------
 steps/Clipper.h  |  2 +-
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/steps/Clipper.cc b/steps/Clipper.cc
index 6b018c2..8e7c916 100644
--- a/steps/Clipper.cc
+++ b/steps/Clipper.cc
@@ -2,6 +2,9 @@
 // SPDX-License-Identifier: GPL-3.0-or-later
 
 #include "Clipper.h"
+
+#include <numeric>
+
 #include "NullStep.h"
 #include "MsColumnReader.h"
 
@@ -113,23 +116,17 @@ bool Clipper::process(std::unique_ptr<DPBuffer> buffer) {
     filter_step_->process(std::move(substep_buffer));
     std::unique_ptr<DPBuffer> result_buffer = result_step_->take();
 
-    // Calculate the indices corresponding to the filtered baselines, and only
+    // Get the indices corresponding to the filtered baselines, and only
     // set the corresponding flags when the amplitude exceeds max_amplitude_.
-    const casacore::Vector<common::rownr_t>& filtered_row_numbers =
-        result_buffer->GetRowNumbers();
-    const casacore::Vector<common::rownr_t>& buffer_row_numbers =
-        buffer->GetRowNumbers();
-
-    std::vector<size_t> filtered_to_original_row_indices;
-    filtered_to_original_row_indices.reserve(filtered_row_numbers.size());
-
-    size_t buffer_index = 0;
-    for (const common::rownr_t& filter_row : filtered_row_numbers) {
-      while (buffer_row_numbers[buffer_index] < filter_row) {
-        ++buffer_index;
-      }
-
-      filtered_to_original_row_indices.push_back(buffer_index++);
+    // (Row numbers can't be used: inserted or averaged time slots have none.)
+    std::vector<size_t> filtered_to_original_row_indices(
+        filter_step_->getIndicesBL().begin(),
+        filter_step_->getIndicesBL().end());
+    if (filtered_to_original_row_indices.empty()) {
+      // The filter does not select baselines.
+      filtered_to_original_row_indices.resize(buffer->GetFlags().shape(0));
+      std::iota(filtered_to_original_row_indices.begin(),
+                filtered_to_original_row_indices.end(), 0);
     }
 
     // After the prediction, flag the predicted values that exceed
diff --git a/steps/Clipper.h b/steps/Clipper.h
index 38af05f..438d4bf 100644
--- a/steps/Clipper.h
+++ b/steps/Clipper.h
@@ -60,7 +60,7 @@ class Clipper : public Step {
   size_t frequency_step_;
   bool flag_all_correlations_;
   float max_amplitude_;
-  std::shared_ptr<Step> filter_step_;
+  std::shared_ptr<Filter> filter_step_;
   std::shared_ptr<Step> predict_step_;
   std::shared_ptr<ResultStep> result_step_;
   std::unique_ptr<dp3::base::DPBuffer> predict_buffer_;
-- 
2.43.0


From f24422687526893f727cb339d2ca902216ee349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 39/89] fix: check that the first step accepts the kind of
 input data

---
 base/DP3.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/DP3.cc b/base/DP3.cc
index 104c1fa..c1a2aa2 100644
--- a/base/DP3.cc
+++ b/base/DP3.cc
@@ -594,11 +594,11 @@ std::shared_ptr<Step> MakeStepsFromParset(const common::ParameterSet& parset,
       throw std::runtime_error("Could not create step of type '" + type + "'");
     }
 
+    if (!step->accepts(inputType)) {
+      throw std::invalid_argument("Step " + type +
+                                  " is incompatible with the input data.");
+    }
     if (lastStep) {
-      if (!step->accepts(lastStep->outputs())) {
-        throw std::invalid_argument("Step " + type +
-                                    " is incompatible with the input data.");
-      }
       lastStep->setNextStep(step);
     }
     lastStep = step;
-- 
2.43.0


From 8d7975f4975989b5cda6132da086d9ea878da6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 40/89] fix: MSBDAWriter accepts baseline-averaged data and
 passes it on

---
 steps/MSBDAWriter.cc | 2 ++
 steps/MSBDAWriter.h  | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/steps/MSBDAWriter.cc b/steps/MSBDAWriter.cc
index 51586c8..549b291 100644
--- a/steps/MSBDAWriter.cc
+++ b/steps/MSBDAWriter.cc
@@ -151,6 +151,8 @@ bool MSBDAWriter::process(std::unique_ptr<BdaBuffer> buffer) {
   // Create a table view containing only the added rows.
   Table tbl_added(ms_(row_nrs));
 
+  if (getNextStep()) getNextStep()->process(std::move(buffer));
+
   return true;
 }
 
diff --git a/steps/MSBDAWriter.h b/steps/MSBDAWriter.h
index 74788f5..3a83df3 100644
--- a/steps/MSBDAWriter.h
+++ b/steps/MSBDAWriter.h
@@ -37,6 +37,10 @@ class MSBDAWriter : public OutputStep {
 
   void show(std::ostream&) const override;
 
+  bool accepts(MsType dt) const override { return dt == MsType::kBda; }
+
+  MsType outputs() const override { return MsType::kBda; }
+
  private:
   /// Create the MS by cloning all subtables from the input MS.
   /// All output columns in the main table are using normal storage managers.
-- 
2.43.0


From 0b16f9ed07c59817096d8839115b9e81f249a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 41/89] fix: MsColumnReader announces the kind of data it
 passes on

---
 steps/MsColumnReader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/steps/MsColumnReader.h b/steps/MsColumnReader.h
index 848db7d..701d3f5 100644
--- a/steps/MsColumnReader.h
+++ b/steps/MsColumnReader.h
@@ -50,6 +50,8 @@ class MsColumnReader final : public ModelDataStep {
 
   bool accepts(MsType dt) const override { return dt == input_ms_type_; }
 
+  MsType outputs() const override { return input_ms_type_; }
+
  private:
   casacore::Table table_;  ///< Input table to read the column from
   casacore::ArrayColumn<std::complex<float>> model_column_;
-- 
2.43.0


From d6345836a1a272bec47bf1954dcf7abd86df5081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 42/89] fix: MadFlagger requires the flags that it keeps

---
 steps/MadFlagger.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/steps/MadFlagger.h b/steps/MadFlagger.h
index adb0aed..a47b219 100644
--- a/steps/MadFlagger.h
+++ b/steps/MadFlagger.h
@@ -65,7 +65,9 @@ class MadFlagger : public Step {
 
   ~MadFlagger() override;
 
-  common::Fields getRequiredFields() const override { return kDataField; }
+  common::Fields getRequiredFields() const override {
+    return kDataField | kFlagsField;
+  }
 
   common::Fields getProvidedFields() const override { return kFlagsField; }
 
-- 
2.43.0


From 4a5f1f5ecfa1a12a9cc94448fc42e4e9e7e19f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 43/89] fix: SetBeam lets the following steps finish

---
 steps/SetBeam.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/SetBeam.h b/steps/SetBeam.h
index 0171aa5..8c6e829 100644
--- a/steps/SetBeam.h
+++ b/steps/SetBeam.h
@@ -33,7 +33,7 @@ class SetBeam final : public Step {
 
   bool process(std::unique_ptr<base::DPBuffer> buffer) override;
 
-  void finish() override{};
+  void finish() override { getNextStep()->finish(); }
 
   void updateInfo(const base::DPInfo& info) override;
 
-- 
2.43.0


From 182a907e91b0b575af43dbfe282be6cbcb5f9a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 44/89] fix: BdaAverager flags visibilities of which all input
 is flagged

---
 steps/BDAAverager.cc | 6 +++++-
 steps/BDAAverager.h  | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/steps/BDAAverager.cc b/steps/BDAAverager.cc
index 0427218..9d359b9 100644
--- a/steps/BDAAverager.cc
+++ b/steps/BDAAverager.cc
@@ -31,6 +31,7 @@ BdaAverager::BaselineBuffer::BaselineBuffer(std::size_t _time_factor,
       exposure(0.0),
       data(),
       weights(n_output_channels * n_correlations, 0.0f),
+      flags(n_output_channels * n_correlations, true),
       uvw{0.0f, 0.0f, 0.0f} {
   // Determine the start and end input channel for each output channel.
   // This list always ends with the number of output channels, which allows
@@ -55,6 +56,7 @@ void BdaAverager::BaselineBuffer::Clear() {
               std::complex<float>{0.0f, 0.0f});
   }
   std::fill(weights.begin(), weights.end(), 0.0f);
+  std::fill(flags.begin(), flags.end(), true);
   std::fill(uvw, uvw + 3, 0.0);
 }
 
@@ -268,6 +270,7 @@ bool BdaAverager::process(std::unique_ptr<base::DPBuffer> buffer) {
                   buffer->GetData(data_name)(b, ich, corr);
             }
             bb.weights[offset + corr] += 1.0;
+            bb.flags[offset + corr] = false;
           }
         }
         offset += n_correlations;
@@ -285,6 +288,7 @@ bool BdaAverager::process(std::unique_ptr<base::DPBuffer> buffer) {
                     buffer->GetData(data_name)(b, ich, corr) * weight;
               }
               bb.weights[offset + corr] += weight;
+              bb.flags[offset + corr] = false;
             }
           }
         }
@@ -363,7 +367,7 @@ void BdaAverager::AddBaseline(std::size_t baseline_nr) {
   const size_t row = bda_buffer_->GetRows().size();
   bda_buffer_->AddRow(bb.starttime + bb.interval / 2, bb.interval, bb.exposure,
                       baseline_nr, n_channels, getInfoOut().ncorr(),
-                      row_counter_, nullptr, nullptr, bb.weights.data(),
+                      row_counter_, nullptr, bb.flags.data(), bb.weights.data(),
                       bb.uvw);
   ++row_counter_;
   for (const auto& [data_name, data_vector] : bb.data) {
diff --git a/steps/BDAAverager.h b/steps/BDAAverager.h
index 52c1867..f810b4e 100644
--- a/steps/BDAAverager.h
+++ b/steps/BDAAverager.h
@@ -14,6 +14,8 @@
 #include <vector>
 #include <queue>
 
+#include <aocommon/uvector.h>
+
 namespace dp3 {
 namespace common {
 class ParameterSet;
@@ -112,6 +114,8 @@ class BdaAverager : public Step {
     double exposure;
     std::map<std::string, std::vector<std::complex<float>>> data;
     std::vector<float> weights;
+    /// True if all input visibilities of an output visibility were flagged.
+    aocommon::UVector<bool> flags;
     double uvw[3];
   };
 
-- 
2.43.0


From c8cd171b4ca3f47a4f32daacd6c4a71ab60eb5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 45/89] fix: BdaAverager averages the uvw of fully flagged
 baselines

---
 steps/BDAAverager.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/steps/BDAAverager.cc b/steps/BDAAverager.cc
index 9d359b9..93095c1 100644
--- a/steps/BDAAverager.cc
+++ b/steps/BDAAverager.cc
@@ -341,7 +341,6 @@ void BdaAverager::AddBaseline(std::size_t baseline_nr) {
   const std::size_t n_channels = getInfoOut().chanFreqs(baseline_nr).size();
 
   // Divide data values by their total weight.
-  float total_weight = 0.0f;
   for (std::size_t index = 0; index < bb.weights.size(); ++index) {
     const float weight = bb.weights[index];
     if (weight > 0) {
@@ -349,15 +348,12 @@ void BdaAverager::AddBaseline(std::size_t baseline_nr) {
         data_name_vector.second[index] /= weight;
       }
     }
-    total_weight += weight;
   }
 
-  if (total_weight > 0) {
-    const double factor = 1.0 / bb.times_added;
-    bb.uvw[0] *= factor;
-    bb.uvw[1] *= factor;
-    bb.uvw[2] *= factor;
-  }
+  const double factor = 1.0 / bb.times_added;
+  bb.uvw[0] *= factor;
+  bb.uvw[1] *= factor;
+  bb.uvw[2] *= factor;
 
   if (bda_buffer_->GetRemainingCapacity() < n_channels * getInfoOut().ncorr()) {
     getNextStep()->process(std::move(bda_buffer_));
-- 
2.43.0


From 52c22ef28380a14cb5d1bbaa6101d80f2c4e6a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 46/89] fix: BdaAverager limits the number of channels to what
 the input has

---
 steps/BDAAverager.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/steps/BDAAverager.cc b/steps/BDAAverager.cc
index 93095c1..1cca2bd 100644
--- a/steps/BDAAverager.cc
+++ b/steps/BDAAverager.cc
@@ -157,11 +157,10 @@ void BdaAverager::updateInfo(const DPInfo& _info) {
       nchan = _info.nchan();
       if (bl_threshold_channel_ > 0.0) {
         nchan = std::ceil(lengths[i] / bl_threshold_channel_ * double(nchan));
-        if (nchan > _info.nchan()) {
-          nchan = _info.nchan();
-        } else if (nchan < min_channels_) {
-          nchan = min_channels_;
-        }
+        // Use at least one channel, also for autocorrelations, and never more
+        // channels than the input has.
+        nchan = std::max({nchan, min_channels_, std::size_t{1}});
+        nchan = std::min(nchan, std::size_t{_info.nchan()});
       }
     } else {
       factor_time = baseline_factors_[i];
-- 
2.43.0


From 386239f7d47401855f135357806f86525c45a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:17 +0000
Subject: [PATCH 47/89] fix: BdaExpander gives each channel a value when
 channels do not average evenly

---
 steps/BdaExpander.cc | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/steps/BdaExpander.cc b/steps/BdaExpander.cc
index 278eb29..be59b53 100644
--- a/steps/BdaExpander.cc
+++ b/steps/BdaExpander.cc
@@ -7,6 +7,7 @@
 
 #include "BdaExpander.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <iostream>
@@ -58,28 +59,27 @@ void BdaExpander::updateInfo(const DPInfo& info_in) {
   }
 
   next_time_slot_to_process_ = 0;
-  channels_mapping_.resize(info_in.nbaselines());
+  channels_mapping_.assign(info_in.nbaselines(), std::vector<int>());
   for (unsigned int k = 0; k < info_in.nbaselines(); k++) {
-    int next_chan = 0;
     // Store the mapping between averaged and non averaged channels in the
-    // variable channels_mapping_
+    // variable channels_mapping_. A non averaged channel gets the value of the
+    // averaged channel in which it starts. Using the total width from the first
+    // channel, instead of the number of channels in each averaged channel,
+    // ensures that each non averaged channel gets a value when the averaged
+    // channels do not have a multiple of the non averaged width.
+    double width_sum = 0.0;
     for (size_t i = 0; i < info_in.chanWidths(k).size(); i++) {
-      const int n_averaged_channels =
-          std::round(info_in.chanWidths(k)[i] / single_channel_bw);
-      if (n_averaged_channels == 1) {
-        // non-bda-averaged channel
-        channels_mapping_[k].push_back(next_chan);
-
-      } else {
-        // bda-averaged channels
-        for (int p = 0; p < n_averaged_channels; p++) {
-          // The same bda-averaged channel will be copied over multiple channels
-          // in the regular output
-          channels_mapping_[k].push_back(next_chan);
-        }
+      width_sum += info_in.chanWidths(k)[i];
+      const size_t end_channel =
+          std::min<size_t>(info_in.nchan(),
+                           std::ceil(width_sum / single_channel_bw - 1.0e-3));
+      while (channels_mapping_[k].size() < end_channel) {
+        channels_mapping_[k].push_back(i);
       }
-      next_chan++;
     }
+    // Avoid that rounding errors leave channels at the end without a value.
+    channels_mapping_[k].resize(info_in.nchan(),
+                                info_in.chanWidths(k).size() - 1);
   }
 
   GetWritableInfoOut().setChannels(std::move(freqs), std::move(widths));
-- 
2.43.0


From 1fdcb593fc88d1cbf22bb861936e960e590991cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 48/89] fix: Upsample keeps the start time in the metadata

---
 steps/Upsample.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/steps/Upsample.cc b/steps/Upsample.cc
index 6083fa4..0578578 100644
--- a/steps/Upsample.cc
+++ b/steps/Upsample.cc
@@ -51,9 +51,13 @@ Upsample::~Upsample() {}
 
 void Upsample::updateInfo(const DPInfo& info_in) {
   Step::updateInfo(info_in);
-  GetWritableInfoOut().setTimeIntervalAndSteps(
-      getInfoOut().timeInterval() / time_step_,
-      getInfoOut().ntime() * time_step_);
+  // The first and last centroid times change along with the time interval,
+  // such that the output covers the same time span as the input.
+  const double time_interval = getInfoOut().timeInterval() / time_step_;
+  const unsigned int n_times = std::max(1u, getInfoOut().ntime()) * time_step_;
+  const double first_time = getInfoOut().startTime() + 0.5 * time_interval;
+  const double last_time = first_time + (n_times - 1) * time_interval;
+  GetWritableInfoOut().setTimes(first_time, last_time, time_interval);
   GetWritableInfoOut().setMetaChanged();
 
   if (update_uvw_) {
-- 
2.43.0


From f4c9a79fb8ed40b9339fb53efea6700d391e0996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:04 +0000
Subject: [PATCH 49/89] fix: refuse BDA rows before the current solution
 interval

---
 ddecal/gain_solvers/BdaSolverBuffer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ddecal/gain_solvers/BdaSolverBuffer.cc b/ddecal/gain_solvers/BdaSolverBuffer.cc
index d4931c4..8be759b 100644
--- a/ddecal/gain_solvers/BdaSolverBuffer.cc
+++ b/ddecal/gain_solvers/BdaSolverBuffer.cc
@@ -132,7 +132,10 @@ void BdaSolverBuffer::AppendAndWeight(
 
     // Add row pointers to the correct solution interval.
     const int queue_index = RelativeIndex(weighted_row.time);
-    assert(queue_index >= 0);
+    if (queue_index < 0) {
+      throw std::invalid_argument(
+          "Invalid input MS: BDA rows are not properly ordered.");
+    }
 
     // Add new solution intervals if needed.
     while (size_t(queue_index) >= data_rows_.Size()) {
-- 
2.43.0


From 989d03b2874b7ed3b391b62e5aa7460c1222ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:04 +0000
Subject: [PATCH 50/89] fix: give all correlations of BDA visibilities a weight

---
 ddecal/gain_solvers/SolveData.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/gain_solvers/SolveData.cc b/ddecal/gain_solvers/SolveData.cc
index 57e0c61..8ac2435 100644
--- a/ddecal/gain_solvers/SolveData.cc
+++ b/ddecal/gain_solvers/SolveData.cc
@@ -252,7 +252,7 @@ SolveData<MatrixType>::SolveData(
         }
         if (with_weights) {
           for (size_t i = 0; i != channel_block_size; ++i) {
-            for (size_t p = 0; p != cb_data.weights_.shape()[2]; ++p) {
+            for (size_t p = 0; p != cb_data.weights_.shape()[1]; ++p) {
               cb_data.weights_(vis_index + i, p) =
                   1.0;  // TODO use real vis weights
             }
-- 
2.43.0


From de466e7f17b7a0d4d19896c2ca1fcc3820657495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 51/89] fix: replace a missing polarized solution by the mean
 of its own elements

---
 ddecal/gain_solvers/SolverBase.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddecal/gain_solvers/SolverBase.cc b/ddecal/gain_solvers/SolverBase.cc
index 093754c..9166e67 100644
--- a/ddecal/gain_solvers/SolverBase.cc
+++ b/ddecal/gain_solvers/SolverBase.cc
@@ -351,7 +351,7 @@ void SolverBase::MakeSolutionsFinite2Pol(
     for (std::vector<DComplex>::iterator iter = solution_vector.begin();
          iter != solution_vector.end(); iter += 2) {
       if (IsFinite(*iter) && IsFinite(*(iter + 1))) {
-        for (size_t p = 0; p != 2; ++p) average[p] += std::abs(iter[0]);
+        for (size_t p = 0; p != 2; ++p) average[p] += std::abs(iter[p]);
         ++count;
       }
     }
@@ -382,7 +382,7 @@ void SolverBase::MakeSolutionsFinite4Pol(
     for (std::vector<DComplex>::iterator iter = solution_vector.begin();
          iter != solution_vector.end(); iter += 4) {
       if (aocommon::Matrix2x2::IsFinite(&*iter)) {
-        for (size_t p = 0; p != 4; ++p) average[p] += std::abs(iter[0]);
+        for (size_t p = 0; p != 4; ++p) average[p] += std::abs(iter[p]);
         ++count;
       }
     }
-- 
2.43.0


From 119a2ef0709802938dee306020006d12aaf4a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 52/89] fix: report convergence of the low rank and antenna
 solvers

---
 ddecal/gain_solvers/DiagonalAntennaSolver.cc | 10 ++--------
 ddecal/gain_solvers/DiagonalLowRankSolver.cc |  4 ++--
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/ddecal/gain_solvers/DiagonalAntennaSolver.cc b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
index 82b083e..8cd1dfb 100644
--- a/ddecal/gain_solvers/DiagonalAntennaSolver.cc
+++ b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
@@ -153,8 +153,6 @@ DiagonalAntennaSolver::SolveResult DiagonalAntennaSolver::Solve(
   SolutionTensor next_solutions({NChannelBlocks(), NAntennas(), NSubSolutions(),
                                  NSolutionPolarizations()});
 
-  SolveResult result;
-
   // Visibility vector residual_data[cb][vis] is of size NChannelBlocks() x
   // n_visibilities
   std::vector<std::vector<MC2x2F>> residual_data(NChannelBlocks());
@@ -188,7 +186,7 @@ DiagonalAntennaSolver::SolveResult DiagonalAntennaSolver::Solve(
         iteration, time, has_previously_converged, next_solutions);
 
     double avg_squared_diff;
-    bool has_converged =
+    has_converged =
         AssignSolutions(solutions, next_solutions, !constraints_satisfied,
                         avg_squared_diff, step_magnitudes);
     iteration++;
@@ -198,11 +196,7 @@ DiagonalAntennaSolver::SolveResult DiagonalAntennaSolver::Solve(
   } while (!ReachedStoppingCriterion(iteration, has_converged,
                                      constraints_satisfied, step_magnitudes));
 
-  if (has_converged && constraints_satisfied)
-    result.iterations = iteration;
-  else
-    result.iterations = iteration + 1;
-  return result;
+  return MakeResult(iteration, has_converged, constraints_satisfied);
 }
 
 void DiagonalAntennaSolver::CalculateNormPerDirection(
diff --git a/ddecal/gain_solvers/DiagonalLowRankSolver.cc b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
index 41a8421..2e64710 100644
--- a/ddecal/gain_solvers/DiagonalLowRankSolver.cc
+++ b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
@@ -119,11 +119,11 @@ DiagonalLowRankSolver::SolveResult DiagonalLowRankSolver::Solve(
 
     Step(solutions, next_solutions);
 
-    bool constraints_satisfied = ApplyConstraints(
+    constraints_satisfied = ApplyConstraints(
         iteration, time, has_previously_converged, next_solutions);
 
     double avg_squared_diff;
-    bool has_converged =
+    has_converged =
         AssignSolutions(solutions, next_solutions, !constraints_satisfied,
                         avg_squared_diff, step_magnitudes);
     iteration++;
-- 
2.43.0


From 1c1e4ddbc27ee13b44f1edf78f0ea2d3b82791ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:28 +0000
Subject: [PATCH 53/89] fix: solve directions in order with the solutions of
 their own channel block

---
 ddecal/gain_solvers/DiagonalAntennaSolver.cc | 13 +++++++++++--
 ddecal/gain_solvers/DiagonalLowRankSolver.cc | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/ddecal/gain_solvers/DiagonalAntennaSolver.cc b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
index 8cd1dfb..d7de118 100644
--- a/ddecal/gain_solvers/DiagonalAntennaSolver.cc
+++ b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
@@ -141,6 +141,7 @@ DiagonalAntennaSolver::SolveResult DiagonalAntennaSolver::Solve(
     double time) {
   PrepareConstraints();
 
+  direction_ordering_.clear();
   const bool subtract_immediately = GetStepSize() > 0.99;
   if (subtract_immediately) {
     CalculateNormPerDirection(data);
@@ -190,6 +191,8 @@ DiagonalAntennaSolver::SolveResult DiagonalAntennaSolver::Solve(
         AssignSolutions(solutions, next_solutions, !constraints_satisfied,
                         avg_squared_diff, step_magnitudes);
     iteration++;
+    if (subtract_immediately && iteration < NDirections())
+      has_converged = false;
 
     has_previously_converged = has_converged || has_previously_converged;
 
@@ -278,6 +281,11 @@ void DiagonalAntennaSolver::PerformIteration(
 
   const std::vector<MC2x2F> v_copy = residual_data;
 
+  // Not all directions are solved in the first iterations
+  if (subtract_immediately)
+    std::copy(solutions.begin(), solutions.end(),
+              &next_solutions(ch_block, 0, 0, 0));
+
   const size_t n_solve_directions = subtract_immediately
                                         ? std::min(NDirections(), iteration + 1)
                                         : NDirections();
@@ -299,8 +307,9 @@ void DiagonalAntennaSolver::PerformIteration(
                              next_solutions);
     }
     if (subtract_immediately) {
-      std::vector<DComplex> new_solutions(next_solutions.begin(),
-                                          next_solutions.end());
+      const DComplex* first = &next_solutions(ch_block, 0, 0, 0);
+      const std::vector<DComplex> new_solutions(first,
+                                                first + solutions.size());
       DiagonalAddOrSubtractDirection<false>(ch_block_data, residual_data,
                                             direction, NSubSolutions(),
                                             new_solutions, NSubThreads());
diff --git a/ddecal/gain_solvers/DiagonalLowRankSolver.cc b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
index 2e64710..8a2b5ea 100644
--- a/ddecal/gain_solvers/DiagonalLowRankSolver.cc
+++ b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
@@ -77,6 +77,7 @@ DiagonalLowRankSolver::SolveResult DiagonalLowRankSolver::Solve(
     double time) {
   PrepareConstraints();
 
+  direction_ordering_.clear();
   const bool subtract_immediately = GetStepSize() > 0.99;
   if (subtract_immediately) {
     CalculateNormPerDirection(data);
@@ -127,6 +128,8 @@ DiagonalLowRankSolver::SolveResult DiagonalLowRankSolver::Solve(
         AssignSolutions(solutions, next_solutions, !constraints_satisfied,
                         avg_squared_diff, step_magnitudes);
     iteration++;
+    if (subtract_immediately && iteration < NDirections())
+      has_converged = false;
 
     has_previously_converged = has_converged || has_previously_converged;
 
@@ -216,6 +219,11 @@ void DiagonalLowRankSolver::PerformIteration(
 
   const std::vector<MC2x2F> v_copy = v_residual;
 
+  // Not all directions are solved in the first iterations
+  if (subtract_immediately)
+    std::copy(solutions.begin(), solutions.end(),
+              &next_solutions(ch_block, 0, 0, 0));
+
   const size_t n_solve_directions = subtract_immediately
                                         ? std::min(NDirections(), iteration + 1)
                                         : NDirections();
@@ -237,8 +245,9 @@ void DiagonalLowRankSolver::PerformIteration(
                              next_solutions);
     }
     if (subtract_immediately) {
-      std::vector<DComplex> new_solutions(next_solutions.begin(),
-                                          next_solutions.end());
+      const DComplex* first = &next_solutions(ch_block, 0, 0, 0);
+      const std::vector<DComplex> new_solutions(first,
+                                                first + solutions.size());
       DiagonalAddOrSubtractDirection<false>(cb_data, v_residual, direction,
                                             NSubSolutions(), new_solutions,
                                             NSubThreads());
-- 
2.43.0


From b380be651d1d008861f333df0a4c90af095e9636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:28 +0000
Subject: [PATCH 54/89] fix: skip flagged visibilities in the low rank solver

---
 ddecal/gain_solvers/DiagonalLowRankSolver.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ddecal/gain_solvers/DiagonalLowRankSolver.cc b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
index 8a2b5ea..ab33675 100644
--- a/ddecal/gain_solvers/DiagonalLowRankSolver.cc
+++ b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
@@ -18,10 +18,11 @@ void AddToCorrelation(std::complex<float>& correlation_element,
                       float& variance_element, float& divisor_element,
                       const std::complex<float>& data, float weight,
                       const std::complex<float>& model) {
-  if (std::isfinite(data.real()) && std::isfinite(data.imag())) {
+  // VAR(data / model) = VAR(data) / model^2
+  const float inv_divisor_variance = std::norm(model);
+  if (std::isfinite(data.real()) && std::isfinite(data.imag()) &&
+      inv_divisor_variance != 0.0f) {
     const std::complex<float> division = data / model;
-    // VAR(division) = VAR(data / model) = VAR(data) / model^2
-    const float inv_divisor_variance = std::norm(model);
     // Perform inverse-variance weighting, hence multiply with 1/model^2
     correlation_element += weight * inv_divisor_variance * division;
     // VAR(weight * division / model^2) = VAR(data) * weight^2 / norm(model)^2 *
-- 
2.43.0


From a80818ffddbdbfed9037be2259dfa82652502658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:57 +0000
Subject: [PATCH 55/89] fix: order the directions of the antenna solver without
 separate weights

---
 ddecal/gain_solvers/DiagonalAntennaSolver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddecal/gain_solvers/DiagonalAntennaSolver.cc b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
index d7de118..1f1bba4 100644
--- a/ddecal/gain_solvers/DiagonalAntennaSolver.cc
+++ b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
@@ -216,8 +216,8 @@ void DiagonalAntennaSolver::CalculateNormPerDirection(
       for (size_t vis_index = 0; vis_index != n_visibilities; ++vis_index) {
         const aocommon::MC2x2F& model =
             ch_block_data.ModelVisibility(direction, vis_index);
-        if (ch_block_data.Weight(vis_index) != 0.0)
-          norm_sum_per_direction[direction].first += Norm(model);
+        // The model visibilities are weighted already
+        norm_sum_per_direction[direction].first += Norm(model);
       }
     }
   }
-- 
2.43.0


From ab3bbffec04545be1bffb9e73ce3d7deecc21a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:50 +0000
Subject: [PATCH 56/89] fix: derivatives of the antenna solver

---
 ddecal/gain_solvers/DiagonalAntennaSolver.cc | 96 +++++++-------------
 1 file changed, 32 insertions(+), 64 deletions(-)

diff --git a/ddecal/gain_solvers/DiagonalAntennaSolver.cc b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
index 1f1bba4..485f712 100644
--- a/ddecal/gain_solvers/DiagonalAntennaSolver.cc
+++ b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
@@ -54,56 +54,10 @@ void AddSolution(gsl_vector* solutions, size_t solution_index,
       added_term.Get(1).imag() + gsl_vector_get(solutions, index + 3));
 }
 
-void AddSolutionToMatrix(gsl_matrix* matrix, size_t row, size_t col,
-                         const MC2x2& added_term) {
-  const size_t i = row * 4;
-  const size_t j = col * 4;
-  const auto real_part = [&](size_t index) {
-    return added_term.Get(index).real();
-  };
-  const auto imag_part = [&](size_t index) {
-    return added_term.Get(index).imag();
-  };
-  // XX block (0-1 <-> 0-1)
-  gsl_matrix_set(matrix, i + 0, j + 0,
-                 gsl_matrix_get(matrix, i + 0, j + 0) + real_part(0));
-  gsl_matrix_set(matrix, i + 0, j + 1,
-                 gsl_matrix_get(matrix, i + 0, j + 1) + imag_part(0));
-  gsl_matrix_set(
-      matrix, i + 1, j + 0,
-      gsl_matrix_get(matrix, i + 1, j + 0) - imag_part(0));  // Hermitian
-  gsl_matrix_set(matrix, i + 1, j + 1,
-                 gsl_matrix_get(matrix, i + 1, j + 1) + real_part(0));
-
-  // YY block (2-3 <-> 2-3)
-  gsl_matrix_set(matrix, i + 2, j + 2,
-                 gsl_matrix_get(matrix, i + 2, j + 2) + real_part(3));
-  gsl_matrix_set(matrix, i + 2, j + 3,
-                 gsl_matrix_get(matrix, i + 2, j + 3) + imag_part(3));
-  gsl_matrix_set(matrix, i + 3, j + 2,
-                 gsl_matrix_get(matrix, i + 3, j + 2) - imag_part(3));
-  gsl_matrix_set(matrix, i + 3, j + 3,
-                 gsl_matrix_get(matrix, i + 3, j + 3) + real_part(3));
-
-  // XY block (rows 0-1, cols 2-3)
-  gsl_matrix_set(matrix, i + 0, j + 2,
-                 gsl_matrix_get(matrix, i + 0, j + 2) + real_part(1));
-  gsl_matrix_set(matrix, i + 0, j + 3,
-                 gsl_matrix_get(matrix, i + 0, j + 3) + imag_part(1));
-  gsl_matrix_set(matrix, i + 1, j + 2,
-                 gsl_matrix_get(matrix, i + 1, j + 2) - imag_part(1));
-  gsl_matrix_set(matrix, i + 1, j + 3,
-                 gsl_matrix_get(matrix, i + 1, j + 3) + real_part(1));
-
-  // YX block (rows 2-3, cols 0-1)
-  gsl_matrix_set(matrix, i + 2, j + 0,
-                 gsl_matrix_get(matrix, i + 2, j + 0) + real_part(2));
-  gsl_matrix_set(matrix, i + 2, j + 1,
-                 gsl_matrix_get(matrix, i + 2, j + 1) + imag_part(2));
-  gsl_matrix_set(matrix, i + 3, j + 0,
-                 gsl_matrix_get(matrix, i + 3, j + 0) - imag_part(2));
-  gsl_matrix_set(matrix, i + 3, j + 1,
-                 gsl_matrix_get(matrix, i + 3, j + 1) + real_part(2));
+void AddToMatrixElement(gsl_matrix* matrix, size_t row, size_t col,
+                        double added_term) {
+  gsl_matrix_set(matrix, row, col,
+                 gsl_matrix_get(matrix, row, col) + added_term);
 }
 
 }  // namespace
@@ -344,6 +298,9 @@ void DiagonalAntennaSolver::SolveDirectionSolution(
   // Enable geodesic acceleration
   parameters.trs = gsl_multilarge_nlinear_trs_lmaccel;
   parameters.avmax = 0.5;  // stability factor (0.0-1.0); lower = more stable
+  // The overall phase is not constrained by the data, so the (real) normal
+  // matrix is singular.
+  parameters.solver = gsl_multilarge_nlinear_solver_mcholesky;
 
   gsl_multilarge_nlinear_workspace* work = gsl_multilarge_nlinear_alloc(
       gsl_multilarge_nlinear_trust, &parameters, fdf.n, fdf.p);
@@ -482,7 +439,7 @@ int DiagonalAntennaSolver::PenaltyTransposedDerivative(const gsl_vector* x,
     const MC2x2 model(
         ch_block_data.ModelVisibility(direction_index, vis_index));
     const MC2x2Diag contrib1 =
-        Diagonal(u_value.HermTranspose() * model * solution_2.HermTranspose());
+        Diagonal(u_value * (model * solution_2.HermTranspose()).HermTranspose());
     const MC2x2Diag contrib2 =
         Diagonal((solution_1 * model).HermTranspose() * u_value);
 
@@ -519,19 +476,30 @@ void DiagonalAntennaSolver::PenaltyJTJ(const gsl_vector* x,
     const MC2x2 a = model * g2.HermTranspose();
     const MC2x2 b = g1 * model;
 
-    // Because gains are diagonal, each visibility contributes a rank-2 update
-    // to four 4×4 blocks of J^T J:
-    //   - block(a1, a1)
-    //   - block(a2, a2)
-    //   - block(a1, a2) and block(a2, a1)  (the cross terms)
-
-    AddSolutionToMatrix(jtj, antenna_1, antenna_1, a.HermTranspose() * a);
-    AddSolutionToMatrix(jtj, antenna_2, antenna_2, b.HermTranspose() * b);
-
-    // Cross terms:  A^H * B  and its Hermitian (B^H * A)
-    const MC2x2 cross = a.HermTranspose() * b;
-    AddSolutionToMatrix(jtj, antenna_1, antenna_2, cross);
-    AddSolutionToMatrix(jtj, antenna_2, antenna_1, cross.HermTranspose());
+    // Because gains are diagonal, element (i, j) of a visibility depends only
+    // on gain i of antenna 1 and (conjugated) on gain j of antenna 2. A step
+    // d1, d2 of those gains changes the element by a_ij d1 + b_ij conj(d2).
+    for (size_t i = 0; i != 2; ++i) {
+      for (size_t j = 0; j != 2; ++j) {
+        const std::complex<double> a_ij = a.Get(i * 2 + j);
+        const std::complex<double> b_ij = b.Get(i * 2 + j);
+        const size_t index1 = antenna_1 * 4 + i * 2;
+        const size_t index2 = antenna_2 * 4 + j * 2;
+        for (size_t k = 0; k != 2; ++k) {
+          AddToMatrixElement(jtj, index1 + k, index1 + k, std::norm(a_ij));
+          AddToMatrixElement(jtj, index2 + k, index2 + k, std::norm(b_ij));
+        }
+        const std::complex<double> cross = std::conj(a_ij) * b_ij;
+        const double block[2][2] = {{cross.real(), cross.imag()},
+                                    {cross.imag(), -cross.real()}};
+        for (size_t k = 0; k != 2; ++k) {
+          for (size_t l = 0; l != 2; ++l) {
+            AddToMatrixElement(jtj, index1 + k, index2 + l, block[k][l]);
+            AddToMatrixElement(jtj, index2 + l, index1 + k, block[k][l]);
+          }
+        }
+      }
+    }
   }
 }
 
-- 
2.43.0


From 035dffb492e91926e75cb5b37d95841be5614b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:51 +0000
Subject: [PATCH 57/89] fix: solve directions of which the first visibility is
 not in the first solution

---
 ddecal/gain_solvers/DiagonalAntennaSolver.cc    |  3 ++-
 ddecal/gain_solvers/DiagonalLowRankSolver.cc    |  2 +-
 ddecal/gain_solvers/IterativeDiagonalSolver.cc  |  2 +-
 ddecal/gain_solvers/IterativeFullJonesSolver.cc |  2 +-
 ddecal/gain_solvers/IterativeScalarSolver.cc    |  2 +-
 ddecal/gain_solvers/SolveData.h                 | 14 +++++++++++---
 6 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/ddecal/gain_solvers/DiagonalAntennaSolver.cc b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
index 485f712..06e1f7b 100644
--- a/ddecal/gain_solvers/DiagonalAntennaSolver.cc
+++ b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
@@ -253,7 +253,8 @@ void DiagonalAntennaSolver::PerformIteration(
                                          direction, NSubSolutions(), solutions,
                                          NSubThreads());
 
-    const uint32_t solution_index0 = ch_block_data.SolutionIndex(direction, 0);
+    const uint32_t solution_index0 =
+        ch_block_data.FirstSolutionIndex(direction);
     for (uint32_t direction_solution = 0;
          direction_solution != n_direction_solutions; ++direction_solution) {
       SolveDirectionSolution(ch_block, ch_block_data, residual_data, direction,
diff --git a/ddecal/gain_solvers/DiagonalLowRankSolver.cc b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
index ab33675..9752e75 100644
--- a/ddecal/gain_solvers/DiagonalLowRankSolver.cc
+++ b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
@@ -238,7 +238,7 @@ void DiagonalLowRankSolver::PerformIteration(
                                          NSubSolutions(), solutions,
                                          NSubThreads());
 
-    const uint32_t solution_index0 = cb_data.SolutionIndex(direction, 0);
+    const uint32_t solution_index0 = cb_data.FirstSolutionIndex(direction);
     for (uint32_t direction_solution = 0;
          direction_solution != n_direction_solutions; ++direction_solution) {
       SolveDirectionSolution(ch_block, cb_data, v_residual, direction,
diff --git a/ddecal/gain_solvers/IterativeDiagonalSolver.cc b/ddecal/gain_solvers/IterativeDiagonalSolver.cc
index 89d5d82..9397af8 100644
--- a/ddecal/gain_solvers/IterativeDiagonalSolver.cc
+++ b/ddecal/gain_solvers/IterativeDiagonalSolver.cc
@@ -144,7 +144,7 @@ void IterativeDiagonalSolver<VisMatrix>::SolveDirection(
 
   // Iterate over all data
   const size_t n_visibilities = cb_data.NVisibilities();
-  const uint32_t solution_index0 = cb_data.SolutionIndex(direction, 0);
+  const uint32_t solution_index0 = cb_data.FirstSolutionIndex(direction);
 
   std::mutex mutex;
   schaapcommon::RunConstrainedStaticFor<size_t>(
diff --git a/ddecal/gain_solvers/IterativeFullJonesSolver.cc b/ddecal/gain_solvers/IterativeFullJonesSolver.cc
index bab9eeb..e5db3fa 100644
--- a/ddecal/gain_solvers/IterativeFullJonesSolver.cc
+++ b/ddecal/gain_solvers/IterativeFullJonesSolver.cc
@@ -118,7 +118,7 @@ void IterativeFullJonesSolver::SolveDirection(
 
   // Iterate over all data
   const size_t n_visibilities = cb_data.NVisibilities();
-  const uint32_t solution_index0 = cb_data.SolutionIndex(direction, 0);
+  const uint32_t solution_index0 = cb_data.FirstSolutionIndex(direction);
 
   std::mutex mutex;
   schaapcommon::RunConstrainedStaticFor<size_t>(
diff --git a/ddecal/gain_solvers/IterativeScalarSolver.cc b/ddecal/gain_solvers/IterativeScalarSolver.cc
index 8fe5d25..fef3884 100644
--- a/ddecal/gain_solvers/IterativeScalarSolver.cc
+++ b/ddecal/gain_solvers/IterativeScalarSolver.cc
@@ -132,7 +132,7 @@ void IterativeScalarSolver<VisMatrix>::SolveDirection(
 
   // Iterate over all data
   const size_t n_visibilities = cb_data.NVisibilities();
-  const uint32_t solution_index0 = cb_data.SolutionIndex(direction, 0);
+  const uint32_t solution_index0 = cb_data.FirstSolutionIndex(direction);
 
   std::mutex mutex;
   schaapcommon::RunConstrainedStaticFor<size_t>(
diff --git a/ddecal/gain_solvers/SolveData.h b/ddecal/gain_solvers/SolveData.h
index 9f89731..af54cfc 100644
--- a/ddecal/gain_solvers/SolveData.h
+++ b/ddecal/gain_solvers/SolveData.h
@@ -74,9 +74,8 @@ class SolveData {
      * When using direction-dependent intervals, a single direction might
      * have multiple solutions. The solution index is absolute, meaning that
      * direction zero starts counting at zero and indices of subsequent
-     * directions start after the previous direction. For every direction, the
-     * first solution index is also the lowest value, i.e. SolutionIndex(D, 0)
-     * <= SolutionIndex(D, i) for any i,D.
+     * directions start after the previous direction. See also
+     * FirstSolutionIndex().
      */
     uint32_t SolutionIndex(size_t direction_index,
                            size_t visibility_index) const {
@@ -101,6 +100,15 @@ class SolveData {
       return n_solutions_[direction_index];
     }
 
+    /**
+     * @return The lowest (absolute) solution index of the given direction.
+     */
+    uint32_t FirstSolutionIndex(size_t direction_index) const {
+      return std::accumulate(n_solutions_.begin(),
+                             n_solutions_.begin() + direction_index,
+                             uint32_t(0));
+    }
+
     /**
      * @return Total number of solutions. This is the sum of the solutions
      * over all directions.
-- 
2.43.0


From 97c37e52f66941f9c0596cf620883ef885d996ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 58/89] fix: SVDSolver does not ask LAPACK to solve without
 equations

---
 ddecal/linear_solvers/SVDSolver.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ddecal/linear_solvers/SVDSolver.h b/ddecal/linear_solvers/SVDSolver.h
index b9b7462..8fe74bd 100644
--- a/ddecal/linear_solvers/SVDSolver.h
+++ b/ddecal/linear_solvers/SVDSolver.h
@@ -33,6 +33,7 @@ class SVDSolver final : public LLSSolver {
    * columnwise (N, NRHS)
    */
   bool Solve(complex* a, complex* b) override {
+    if (m_ == 0) return false;
     int info;
     int ldb = std::max(m_, n_);
     std::vector<float> s;
-- 
2.43.0


From a715adeb5686f84361c83fc0412a188664cadd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:50 +0000
Subject: [PATCH 59/89] fix: do not use the step statistics of a previous solve
 to detect stalling

---
 ddecal/gain_solvers/SolverBase.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ddecal/gain_solvers/SolverBase.h b/ddecal/gain_solvers/SolverBase.h
index a099fed..a8c7245 100644
--- a/ddecal/gain_solvers/SolverBase.h
+++ b/ddecal/gain_solvers/SolverBase.h
@@ -275,6 +275,13 @@ class SolverBase {
                                 bool constraints_satisfied,
                                 const std::vector<double>& step_magnitudes) {
     bool has_stalled = false;
+    if (iteration == 1) {
+      // Also when the constraints are not satisfied yet, the statistics of a
+      // previous solve should not be used.
+      n_var_count_ = 0;
+      step_mean_ = 0.0;
+      step_var_ = 0.0;
+    }
     if (detect_stalling_ && constraints_satisfied)
       has_stalled = DetectStall(iteration, step_magnitudes);
 
-- 
2.43.0


From 3e10bf95ec7befd9c27c52e156428e3a6c012210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:50 +0000
Subject: [PATCH 60/89] fix: count the iterations of hybrid solver stages once

---
 ddecal/gain_solvers/HybridSolver.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ddecal/gain_solvers/HybridSolver.cc b/ddecal/gain_solvers/HybridSolver.cc
index d9ecd54..7699e2f 100644
--- a/ddecal/gain_solvers/HybridSolver.cc
+++ b/ddecal/gain_solvers/HybridSolver.cc
@@ -48,15 +48,14 @@ bool HybridSolver::RunSolver(SolverBase& solver, size_t& available_iterations,
     solver.SetMaxIterations(available_iterations);
   aocommon::Logger::Debug << "Starting next hybrid solver stage.\n";
   SolveResult nextResult = solver.Solve(solve_data, solutions, time);
-  result.iterations += nextResult.iterations;
   result.constraint_iterations += nextResult.constraint_iterations;
   result.results = std::move(nextResult.results);
   const bool is_converged = nextResult.iterations <= solver.GetMaxIterations();
-  if (is_converged)
-    available_iterations -= result.iterations;
-  else  // If not converged, the solver has taken the maximum nr of
-        // iterations.
-    available_iterations -= solver.GetMaxIterations();
+  // If not converged, the solver has taken the maximum nr of iterations.
+  const size_t n_iterations =
+      is_converged ? nextResult.iterations : solver.GetMaxIterations();
+  result.iterations += n_iterations;
+  available_iterations -= n_iterations;
   return is_converged;
 }
 
-- 
2.43.0


From b3ec248d83308abb6934c3ceff53032c42dc192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 61/89] fix: order the weights of rotations by antenna and sub
 solution

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 12 ++++++++----
 ddecal/constraints/RotationConstraint.cc            | 10 ++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index ccf4b21..f46ce38 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -179,10 +179,14 @@ void RotationAndDiagonalConstraint::SetWeights(
     const std::vector<double>& weights) {
   assert(weights.size() == NAntennas() * NChannelBlocks());
   // weights is n_antennas * n_channel_blocks, so it needs to be broadcasted
-  // over n_sub_solutions.
-  for (size_t i = 0; i != NSubSolutions(); ++i) {
-    std::copy_n(weights.data(), weights.size(),
-                &results_[0].weights[NAntennas() * NChannelBlocks() * i]);
+  // over n_sub_solutions. The index of the sub solution varies slower than the
+  // channel block, but faster than the antenna.
+  for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    for (size_t i = 0; i != NSubSolutions(); ++i) {
+      std::copy_n(&weights[antenna * NChannelBlocks()], NChannelBlocks(),
+                  &results_[0].weights[(antenna * NSubSolutions() + i) *
+                                       NChannelBlocks()]);
+    }
   }
 
   // Duplicate weights for one or two polarizations and broadcast these over the
diff --git a/ddecal/constraints/RotationConstraint.cc b/ddecal/constraints/RotationConstraint.cc
index 0d3e50e..c094dd0 100644
--- a/ddecal/constraints/RotationConstraint.cc
+++ b/ddecal/constraints/RotationConstraint.cc
@@ -26,8 +26,14 @@ void RotationConstraint::Initialize(
 void RotationConstraint::SetWeights(const std::vector<double>& weights) {
   ConstraintResult& result = results_.front();
   result.weights.clear();
-  for (size_t i = 0; i != NSubSolutions(); ++i) {
-    result.weights.insert(result.weights.end(), weights.begin(), weights.end());
+  // Broadcast the weights over the sub solutions, of which the index varies
+  // slower than the channel block, but faster than the antenna.
+  for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    const double* antenna_weights = &weights[antenna * NChannelBlocks()];
+    for (size_t i = 0; i != NSubSolutions(); ++i) {
+      result.weights.insert(result.weights.end(), antenna_weights,
+                            antenna_weights + NChannelBlocks());
+    }
   }
 }
 
-- 
2.43.0


From 1cab0487b82187f3a9e7daa36963e365ed9e9fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 62/89] fix: limit the amplitudes of diagonals to a range
 around their own mean

---
 .../RotationAndDiagonalConstraint.cc          | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index f46ce38..3a1683d 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -20,20 +20,19 @@ bool dataIsValid(const std::complex<double>* const data,
 }
 
 /// Adjusts the magnitude of value to fall within a specified range from
-/// mean_abs. Returns true if the initial value was already within the range,
-/// false otherwise.
+/// mean_abs. Returns false if the initial value was already within the range,
+/// true otherwise.
 bool Limit(std::complex<double>& value, double mean_abs, double max_ratio) {
-  if (mean_abs > 0.0) {
-    if (std::abs(value) / mean_abs < 1.0 / max_ratio ||
-        std::abs(value) / mean_abs > max_ratio) {
-      return true;
-    }
-    do {
-      value *= 1.2;
-    } while (std::abs(value) / mean_abs < 1.0 / max_ratio);
-    do {
-      value /= 1.2;
-    } while (std::abs(value) / mean_abs > max_ratio);
+  const double abs_value = std::abs(value);
+  const double min_abs = mean_abs / max_ratio;
+  const double max_abs = mean_abs * max_ratio;
+  if (abs_value < min_abs) {
+    // A zero value has no phase, so it can not be scaled.
+    if (abs_value > 0.0) value *= min_abs / abs_value;
+    return true;
+  } else if (abs_value > max_abs) {
+    value *= max_abs / abs_value;
+    return true;
   }
   return false;
 }
@@ -311,7 +310,7 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
         if (a_mean > 0.0 && Limit(diagonal[0], a_mean, maxratio)) {
           diverged = true;
         }
-        if (b_mean > 0.0 && Limit(diagonal[1], a_mean, maxratio)) {
+        if (b_mean > 0.0 && Limit(diagonal[1], b_mean, maxratio)) {
           diverged = true;
         }
 
-- 
2.43.0


From c9411e459a10d8197012bac177d75fa8fc3d07d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 63/89] fix: flag the solutions of the sub solution of which
 the amplitudes diverge

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 13 ++++++++-----
 ddecal/constraints/RotationAndDiagonalConstraint.h  |  4 ++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index 3a1683d..9870d9d 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -236,10 +236,13 @@ void RotationAndDiagonalConstraint::FitRotationAndDiagonal(
 
 template <size_t PolCount>
 void RotationAndDiagonalConstraint::SetChannelWeights(
-    std::vector<double>& values, size_t channel, double new_value) const {
+    std::vector<double>& values, size_t sub_solution, size_t channel,
+    double new_value) const {
   for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    const size_t index =
+        (antenna * NSubSolutions() + sub_solution) * NChannelBlocks() + channel;
     for (size_t p = 0; p != PolCount; ++p) {
-      values[(antenna * NChannelBlocks() + channel) * PolCount + p] = new_value;
+      values[index * PolCount + p] = new_value;
     }
   }
 }
@@ -344,12 +347,12 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
       // weights of all antennas to a negative value for flagging later if
       // desired
       if (diverged) {
-        SetChannelWeights<1>(results_[0].weights, ch, -1.0);
+        SetChannelWeights<1>(results_[0].weights, sub_solution, ch, -1.0);
         for (size_t i = 1; i != results_.size(); ++i) {
           if (GetNPolarizations(diagonal_solution_type_) == 1)
-            SetChannelWeights<1>(results_[i].weights, ch, -1.0);
+            SetChannelWeights<1>(results_[i].weights, sub_solution, ch, -1.0);
           else
-            SetChannelWeights<2>(results_[i].weights, ch, -1.0);
+            SetChannelWeights<2>(results_[i].weights, sub_solution, ch, -1.0);
         }
       }
     }
diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.h b/ddecal/constraints/RotationAndDiagonalConstraint.h
index d42b49c..8a29824 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.h
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.h
@@ -37,8 +37,8 @@ class RotationAndDiagonalConstraint final : public Constraint {
       std::array<std::complex<double>, 2>& diagonal) const;
 
   template <size_t PolCount>
-  void SetChannelWeights(std::vector<double>& values, size_t channel,
-                         double new_value) const;
+  void SetChannelWeights(std::vector<double>& values, size_t sub_solution,
+                         size_t channel, double new_value) const;
 
   std::vector<ConstraintResult> results_;
   bool do_rotation_reference_;
-- 
2.43.0


From 8ea68774ce8657d49d7e9ff1d29e9d72564f6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:04 +0000
Subject: [PATCH 64/89] fix: leave antennas without a solution out of the mean
 amplitude

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index 9870d9d..448b656 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -259,6 +259,8 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
       // maxratio constraint below
       double a_mean = 0.0;
       double b_mean = 0.0;
+      size_t a_count = 0;
+      size_t b_count = 0;
       for (size_t ant = 0; ant < NAntennas(); ++ant) {
         std::complex<double>* data = &(solutions(ch, ant, sub_solution, 0));
 
@@ -274,14 +276,16 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
         const double abs_a = std::abs(diagonal[0]);
         if (std::isfinite(abs_a)) {
           a_mean += abs_a;
+          ++a_count;
         }
         const double abs_b = std::abs(diagonal[1]);
         if (std::isfinite(abs_b)) {
           b_mean += abs_b;
+          ++b_count;
         }
       }
-      a_mean /= NAntennas();
-      b_mean /= NAntennas();
+      if (a_count != 0) a_mean /= a_count;
+      if (b_count != 0) b_mean /= b_count;
 
       double angle0 = std::numeric_limits<double>::quiet_NaN();
 
-- 
2.43.0


From bb9581752b4fb0661c379e5d5be24e042da01124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:59 +0000
Subject: [PATCH 65/89] fix: flag antennas with infinite rotation and diagonal
 solutions

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index 448b656..869f089 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -12,7 +12,7 @@ namespace {
 bool dataIsValid(const std::complex<double>* const data,
                  const std::size_t size) {
   for (std::size_t i = 0; i < size; ++i) {
-    if (std::isnan(data[i].real()) || std::isnan(data[i].imag())) {
+    if (!std::isfinite(data[i].real()) || !std::isfinite(data[i].imag())) {
       return false;
     }
   }
-- 
2.43.0


From f4217bebfa70decd315cb6c30de3682a56266cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 66/89] fix: search all slopes of phase lines of which the
 largest x-value is negative

---
 common/PhaseLineFitter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/PhaseLineFitter.h b/common/PhaseLineFitter.h
index 33d51ef..fdb3382 100644
--- a/common/PhaseLineFitter.h
+++ b/common/PhaseLineFitter.h
@@ -4,6 +4,7 @@
 #ifndef DP3_COMMON_PHASE_LINE_FITTER_H_
 #define DP3_COMMON_PHASE_LINE_FITTER_H_
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <vector>
@@ -98,9 +99,8 @@ inline SlopeFitRange GetRange(
     assert(delta >= 0.0);  // 'data' should be ordered on 'x'.
     if (delta > 0.0 && delta < min_delta) min_delta = delta;
   }
-  const double min_x = data.front().x;
-  const double max_x = data.back().x;
-  const double max_abs_x = max_x < 0.0 ? -min_x : max_x;
+  const double max_abs_x =
+      std::max(std::abs(data.front().x), std::abs(data.back().x));
 
   // The search must go from 0 wraps to the maximum number of wraps that can
   // still lead to finding the right wrapping.
-- 
2.43.0


From 762076bf36061779d5d272e215b70ecd5a41bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:43 +0000
Subject: [PATCH 67/89] fix: apply the rotation of Faraday solutions on the
 side where it is fitted

---
 ddecal/constraints/FaradayConstraint.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddecal/constraints/FaradayConstraint.cc b/ddecal/constraints/FaradayConstraint.cc
index e5510dd..8837714 100644
--- a/ddecal/constraints/FaradayConstraint.cc
+++ b/ddecal/constraints/FaradayConstraint.cc
@@ -178,8 +178,8 @@ void FaradayConstraint::PerformFit(SolutionSpan& solutions, size_t sub_solution,
                     NChannelBlocks(), NSubSolutions(), diagonal_solution_type_);
     RotationConstraint::SetRotation(data, angle);
     data[0] *= diagonal[0];
-    data[1] *= diagonal[1];
-    data[2] *= diagonal[0];
+    data[1] *= diagonal[0];
+    data[2] *= diagonal[1];
     data[3] *= diagonal[1];
   }
 }
-- 
2.43.0


From 8d6b6c5115396ebe34bae6711ed2b8a6f8bbd897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:43 +0000
Subject: [PATCH 68/89] fix: give each polarization of Faraday diagonals its
 sub solution weight

---
 ddecal/constraints/FaradayConstraint.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ddecal/constraints/FaradayConstraint.cc b/ddecal/constraints/FaradayConstraint.cc
index 8837714..bfdeb2e 100644
--- a/ddecal/constraints/FaradayConstraint.cc
+++ b/ddecal/constraints/FaradayConstraint.cc
@@ -88,6 +88,7 @@ void FaradayConstraint::SetSubSolutionWeights(
   sub_solution_weights_ = sub_solution_weights;
   for (ConstraintResult& result : results_) result.weights.clear();
   ConstraintResult& rm_result = results_.front();
+  const size_t n_polarizations = GetNPolarizations(diagonal_solution_type_);
   for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
     for (const std::vector<double>& weights : sub_solution_weights) {
       const double* antenna_weights = &weights[antenna * NChannelBlocks()];
@@ -95,8 +96,12 @@ void FaradayConstraint::SetSubSolutionWeights(
       for (size_t channel = 0; channel != NChannelBlocks(); ++channel) {
         weight_sum += antenna_weights[channel];
         for (size_t result_index = 1; result_index < results_.size();
-             ++result_index)
-          results_[result_index].weights.emplace_back(antenna_weights[channel]);
+             ++result_index) {
+          for (size_t p = 0; p != n_polarizations; ++p) {
+            results_[result_index].weights.emplace_back(
+                antenna_weights[channel]);
+          }
+        }
       }
       rm_result.weights.emplace_back(weight_sum);
     }
-- 
2.43.0


From 5541a983905d707557ced48b13c511f36252a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:43 +0000
Subject: [PATCH 69/89] fix: search Faraday rotations up to the requested
 maximum

---
 ddecal/constraints/FaradayConstraint.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ddecal/constraints/FaradayConstraint.cc b/ddecal/constraints/FaradayConstraint.cc
index bfdeb2e..5a445e8 100644
--- a/ddecal/constraints/FaradayConstraint.cc
+++ b/ddecal/constraints/FaradayConstraint.cc
@@ -31,10 +31,11 @@ void FaradayConstraint::Initialize(
   fit_range_ = common::phase_fitting::GetRange(grid);
   if (max_rotation_value_) {
     assert(*max_rotation_value_ > 0.0);
-    if (fit_range_.wrap_step * fit_range_.max_wraps > *max_rotation_value_ &&
+    // The fitted slope is twice the rotation value, see PerformFit().
+    const double max_slope = 2.0 * *max_rotation_value_;
+    if (fit_range_.wrap_step * fit_range_.max_wraps > max_slope &&
         fit_range_.wrap_step != 0.0) {
-      fit_range_.max_wraps =
-          std::ceil(*max_rotation_value_ / fit_range_.wrap_step);
+      fit_range_.max_wraps = std::ceil(max_slope / fit_range_.wrap_step);
     }
   }
 
-- 
2.43.0


From 6e915429662b60390b962bec03eb7b858057a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:58 +0000
Subject: [PATCH 70/89] fix: do not fit a slope through a single phase

---
 ddecal/constraints/PieceWisePhaseFitter.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ddecal/constraints/PieceWisePhaseFitter.h b/ddecal/constraints/PieceWisePhaseFitter.h
index 3a5a451..625de21 100644
--- a/ddecal/constraints/PieceWisePhaseFitter.h
+++ b/ddecal/constraints/PieceWisePhaseFitter.h
@@ -330,6 +330,7 @@ class PieceWisePhaseFitter {
 
     double sum_x = 0.0, sum_xSq = 0.0, mean_y = 0.0, ss_xy = 0.0,
            sum_weight = 0.0;
+    size_t n_weighted = 0;
 
     for (size_t i = 0; i != n; ++i) {
       double x = data[i];
@@ -342,10 +343,15 @@ class PieceWisePhaseFitter {
       mean_y += x * weights[i];
       ss_xy += frequencies[i] * x * weights[i];
       sum_weight += weights[i];
+      if (weights[i] != 0.0) ++n_weighted;
     }
     if (sum_weight == 0.0) {
       a = 0.0;
       b = 0.0;
+    } else if (n_weighted == 1) {
+      // A single value does not determine a slope.
+      a = mean_y / sum_weight;
+      b = 0.0;
     } else {
       mean_y /= sum_weight;
       double mean_x = sum_x / sum_weight;
-- 
2.43.0


From b0a0a4d24e5ec30d9bfd5fd41eb1b01c814547b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:31 +0000
Subject: [PATCH 71/89] fix: set direction-dependent weights of the constraints
 of all hybrid solver stages

---
 ddecal/gain_solvers/SolverBase.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ddecal/gain_solvers/SolverBase.cc b/ddecal/gain_solvers/SolverBase.cc
index 9166e67..c02f2c4 100644
--- a/ddecal/gain_solvers/SolverBase.cc
+++ b/ddecal/gain_solvers/SolverBase.cc
@@ -436,8 +436,11 @@ std::unique_ptr<LLSSolver> SolverBase::CreateLLSSolver(
 
 void SolverBase::SetDdConstraintWeights(
     const std::vector<std::vector<double>>& weights) {
-  for (const std::unique_ptr<Constraint>& constraint : constraints_) {
-    constraint->SetSubSolutionWeights(weights);
+  // A solver that consists of several solvers has no constraints of its own.
+  for (SolverBase* solver : ConstraintSolvers()) {
+    for (const std::unique_ptr<Constraint>& constraint : solver->constraints_) {
+      constraint->SetSubSolutionWeights(weights);
+    }
   }
 }
 
-- 
2.43.0


From cb722dea3f80b2d3aa41293a125165c6965b9956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:31 +0000
Subject: [PATCH 72/89] fix: refuse values per station that are not valid
 numbers

---
 common/ValuePerStationParsing.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/ValuePerStationParsing.h b/common/ValuePerStationParsing.h
index b5765b2..7f0a620 100644
--- a/common/ValuePerStationParsing.h
+++ b/common/ValuePerStationParsing.h
@@ -92,7 +92,11 @@ void ParseValuePerStation(std::span<ValueType> result,
         stations_value.substr(colon + 1, stations_value.size() - colon));
     std::istringstream value_stream(value_string);
     ValueType value;
-    value_stream >> value;
+    if (!(value_stream >> value) || !(value_stream >> std::ws).eof())
+      throw std::runtime_error(
+          "Items of station-value lists must be of the form "
+          "'station-pattern:value'. Item has an invalid value: '" +
+          stations_value + "'");
     std::string station_pattern(stations_value.substr(0, colon));
     AssignStationValues(result, value, station_pattern, station_names);
   }
-- 
2.43.0


From 7c0bc518db7fa0046cebbae98b3be7cbed870f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 73/89] fix: do not smooth antennas with a smoothness factor of
 zero

---
 ddecal/constraints/SmoothnessConstraint.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ddecal/constraints/SmoothnessConstraint.cc b/ddecal/constraints/SmoothnessConstraint.cc
index 861d064..3678a8c 100644
--- a/ddecal/constraints/SmoothnessConstraint.cc
+++ b/ddecal/constraints/SmoothnessConstraint.cc
@@ -66,6 +66,8 @@ void SmoothnessConstraint::Apply(SolutionSpan& solutions, double time) {
               (smoothing_index / n_polarizations) % NSubSolutions();
           const size_t ant_index =
               smoothing_index / (NSubSolutions() * n_polarizations);
+          // A factor of zero means that the antenna is not smoothed.
+          if (antenna_factors_[ant_index] == 0.0) continue;
           const double* weights = sub_solution_weights_.empty()
                                       ? weights_.data()
                                       : sub_solution_weights_[sol_index].data();
-- 
2.43.0


From 92b6f89d5520612573ed0f815626bc4b73a525c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:15 +0000
Subject: [PATCH 74/89] fix: DDECal: use the solutions of the right antennas
 when subtracting

ApplySolutionAndSubtract() indexed the solutions, which only contain the used
antennas, with the antenna numbers of the measurement set. With unused antennas,
the models were corrected with the solutions of other antennas, or with
values beyond the end of the solutions.
---
 steps/DDECal.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index 3a19ce6..541941b 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -1031,8 +1031,9 @@ aocommon::MC2x2 ApplyScalarSolution(
 void DDECal::ApplySolutionAndSubtract(
     DPBuffer& buffer, size_t baseline, size_t channel,
     const std::vector<std::complex<double>>& solutions) const {
-  const size_t antenna1 = getInfoOut().getAnt1()[baseline];
-  const size_t antenna2 = getInfoOut().getAnt2()[baseline];
+  // The solutions contain the used antennas only.
+  const size_t antenna1 = antennas1_[baseline];
+  const size_t antenna2 = antennas2_[baseline];
   const size_t n_directions = direction_names_.size();
 
   aocommon::MC2x2 sum_over_directions = aocommon::MC2x2::Zero();
-- 
2.43.0


From d1bf216d9378a40020c7594374334f89cd652b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:23 +0000
Subject: [PATCH 75/89] fix: DDECal: create the solver for the used antennas

CreateSolver() received the names of all antennas, while the solver and its
constraints are initialized with the used antennas only. With unused antennas,
the number of antenna averaging factors did not match and values per station
pattern could refer to stations that take no part in the calibration.
---
 steps/DDECal.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index 541941b..3169475 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -190,7 +190,9 @@ void DDECal::setModelNextSteps(Step& step, const std::string& direction,
 void DDECal::updateInfo(const DPInfo& infoIn) {
   Step::updateInfo(infoIn);
 
-  solver_ = ddecal::CreateSolver(settings_, infoIn.antennaNames());
+  // The solver, and thus its constraints, work with the used antennas only.
+  solver_ =
+      ddecal::CreateSolver(settings_, getInfoOut().GetUsedAntennaNames());
 
   initializeModelReuse();
 
-- 
2.43.0


From f05d980e77aff72039efe30f28cc50b58a97ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:23 +0000
Subject: [PATCH 76/89] fix: DDECal: pass the average time of the solution
 interval

The sum of the times was accumulated by adding itself again for each time step,
initial solutions were read for the sum instead of the average, and for
incomplete solution intervals, and several intervals at a time, the sum was
divided by another number than the number of time steps it contained.
---
 steps/DDECal.cc | 25 +++++++++++++++----------
 steps/DDECal.h  |  6 ++----
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index 3169475..bc5c599 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -10,6 +10,7 @@
 #include <array>
 #include <iomanip>
 #include <iostream>
+#include <numeric>
 #include <utility>
 
 #include <casacore/casa/Quanta/Quantum.h>
@@ -60,7 +61,6 @@ namespace steps {
 
 DDECal::DDECal(const common::ParameterSet& parset, const std::string& prefix)
     : settings_(parset, prefix),
-      average_time_(0),
       solutions_(),
       initial_solutions_(parset, prefix),
       requested_solution_interval_(settings_.solution_interval),
@@ -482,7 +482,7 @@ void DDECal::showTimings(std::ostream& os, double duration) const {
   os << "]" << '\n';
 }
 
-void DDECal::InitializeSolutions(size_t buffer_index) {
+void DDECal::InitializeSolutions(size_t buffer_index, double average_time) {
   const size_t solution_index = first_solution_index_ + buffer_index;
   assert(solution_index < solutions_.size());
 
@@ -503,7 +503,7 @@ void DDECal::InitializeSolutions(size_t buffer_index) {
     initial_solutions_.Read(settings_, solutions_[solution_index],
                             getInfoOut().GetUsedAntennaNames(),
                             channel_block_frequencies_, source_directions_,
-                            average_time_);
+                            average_time);
   } else {
     const size_t n_solutions = settings_.GetNSolutions();
     const size_t n_solution_values = n_solutions *
@@ -601,6 +601,14 @@ void DDECal::doSolve() {
     // padded with empty buffers.
     const size_t original_size = input_buffers_[i].size();
 
+    // The average time of the solution interval, which may be incomplete.
+    const double average_time =
+        std::accumulate(input_buffers_[i].begin(), input_buffers_[i].end(), 0.0,
+                        [](double sum, const std::unique_ptr<DPBuffer>& buffer) {
+                          return sum + buffer->GetTime();
+                        }) /
+        original_size;
+
     // To learn how this condition could be met see AST-1589.
     if (solution_index >= solutions_.size()) {
       throw std::runtime_error(
@@ -648,7 +656,7 @@ void DDECal::doSolve() {
       ddecal::AssignAndWeight(input_buffers_[i], direction_names_,
                               weighted_buffers, keep_model_data, linear_mode);
 
-      InitializeSolutions(i);
+      InitializeSolutions(i, average_time);
 
       solve_timer_.start();
 
@@ -666,7 +674,7 @@ void DDECal::doSolve() {
 
           solveResult =
               solver_->Solve(solve_data, solutions_[solution_index],
-                             average_time_ / requested_solution_interval_);
+                             average_time);
         } break;
         case ddecal::SolverDataUse::kDual: {
           const ddecal::DuoSolveData solve_data(
@@ -682,7 +690,7 @@ void DDECal::doSolve() {
 
           solveResult =
               solver_->Solve(solve_data, solutions_[solution_index],
-                             average_time_ / requested_solution_interval_);
+                             average_time);
         } break;
         case ddecal::SolverDataUse::kFull: {
           const ddecal::FullSolveData solve_data(
@@ -698,7 +706,7 @@ void DDECal::doSolve() {
 
           solveResult =
               solver_->Solve(solve_data, solutions_[solution_index],
-                             average_time_ / requested_solution_interval_);
+                             average_time);
         } break;
       }
 
@@ -822,7 +830,6 @@ bool DDECal::process(std::unique_ptr<DPBuffer> bufin) {
 
     // Clean up, prepare for next iteration
     first_solution_index_ += input_buffers_.size();
-    average_time_ = 0;
     visibilities_in_interval_.assign(visibilities_in_interval_.size(),
                                      std::pair<size_t, size_t>(0, 0));
     weights_per_antenna_.assign(weights_per_antenna_.size(), 0.0);
@@ -965,8 +972,6 @@ void DDECal::doPrepare() {
   }
 
   predict_timer_.stop();
-
-  average_time_ += average_time_ + input_buffer->GetTime();
 }
 
 void DDECal::WriteSolutions() {
diff --git a/steps/DDECal.h b/steps/DDECal.h
index a6edd14..16e348d 100644
--- a/steps/DDECal.h
+++ b/steps/DDECal.h
@@ -87,7 +87,8 @@ class DDECal : public Step {
   /// Based on progation settings, either copies the previous solution or
   /// writes default values to the new solution.
   /// @param buffer_index Index within the current solution interval set.
-  void InitializeSolutions(size_t buffer_index);
+  /// @param average_time Average time of the solution interval.
+  void InitializeSolutions(size_t buffer_index, double average_time);
 
   /// Write all solutions to an H5Parm file using itsSolutionWriter.
   void WriteSolutions();
@@ -131,9 +132,6 @@ class DDECal : public Step {
   /// channel x correlation )
   xt::xtensor<bool, 5> original_flags_;
 
-  /// The time of the current buffer (in case of solint, average time)
-  double average_time_;
-
   /// For each time, for each channel block, a vector of size nAntennas *
   /// SolverBase::NSolutions() * nPolarizations, with nPolarizations changing
   /// fastest.
-- 
2.43.0


From 50408e42a56b4b3ebdfc54d46ad409243bc0387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:10 +0000
Subject: [PATCH 77/89] fix: DDECal: give all time steps the same weight in the
 constraints

The weights per antenna, that accumulate over a solution interval, were scaled
as a whole for each time step. The weights of the first time steps were thus
scaled repeatedly, and only the last time step really counted.
---
 steps/DDECal.cc | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index bc5c599..eebd25f 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -942,6 +942,10 @@ void DDECal::doPrepare() {
 
   size_t nchanblocks = channel_block_frequencies_.size();
 
+  const double weightFactor =
+      1. / (nCh * (getInfoOut().antennaUsed().size() - 1) * nCr *
+            requested_solution_interval_);
+
   for (size_t bl = 0; bl < nBl; ++bl) {
     size_t chanblock = 0;
     size_t ant1 = getInfoOut().antennaMap()[getInfoOut().getAnt1()[bl]];
@@ -954,8 +958,10 @@ void DDECal::doPrepare() {
         // Add this weight to both involved antennas
         const double weight = input_buffer->GetWeights()(bl, ch, cr) *
                               !input_buffer->GetFlags()(bl, ch, cr);
-        weights_per_antenna_[ant1 * nchanblocks + chanblock] += weight;
-        weights_per_antenna_[ant2 * nchanblocks + chanblock] += weight;
+        weights_per_antenna_[ant1 * nchanblocks + chanblock] +=
+            weight * weightFactor;
+        weights_per_antenna_[ant2 * nchanblocks + chanblock] +=
+            weight * weightFactor;
 
         visibilities_in_interval_[chanblock].first +=
             (weight > 0);                               // unflagged nr of vis
@@ -964,13 +970,6 @@ void DDECal::doPrepare() {
     }
   }
 
-  const double weightFactor =
-      1. / (nCh * (getInfoOut().antennaUsed().size() - 1) * nCr *
-            requested_solution_interval_);
-  for (double& weight : weights_per_antenna_) {
-    weight *= weightFactor;
-  }
-
   predict_timer_.stop();
 }
 
-- 
2.43.0


From 7ef743770d7e3fa27d11d20c891a354c107e7ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:34 +0000
Subject: [PATCH 78/89] fix: DDECal: keep weights and visibility counts per
 solution interval

When several solution intervals are buffered, which happens when predicting with
IDG, the weights per antenna and the visibility counts were those of all buffered
intervals together. Flagging an interval using 'minvisratio' also zeroed the
weights for the other intervals.
---
 steps/DDECal.cc | 42 +++++++++++++++++++++++++++---------------
 steps/DDECal.h  |  7 +++++--
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index eebd25f..fc842fe 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -304,7 +304,7 @@ void DDECal::updateInfo(const DPInfo& infoIn) {
   n_iterations_.resize(nSolTimes);
   n_approximating_iterations_.resize(nSolTimes);
   constraint_solutions_.resize(nSolTimes);
-  visibilities_in_interval_.assign(nChannelBlocks,
+  visibilities_in_interval_.assign(n_solution_intervals_ * nChannelBlocks,
                                    std::pair<size_t, size_t>(0, 0));
 
   channel_block_start_.resize(nChannelBlocks + 1);
@@ -323,8 +323,10 @@ void DDECal::updateInfo(const DPInfo& infoIn) {
   }
 
   weights_per_antenna_.assign(
-      channel_block_frequencies_.size() * getInfoOut().antennaUsed().size(),
-      0.0);
+      n_solution_intervals_,
+      std::vector<double>(channel_block_frequencies_.size() *
+                              getInfoOut().antennaUsed().size(),
+                          0.0));
 
   source_directions_.reserve(steps_.size());
   std::map<std::string, dp3::base::Direction>& directions =
@@ -541,8 +543,8 @@ void DDECal::flagChannelBlock(size_t cbIndex, size_t bufferIndex) {
   for (size_t bl = 0; bl < nBl; ++bl) {
     size_t ant1 = getInfoOut().antennaMap()[getInfoOut().getAnt1()[bl]];
     size_t ant2 = getInfoOut().antennaMap()[getInfoOut().getAnt2()[bl]];
-    weights_per_antenna_[ant1 * nChanBlocks + cbIndex] = 0.0;
-    weights_per_antenna_[ant2 * nChanBlocks + cbIndex] = 0.0;
+    weights_per_antenna_[bufferIndex][ant1 * nChanBlocks + cbIndex] = 0.0;
+    weights_per_antenna_[bufferIndex][ant2 * nChanBlocks + cbIndex] = 0.0;
   }
   // Set the visibility flags to true. SolverTools::AssignAndWeight will write
   // zeroes to the weighted data if it is flagged.
@@ -553,9 +555,11 @@ void DDECal::flagChannelBlock(size_t cbIndex, size_t bufferIndex) {
 }
 
 void DDECal::checkMinimumVisibilities(size_t bufferIndex) {
-  for (size_t cb = 0; cb != channel_block_frequencies_.size(); ++cb) {
-    double fraction = double(visibilities_in_interval_[cb].first) /
-                      visibilities_in_interval_[cb].second;
+  const size_t n_channel_blocks = channel_block_frequencies_.size();
+  for (size_t cb = 0; cb != n_channel_blocks; ++cb) {
+    const std::pair<size_t, size_t>& visibilities =
+        visibilities_in_interval_[bufferIndex * n_channel_blocks + cb];
+    double fraction = double(visibilities.first) / visibilities.second;
     if (fraction < settings_.min_vis_ratio) flagChannelBlock(cb, bufferIndex);
   }
 }
@@ -626,7 +630,7 @@ void DDECal::doSolve() {
       for (ddecal::SolverBase* solver : solvers) {
         for (const std::unique_ptr<ddecal::Constraint>& constraint :
              solver->GetConstraints()) {
-          constraint->SetWeights(weights_per_antenna_);
+          constraint->SetWeights(weights_per_antenna_[i]);
         }
       }
 
@@ -832,7 +836,9 @@ bool DDECal::process(std::unique_ptr<DPBuffer> bufin) {
     first_solution_index_ += input_buffers_.size();
     visibilities_in_interval_.assign(visibilities_in_interval_.size(),
                                      std::pair<size_t, size_t>(0, 0));
-    weights_per_antenna_.assign(weights_per_antenna_.size(), 0.0);
+    for (std::vector<double>& weights : weights_per_antenna_) {
+      weights.assign(weights.size(), 0.0);
+    }
 
     for (std::shared_ptr<MultiResultStep>& result_step : result_steps_) {
       if (result_step) result_step->clear();
@@ -942,6 +948,10 @@ void DDECal::doPrepare() {
 
   size_t nchanblocks = channel_block_frequencies_.size();
 
+  const size_t solution_interval = input_buffers_.size() - 1;
+  std::vector<double>& weights_per_antenna =
+      weights_per_antenna_[solution_interval];
+
   const double weightFactor =
       1. / (nCh * (getInfoOut().antennaUsed().size() - 1) * nCr *
             requested_solution_interval_);
@@ -958,14 +968,16 @@ void DDECal::doPrepare() {
         // Add this weight to both involved antennas
         const double weight = input_buffer->GetWeights()(bl, ch, cr) *
                               !input_buffer->GetFlags()(bl, ch, cr);
-        weights_per_antenna_[ant1 * nchanblocks + chanblock] +=
+        weights_per_antenna[ant1 * nchanblocks + chanblock] +=
             weight * weightFactor;
-        weights_per_antenna_[ant2 * nchanblocks + chanblock] +=
+        weights_per_antenna[ant2 * nchanblocks + chanblock] +=
             weight * weightFactor;
 
-        visibilities_in_interval_[chanblock].first +=
-            (weight > 0);                               // unflagged nr of vis
-        visibilities_in_interval_[chanblock].second++;  // total nr of vis
+        std::pair<size_t, size_t>& visibilities =
+            visibilities_in_interval_[solution_interval * nchanblocks +
+                                      chanblock];
+        visibilities.first += (weight > 0);  // unflagged nr of vis
+        visibilities.second++;               // total nr of vis
       }
     }
   }
diff --git a/steps/DDECal.h b/steps/DDECal.h
index 16e348d..e549b8b 100644
--- a/steps/DDECal.h
+++ b/steps/DDECal.h
@@ -154,7 +154,8 @@ class DDECal : public Step {
   /// Index of the first solution in the current solution interval set.
   size_t first_solution_index_;
   size_t n_channels_;
-  /// For each channel block, the nr of unflagged vis and the total nr of vis.
+  /// For each buffered solution interval and each channel block (changing
+  /// fastest), the nr of unflagged vis and the total nr of vis.
   std::vector<std::pair<size_t, size_t>> visibilities_in_interval_;
   /// For each channel block, the index in the channels at which this channel
   /// block starts.
@@ -180,7 +181,9 @@ class DDECal : public Step {
   std::vector<int> antennas1_;
   /// Second antenna for each baseline. Contains used antennas only.
   std::vector<int> antennas2_;
-  std::vector<double> weights_per_antenna_;
+  /// For each buffered solution interval, the weights for all used antennas
+  /// and channel blocks (changing fastest).
+  std::vector<std::vector<double>> weights_per_antenna_;
 
   UVWFlagger uvw_flag_step_;
   /// Result step for data after UV-flagging
-- 
2.43.0


From 99a6bdc6c485be539d05c1dd28a0d9045f387fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:52 +0000
Subject: [PATCH 79/89] fix: SolutionResampler: use the number of results of
 each constraint

---
 ddecal/SolutionResampler.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ddecal/SolutionResampler.cc b/ddecal/SolutionResampler.cc
index 48970d7..8d7afe1 100644
--- a/ddecal/SolutionResampler.cc
+++ b/ddecal/SolutionResampler.cc
@@ -88,8 +88,6 @@ SolutionResampler::Upsample(
     const {
   const size_t n_intervals = solutions.size();
   const size_t n_constraints = n_intervals == 0 ? 0 : solutions.front().size();
-  const size_t n_constraint_sub_types =
-      n_constraints == 0 ? 0 : solutions.front().front().size();
   std::vector<std::vector<std::vector<ConstraintResult>>> upsampled;
   upsampled.resize(n_intervals * n_substeps_);
 
@@ -102,6 +100,9 @@ SolutionResampler::Upsample(
       upsampled[new_interval_index].resize(n_constraints);
       for (size_t constraint_index = 0; constraint_index != n_constraints;
            ++constraint_index) {
+        // Each constraint has its own number of results, which may be zero.
+        const size_t n_constraint_sub_types =
+            solutions[interval_index][constraint_index].size();
         upsampled[new_interval_index][constraint_index].resize(
             n_constraint_sub_types);
         for (size_t sub_type_index = 0;
@@ -130,10 +131,12 @@ SolutionResampler::Upsample(
   // Do the upsampling
   for (size_t constraint_index = 0; constraint_index != n_constraints;
        ++constraint_index) {
-    for (size_t sub_type_index = 0; sub_type_index != n_constraint_sub_types;
-         ++sub_type_index) {
-      for (size_t interval_index = 0; interval_index != n_intervals;
-           ++interval_index) {
+    for (size_t interval_index = 0; interval_index != n_intervals;
+         ++interval_index) {
+      const size_t n_constraint_sub_types =
+          solutions[interval_index][constraint_index].size();
+      for (size_t sub_type_index = 0; sub_type_index != n_constraint_sub_types;
+           ++sub_type_index) {
         const ConstraintResult& input_result =
             solutions[interval_index][constraint_index][sub_type_index];
         const size_t n_input_values = input_result.vals.size();
@@ -172,8 +175,8 @@ SolutionResampler::Upsample(
           }
           old_sub_offset += n_sub_solutions;
         }
-      }  // loop over interval_index
-    }    // loop over sub_type_index
+      }  // loop over sub_type_index
+    }    // loop over interval_index
   }      // loop over constraint_index
   return upsampled;
 }
-- 
2.43.0


From e7ae9e19cb63cb7504ca2d6a11d0dbffd6253291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:52 +0000
Subject: [PATCH 80/89] fix: SolutionWriter: trim constraint results like their
 times

---
 ddecal/SolutionWriter.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ddecal/SolutionWriter.cc b/ddecal/SolutionWriter.cc
index 75419dc..ffd79fa 100644
--- a/ddecal/SolutionWriter.cc
+++ b/ddecal/SolutionWriter.cc
@@ -290,9 +290,9 @@ void SolutionWriter::WriteConstraintResults(
       const ddecal::ConstraintResult& first_result =
           constraint_solutions[0][constraint_index][name_index];
 
-      std::vector<hsize_t> dims(first_result.dims.size() +
-                                1);           // Add time dimension at beginning
-      dims[0] = constraint_solutions.size();  // Number of times
+      // Add time dimension at beginning
+      std::vector<hsize_t> dims(first_result.dims.size() + 1);
+      dims[0] = n_times;
       size_t n_solutions = dims[0];
       for (size_t i = 1; i < dims.size(); ++i) {
         dims[i] = first_result.dims[i - 1];
@@ -303,8 +303,7 @@ void SolutionWriter::WriteConstraintResults(
           common::stringtools::tokenize(first_result.axes, ",");
 
       std::vector<schaapcommon::h5parm::AxisInfo> axes;
-      axes.push_back(
-          {"time", static_cast<unsigned>(constraint_solutions.size())});
+      axes.push_back({"time", static_cast<unsigned>(n_times)});
       for (size_t axis_index = 0; axis_index < first_axes_names.size();
            ++axis_index) {
         axes.push_back({first_axes_names[axis_index],
@@ -335,8 +334,7 @@ void SolutionWriter::WriteConstraintResults(
       if (!constraint_solutions.front()[constraint_index][name_index]
                .weights.empty()) {
         weights.reserve(n_solutions);
-        for (unsigned int time = 0; time < constraint_solutions.size();
-             ++time) {
+        for (size_t time = 0; time < n_times; ++time) {
           const std::vector<double>& cs_weights =
               constraint_solutions[time][constraint_index][name_index].weights;
           weights.insert(weights.end(), cs_weights.begin(), cs_weights.end());
-- 
2.43.0


From 2a84210c11d4f0de402afa929ddba775c4810f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:52 +0000
Subject: [PATCH 81/89] fix: DDECal: write the solutions of a last interval of
 one slot

---
 steps/DDECal.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index fc842fe..01feedd 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -992,9 +992,13 @@ void DDECal::WriteSolutions() {
                               "step " + settings_.name + " in parset: \n" +
                               settings_.parset_string;
 
+  // The last time is the centroid of the last time slot.
+  const double end_time =
+      getInfoOut().lastTime() + 0.5 * getInfoOut().timeInterval();
+
   solution_writer_->Write(
-      solutions_, constraint_solutions_, getInfoOut().startTime(),
-      getInfoOut().lastTime(), getInfoOut().timeInterval(),
+      solutions_, constraint_solutions_, getInfoOut().startTime(), end_time,
+      getInfoOut().timeInterval(),
       requested_solution_interval_, settings_.sub_solutions_per_direction,
       settings_.mode, getInfoOut().GetUsedAntennaNames(), source_directions_,
       patches_per_direction_, getInfoOut().chanFreqs(),
-- 
2.43.0


From e157ea466bf1e78a38444d290c2d5ead85601cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:52 +0000
Subject: [PATCH 82/89] fix: InitialSolutions: convert the polarizations

---
 ddecal/InitialSolutions.cc | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/ddecal/InitialSolutions.cc b/ddecal/InitialSolutions.cc
index 887fa96..2f49c8f 100644
--- a/ddecal/InitialSolutions.cc
+++ b/ddecal/InitialSolutions.cc
@@ -124,11 +124,12 @@ void InitialSolutions::Read(
   const size_t n_frequencies = frequencies.size();
   const size_t n_antennas = antenna_names.size();
 
-  const std::array<size_t, 4> xt_shape = {
-      n_directions_, n_frequencies, n_antennas,
-      n_polarization_parameters_per_solution_};
-  xt::xtensor<std::complex<float>, 4> jones_parameters_per_direction(xt_shape);
+  xt::xtensor<std::complex<float>, 4> jones_parameters_per_direction;
   if (initial_solutions_are_full_jones_) {
+    const size_t kNPolarizationsInFullJones = 4;
+    jones_parameters_per_direction.resize({n_directions_, n_frequencies,
+                                           n_antennas,
+                                           kNPolarizationsInFullJones});
     for (size_t direction_index = 0; direction_index < n_directions_;
          ++direction_index) {
       xt::view(jones_parameters_per_direction, direction_index, xt::all(),
@@ -164,6 +165,25 @@ void InitialSolutions::Read(
     jones_parameters_per_direction = xt::prod(jones_parameters_per_soltab, {0});
   }
 
+  // The H5Parm contains the full Jones matrices or only their diagonals,
+  // independently of the polarizations that the solver needs. This function
+  // selects the right matrix element for a polarization of the solver.
+  auto get_matrix_element =
+      [&](const xt::xtensor<std::complex<float>, 3>& jones_parameters,
+          size_t channel_block, size_t antenna_index,
+          size_t polarization_index) -> std::complex<float> {
+    const size_t element = n_polarization_parameters_per_solution_ == 2
+                               ? polarization_index * 3
+                               : polarization_index;
+    if (initial_solutions_are_full_jones_) {
+      return jones_parameters(channel_block, antenna_index, element);
+    }
+    const bool is_diagonal_element = element % 3 == 0;
+    return is_diagonal_element
+               ? jones_parameters(channel_block, antenna_index, element / 3)
+               : 0.0f;
+  };
+
   for (size_t channel_block = 0; channel_block < n_frequencies;
        ++channel_block) {
     solutions_data[channel_block].resize(n_values_per_channel_block);
@@ -191,8 +211,9 @@ void InitialSolutions::Read(
                 direction_dependent_solution_index *
                     n_polarization_parameters_per_solution_ +
                 polarization_index;
-            solutions_data[channel_block][flattened_index] = jones_parameters(
-                channel_block, antenna_index, polarization_index);
+            solutions_data[channel_block][flattened_index] =
+                get_matrix_element(jones_parameters, channel_block,
+                                   antenna_index, polarization_index);
           }
         }
         n_assigned_subsolutions += n_subsolutions_per_direction;
-- 
2.43.0


From bafd194499a2dce196bd6c2f09c06a6c1c699e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:42 +0000
Subject: [PATCH 83/89] fix: BdaDdeCal: create the solver for the used antennas

The solver and its constraints work with the used antennas only. The names
of the antennas, which the antenna constraints need, should match those.
---
 steps/BdaDdeCal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/BdaDdeCal.cc b/steps/BdaDdeCal.cc
index 037a615..906604e 100644
--- a/steps/BdaDdeCal.cc
+++ b/steps/BdaDdeCal.cc
@@ -195,7 +195,7 @@ void BdaDdeCal::updateInfo(const DPInfo& _info) {
   SetSourceDirections();
 
   if (!settings_.only_predict) {
-    solver_ = ddecal::CreateSolver(settings_, _info.antennaNames());
+    solver_ = ddecal::CreateSolver(settings_, getInfoOut().GetUsedAntennaNames());
     solution_writer_ =
         std::make_unique<ddecal::SolutionWriter>(settings_.h5parm_name);
   }
-- 
2.43.0


From 9fa3a838a1a06659755fa899d78c810f36ccafc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:42 +0000
Subject: [PATCH 84/89] fix: BdaDdeCal: write the solutions of all time slots

The end time passed to the solution writer was half an interval too small and
the solution interval was zero if it should cover all time slots.
---
 steps/BdaDdeCal.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/steps/BdaDdeCal.cc b/steps/BdaDdeCal.cc
index 906604e..412f969 100644
--- a/steps/BdaDdeCal.cc
+++ b/steps/BdaDdeCal.cc
@@ -842,10 +842,18 @@ void BdaDdeCal::WriteSolutions() {
                               "step " + settings_.name + " in parset: \n" +
                               settings_.parset_string;
 
+  // The writer expects the times of the first and last time slot edges and the
+  // number of slots in a solution interval, which is zero in the settings when
+  // there is one solution interval for all slots.
+  const double end_time =
+      getInfoOut().lastTime() + 0.5 * getInfoOut().timeInterval();
+  const size_t solution_interval = settings_.solution_interval > 0
+                                       ? settings_.solution_interval
+                                       : getInfoOut().ntime();
   solution_writer_->Write(
-      solutions_, constraint_solutions_, getInfoOut().startTime(),
-      getInfoOut().lastTime(), getInfoOut().timeInterval(),
-      settings_.solution_interval, settings_.sub_solutions_per_direction,
+      solutions_, constraint_solutions_, getInfoOut().startTime(), end_time,
+      getInfoOut().timeInterval(), solution_interval,
+      settings_.sub_solutions_per_direction,
       settings_.mode, used_antenna_names, source_directions_,
       patches_per_direction_, getInfoOut().chanFreqs(),
       GetChannelBlockFrequencies(), history);
-- 
2.43.0


From e0901f182beb5ba61ace125755ba952dc9de569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:42 +0000
Subject: [PATCH 85/89] fix: BdaDdeCal: use zero weights for antennas without
 rows

An interval without rows for an antenna made the constraint weights of that
antenna NaN.
---
 steps/BdaDdeCal.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/steps/BdaDdeCal.cc b/steps/BdaDdeCal.cc
index 412f969..3a656ba 100644
--- a/steps/BdaDdeCal.cc
+++ b/steps/BdaDdeCal.cc
@@ -628,9 +628,12 @@ void BdaDdeCal::SolveCurrentInterval() {
   // Normalize the weights to the number of intervals contained in current
   // solution interval, per antenna
   for (size_t k = 0; k < antenna1_interval_count.size(); ++k) {
+    const double interval_count =
+        antenna1_interval_count[k] + antenna2_interval_count[k];
+    // Without rows, the weights of the antenna remain zero.
+    if (interval_count == 0.0) continue;
     for (size_t i = 0; i < n_channel_blocks; ++i) {
-      weights_per_antenna[k * n_channel_blocks + i] /=
-          (antenna1_interval_count[k] + antenna2_interval_count[k]);
+      weights_per_antenna[k * n_channel_blocks + i] /= interval_count;
     }
   }
 
-- 
2.43.0


From e22da79af7c6285a35396f4025236aa5784c66ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:42 +0000
Subject: [PATCH 86/89] fix: BdaDdeCal: refuse model correction with
 sub-solutions

Correcting the model data used the solutions of other directions if directions
have several solutions per interval. DDECal refuses that, too.
---
 steps/BdaDdeCal.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/steps/BdaDdeCal.cc b/steps/BdaDdeCal.cc
index 3a656ba..58fad50 100644
--- a/steps/BdaDdeCal.cc
+++ b/steps/BdaDdeCal.cc
@@ -202,6 +202,15 @@ void BdaDdeCal::updateInfo(const DPInfo& _info) {
 
   settings_.PrepareSubSolutionsPerDirection(direction_names_.size());
 
+  if (!settings_.only_predict &&
+      (settings_.subtract || settings_.keep_model_data) &&
+      settings_.GetNSolutions() !=
+          settings_.sub_solutions_per_direction.size()) {
+    throw std::runtime_error(
+        "Model correction is not implemented for BdaDdeCal with direction "
+        "dependent solution intervals");
+  }
+
   // Convert antenna positions from Casacore to STL, if necessary.
   std::vector<std::array<double, 3>> antenna_pos;
   if (!settings_.only_predict || solution_writer_) {
-- 
2.43.0


From 81cd2fa96a7843a1d6ce3f7aaa52f7cf5e7ee729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:18 +0000
Subject: [PATCH 87/89] fix: BdaDdeCal: use the channel blocks of the solver
 for the weights

If the channels of a baseline were not a multiple of the number of channel
blocks, the weight of a channel could be added to another channel block than
the one in which its visibilities are used.
---
 steps/BdaDdeCal.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steps/BdaDdeCal.cc b/steps/BdaDdeCal.cc
index 58fad50..2a1622f 100644
--- a/steps/BdaDdeCal.cc
+++ b/steps/BdaDdeCal.cc
@@ -966,8 +966,8 @@ size_t BdaDdeCal::GetChanBlockIndex(const size_t channel,
     throw std::runtime_error(msg.str());
   }
 
-  return std::floor(static_cast<double>(channel) / n_channels *
-                    n_channel_blocks);
+  // SolveData starts block b at channel floor(b * n_channels / n_channel_blocks)
+  return ((channel + 1) * n_channel_blocks - 1) / n_channels;
 }
 
 }  // namespace dp3::steps
-- 
2.43.0


From 70db03f086d1911d61ff0186c1bb2f22b0530e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:28 +0000
Subject: [PATCH 88/89] fix: no NaN percentages of flags per station when no
 time slots were seen

---
 base/FlagCounter.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/FlagCounter.cc b/base/FlagCounter.cc
index fff44de..68a2763 100644
--- a/base/FlagCounter.cc
+++ b/base/FlagCounter.cc
@@ -20,6 +20,7 @@
 #include "common/ParameterSet.h"
 #include "common/StreamUtil.h"
 
+#include <algorithm>
 #include <cassert>
 #include <vector>
 #include <map>
@@ -101,7 +102,9 @@ void FlagCounter::showStation(std::ostream& os, int64_t ntimes) const {
   const std::vector<int>& ant2 = info_->getAnt2();
   const std::vector<std::string>& antNames = info_->antennaNames();
 
-  const int64_t nPoints = ntimes * channel_counts_.size();
+  // Prevent division by zero
+  const int64_t nPoints =
+      std::max<int64_t>(ntimes * channel_counts_.size(), 1);
   const size_t nrAnt = antNames.size();
 
   // Collect counts per antenna.
@@ -146,7 +149,9 @@ void FlagCounter::showBaseline(std::ostream& os, int64_t ntimes) const {
   const std::vector<std::string>& antNames = info_->antennaNames();
   // Keep track of fully flagged baselines.
   std::vector<std::pair<int, int>> fullyFlagged;
-  int64_t nPoints = ntimes * channel_counts_.size();
+  // Prevent division by zero
+  const int64_t nPoints =
+      std::max<int64_t>(ntimes * channel_counts_.size(), 1);
   os << std::endl
      << "Percentage of visibilities flagged per baseline"
         " (antenna pair):";
-- 
2.43.0


From c8fad2defc8ef6ea60b2bbc176d3639fa8ff9bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:28 +0000
Subject: [PATCH 89/89] fix: notes on heavily flagged stations and channels
 show no duration

---
 base/FlagCounter.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/base/FlagCounter.cc b/base/FlagCounter.cc
index 68a2763..c09bc4d 100644
--- a/base/FlagCounter.cc
+++ b/base/FlagCounter.cc
@@ -59,6 +59,11 @@ static std::string MakeSaveFilename(std::string path,
   return path + '/' + name + '_' + suffix + ".flag";
 }
 
+static void WritePercentage(std::ostream& os, double value, double total) {
+  const int perc = (total == 0 ? 0 : int(1000.0 * value / total + 0.5));
+  os << std::setw(3) << perc / 10 << '.' << perc % 10 << '%';
+}
+
 FlagCounter::FlagCounter(const common::ParameterSet& parset,
                          const std::string& prefix)
     : warning_percentage_(parset.getDouble(prefix + "warnperc", 0)),
@@ -253,7 +258,7 @@ void FlagCounter::showBaseline(std::ostream& os, int64_t ntimes) const {
         double perc = (100.0 * countAnt[i]) / (nUsedAnt[i] * nPoints);
         if (perc >= warning_percentage_) {
           os << "** NOTE: ";
-          showPerc1(os, perc, 100);
+          WritePercentage(os, perc, 100);
           os << " of data are flagged for station " << i << " (" << antNames[i]
              << ')' << std::endl;
         }
@@ -315,7 +320,7 @@ void FlagCounter::showChannel(std::ostream& os, int64_t ntimes) const {
       double perc = (100.0 * channel_counts_[i]) / nPoints;
       if (perc >= warning_percentage_) {
         os << "** NOTE: ";
-        showPerc1(os, perc, 100);
+        WritePercentage(os, perc, 100);
         os << " of data are flagged for channel " << i << std::endl;
       }
     }
@@ -354,8 +359,8 @@ static void WriteDuration(ostream& os, double duration) {
 }
 
 void FlagCounter::showPerc1(ostream& os, double value, double total) {
-  int perc = (total == 0 ? 0 : int(1000.0 * value / total + 0.5));
-  os << std::setw(3) << perc / 10 << '.' << perc % 10 << "% (";
+  WritePercentage(os, value, total);
+  os << " (";
   WriteDuration(os, value);
   os << ')';
 }
-- 
2.43.0

