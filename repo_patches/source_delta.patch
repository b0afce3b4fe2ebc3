From 6f166953f2d947bc1385476ed8ee90d736908dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 01/42] fix: integrate the bounce and measure the path length
 in double precision

RK5_step took the radius and the step size as float and the path length was
stored as float, so the profile lost half of its digits.
---
 include/BSMPT/bounce_solution/action_calculation.h | 4 ++--
 include/BSMPT/utility/const_velocity_spline.h      | 4 ++--
 src/bounce_solution/action_calculation.cpp         | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/BSMPT/bounce_solution/action_calculation.h b/include/BSMPT/bounce_solution/action_calculation.h
index 3972f94..0d273ee 100644
--- a/include/BSMPT/bounce_solution/action_calculation.h
+++ b/include/BSMPT/bounce_solution/action_calculation.h
@@ -429,8 +429,8 @@ public:
   void RK5_step(const std::vector<double> &y,
                 const std::vector<double> &dydx,
                 int n,
-                float rho,
-                float h,
+                double rho,
+                double h,
                 std::vector<double> &yout,
                 std::vector<double> &yerr);
 
diff --git a/include/BSMPT/utility/const_velocity_spline.h b/include/BSMPT/utility/const_velocity_spline.h
index 2f4429f..6008058 100644
--- a/include/BSMPT/utility/const_velocity_spline.h
+++ b/include/BSMPT/utility/const_velocity_spline.h
@@ -92,12 +92,12 @@ public:
    * @brief Linear length of the (spline) path
    *
    */
-  float linL;
+  double linL;
   /**
    * @brief True length of the (spline) path
    *
    */
-  float L;
+  double L;
   /**
    * @brief We need a parameter, so I used the linear lengths (not the path
    * spline length) as parameter, this is not optimal as the velocity will not
diff --git a/src/bounce_solution/action_calculation.cpp b/src/bounce_solution/action_calculation.cpp
index b1fd1eb..42048ba 100644
--- a/src/bounce_solution/action_calculation.cpp
+++ b/src/bounce_solution/action_calculation.cpp
@@ -172,8 +172,8 @@ void BounceActionInt::AuxFunctionDev(const double &rho,
 void BounceActionInt::RK5_step(const std::vector<double> &y,
                                const std::vector<double> &dydx,
                                int n,
-                               float rho,
-                               float h,
+                               double rho,
+                               double h,
                                std::vector<double> &yout,
                                std::vector<double> &yerr)
 {
-- 
2.43.0


From 1dcfe76c817e1ec6492e2de96a1b895e6852684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 02/42] fix: use the exponent 11/3 in the turbulence spectrum

11 / 3 was an integer division, so the spectrum fell off with the third power.
---
 src/gravitational_waves/gw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gravitational_waves/gw.cpp b/src/gravitational_waves/gw.cpp
index 506ae1e..fdae82f 100644
--- a/src/gravitational_waves/gw.cpp
+++ b/src/gravitational_waves/gw.cpp
@@ -138,7 +138,7 @@ double GravitationalWave::CalcGWAmplitude(double f, bool swON, bool turbON)
 
     res += this->data.h2OmegaPeakTurbulence *
            std::pow(f / this->data.fPeakTurbulence, 3) /
-           std::pow(1 + f / this->data.fPeakTurbulence, 11 / 3) /
+           std::pow(1 + f / this->data.fPeakTurbulence, 11. / 3) /
            (1 + 8 * M_PI * f / this->data.Hstar);
   }
 
-- 
2.43.0


From 9e9234ed5b53c162781c2032e5cae397bd5fc583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 03/42] fix: half-integer powers in the derivative of the
 high-mass expansion

(1 - l) / 2 was an integer division, so every other term of the derivative had
the wrong power of x.
---
 src/ThermalFunctions/ThermalFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermalFunctions/ThermalFunctions.cpp b/src/ThermalFunctions/ThermalFunctions.cpp
index 2f67693..c957bfc 100644
--- a/src/ThermalFunctions/ThermalFunctions.cpp
+++ b/src/ThermalFunctions/ThermalFunctions.cpp
@@ -297,7 +297,7 @@ double JInterpolatedHigh(const double &x, const int &n, int diff)
     {
       double Kl =
           JInterpolatedHighCoefficientCalculator.GetCoefficentAtOrder(l);
-      sum += Kl * pow(x, (1 - l) / 2) * (2 * l + 2 * sqrt(x) - 3);
+      sum += Kl * pow(x, (1 - l) / 2.0) * (2 * l + 2 * sqrt(x) - 3);
     }
     res = exp(-sqrt(x)) * sqrt(2 * M_PI) / (8 * pow(x, 3.0 / 4.0)) * sum;
   }
-- 
2.43.0


From 53061f0281f0085c1881631a53d04b40866d4c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 04/42] fix: keep the eigenvalue threshold of the second
 derivatives real

The threshold 1e-6 was stored in an integer and thus became zero.
---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 271e7d0..03f8f21 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -894,7 +894,7 @@ Class_Potential_Origin::SecondDerivativeOfEigenvaluesNonRepeated(
   const std::size_t nRows = M.rows();
   const std::size_t nCols = M.cols();
 
-  const std::size_t EVThres = std::pow(10, -6);
+  const double EVThres = std::pow(10, -6);
 
   if (nCols != nRows)
   {
-- 
2.43.0


From 6c7f024cc3f9c3a066fbb8677f5933445a882839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 05/42] fix: read the grid limits of PotPlotter as real numbers

--lowN and --highN were parsed as integers and lost their fractional part.
---
 src/prog/PotPlotter.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/prog/PotPlotter.cpp b/src/prog/PotPlotter.cpp
index ec4d8da..4519a14 100644
--- a/src/prog/PotPlotter.cpp
+++ b/src/prog/PotPlotter.cpp
@@ -502,7 +502,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
 
   try
   {
-    low1 = argparser.get_value<int>("low1");
+    low1 = argparser.get_value<double>("low1");
   }
   catch (BSMPT::parserException &)
   {
@@ -510,7 +510,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    low2 = argparser.get_value<int>("low2");
+    low2 = argparser.get_value<double>("low2");
   }
   catch (BSMPT::parserException &)
   {
@@ -518,7 +518,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    low3 = argparser.get_value<int>("low3");
+    low3 = argparser.get_value<double>("low3");
   }
   catch (BSMPT::parserException &)
   {
@@ -526,7 +526,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    low4 = argparser.get_value<int>("low4");
+    low4 = argparser.get_value<double>("low4");
   }
   catch (BSMPT::parserException &)
   {
@@ -534,7 +534,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    low5 = argparser.get_value<int>("low5");
+    low5 = argparser.get_value<double>("low5");
   }
   catch (BSMPT::parserException &)
   {
@@ -542,7 +542,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    low6 = argparser.get_value<int>("low6");
+    low6 = argparser.get_value<double>("low6");
   }
   catch (BSMPT::parserException &)
   {
@@ -551,7 +551,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
 
   try
   {
-    high1 = argparser.get_value<int>("high1");
+    high1 = argparser.get_value<double>("high1");
   }
   catch (BSMPT::parserException &)
   {
@@ -559,7 +559,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    high2 = argparser.get_value<int>("high2");
+    high2 = argparser.get_value<double>("high2");
   }
   catch (BSMPT::parserException &)
   {
@@ -567,7 +567,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    high3 = argparser.get_value<int>("high3");
+    high3 = argparser.get_value<double>("high3");
   }
   catch (BSMPT::parserException &)
   {
@@ -575,7 +575,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    high4 = argparser.get_value<int>("high4");
+    high4 = argparser.get_value<double>("high4");
   }
   catch (BSMPT::parserException &)
   {
@@ -583,7 +583,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    high5 = argparser.get_value<int>("high5");
+    high5 = argparser.get_value<double>("high5");
   }
   catch (BSMPT::parserException &)
   {
@@ -591,7 +591,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    high6 = argparser.get_value<int>("high6");
+    high6 = argparser.get_value<double>("high6");
   }
   catch (BSMPT::parserException &)
   {
-- 
2.43.0


From e7274a9fb176a20437a716b918df7e2f041b79e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:14 +0000
Subject: [PATCH 06/42] fix: take the starting points of the GSL threads only
 under the lock

---
 src/minimizer/MinimizeGSL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/minimizer/MinimizeGSL.cpp b/src/minimizer/MinimizeGSL.cpp
index 333de73..5cc05f5 100644
--- a/src/minimizer/MinimizeGSL.cpp
+++ b/src/minimizer/MinimizeGSL.cpp
@@ -202,7 +202,7 @@ GSL_Minimize_gen_all(const Class_Potential_Origin &model,
                        std::queue<std::vector<double>> &mResults,
                        bool UseLock = true)
   {
-    while (mFoundSolutions < mMaxSol and not mStartingPoints.empty())
+    while (mFoundSolutions < mMaxSol)
     {
       std::vector<double> start;
       {
@@ -211,6 +211,7 @@ GSL_Minimize_gen_all(const Class_Potential_Origin &model,
         {
           lock = std::unique_lock<std::mutex>(mWriteResultLock);
         }
+        if (mStartingPoints.empty()) break;
         start = mStartingPoints.front();
         mStartingPoints.pop();
       }
-- 
2.43.0


From e846d5aa14ebeaf3edd99e280c5a34a5ee87107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:14 +0000
Subject: [PATCH 07/42] fix: GSL thread keeps its own copy of MaxSol

---
 src/minimizer/Minimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimizer/Minimizer.cpp b/src/minimizer/Minimizer.cpp
index 09989da..c1aec41 100644
--- a/src/minimizer/Minimizer.cpp
+++ b/src/minimizer/Minimizer.cpp
@@ -140,7 +140,7 @@ Minimize_gen_all(const std::shared_ptr<Class_Potential_Origin> &modelPointer,
       if (UseMultithreading)
       {
         thread_GSL = std::thread(
-            [&solGSLMin, &gslMinSuc, &modelPointer, &Temp, &MaxSol]()
+            [&solGSLMin, &gslMinSuc, &modelPointer, &Temp, MaxSol]()
             {
               std::tie(solGSLMin, gslMinSuc) =
                   GSL_Minimize_gen_all(*modelPointer, Temp, 5, MaxSol);
-- 
2.43.0


From 4387547b0b12a300478c16c9967edd24ef43c29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:21 +0000
Subject: [PATCH 08/42] fix: serialise access of the worker threads to the
 logger

---
 include/BSMPT/utility/Logger.h |  6 +++++-
 src/utility/Logger.cpp         | 12 ++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/BSMPT/utility/Logger.h b/include/BSMPT/utility/Logger.h
index cdb4cfc..5c2dfbb 100644
--- a/include/BSMPT/utility/Logger.h
+++ b/include/BSMPT/utility/Logger.h
@@ -9,6 +9,7 @@
 #include <fstream>
 #include <iostream>
 #include <map>
+#include <mutex>
 #include <vector>
 
 /**
@@ -67,6 +68,7 @@ private:
   void
   Write(LoggingLevel level, const T &toWrite, const std::string &file, int line)
   {
+    std::lock_guard<std::mutex> lock(mMutex);
     auto pos = mCurrentSetup.find(level);
     if (pos != mCurrentSetup.end() and pos->second)
     {
@@ -83,8 +85,10 @@ private:
   }
   void SetLevel(const std::map<LoggingLevel, bool> &level);
   void SetLevel(LoggingLevel level, bool enable);
+  bool GetLevelStatus(LoggingLevel level);
   void Disable();
 
+  std::mutex mMutex; // the logger is shared by all worker threads
   std::ostream mOstream;
   std::ofstream mfilestream;
 
@@ -136,7 +140,7 @@ public:
 
   static bool GetLoggingLevelStatus(LoggingLevel level)
   {
-    return Instance().mCurrentSetup[level];
+    return Instance().GetLevelStatus(level);
   }
 
   static void Disable() { Instance().Disable(); }
diff --git a/src/utility/Logger.cpp b/src/utility/Logger.cpp
index 061282d..91468d2 100644
--- a/src/utility/Logger.cpp
+++ b/src/utility/Logger.cpp
@@ -117,12 +117,14 @@ void SetLogger(const std::vector<std::string> &args)
 
 void BSMPTLogger::SetOStream(std::ostream &Ostream)
 {
+  std::lock_guard<std::mutex> lock(mMutex);
   mfilestream.close();
   mOstream.rdbuf(Ostream.rdbuf());
 }
 
 void BSMPTLogger::SetLevel(const std::map<LoggingLevel, bool> &Setup)
 {
+  std::lock_guard<std::mutex> lock(mMutex);
   for (const auto &el : Setup)
   {
     auto pos = mCurrentSetup.find(el.first);
@@ -139,17 +141,27 @@ void BSMPTLogger::SetLevel(const std::map<LoggingLevel, bool> &Setup)
 
 void BSMPTLogger::SetLevel(LoggingLevel level, bool enable)
 {
+  std::lock_guard<std::mutex> lock(mMutex);
   mCurrentSetup[level] = enable;
 }
 
+bool BSMPTLogger::GetLevelStatus(LoggingLevel level)
+{
+  std::lock_guard<std::mutex> lock(mMutex);
+  auto pos = mCurrentSetup.find(level);
+  return pos != mCurrentSetup.end() and pos->second;
+}
+
 void BSMPTLogger::SetOStream(const std::string &file)
 {
+  std::lock_guard<std::mutex> lock(mMutex);
   mfilestream = std::ofstream(file);
   mOstream.rdbuf(mfilestream.rdbuf());
 }
 
 void BSMPTLogger::Disable()
 {
+  std::lock_guard<std::mutex> lock(mMutex);
   std::cout << "Disable logger" << std::endl;
   mCurrentSetup.clear();
 }
-- 
2.43.0


From 32bcaf61aa7b49ea57174a8d6ac36d9d80dde80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:21 +0000
Subject: [PATCH 09/42] fix: do not dereference the end iterator for arguments
 that are no logging option

---
 src/utility/Logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/Logger.cpp b/src/utility/Logger.cpp
index 91468d2..ad4e55e 100644
--- a/src/utility/Logger.cpp
+++ b/src/utility/Logger.cpp
@@ -105,7 +105,8 @@ void SetLogger(const std::vector<std::string> &args)
       Logger::SetLevel(pos->second, el.substr(pos->first.size()) == "true");
     }
     // Catch logginglevel::complete
-    if ((pos->second == LoggingLevel::Complete) and
+    if (pos != LoggingPrefixes.end() and
+        (pos->second == LoggingLevel::Complete) and
         (el.substr(pos->first.size()) == "true"))
     {
       for (const auto &[prefix, enumValue] : LoggingPrefixes)
-- 
2.43.0


From 7b37da047969236691e2cafb435aeaa92ef4e9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:23 +0000
Subject: [PATCH 10/42] fix: --terminalOutput takes effect in CalcCT, NLOVEV
 and VEVEVO

---
 src/prog/CalcCT.cpp |  5 +++++
 src/prog/NLOVEV.cpp | 14 ++++++++++++++
 src/prog/VEVEVO.cpp | 15 +++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/src/prog/CalcCT.cpp b/src/prog/CalcCT.cpp
index b93e815..78818af 100644
--- a/src/prog/CalcCT.cpp
+++ b/src/prog/CalcCT.cpp
@@ -91,6 +91,11 @@ try
     if (linecounter >= args.FirstLine and linecounter <= args.LastLine and
         linecounter != 1)
     {
+      if (args.TerminalOutput)
+      {
+        Logger::Write(LoggingLevel::ProgDetailed,
+                      "Currently at line " + std::to_string(linecounter));
+      }
       std::pair<std::vector<double>, std::vector<double>> parameters =
           modelPointer->initModel(linestr);
       outfile << linestr << sep << parameters.second << std::endl;
diff --git a/src/prog/NLOVEV.cpp b/src/prog/NLOVEV.cpp
index 8cd51f7..208a377 100644
--- a/src/prog/NLOVEV.cpp
+++ b/src/prog/NLOVEV.cpp
@@ -40,6 +40,7 @@ struct CLIOptions
   bool UseNLopt{Minimizer::UseNLoptDefault};
   int WhichMinimizer{Minimizer::WhichMinimizerDefault};
   bool UseMultithreading{true};
+  bool TerminalOutput{false};
 
   CLIOptions(const BSMPT::parser &argparser);
   bool good() const;
@@ -101,6 +102,11 @@ try
     if (linecounter >= args.FirstLine and linecounter <= args.LastLine and
         linecounter != 1)
     {
+      if (args.TerminalOutput)
+      {
+        Logger::Write(LoggingLevel::ProgDetailed,
+                      "Currently at line " + std::to_string(linecounter));
+      }
       std::pair<std::vector<double>, std::vector<double>> parameters =
           modelPointer->initModel(linestr);
 
@@ -202,6 +208,14 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   FirstLine  = argparser.get_value<int>("firstLine");
   LastLine   = argparser.get_value<int>("lastLine");
 
+  try
+  {
+    TerminalOutput = (argparser.get_value("terminalOutput") == "y");
+  }
+  catch (BSMPT::parserException &)
+  {
+    TerminalOutput = false;
+  }
   try
   {
     UseGSL = argparser.get_value<bool>("useGSL");
diff --git a/src/prog/VEVEVO.cpp b/src/prog/VEVEVO.cpp
index 2903286..7242ff1 100644
--- a/src/prog/VEVEVO.cpp
+++ b/src/prog/VEVEVO.cpp
@@ -39,6 +39,7 @@ struct CLIOptions
   bool UseNLopt{Minimizer::UseNLoptDefault};
   int WhichMinimizer{Minimizer::WhichMinimizerDefault};
   bool UseMultithreading{true};
+  bool TerminalOutput{false};
 
   CLIOptions(const BSMPT::parser &argparser);
   bool good() const;
@@ -139,6 +140,12 @@ try
     solPot = modelPointer->MinimizeOrderVEV(sol);
     vev    = modelPointer->EWSBVEV(solPot);
 
+    if (args.TerminalOutput)
+    {
+      Logger::Write(LoggingLevel::ProgDetailed,
+                    "Currently at temperature " + std::to_string(Temp));
+    }
+
     outfile << Temp << sep;
     outfile << vev << sep;
     outfile << sol;
@@ -218,6 +225,14 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   TemperatureEnd   = argparser.get_value<double>("temperatureEnd");
   TemperatureStep  = argparser.get_value<double>("temperatureStep");
 
+  try
+  {
+    TerminalOutput = (argparser.get_value("terminalOutput") == "y");
+  }
+  catch (BSMPT::parserException &)
+  {
+    TerminalOutput = false;
+  }
   try
   {
     UseGSL = argparser.get_value<bool>("useGSL");
-- 
2.43.0


From 0e752465b716b38383914fa1287d0ce836065e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:23 +0000
Subject: [PATCH 11/42] fix: Test hands --useMultithreading on to the
 minimizers

---
 include/BSMPT/models/ClassPotentialOrigin.h | 3 ++-
 include/BSMPT/models/ModelTestfunctions.h   | 3 ++-
 src/models/ClassPotentialOrigin.cpp         | 5 +++--
 src/models/ModelTestfunctions.cpp           | 6 ++++--
 src/prog/Test.cpp                           | 3 ++-
 5 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/BSMPT/models/ClassPotentialOrigin.h b/include/BSMPT/models/ClassPotentialOrigin.h
index 4c791f3..6a93846 100644
--- a/include/BSMPT/models/ClassPotentialOrigin.h
+++ b/include/BSMPT/models/ClassPotentialOrigin.h
@@ -1154,7 +1154,8 @@ public:
    * defined in SMparah.h
    */
   void CheckImplementation(
-      const int &WhichMinimizer = Minimizer::WhichMinimizerDefault) const;
+      const int &WhichMinimizer = Minimizer::WhichMinimizerDefault,
+      bool UseMultithreading    = true) const;
 
   /**
    * Find all possible sign combinations of the vevs under which the potential
diff --git a/include/BSMPT/models/ModelTestfunctions.h b/include/BSMPT/models/ModelTestfunctions.h
index 2efb4fd..ff175ba 100644
--- a/include/BSMPT/models/ModelTestfunctions.h
+++ b/include/BSMPT/models/ModelTestfunctions.h
@@ -32,7 +32,8 @@ TestResults CheckGaugeBosonMasses(const Class_Potential_Origin &point);
 std::pair<TestResults, TestResults>
 CheckFermionicMasses(const Class_Potential_Origin &point);
 TestResults CheckTreeLevelMin(const Class_Potential_Origin &point,
-                              int WhichMinimizer);
+                              int WhichMinimizer,
+                              bool UseMultithreading = true);
 
 TestResults CheckTadpoleRelations(const Class_Potential_Origin &point);
 TestResults CheckNLOMasses(const Class_Potential_Origin &point);
diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 03f8f21..27430f7 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3542,7 +3542,8 @@ bool Class_Potential_Origin::getUseIndexCol()
 }
 
 void Class_Potential_Origin::CheckImplementation(
-    const int &WhichMinimizer) const
+    const int &WhichMinimizer,
+    bool UseMultithreading) const
 {
   using std::pow;
 
@@ -3591,7 +3592,7 @@ void Class_Potential_Origin::CheckImplementation(
 
   TestNames.push_back("Correct EW Minimum");
   TestResults.push_back(ModelTests::TestResultsToString(
-      ModelTests::CheckTreeLevelMin(*this, WhichMinimizer)));
+      ModelTests::CheckTreeLevelMin(*this, WhichMinimizer, UseMultithreading)));
 
   TestNames.push_back("Tadpole relations fullfilled");
   TestResults.push_back(ModelTests::TestResultsToString(
diff --git a/src/models/ModelTestfunctions.cpp b/src/models/ModelTestfunctions.cpp
index ce97591..de78123 100644
--- a/src/models/ModelTestfunctions.cpp
+++ b/src/models/ModelTestfunctions.cpp
@@ -431,7 +431,8 @@ CheckFermionicMasses(const Class_Potential_Origin &point)
 }
 
 TestResults CheckTreeLevelMin(const Class_Potential_Origin &point,
-                              int WhichMinimizer)
+                              int WhichMinimizer,
+                              bool UseMultithreading)
 {
   auto result = TestResults::Pass;
 
@@ -446,7 +447,8 @@ TestResults CheckTreeLevelMin(const Class_Potential_Origin &point,
                                              point.SMConstants,
                                              CheckVector,
                                              start,
-                                             WhichMinimizer);
+                                             WhichMinimizer,
+                                             UseMultithreading);
   std::string prsize_tline1 = "The given VEV configuration at tree-level is : ";
   std::string prsize_tline2 =
       "The calculated VEV configuration at tree-level is : ";
diff --git a/src/prog/Test.cpp b/src/prog/Test.cpp
index 87367e1..a3b156b 100644
--- a/src/prog/Test.cpp
+++ b/src/prog/Test.cpp
@@ -94,7 +94,8 @@ try
       modelPointer->write();
       std::vector<double> dummy;
       modelPointer->Debugging(dummy, dummy);
-      modelPointer->CheckImplementation(args.WhichMinimizer);
+      modelPointer->CheckImplementation(args.WhichMinimizer,
+                                        args.UseMultithreading);
     }
     linecounter++;
     if (infile.eof()) break;
-- 
2.43.0


From 35d072862bd53827f1c04cc2956a929f3bcaa7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:38 +0000
Subject: [PATCH 12/42] fix: --perc_prbl and --compl_prbl reach the percolation
 and completion temperature

---
 include/BSMPT/bounce_solution/bounce_solution.h | 5 +++++
 src/bounce_solution/bounce_solution.cpp         | 4 +++-
 src/transition_tracer/transition_tracer.cpp     | 4 ++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/BSMPT/bounce_solution/bounce_solution.h b/include/BSMPT/bounce_solution/bounce_solution.h
index 96c1813..bdfb38b 100644
--- a/include/BSMPT/bounce_solution/bounce_solution.h
+++ b/include/BSMPT/bounce_solution/bounce_solution.h
@@ -105,6 +105,11 @@ public:
    * @brief percolation temperature
    */
   double Tperc = -1;
+  /**
+   * @brief perc_false_vac_frac false vacuum fraction that defines the
+   * percolation temperature
+   */
+  double perc_false_vac_frac = 0.71;
 
   /**
    * @brief completion temperature
diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index f40d186..37e5841 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -800,6 +800,8 @@ void BounceSolution::CalculatePercolationTemp(const double &false_vac_frac)
 {
   if (status_bounce_sol == StatusGW::Success)
   {
+    perc_false_vac_frac = false_vac_frac;
+
     Tperc = CalcTempAtFalseVacFraction(false_vac_frac);
 
     if (Tperc > 0 and percolation_temp_set == false)
@@ -954,7 +956,7 @@ void BounceSolution::CalculatePTStrength()
     // v_wall = v_wall(alpha, T_*)
     // Should converge quickly, if fails use default value of v_wall = 0.95
     old_alpha = alpha;
-    CalculatePercolationTemp();
+    CalculatePercolationTemp(perc_false_vac_frac);
     Minimum true_min  = phase_pair.true_phase.Get(GetPercolationTemp());
     Minimum false_min = phase_pair.false_phase.Get(GetPercolationTemp());
 
diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index 5041100..733591e 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -204,7 +204,7 @@ TransitionTracer::TransitionTracer(user_input &input)
                     std::vector<double>(num_vev, EmptyValue);
               }
 
-              bounce.CalculatePercolationTemp();
+              bounce.CalculatePercolationTemp(input.perc_prbl);
 
               output_store.status.status_perc.push_back(bounce.status_perc);
               if (bounce.status_perc == BSMPT::StatusTemperature::Success)
@@ -227,7 +227,7 @@ TransitionTracer::TransitionTracer(user_input &input)
                     std::vector<double>(num_vev, EmptyValue);
               }
 
-              bounce.CalculateCompletionTemp();
+              bounce.CalculateCompletionTemp(input.compl_prbl);
 
               output_store.status.status_compl.push_back(bounce.status_compl);
               if (bounce.status_compl == BSMPT::StatusTemperature::Success)
-- 
2.43.0


From 15d3d4f7e190aef9f4ca74118a4a5cfbc0417d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 13/42] fix: raise std::runtime_error for mismatched vector
 sizes

A thrown string literal is not caught by the programs and ends them with
std::terminate.
---
 include/BSMPT/utility/utility.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/BSMPT/utility/utility.h b/include/BSMPT/utility/utility.h
index 8d06ce5..2db4bd0 100644
--- a/include/BSMPT/utility/utility.h
+++ b/include/BSMPT/utility/utility.h
@@ -139,7 +139,8 @@ template <typename T>
 std::vector<T> operator-(const std::vector<T> &a, const std::vector<T> &b)
 {
   if (a.size() != b.size())
-    throw("Vector cannot be subtracted. Must have the same size.");
+    throw std::runtime_error(
+        "Vector cannot be subtracted. Must have the same size.");
 
   std::vector<T> result;
   result.reserve(a.size());
@@ -191,7 +192,7 @@ template <typename T>
 T operator*(const std::vector<T> &a, const std::vector<T> &b)
 {
   if (a.size() != b.size())
-    throw(
+    throw std::runtime_error(
         "Dot product between vectors cannot be done. Must have the same size.");
 
   std::vector<T> result;
@@ -216,8 +217,9 @@ std::vector<T> operator*(const std::vector<std::vector<T>> &a,
                          const std::vector<T> &b)
 {
   if (a.size() != b.size())
-    throw("Multiplication of matrix with vector cannot be done. Must have the "
-          "same size.");
+    throw std::runtime_error(
+        "Multiplication of matrix with vector cannot be done. Must have the "
+        "same size.");
 
   std::vector<T> result;
   result.reserve(a.size());
-- 
2.43.0


From b8747267375a1f7fbf031a1ad8cc759f9f4ec560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:48 +0000
Subject: [PATCH 14/42] fix: CalcGW refuses invalid lines, temperature interval
 and transition temperature

The check of the transition temperature only logged, negative line
numbers and an empty temperature interval were accepted.
---
 src/prog/CalcGW.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/prog/CalcGW.cpp b/src/prog/CalcGW.cpp
index df90892..0592c23 100644
--- a/src/prog/CalcGW.cpp
+++ b/src/prog/CalcGW.cpp
@@ -321,12 +321,18 @@ bool CLIOptions::good() const
     Logger::Write(LoggingLevel::Default, "firstline or lastline not set.");
     return false;
   }
+  if (firstline < 0 or lastline < 0)
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Invalid input for first- or lastline.");
+    return false;
+  }
   if (firstline > lastline)
   {
     Logger::Write(LoggingLevel::Default, "firstline is smaller then lastline.");
     return false;
   }
-  if (templow > temphigh)
+  if (templow >= temphigh)
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid temperature choice. Thigh has to be > 0 GeV.");
@@ -384,6 +390,7 @@ bool CLIOptions::good() const
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid transition temperature given.");
+    return false;
   }
 
   return true;
-- 
2.43.0


From 9790a5ebe31d73d60f37cd36637b6e9427542b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:48 +0000
Subject: [PATCH 15/42] fix: refuse unknown words for --checknlo, --checkewsr
 and --trans_temp

A misspelled word silently selected the default.
---
 src/prog/CalcGW.cpp       | 12 ++++++++++++
 src/prog/CalcTemps.cpp    |  8 ++++++++
 src/prog/MinimaTracer.cpp |  4 ++++
 3 files changed, 24 insertions(+)

diff --git a/src/prog/CalcGW.cpp b/src/prog/CalcGW.cpp
index 0592c23..acef2a2 100644
--- a/src/prog/CalcGW.cpp
+++ b/src/prog/CalcGW.cpp
@@ -535,6 +535,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       WhichTransitionTemperature = 4;
     }
+    else
+    {
+      throw std::runtime_error("Invalid choice for --trans_temp.");
+    }
   }
   catch (BSMPT::parserException &)
   {
@@ -563,6 +567,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckNLOStability = 0;
     }
+    else
+    {
+      throw std::runtime_error("Invalid choice for --checknlo.");
+    }
   }
   catch (BSMPT::parserException &)
   {
@@ -589,6 +597,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckEWSymmetryRestoration = 3;
     }
+    else
+    {
+      throw std::runtime_error("Invalid choice for --checkewsr.");
+    }
   }
   catch (BSMPT::parserException &)
   {
diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index c8c3efa..a921810 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -496,6 +496,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckNLOStability = 0;
     }
+    else
+    {
+      throw std::runtime_error("Invalid choice for --checknlo.");
+    }
   }
   catch (BSMPT::parserException &)
   {
@@ -522,6 +526,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckEWSymmetryRestoration = 3;
     }
+    else
+    {
+      throw std::runtime_error("Invalid choice for --checkewsr.");
+    }
   }
   catch (BSMPT::parserException &)
   {
diff --git a/src/prog/MinimaTracer.cpp b/src/prog/MinimaTracer.cpp
index 3214037..7064658 100644
--- a/src/prog/MinimaTracer.cpp
+++ b/src/prog/MinimaTracer.cpp
@@ -460,6 +460,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckEWSymmetryRestoration = 0;
     }
+    else
+    {
+      throw std::runtime_error("Invalid choice for --checkewsr.");
+    }
   }
   catch (BSMPT::parserException &)
   {
-- 
2.43.0


From d48ffdd46f203aeb99e00921faa332d46b630a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:00 +0000
Subject: [PATCH 16/42] fix: do not compute the header line as a parameter
 point

CalcTemps, CalcGW and MinimaTracer took line 1 for a parameter point when
the first line was requested.
---
 src/prog/CalcGW.cpp       | 3 ++-
 src/prog/CalcTemps.cpp    | 3 ++-
 src/prog/MinimaTracer.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/prog/CalcGW.cpp b/src/prog/CalcGW.cpp
index acef2a2..77ce315 100644
--- a/src/prog/CalcGW.cpp
+++ b/src/prog/CalcGW.cpp
@@ -103,7 +103,8 @@ try
 
     if (linecounter > args.lastline) break;
 
-    if (linecounter >= args.firstline and linecounter <= args.lastline)
+    if (linecounter >= args.firstline and linecounter <= args.lastline and
+        linecounter != 1)
     {
       count += 1; // keep track at which point we are
       output_contents.at(count - 1).precision(
diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index a921810..4289f2a 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -100,7 +100,8 @@ try
 
     if (linecounter > args.lastline) break;
 
-    if (linecounter >= args.firstline and linecounter <= args.lastline)
+    if (linecounter >= args.firstline and linecounter <= args.lastline and
+        linecounter != 1)
     {
       count += 1; // keep track at which point we are
       output_contents.at(count - 1).precision(
diff --git a/src/prog/MinimaTracer.cpp b/src/prog/MinimaTracer.cpp
index 7064658..d90e107 100644
--- a/src/prog/MinimaTracer.cpp
+++ b/src/prog/MinimaTracer.cpp
@@ -91,7 +91,8 @@ try
 
     if (linecounter > args.lastline) break;
 
-    if (linecounter >= args.firstline and linecounter <= args.lastline)
+    if (linecounter >= args.firstline and linecounter <= args.lastline and
+        linecounter != 1)
     {
       Logger::Write(LoggingLevel::ProgDetailed,
                     "Currently at line " + std::to_string(linecounter));
-- 
2.43.0


From f821ea4f43f76a60a7b9899200588d3507aca035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:00 +0000
Subject: [PATCH 17/42] fix: NLOVEV, VEVEVO and PotPlotter compute only lines
 that were read

After the end of the file the previous or an empty line was taken for a
parameter point.
---
 src/prog/NLOVEV.cpp     | 4 +---
 src/prog/PotPlotter.cpp | 4 +---
 src/prog/VEVEVO.cpp     | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/prog/NLOVEV.cpp b/src/prog/NLOVEV.cpp
index 208a377..167da7c 100644
--- a/src/prog/NLOVEV.cpp
+++ b/src/prog/NLOVEV.cpp
@@ -81,10 +81,8 @@ try
   std::shared_ptr<BSMPT::Class_Potential_Origin> modelPointer =
       ModelID::FChoose(args.Model, SMConstants);
   std::vector<double> Check;
-  while (true)
+  while (getline(infile, linestr))
   {
-
-    getline(infile, linestr);
     if (linecounter > args.LastLine) break;
     if (linecounter == 1)
     {
diff --git a/src/prog/PotPlotter.cpp b/src/prog/PotPlotter.cpp
index 4519a14..97b3ae7 100644
--- a/src/prog/PotPlotter.cpp
+++ b/src/prog/PotPlotter.cpp
@@ -89,10 +89,8 @@ try
   int linecounter = 1;
 
   bool found = false;
-  while (true)
+  while (std::getline(infile, linestr))
   {
-    if (infile.eof()) break;
-    std::getline(infile, linestr);
     if (linecounter == 1)
     {
       modelPointer->setUseIndexCol(linestr);
diff --git a/src/prog/VEVEVO.cpp b/src/prog/VEVEVO.cpp
index 7242ff1..6b65da0 100644
--- a/src/prog/VEVEVO.cpp
+++ b/src/prog/VEVEVO.cpp
@@ -82,10 +82,8 @@ try
   int linecounter = 1;
 
   bool found = false;
-  while (true)
+  while (std::getline(infile, linestr))
   {
-    if (infile.eof()) break;
-    std::getline(infile, linestr);
     if (linecounter == 1)
     {
       modelPointer->setUseIndexCol(linestr);
-- 
2.43.0


From 451ea883e1bec0cd6bb5d37125685ea485a19e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:31 +0000
Subject: [PATCH 18/42] fix: give the ends of the global-minimum range a value
 before the phases are traced

---
 src/minimum_tracer/minimum_tracer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index e806ad2..48c1a8f 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -2083,7 +2083,7 @@ void Vacuum::MultiStepPTMode2(const std::vector<double> &LowTempPoint_in,
   auto LowTempPoint  = LowTempPoint_in;
   auto HighTempPoint = HighTempPoint_in;
 
-  double T_low_newglob;
+  double T_low_newglob = T_low;
   Phase LowTempPhase(LowTempPoint, T_low, T_high, T_low_newglob, MinTracer);
   T_high_lowTempPhase = LowTempPhase.T_high;
   Logger::Write(LoggingLevel::MinTracerDetailed,
@@ -2095,7 +2095,7 @@ void Vacuum::MultiStepPTMode2(const std::vector<double> &LowTempPoint_in,
                     std::to_string(T_low_newglob) + "] GeV\n");
   if (LowTempPhase.MinimumPhaseVector.size() > 1) addPhase(LowTempPhase);
 
-  double T_high_newglob;
+  double T_high_newglob = T_high;
   Phase HighTempPhase(HighTempPoint, T_high, T_low, T_high_newglob, MinTracer);
   T_low_highTempPhase = HighTempPhase.T_low;
   Logger::Write(LoggingLevel::MinTracerDetailed,
-- 
2.43.0


From 5501d670180568e9f0b6910a30501cb99ed3c4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:31 +0000
Subject: [PATCH 19/42] fix: give plain members of the bounce, minimum and
 spline classes initial values

---
 include/BSMPT/bounce_solution/action_calculation.h | 10 +++++-----
 include/BSMPT/bounce_solution/bounce_solution.h    |  8 ++++----
 include/BSMPT/minimum_tracer/minimum_tracer.h      | 14 +++++++-------
 include/BSMPT/utility/const_velocity_spline.h      | 10 +++++-----
 include/BSMPT/utility/spline/spline.h              |  2 +-
 5 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/BSMPT/bounce_solution/action_calculation.h b/include/BSMPT/bounce_solution/action_calculation.h
index 0d273ee..e758a16 100644
--- a/include/BSMPT/bounce_solution/action_calculation.h
+++ b/include/BSMPT/bounce_solution/action_calculation.h
@@ -51,26 +51,26 @@ private:
    * @brief Value of d2Vdl^2 near the true vacuum
    *
    */
-  double TrueVacuumHessian;
+  double TrueVacuumHessian = 0;
 
   /**
    * @brief Store the value of backwards propagation
    *
    */
-  double Initial_lmin;
+  double Initial_lmin = 0;
 
   /**
    * @brief Potential at the false vacuum in the unshifted potential (in the
    * shifted Vfalse = 0)
    *
    */
-  double Vfalse;
+  double Vfalse = 0;
 
   /**
    * @brief l0 - Initial_lmin for solutions starting very near the true vacuum
    *
    */
-  double l0_minus_lmin;
+  double l0_minus_lmin = 0;
 
   /**
    * @brief True if path deformation reached the desired results without solving
@@ -194,7 +194,7 @@ public:
    * @brief Number of integration of the bounce
    *
    */
-  int MaxPathIntegrations;
+  int MaxPathIntegrations = 7;
 
   /**
    * @brief Number of path deformations before integrating again
diff --git a/include/BSMPT/bounce_solution/bounce_solution.h b/include/BSMPT/bounce_solution/bounce_solution.h
index bdfb38b..5b914da 100644
--- a/include/BSMPT/bounce_solution/bounce_solution.h
+++ b/include/BSMPT/bounce_solution/bounce_solution.h
@@ -64,7 +64,7 @@ public:
    * @brief number of temperature steps in the initial scan of the bounce solver
    *
    */
-  size_t NumberOfInitialScanTemperatures;
+  size_t NumberOfInitialScanTemperatures = 25;
 
   /**
    * @brief set to true if nucleation temperature is set
@@ -119,7 +119,7 @@ public:
   /**
    * @brief stored temperature
    */
-  double store_Temp;
+  double store_Temp = 0;
 
   /**
    * @brief PT strength
@@ -135,13 +135,13 @@ public:
   /**
    * @brief number of effective degrees of freedom
    */
-  double gstar;
+  double gstar = 0;
 
   /**
    * @brief index of the true vacuum phase candidate in the coex list
    *
    */
-  int indexTrueCandidatePhase;
+  int indexTrueCandidatePhase = 0;
 
   /**
    * @brief spline used to interpolate the action as a function of the
diff --git a/include/BSMPT/minimum_tracer/minimum_tracer.h b/include/BSMPT/minimum_tracer/minimum_tracer.h
index eafb84c..5045369 100644
--- a/include/BSMPT/minimum_tracer/minimum_tracer.h
+++ b/include/BSMPT/minimum_tracer/minimum_tracer.h
@@ -252,8 +252,8 @@ std::ostream &operator<<(std::ostream &os, const StatusTemperature &status);
 struct Minimum
 {
   std::vector<double> point;
-  double temp;
-  double potential;
+  double temp      = 0;
+  double potential = 0;
   bool is_glob_min = false;
   int EdgeOfPhase  = 0;
 
@@ -263,8 +263,8 @@ struct Minimum
 class MinimumTracer
 {
 private:
-  int WhichMinimizer;
-  bool UseMultithreading;
+  int WhichMinimizer     = Minimizer::WhichMinimizerDefault;
+  bool UseMultithreading = true;
 
 protected:
   /**
@@ -733,9 +733,9 @@ struct Phase
  */
 struct CoexPhases
 {
-  int coex_pair_id;
-  double T_high;
-  double T_low;
+  int coex_pair_id = -1;
+  double T_high    = 0;
+  double T_low     = 0;
   Phase false_phase;
   Phase true_phase;
   double crit_temp       = -1;
diff --git a/include/BSMPT/utility/const_velocity_spline.h b/include/BSMPT/utility/const_velocity_spline.h
index 6008058..0b431a4 100644
--- a/include/BSMPT/utility/const_velocity_spline.h
+++ b/include/BSMPT/utility/const_velocity_spline.h
@@ -67,17 +67,17 @@ public:
    * @brief Dimension of the VEV space
    *
    */
-  int dim;
+  int dim = 0;
   /**
    * @brief Number of points in the path (knots)
    *
    */
-  int num_points;
+  int num_points = 0;
   /**
    * @brief Number of point from x to l (and viceversa)
    *
    */
-  int num_inter;
+  int num_inter = 0;
   /**
    * @brief Spline to convert from linear length to spline length
    *
@@ -92,12 +92,12 @@ public:
    * @brief Linear length of the (spline) path
    *
    */
-  double linL;
+  double linL = 0;
   /**
    * @brief True length of the (spline) path
    *
    */
-  double L;
+  double L = 0;
   /**
    * @brief We need a parameter, so I used the linear lengths (not the path
    * spline length) as parameter, this is not optimal as the velocity will not
diff --git a/include/BSMPT/utility/spline/spline.h b/include/BSMPT/utility/spline/spline.h
index 3062747..fb2415d 100644
--- a/include/BSMPT/utility/spline/spline.h
+++ b/include/BSMPT/utility/spline/spline.h
@@ -61,7 +61,7 @@ protected:
   // f(x) = a_i + b_i*(x-x_i) + c_i*(x-x_i)^2 + d_i*(x-x_i)^3
   // where a_i = y_i, or else it won't go through grid points
   std::vector<double> m_b, m_c, m_d; // spline coefficients
-  double m_c0;                       // for left extrapolation
+  double m_c0 = 0;                   // for left extrapolation
   spline_type m_type;
   bd_type m_left, m_right;
   double m_left_value, m_right_value;
-- 
2.43.0


From 829a032f1774ffef8eda8901733c2f89fcec2492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:13 +0000
Subject: [PATCH 20/42] fix: seed the discrete symmetry search with a constant
 instead of the clock

---
 src/minimum_tracer/minimum_tracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 48c1a8f..bfa6cc0 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -979,7 +979,7 @@ void MinimumTracer::FindDiscreteSymmetries()
   };
 
   // Generate random VEV
-  srand(time(NULL));
+  srand(0); // fixed seed so that results are reproducible
   const long max_rand                                = 1000000L;
   std::function<Eigen::VectorXd()> GenerateRandomVEV = [&]()
   {
-- 
2.43.0


From 90226aaba45490bbb1b4b5e363e6a14a411212c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:33 +0000
Subject: [PATCH 21/42] fix: MinimizePlane compared an unset value when GSL
 found no solution

---
 include/BSMPT/minimizer/MinimizePlane.h | 6 +++---
 src/minimizer/MinimizePlane.cpp         | 7 +++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/BSMPT/minimizer/MinimizePlane.h b/include/BSMPT/minimizer/MinimizePlane.h
index 43f2c30..f7ce599 100644
--- a/include/BSMPT/minimizer/MinimizePlane.h
+++ b/include/BSMPT/minimizer/MinimizePlane.h
@@ -48,11 +48,11 @@ struct GSLPlaneReturn
   /**
    * @brief vc The value of the EW VEV in the minimum
    */
-  double vc;
+  double vc = 0;
   /**
    * @brief PotVal The value of the potential in the minimum
    */
-  double PotVal;
+  double PotVal = 0;
   /**
    * @brief Minimum The electroweak minimum
    */
@@ -60,7 +60,7 @@ struct GSLPlaneReturn
   /**
    * @brief StatusFlag A flag which is false if something went wrong
    */
-  bool StatusFlag;
+  bool StatusFlag = false;
 };
 
 /**
diff --git a/src/minimizer/MinimizePlane.cpp b/src/minimizer/MinimizePlane.cpp
index f0969ce..763711f 100644
--- a/src/minimizer/MinimizePlane.cpp
+++ b/src/minimizer/MinimizePlane.cpp
@@ -168,8 +168,11 @@ MinimizePlane(const std::vector<double> &basepoint,
   {
     // Find the minimum provided by GSL
     auto GSLResult = GSL_Minimize_Plane_gen_all(params, 3, 50);
-    PotValues.push_back(GSLResult.PotVal);
-    Minima.push_back(GSLResult.Minimum);
+    if (GSLResult.StatusFlag)
+    {
+      PotValues.push_back(GSLResult.PotVal);
+      Minima.push_back(GSLResult.Minimum);
+    }
   }
 
 #ifdef libcmaes_FOUND
-- 
2.43.0


From 2c4031f5b9956582d4e48cc8f7c6363a4009837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:16 +0000
Subject: [PATCH 22/42] fix: VEff dropped the loop order for potentials called
 with a VEV-sized vector

---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 27430f7..4842956 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -2973,7 +2973,7 @@ double Class_Potential_Origin::VEff(const std::vector<double> &v,
     Logger::Write(LoggingLevel::Default, ss.str());
     std::vector<double> Transformedv;
     Transformedv = MinimizeOrderVEV(v);
-    return VEff(Transformedv, Temp, diff);
+    return VEff(Transformedv, Temp, diff, Order);
   }
 
   double resOut = 0;
-- 
2.43.0


From 4f23264e2da70da6d0b915af58491e6a219c437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:21 +0000
Subject: [PATCH 23/42] fix: thermal part of field derivatives was missing for
 all but the first field

---
 src/models/ClassPotentialOrigin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 4842956..8ee6001 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -123,7 +123,7 @@ double Class_Potential_Origin::boson(double MassSquared,
     res += std::pow(Temp, 4) / (2 * std::pow(M_PI, 2)) *
            ThermalFunctions::JbosonInterpolated(Ratio);
   }
-  else if (diff == 1)
+  else if (diff > 0)
   {
     res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
            ThermalFunctions::JbosonNumericalIntegration(Ratio, 1);
@@ -151,7 +151,7 @@ Class_Potential_Origin::fermion(double MassSquared, double Temp, int diff) const
     res += std::pow(Temp, 4) / (2 * std::pow(M_PI, 2)) *
            ThermalFunctions::JfermionInterpolated(Ratio);
   }
-  else if (diff == 1)
+  else if (diff > 0)
   {
     res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
            ThermalFunctions::JfermionNumericalIntegration(Ratio, 1);
-- 
2.43.0


From 4743f32c153c81e4e0a22f4bc7c2a72709555071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:37 +0000
Subject: [PATCH 24/42] fix: Higgs mass derivatives were taken at the
 derivative matrix instead of the mass matrix

---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 8ee6001..2e28f07 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -2424,7 +2424,7 @@ Class_Potential_Origin::HiggsMassesSquared(const std::vector<double> &v,
 {
   std::vector<double> res;
 
-  auto MassMatrix = HiggsMassMatrix(v, Temp, diff);
+  auto MassMatrix = HiggsMassMatrix(v, Temp, 0);
 
   double ZeroMass = std::pow(10, -5);
 
-- 
2.43.0


From a664524414a46798cfb517fd68337df2ad5c9626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:19 +0000
Subject: [PATCH 25/42] fix: GSL minimizer was started although switched off
 for models with up to two VEVs

---
 src/minimizer/Minimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimizer/Minimizer.cpp b/src/minimizer/Minimizer.cpp
index c1aec41..c1dd6f2 100644
--- a/src/minimizer/Minimizer.cpp
+++ b/src/minimizer/Minimizer.cpp
@@ -101,7 +101,7 @@ Minimize_gen_all(const std::shared_ptr<Class_Potential_Origin> &modelPointer,
     Minima.push_back(std::vector<double>(modelPointer->get_nVEV(), 0));
   }
 
-  if (modelPointer->get_nVEV() <= 2)
+  if (modelPointer->get_nVEV() <= 2 and UseMinimizer.UseCMAES)
   {
     UseMinimizer.UseCMAES = false;
     UseMinimizer.UseGSL   = true;
-- 
2.43.0


From 6309691e6dbdd8b2f68cb49f06756c0680b240e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:19 +0000
Subject: [PATCH 26/42] fix: CMAES candidate was ignored when running without
 multithreading

---
 src/minimizer/Minimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/minimizer/Minimizer.cpp b/src/minimizer/Minimizer.cpp
index c1dd6f2..066978b 100644
--- a/src/minimizer/Minimizer.cpp
+++ b/src/minimizer/Minimizer.cpp
@@ -215,6 +215,10 @@ Minimize_gen_all(const std::shared_ptr<Class_Potential_Origin> &modelPointer,
   {
     Logger::Write(LoggingLevel::MinimizerDetailed, "Waiting for CMAES Thread");
     thread_CMAES.join();
+  }
+
+  if (UseMinimizer.UseCMAES)
+  {
     auto errC          = LibCMAES.CMAESStatus;
     auto solCMAES      = LibCMAES.result;
     auto solCMAESPotIn = modelPointer->MinimizeOrderVEV(solCMAES);
-- 
2.43.0


From 04f8c3e510aa3e786a37b607ac6f3c9fdd5dea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:33 +0000
Subject: [PATCH 27/42] fix: set_All kept tensors and stored parameters of an
 earlier parameter point

---
 src/models/ClassPotentialOrigin.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 2e28f07..2b96055 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -51,11 +51,15 @@ void Class_Potential_Origin::set_All(const std::vector<double> &par,
                                      const std::vector<double> &parCT)
 {
 
+  resetbools();
   set_gen(par);
   if (!SetCurvatureDone) SetCurvatureArrays();
   set_CT_Pot_Par(parCT);
   CalculateDebye();
   CalculateDebyeGauge();
+
+  parStored   = par;
+  parCTStored = parCT;
 }
 
 void Class_Potential_Origin::Prepare_Triple()
-- 
2.43.0


From 9a04fc48d8153e2433bfa79b9264fb6d0d908e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:33 +0000
Subject: [PATCH 28/42] fix: triple Higgs couplings were not recomputed after
 changing the scale

---
 src/models/ClassPotentialOrigin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 2b96055..09945f5 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3791,8 +3791,9 @@ Class_Potential_Origin::initModel(const std::vector<double> &par)
 
 std::vector<double> Class_Potential_Origin::resetScale(const double &newScale)
 {
-  scale      = newScale;
-  auto parCT = calc_CT();
+  scale                     = newScale;
+  CalculatedTripleCopulings = false;
+  auto parCT                = calc_CT();
   set_CT_Pot_Par(parCT);
 
   parCTStored = parCT;
-- 
2.43.0


From 280e2d19c5aff031b1cf09f075e4c55d80954d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:57 +0000
Subject: [PATCH 29/42] fix: write() used the rotation matrix of an earlier
 point when no couplings were calculated

---
 src/models/ClassPotentialCPintheDark.cpp | 6 ++++++
 src/models/ClassPotentialCxSM.cpp        | 6 ++++++
 src/models/ClassPotentialN2HDM.cpp       | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/models/ClassPotentialCPintheDark.cpp b/src/models/ClassPotentialCPintheDark.cpp
index d13d99b..d986a31 100644
--- a/src/models/ClassPotentialCPintheDark.cpp
+++ b/src/models/ClassPotentialCPintheDark.cpp
@@ -1175,6 +1175,12 @@ void Class_Potential_CPintheDark::write() const
 
   ss << "The scale is given by mu = " << scale << " GeV \n";
 
+  if (!CalcCouplingsdone)
+  {
+    Logger::Write(LoggingLevel::Default, ss.str());
+    return;
+  }
+
   const double ZeroThreshold = 1e-5;
 
   std::size_t posGp  = 0;
diff --git a/src/models/ClassPotentialCxSM.cpp b/src/models/ClassPotentialCxSM.cpp
index c5f5baa..38023c9 100644
--- a/src/models/ClassPotentialCxSM.cpp
+++ b/src/models/ClassPotentialCxSM.cpp
@@ -448,6 +448,12 @@ void Class_CxSM::write() const
 
   ss << "The scale is given by mu = " << scale << " GeV " << std::endl;
 
+  if (!CalcCouplingsdone)
+  {
+    Logger::Write(LoggingLevel::Default, ss.str());
+    return;
+  }
+
   MatrixXd HiggsRot(NHiggs, NHiggs);
   for (std::size_t i = 0; i < NHiggs; i++)
   {
diff --git a/src/models/ClassPotentialN2HDM.cpp b/src/models/ClassPotentialN2HDM.cpp
index 2caed38..8f03b9d 100644
--- a/src/models/ClassPotentialN2HDM.cpp
+++ b/src/models/ClassPotentialN2HDM.cpp
@@ -480,6 +480,12 @@ void Class_Potential_N2HDM::write() const
   ss << "DL8 := " << NDL8 << ";\n";
   ss << "DTS := " << NDTS << ";\n";
 
+  if (!CalcCouplingsdone)
+  {
+    Logger::Write(LoggingLevel::Default, ss.str());
+    return;
+  }
+
   MatrixXd HiggsRot(NHiggs, NHiggs);
   for (std::size_t i = 0; i < NHiggs; i++)
   {
-- 
2.43.0


From ad7a71a3a30ccea4ec66bcac8775d2ef919fd976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:57 +0000
Subject: [PATCH 30/42] fix: N2HDM ordered the Higgs bosons with the SM-like
 mass of an earlier point

---
 src/models/ClassPotentialN2HDM.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/ClassPotentialN2HDM.cpp b/src/models/ClassPotentialN2HDM.cpp
index 8f03b9d..1fd72c5 100644
--- a/src/models/ClassPotentialN2HDM.cpp
+++ b/src/models/ClassPotentialN2HDM.cpp
@@ -853,6 +853,7 @@ void Class_Potential_N2HDM::TripleHiggsCouplings()
   {
     NeutralHiggs[i] = HiggsMasses[posN.at(i)];
   }
+  MSM = 0;
   for (int i = 0; i < 3; i++)
   {
     if (std::sqrt(NeutralHiggs[i]) < 126 and std::sqrt(NeutralHiggs[i]) > 124)
-- 
2.43.0


From 6ae9d944c7860ec326d737b5a424f3c6c51df341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:37 +0000
Subject: [PATCH 31/42] fix: R2HDM write() used the rotation matrix of an
 earlier point when no couplings were calculated

---
 src/models/ClassPotentialR2HDM.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/models/ClassPotentialR2HDM.cpp b/src/models/ClassPotentialR2HDM.cpp
index 12c40c4..37029d1 100644
--- a/src/models/ClassPotentialR2HDM.cpp
+++ b/src/models/ClassPotentialR2HDM.cpp
@@ -558,6 +558,12 @@ void Class_Potential_R2HDM::write() const
   ss << "DT2 := " << DT2 << ";\n";
   ss << "DT3:= " << DT3 << ";" << std::endl;
 
+  if (!CalcCouplingsdone)
+  {
+    Logger::Write(LoggingLevel::Default, ss.str());
+    return;
+  }
+
   MatrixXd HiggsRot(NHiggs, NHiggs);
   for (std::size_t i = 0; i < NHiggs; i++)
   {
-- 
2.43.0


From 5b175bb5c942b8deac45f11ee76394d9c0f4e8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:29 +0000
Subject: [PATCH 32/42] fix: fbaseFour returned zero for one zero and three
 distinct masses

---
 src/models/ClassPotentialOrigin.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 09945f5..05786b7 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -567,7 +567,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
   }
 
   // 2) two of the three non-zero masses are equal
-  else if (mas == 0 and mbs != 0 and mcs != 0 and mds != 0)
+  else if (mas == 0 and mbs != 0 and mcs != 0 and mds != 0 and
+           (mbs == mcs or mbs == mds or mcs == mds))
   {
     if (mbs == mcs and mds != mbs)
     {
@@ -591,7 +592,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mcs * (mbs - mcs) * (mbs - mcs));
     }
   }
-  else if (mas != 0 and mbs == 0 and mcs != 0 and mds != 0)
+  else if (mas != 0 and mbs == 0 and mcs != 0 and mds != 0 and
+           (mas == mcs or mas == mds or mcs == mds))
   {
     if (mas == mcs and mds != mas)
     {
@@ -615,7 +617,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mcs * (mcs - mas) * (mcs - mas));
     }
   }
-  else if (mas != 0 and mbs != 0 and mcs == 0 and mds != 0)
+  else if (mas != 0 and mbs != 0 and mcs == 0 and mds != 0 and
+           (mas == mbs or mas == mds or mbs == mds))
   {
     if (mas == mbs and mds != mas)
     {
@@ -639,7 +642,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mbs * (mas - mbs) * (mas - mbs));
     }
   }
-  else if (mas != 0 and mbs != 0 and mcs != 0 and mds == 0)
+  else if (mas != 0 and mbs != 0 and mcs != 0 and mds == 0 and
+           (mas == mbs or mas == mcs or mbs == mcs))
   {
     if (mas == mbs and mcs != mas)
     {
-- 
2.43.0


From 5315ca02bed4736518e832872d447ddb0d9d6e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:15 +0000
Subject: [PATCH 33/42] fix: MinimizeOrderVEV and SetEWVEVZero read past the
 end of VevOrder

---
 src/models/ClassPotentialOrigin.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 05786b7..c580a3e 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3531,7 +3531,9 @@ void Class_Potential_Origin::SetEWVEVZero(std::vector<double> &sol) const
     {
       checkgauge += std::abs(Curvature_Gauge_G2H2[j][j][i][i]);
     }
-    if (checkgauge > 1e-10 and i == VevOrder[count]) // true for doublet vevs
+    if (checkgauge > 1e-10 and
+        static_cast<std::size_t>(count) < VevOrder.size() and
+        i == VevOrder[count]) // true for doublet vevs
     {
       sol.at(count) = 0;
       count += 1;
@@ -3981,7 +3983,7 @@ std::vector<double> Class_Potential_Origin::MinimizeOrderVEV(
   std::size_t count = 0;
   for (std::size_t i = 0; i < NHiggs; ++i)
   {
-    if (i == VevOrder[count])
+    if (count < VevOrder.size() and i == VevOrder[count])
     {
       vevFunction.push_back(vevMinimizer.at(count));
       count++;
-- 
2.43.0


From 2291883c01ffbb56808e1c15f868f64f13b476c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:15 +0000
Subject: [PATCH 34/42] fix: CPintheDark counterterm labels did not follow the
 order of the counterterms

---
 src/models/ClassPotentialCPintheDark.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialCPintheDark.cpp b/src/models/ClassPotentialCPintheDark.cpp
index d986a31..593aa5d 100644
--- a/src/models/ClassPotentialCPintheDark.cpp
+++ b/src/models/ClassPotentialCPintheDark.cpp
@@ -85,10 +85,10 @@ std::vector<std::string> Class_Potential_CPintheDark::addLegendCT() const
   labels.push_back("dL6");
   labels.push_back("dL7");
   labels.push_back("dL8");
+  labels.push_back("dTCB");
   labels.push_back("dT1");
   labels.push_back("dT2");
   labels.push_back("dTCP");
-  labels.push_back("dTCB");
   labels.push_back("dTS");
   labels.push_back("dImL5");
 
-- 
2.43.0


From d9e2c6199f5d6d4712e0260f76b711f2e42f8ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:37 +0000
Subject: [PATCH 35/42] fix: end the action integrals of a solution without
 extension

---
 src/bounce_solution/action_calculation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bounce_solution/action_calculation.cpp b/src/bounce_solution/action_calculation.cpp
index 42048ba..f5526e1 100644
--- a/src/bounce_solution/action_calculation.cpp
+++ b/src/bounce_solution/action_calculation.cpp
@@ -1477,6 +1477,7 @@ BounceActionInt::CalculateKineticTermAction(const std::vector<double> &rho,
 {
   double integral  = 0;
   double int_delta = rho[rho.size() - 1] / 2000;
+  if (int_delta <= 0) return 0; // The bubble has no extension
   if (Alpha == 2)
   {
     for (double r = 0.0; r <= rho[rho.size() - 1]; r += int_delta)
@@ -1514,6 +1515,7 @@ BounceActionInt::CalculatePotentialTermAction(const std::vector<double> &rho,
 {
   double integral  = 0;
   double int_delta = rho[rho.size() - 1] / 2000;
+  if (int_delta <= 0) return 0; // The bubble has no extension
   if (Alpha == 2)
   {
     for (double r = 0.0; r <= rho[rho.size() - 1]; r += int_delta)
-- 
2.43.0


From f2c1c6b05e7a26535bb75ba4e8be9f72e857ecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:37 +0000
Subject: [PATCH 36/42] fix: end the knot loops of a path without length

---
 src/bounce_solution/action_calculation.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bounce_solution/action_calculation.cpp b/src/bounce_solution/action_calculation.cpp
index f5526e1..39e5127 100644
--- a/src/bounce_solution/action_calculation.cpp
+++ b/src/bounce_solution/action_calculation.cpp
@@ -1033,7 +1033,9 @@ bool BounceActionInt::PathDeformationCheck(std::vector<double> &l,
 
   // Creates new list of knots for the new Spline, that then are going to
   // be moved with a force
-  for (np = l.front() + delta; np <= l.back() - delta / 10.0; np += delta)
+  for (np = l.front() + delta;
+       np + delta > np and np <= l.back() - delta / 10.0;
+       np += delta)
   {
     phi      = Spline(np); // New knot on the splind
     gradient = dV(phi);    // Grandient of knot
@@ -1136,7 +1138,7 @@ void BounceActionInt::SinglePathDeformation(
     std::vector<double> IntegralVector(BernsteinDegree, 0);
     for (int b_it = 0; b_it < BernsteinDegree; b_it++)
     {
-      for (np = l0; np <= lf - delta / 10.0; np += delta)
+      for (np = l0; np + delta > np and np <= lf - delta / 10.0; np += delta)
       {
         IntegralVector[b_it] =
             IntegralVector[b_it] +
@@ -1382,6 +1384,7 @@ void BounceActionInt::PathDeformation(std::vector<double> &l,
         L2NormVector(force) /
             L2NormVector(gradient)); // Calculate maximum force relative
                                      // to gradient on that point
+    if (not(np + delta > np)) break; // The path has no length
   }
 
   phi = FalseVacuum;                      // Last point
-- 
2.43.0


From 3d3e16baa91db871ff9b48cd77c837d733324265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:37 +0000
Subject: [PATCH 37/42] fix: end the initial action scan of a pair that
 coexists at one temperature only

---
 src/bounce_solution/bounce_solution.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 37e5841..fa22de9 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -129,6 +129,8 @@ void BounceSolution::GWInitialScan()
       last_FalseVacuum;
   std::vector<std::vector<double>> last_path, path;
 
+  if (not(Tc - dT < Tc)) return; // The phases coexist at one temperature only
+
   for (double T = Tc - dT; T >= phase_pair.T_low + dT; T -= dT)
   {
     Logger::Write(LoggingLevel::BounceDetailed, "T = " + std::to_string(T));
-- 
2.43.0


From 76b9476e05dbedfa203262d170f8305c22d628dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:37 +0000
Subject: [PATCH 38/42] fix: end the potential difference plot of phases that
 coexist at one temperature only

---
 src/minimum_tracer/minimum_tracer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index bfa6cc0..6633eaf 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1312,6 +1312,8 @@ void CoexPhases::CalculateTc()
     plotT.push_back(T);
     plotDeltaV.push_back(deltaV(T));
     plot0.push_back(0);
+    // The phases coexist at one temperature only
+    if (not(T + (T_high - T_low) / 100 > T)) break;
   }
   plotter.addPlot(plotT, plot0, "", '.');
   plotter.addPlot(plotT, plotDeltaV, "dV", '*');
-- 
2.43.0


From e6154667feb97ac8bea4708a3a675ef1d6ce85f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:37 +0000
Subject: [PATCH 39/42] fix: end multi-step PT mode 1 when no boundary moves

---
 src/minimum_tracer/minimum_tracer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 6633eaf..cb169c3 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -2067,6 +2067,18 @@ void Vacuum::MultiStepPTMode1(const std::vector<double> &LowTempPoint_in,
           }
         }
 
+        if (not whole_temp_region_traced and
+            HighTempPhaseMiddle.T_low >= tmp_low_highTempPhase and
+            LowTempPhaseMiddle.T_high <= tmp_high_lowTempPhase)
+        {
+          // no boundary moved, the next iteration would repeat this one
+          Logger::Write(LoggingLevel::MinTracerDetailed,
+                        "Temperature region between high- and low-temperature "
+                        "phase could not be traced, no coverage achieved.");
+          status_vacuum  = StatusTracing::NoCoverage;
+          error_detected = true;
+        }
+
         tmp_low_highTempPhase = HighTempPhaseMiddle.T_low;
         tmp_high_lowTempPhase = LowTempPhaseMiddle.T_high;
 
-- 
2.43.0


From 5dc12d73d603a05a3cacc7e5debee0e308bf40a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:37 +0000
Subject: [PATCH 40/42] fix: end multi-step PT mode 2 when no end of the range
 moves

---
 src/minimum_tracer/minimum_tracer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index cb169c3..f95abba 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -2199,6 +2199,17 @@ void Vacuum::MultiStepPTMode2(const std::vector<double> &LowTempPoint_in,
       if (tmp_T_high_newglob > T_low + 1)
         tmp_T_high_newglob -= 1; // try to move out of problematic region
     }
+
+    if (not(tmp_T_low_newglob > tmp_T_low_newglob_old or
+            tmp_T_high_newglob < tmp_T_high_newglob_old))
+    {
+      // no end of the range moved, the next iteration would repeat this one
+      Logger::Write(LoggingLevel::MinTracerDetailed,
+                    "Global minimum could not be traced in the remaining "
+                    "temperature range.");
+      status_vacuum = StatusTracing::NoGlobMinCoverage;
+      break;
+    }
   }
   return;
 }
-- 
2.43.0


From 935917383f924d2f08a32de1b6fbabef490e8de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:37 +0000
Subject: [PATCH 41/42] fix: end the temperature scan of the minima if its step
 does not lead to the final temperature

---
 src/minimizer/Minimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/minimizer/Minimizer.cpp b/src/minimizer/Minimizer.cpp
index 066978b..bb3efdc 100644
--- a/src/minimizer/Minimizer.cpp
+++ b/src/minimizer/Minimizer.cpp
@@ -534,6 +534,10 @@ MinimaDevelopmentWithTemperature(
     }
   }
 
+  // There is nothing to scan if the step does not lead to the end of the range
+  if (not((FinalTemperature - StartingTemperature) * StepsizeTemperature > 0))
+    return res;
+
   auto StoppingCriteria = [&](const double &Temp)
   {
     double epsilon = std::abs((FinalTemperature - StartingTemperature) /
-- 
2.43.0


From ef05318f0709136b3a7c8f076e479202315f808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:37 +0000
Subject: [PATCH 42/42] fix: end the search for the position of a new spline
 point that exists already

---
 src/utility/const_velocity_spline.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/utility/const_velocity_spline.cpp b/src/utility/const_velocity_spline.cpp
index 907e39d..e46116e 100644
--- a/src/utility/const_velocity_spline.cpp
+++ b/src/utility/const_velocity_spline.cpp
@@ -179,7 +179,7 @@ void cvspline::add_point(const double &p,
   int upper = phipath.size(); // Index of upper bound
   int lower_temp, upper_temp; // Floor/Ceil of the middle point
 
-  while (upper - lower !=
+  while (upper - lower >
          1) // When upper - lower = 1 then we add the point at that position
   {
 
@@ -187,8 +187,7 @@ void cvspline::add_point(const double &p,
     lower_temp = int(floor((upper + lower) / 2)); // Floor of the middle point
     upper_temp = int(ceil((upper + lower) / 2));  // Ceiling of the middle point
 
-    if ((vev_position[upper] == upper_temp) or
-        (vev_position[lower] == lower_temp))
+    if (vev_position[lower_temp] == p)
     {
       // Point already exists in the position "p", no point is added
       BSMPT::Logger::Write(BSMPT::LoggingLevel::TransitionDetailed,
@@ -199,7 +198,7 @@ void cvspline::add_point(const double &p,
     {
       lower = lower_temp;
     }
-    if (vev_position[upper_temp] > p)
+    else
     {
       upper = upper_temp;
     }
-- 
2.43.0

