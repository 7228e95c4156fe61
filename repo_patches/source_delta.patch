From 2f033d25d7cb9401f662f01cca19da220786abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:53 +0000
Subject: [PATCH 01/19] fix: reduce momentum fully into [-MAX_K, MAX_K] instead
 of wrapping once

---
 src/utility/momentum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility/momentum.cpp b/src/utility/momentum.cpp
index 42c964d..678df14 100644
--- a/src/utility/momentum.cpp
+++ b/src/utility/momentum.cpp
@@ -45,6 +45,7 @@ Momentum& Momentum::operator=(const Momentum& m)
 
 int Shift(int k)
 {
+    k %= (2 * MAX_K + 1);
     if (k > MAX_K)
         k -= (2 * MAX_K + 1);
     if (k < -MAX_K)
-- 
2.43.0


From d779356f27042cdb13c0da375a60624a7cab4043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:11 +0000
Subject: [PATCH 02/19] fix: JumpToOrder0 leaves a diagram with an
 instantaneous interaction alone

---
 src/module/markov/markov.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module/markov/markov.cpp b/src/module/markov/markov.cpp
index 53faf3c..581d49e 100644
--- a/src/module/markov/markov.cpp
+++ b/src/module/markov/markov.cpp
@@ -1585,6 +1585,8 @@ void Markov::JumpToOrder0()
     vertex Ver2 = &Diag->Ver[1];
     if (Ver1->R != Ver2->R)
         return;
+    if (Ver1->NeighW()->IsDelta)
+        return; // JumpBackToOrder1 draws two independent times
 
     Complex weightRatio;
     weightRatio = weight::Norm::Weight() / Diag->Weight;
-- 
2.43.0


From 28bc855c39661a3dcc2894d6d4009a90205ad23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:35 +0000
Subject: [PATCH 03/19] fix: adding or subtracting a real number changes only
 the real part of a Complex

---
 src/utility/complex.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/complex.cpp b/src/utility/complex.cpp
index 154eb7b..9799407 100644
--- a/src/utility/complex.cpp
+++ b/src/utility/complex.cpp
@@ -134,12 +134,12 @@ Complex operator+(const Complex& lhs, const Complex& rhs)
 
 Complex operator+(real lhs, const Complex& rhs)
 {
-    return Complex(rhs.Re + lhs, rhs.Im + lhs);
+    return Complex(lhs + rhs.Re, rhs.Im);
 }
 
 Complex operator+(const Complex& lhs, real rhs)
 {
-    return Complex(lhs.Re + rhs, lhs.Im + rhs);
+    return Complex(lhs.Re + rhs, lhs.Im);
 }
 
 Complex operator+(const Complex& lhs)
@@ -154,12 +154,12 @@ Complex operator-(const Complex& lhs, const Complex& rhs)
 
 Complex operator-(real lhs, const Complex& rhs)
 {
-    return Complex(rhs.Re - lhs, rhs.Im - lhs);
+    return Complex(lhs - rhs.Re, -rhs.Im);
 }
 
 Complex operator-(const Complex& lhs, real rhs)
 {
-    return Complex(lhs.Re + rhs, lhs.Im + rhs);
+    return Complex(lhs.Re - rhs, lhs.Im);
 }
 
 Complex operator-(const Complex& c)
-- 
2.43.0


From 0fad4f186f28ba1ccb5cdaf077b0f08f3f8a8841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:35 +0000
Subject: [PATCH 04/19] fix: arg of a negative real Complex is pi, not 0

---
 src/utility/complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/complex.h b/src/utility/complex.h
index d021ba8..d60bc8f 100644
--- a/src/utility/complex.h
+++ b/src/utility/complex.h
@@ -98,7 +98,7 @@ inline real mod(const Complex& c)
 
 inline real arg(const Complex& c)
 {
-    return c.Im != 0.0 ? atan2(c.Im, c.Re) : 0.0;
+    return IsZero(c) ? 0.0 : atan2(c.Im, c.Re);
 }
 
 inline Complex phase(const Complex& c)
-- 
2.43.0


From 3c12e7e108ed717e5559b04c9df2da9bf334bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:35 +0000
Subject: [PATCH 05/19] fix: pow(Complex, real) tested a constant instead of
 its argument for zero

---
 src/utility/complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/complex.h b/src/utility/complex.h
index d60bc8f..64a9bdc 100644
--- a/src/utility/complex.h
+++ b/src/utility/complex.h
@@ -151,7 +151,7 @@ inline Complex pow(const Complex& z, const Complex& w)
 
 inline Complex pow(const Complex& z, real u)
 {
-    if (IsZero(0.0))
+    if (IsZero(z))
         return u == 0.0 ? 1.0 : 0.0;
     real logr = 0.5 * log(mod2(z));
     real theta = u * arg(z);
-- 
2.43.0


From 12bc9ac68c2791916297569f32093211fdb83059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:08 +0000
Subject: [PATCH 06/19] fix: Bundle::Add refuses to hand out an object past the
 end of a full pool

---
 src/module/diagram/component_bundle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/diagram/component_bundle.cpp b/src/module/diagram/component_bundle.cpp
index d9136b4..46f8780 100644
--- a/src/module/diagram/component_bundle.cpp
+++ b/src/module/diagram/component_bundle.cpp
@@ -32,7 +32,7 @@ string Bundle<T>::BundleName()
 template <typename T>
 T *Bundle<T>::Add()
 {
-    if (_available_space > MAX_BUNDLE)
+    if (_available_space >= MAX_BUNDLE)
         ABORT("Too many objects >=" << MAX_BUNDLE);
     T *address = _component_name[_available_space];
 
-- 
2.43.0


From 8ca90944b370038193fad6d55f7f43d085eb9216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 07/19] fix: WeightArray::Assign must not write past the array
 when the source is longer

---
 src/module/weight/weight_array.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/weight/weight_array.cpp b/src/module/weight/weight_array.cpp
index 6e1a4dc..53e88e8 100644
--- a/src/module/weight/weight_array.cpp
+++ b/src/module/weight/weight_array.cpp
@@ -37,6 +37,7 @@ void WeightArray<DIM>::Assign(const Complex* source, uint size)
     ASSERT_ALLWAYS(IsAllocated, "Array should be allocated first!");
     if (_Data == source)
         return;
+    ASSERT_ALLWAYS(size <= _Size, "Source has " << size << " elements, array has only " << _Size);
     std::copy(source, source + size, _Data);
 }
 
-- 
2.43.0


From b9a259d9a697d32833c3e0b3745aa1ad3874f891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 08/19] fix: annealing a weight estimator must keep the
 accumulated weight and move to the new temperature

---
 src/module/weight/weight_estimator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/module/weight/weight_estimator.cpp b/src/module/weight/weight_estimator.cpp
index fddd18f..0e3f871 100644
--- a/src/module/weight/weight_estimator.cpp
+++ b/src/module/weight/weight_estimator.cpp
@@ -39,7 +39,10 @@ void WeightEstimator::Anneal(real Beta)
     //real NormFactor = 1.0 / _NormAccu * _Norm;
     //has the same value before Beta is changed
     //so that GetWeightArray will give a same weight function
-    _NormAccu *= pow((Beta / _Beta), 2.0);
+    real factor = pow((_Beta / Beta), 2.0);
+    _NormAccu *= factor;
+    _Norm *= factor;
+    _Beta = Beta;
 }
 
 void WeightEstimator::MeasureNorm(real weight)
-- 
2.43.0


From 6e8fb9f50a06f194273aca145cb2e45f8a7befff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 09/19] fix: Weight left the three-vertex pointers
 uninitialized

---
 src/module/weight/weight.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index 1445851..9795c9c 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -22,6 +22,8 @@ weight::Weight::Weight(bool IsAllSymmetric)
     Polar = nullptr;
     G = nullptr;
     W = nullptr;
+    GammaG = nullptr;
+    GammaW = nullptr;
 }
 
 weight::Weight::~Weight()
-- 
2.43.0


From 837c3927f8676ea74d761df94961c4ffd67a4048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 10/19] fix: FixDiagram marked worm interactions by the ends of
 a worm that no longer exists

---
 src/module/diagram/diagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/diagram/diagram.cpp b/src/module/diagram/diagram.cpp
index ad15532..8568941 100644
--- a/src/module/diagram/diagram.cpp
+++ b/src/module/diagram/diagram.cpp
@@ -146,7 +146,7 @@ bool Diagram::FixDiagram()
         vertex vin = w->NeighVer(IN);
         vertex vout = w->NeighVer(OUT);
 
-        w->IsWorm = (vin==Worm.Ira || vin==Worm.Masha || vout==Worm.Ira ||vout==Worm.Masha);
+        w->IsWorm = IsWorm(vin) || IsWorm(vout);
 
         vin->nW = w;
         vin->Dir = IN;
-- 
2.43.0


From 92cc698d5ebfd962f65cddf01dd104824d4ab855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 11/19] fix: printing the reweighting status must not overwrite
 the worm reweighting factor

---
 src/module/markov/markov_monitor.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/module/markov/markov_monitor.cpp b/src/module/markov/markov_monitor.cpp
index b78d2ba..e6a0ce9 100644
--- a/src/module/markov/markov_monitor.cpp
+++ b/src/module/markov/markov_monitor.cpp
@@ -126,7 +126,6 @@ void MarkovMonitor::PrintOrderReWeight()
         output << "Order0 :" << weight[0] << " Order" << i << " :" << weight[i] << endl;
     }
 
-    Para->WormSpaceReweight = phyweight / wormweight;
     output << "Worm confs:" << wormweight << " Physics confs: " << phyweight <<  endl;
     LOG_INFO(output.str());
 
-- 
2.43.0


From d79792a2460b7275b6011930cbcf19be2fdbee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 12/19] fix: AdjustOrderReWeight changed the order factors
 before refusing to reweight

---
 src/module/markov/markov_monitor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/module/markov/markov_monitor.cpp b/src/module/markov/markov_monitor.cpp
index e6a0ce9..7583774 100644
--- a/src/module/markov/markov_monitor.cpp
+++ b/src/module/markov/markov_monitor.cpp
@@ -176,6 +176,12 @@ bool MarkovMonitor::AdjustOrderReWeight()
         weight[i] = WormEstimator[i].Value() + PhyEstimator[i].Value();
         wormweight += WormEstimator[i].Value();
         phyweight += PhyEstimator[i].Value();
+    }
+
+    if (Zero(wormweight))
+        return false;
+
+    for (int i = 1; i <= Para->Order; i++) {
         if (Zero(weight[i]))
             continue;
         Para->OrderReWeight[i] *= Para->OrderTimeRatio[i] * weight[0] / weight[i];
@@ -183,9 +189,6 @@ bool MarkovMonitor::AdjustOrderReWeight()
     }
     Para->OrderReWeight[0] = 1.0;
 
-    if (Zero(wormweight))
-        return false;
-
     Para->WormSpaceReweight *= phyweight / wormweight;
     output << "Worm confs:" << wormweight << " Physics confs: " << phyweight << " => " << Para->WormSpaceReweight << endl;
     LOG_INFO(output.str());
-- 
2.43.0


From 2ffc86055dedc316d1ec89549ae9e5896b8f3201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 13/19] fix: InterruptHandler kept reporting a delay after
 Resume

---
 src/utility/abort.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/abort.cpp b/src/utility/abort.cpp
index ebe2f1e..97b1d3d 100644
--- a/src/utility/abort.cpp
+++ b/src/utility/abort.cpp
@@ -47,9 +47,10 @@ void InterruptHandler::Resume()
 {
     signal(SIGINT, __SignalHandler);
     signal(SIGTERM, __SignalHandler);
-    if (__IsDelaying && (__Signal == SIGINT || __Signal == SIGTERM)) {
+    bool WasDelaying = __IsDelaying;
+    __IsDelaying = false;
+    if (WasDelaying && (__Signal == SIGINT || __Signal == SIGTERM)) {
         __SignalHandler(__Signal);
         __Signal = -1;
-        __IsDelaying = false;
     }
 }
-- 
2.43.0


From f61eee2caeae162409af934fd6f6f8474abd92fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:14 +0000
Subject: [PATCH 14/19] fix: three-vertex tables kept the old temperature when
 annealing

---
 src/module/weight/gamma3.cpp | 22 ++++++++++++++++++++++
 src/module/weight/gamma3.h   |  2 ++
 src/module/weight/weight.cpp |  4 ++++
 3 files changed, 28 insertions(+)

diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index a953a96..e5a66c0 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -68,6 +68,17 @@ Complex GammaGClass::Weight(const Site &Gr_in, const Site &Gr_out, const Site &U
     return _Weight(Index) * sign;
 }
 
+void GammaGClass::Reset(real Beta)
+{
+    //keep NormFactor=_Norm/_NormAccu the same, as WeightEstimator::Anneal does
+    real factor = pow(_Beta / Beta, 3.0);
+    _Norm *= factor;
+    _NormAccu *= factor;
+    _Beta = Beta;
+    _dBetaInverse = _MaxTauBin / _Beta;
+    _Map = IndexMapSPIN2(Beta, _MaxTauBin, _Map.Lat, _Map.Symmetry);
+}
+
 void GammaGClass::MeasureNorm(real weight)
 {
     _NormAccu += weight;
@@ -461,6 +472,17 @@ void GammaWClass::Measure(const Site &Wr_in, const Site &Wr_out, const Site &Ur,
 //    }
 //}
 
+void GammaWClass::Reset(real Beta)
+{
+    //keep NormFactor=_Norm/_NormAccu the same, as WeightEstimator::Anneal does
+    real factor = pow(_Beta / Beta, 3.0);
+    _Norm *= factor;
+    _NormAccu *= factor;
+    _Beta = Beta;
+    _dBetaInverse = _MaxTauBinTiny / _Beta;
+    _Map = IndexMapSPIN4(Beta, _MaxTauBinTiny, _Map.Lat, _Map.Symmetry);
+}
+
 void GammaWClass::MeasureNorm(real weight)
 {
     _NormAccu += weight;
diff --git a/src/module/weight/gamma3.h b/src/module/weight/gamma3.h
index 2d17c42..e3959c0 100755
--- a/src/module/weight/gamma3.h
+++ b/src/module/weight/gamma3.h
@@ -24,6 +24,7 @@ namespace weight {
         //Only contains the smooth part of the GammaG object
     public:
         GammaGClass(const Lattice &, real Beta, uint MaxTauBin, real Norm = Norm::Weight());
+        void Reset(real Beta);
 
 //        void BuildNew(GClass *);
 //    void BuildTest();
@@ -63,6 +64,7 @@ namespace weight {
     class GammaWClass {
     public:
         GammaWClass(const Lattice &, real Beta, uint MaxTauBinTiny, std::vector<basis> &, real Norm = Norm::Weight());
+        void Reset(real Beta);
 
 //        void BuildNew();
 //    void BuildTest();
diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index 9795c9c..3d715c2 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -66,6 +66,10 @@ void weight::Weight::Anneal(const ParaMC &para)
     W->Reset(para.Beta);
     Sigma->Reset(para.Beta);
     Polar->Reset(para.Beta);
+    if (GammaG != nullptr)
+        GammaG->Reset(para.Beta);
+    if (GammaW != nullptr)
+        GammaW->Reset(para.Beta);
 }
 
 bool weight::Weight::FromDict(const Dictionary &dict, flag _flag, const para::ParaMC &para)
-- 
2.43.0


From cff0adaf2cf8773505808761970d7d70bf2fa1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:12 +0000
Subject: [PATCH 15/19] fix: CheckDiagram accepts a worm mark without a worm
 (or reads a null worm end) and a stray measuring interaction

---
 src/module/diagram/diagram_check.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/module/diagram/diagram_check.cpp b/src/module/diagram/diagram_check.cpp
index 2d45d90..cfbe10a 100644
--- a/src/module/diagram/diagram_check.cpp
+++ b/src/module/diagram/diagram_check.cpp
@@ -87,9 +87,12 @@ bool Diagram::_CheckStatus()
 
     totalmeasure = 0;
     for (int i = 0; i < W.HowMany(); i++) {
-        if (W(i)->IsMeasure)
+        if (W(i)->IsMeasure) {
             totalmeasure += 1;
-        if (W(i)->IsWorm && Worm.Ira->NeighW() != W(i) && Worm.Masha->NeighW() != W(i))
+            if (W(i) != WMeasure)
+                ABORT("WMeasure error!" + W(i)->PrettyString());
+        }
+        if (W(i)->IsWorm && (!Worm.Exist || (Worm.Ira->NeighW() != W(i) && Worm.Masha->NeighW() != W(i))))
             ABORT("W IsWorm status error! no worm!" + W(i)->PrettyString());
         if (Worm.Exist)
             if ((!W(i)->IsWorm) && (Worm.Ira->NeighW() == W(i) || Worm.Masha->NeighW() == W(i)))
-- 
2.43.0


From 35aa431f91e58c45b4b8a9aff8615eba18dd515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:12 +0000
Subject: [PATCH 16/19] fix: ListenToMessage returns nothing while a
 three-vertex is active

---
 src/environment/envMonteCarlo.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/environment/envMonteCarlo.cpp b/src/environment/envMonteCarlo.cpp
index 9f29913..1b164f4 100644
--- a/src/environment/envMonteCarlo.cpp
+++ b/src/environment/envMonteCarlo.cpp
@@ -202,4 +202,5 @@ bool EnvMonteCarlo::ListenToMessage()
 
         return true;
     }
+    return false;
 }
-- 
2.43.0


From b983a10dea8ec4d9c98e04130d00a4a457cfbe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:12 +0000
Subject: [PATCH 17/19] fix: _LoadBasis returns nothing

---
 src/module/weight/weight.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index 3d715c2..748c466 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -204,5 +204,6 @@ bool weight::Weight::_LoadBasis(real Beta)
     _Number=_Basis.Get<real>("Number");
     _basis=_Basis.Get<vector<basis>>("Basis");
     _BoseBasis.swap(_basis);
+    return true;
 }
 
-- 
2.43.0


From 319447f2924edb801f138e5ffee7c263fc93054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:43 +0000
Subject: [PATCH 18/19] fix: a saved measurement history longer than the buffer
 was read past its end

---
 src/estimator/estimator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estimator/estimator.cpp b/src/estimator/estimator.cpp
index 9784ae8..40e2fc8 100644
--- a/src/estimator/estimator.cpp
+++ b/src/estimator/estimator.cpp
@@ -226,6 +226,7 @@ bool Estimator<T>::FromDict(const Dictionary& dict)
     ClearStatistics();
     auto hist_ = dict.Get<Python::ArrayObject>("History");
     ASSERT_ALLWAYS(hist_.Dim() == 1, "expect one dimension array here!");
+    ASSERT_ALLWAYS(hist_.Shape()[0] <= SIZE, "history is longer than " << SIZE);
     T* begin = hist_.Data<T>();
     std::copy(begin, begin + hist_.Shape()[0], _history);
     _end = hist_.Shape()[0];
-- 
2.43.0


From 820dccaec201fe7b767d4b7abc6e7988f81680c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:48 +0000
Subject: [PATCH 19/19] fix: a saved measurement series forgot its interval and
 counter

---
 src/estimator/estimator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/estimator/estimator.cpp b/src/estimator/estimator.cpp
index 40e2fc8..9348756 100644
--- a/src/estimator/estimator.cpp
+++ b/src/estimator/estimator.cpp
@@ -232,6 +232,10 @@ bool Estimator<T>::FromDict(const Dictionary& dict)
     _end = hist_.Shape()[0];
     _accumulator = dict.Get<T>("Accu");
     _norm = dict.Get<real>("Norm");
+    if (dict.HasKey("Interval"))
+        _interval = dict.Get<uint>("Interval");
+    if (dict.HasKey("Counter"))
+        _counter = dict.Get<uint>("Counter");
     _update();
     return true;
 }
@@ -243,6 +247,8 @@ Dictionary Estimator<T>::ToDict()
     Dictionary dict;
     dict["Norm"] = _norm;
     dict["Accu"] = _accumulator;
+    dict["Interval"] = _interval;
+    dict["Counter"] = _counter;
     dict["History"] = Python::ArrayObject(_history, shape, 1);
     Dictionary est;
     est["Mean"] = Python::AnyObject(_value.Mean);
-- 
2.43.0

