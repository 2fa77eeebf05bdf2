From 9799656c2f992e3addae7dd421e78a352af2e1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:50 +0000
Subject: [PATCH 01/57] fix: dip-slip kernel zeroed at z=0 only under a free
 top boundary

---
 pygrt/C_extension/src/integral/kernel_template.c_ | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/integral/kernel_template.c_ b/pygrt/C_extension/src/integral/kernel_template.c_
index 24d5436..4b80b1e 100644
--- a/pygrt/C_extension/src/integral/kernel_template.c_
+++ b/pygrt/C_extension/src/integral/kernel_template.c_
@@ -277,8 +277,8 @@ void __BUILD_QWV__(MODEL1D_STATE *mstat, cplxChnlGrid QWV, bool calc_uiz, cplxCh
     BEFORE_RETURN:
 
     // 对一些特殊情况的修正
-    // 当震源和场点均位于地表时，可理论验证DS分量恒为0，这里直接赋0以避免后续的精度干扰
-    if(mod1d->depsrc == 0.0 && mod1d->deprcv == 0.0)
+    // 当震源和场点均位于自由地表时，可理论验证DS分量恒为0，这里直接赋0以避免后续的精度干扰
+    if(mod1d->topbound == GRT_BOUND_FREE && mod1d->depsrc == 0.0 && mod1d->deprcv == 0.0)
     {
         for(int c=0; c<GRT_CHANNEL_NUM; ++c){
             QWV[GRT_SRC_M_DS_INDEX][c] = 0.0;
-- 
2.43.0


From 24a1476ab431a1278b161a2dc07e26b94eb0d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:58 +0000
Subject: [PATCH 02/57] fix: DCM with Filon integration subtracts and restores
 the same asymptote

---
 pygrt/C_extension/src/integral/dwm.c           | 2 +-
 pygrt/C_extension/src/integral/integ_process.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/integral/dwm.c b/pygrt/C_extension/src/integral/dwm.c
index a5e2a21..5cacb3b 100644
--- a/pygrt/C_extension/src/integral/dwm.c
+++ b/pygrt/C_extension/src/integral/dwm.c
@@ -59,7 +59,7 @@ real_t grt_discrete_integ(
         }
 
         if(K->applyDCM){
-            grt_int_dcm_revision(kmax, k, K->QWV, K->QWV_kmax, K->calc_upar, K->QWVz, K->QWVz_kmax);
+            grt_int_dcm_revision(K->kmax, k, K->QWV, K->QWV_kmax, K->calc_upar, K->QWVz, K->QWVz_kmax);
         }
 
         // 记录积分核函数
diff --git a/pygrt/C_extension/src/integral/integ_process.c b/pygrt/C_extension/src/integral/integ_process.c
index 9945af0..dfd7704 100644
--- a/pygrt/C_extension/src/integral/integ_process.c
+++ b/pygrt/C_extension/src/integral/integ_process.c
@@ -130,7 +130,7 @@ K_INTEG * grt_wavenumber_integral(
         if(mstat->stats==GRT_INVERSE_FAILURE)  goto BEFORE_RETURN;
     }
     else if(Kproc->cvgmet == K_INTEG_CONVERG_DCM){
-        grt_dcm_correction(nr, rs, Kproc->dk, kcut, Kint, !isFilon);
+        grt_dcm_correction(nr, rs, Kproc->dk, Kint->kmax, Kint, kcut > 0.0);
     }
 
 
-- 
2.43.0


From 8aec8219e49c1f476d897206e8f3d91bdb9721ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:51 +0000
Subject: [PATCH 03/57] fix: equal-depth kmax search does not stop on the
 low-wavenumber plateau

---
 pygrt/C_extension/src/integral/kmax.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pygrt/C_extension/src/integral/kmax.c b/pygrt/C_extension/src/integral/kmax.c
index 3b8628d..e5eed95 100644
--- a/pygrt/C_extension/src/integral/kmax.c
+++ b/pygrt/C_extension/src/integral/kmax.c
@@ -27,6 +27,7 @@
 #define GRT_KMAX_MAX_STEP_DIVISOR  GRT_KMAX_SEARCH_N
 #define GRT_KMAX_DECAY_ZERO_TOL    1e-2    ///< 衰减到 0：F < tol * Fmax
 #define GRT_KMAX_DECAY_CONST_TOL   5e-2    ///< 衰减到常数：dF < tol * Fmax
+#define GRT_KMAX_CONST_LOW_KH      4.0     ///< 衰减到常数：判断收敛的最低 kh，h 为源与最近界面的距离
 
 
 /** 根据搜索区间计算自适应几何因子 */
@@ -183,6 +184,15 @@ real_t grt_predict_kmax(
     real_t kmax_init, real_t kmax_low, real_t kmax_ref, size_t *Ncount)
 {
     if(mstat->mod1d->depsrc == mstat->mod1d->deprcv){
+        // 同深度的核函数在低波数段同样平缓，此时最近界面的影响（~exp(-2kh)）尚未消失，
+        // 不可误判为已收敛到高波数的常数
+        const MODEL1D *mod1d = mstat->mod1d;
+        real_t hmin = 0.0;
+        for(size_t i=0; i<mod1d->n; ++i){
+            real_t h = fabs(mod1d->Dep[i] - mod1d->depsrc);
+            if(h > 0.0 && (hmin == 0.0 || h < hmin))  hmin = h;
+        }
+        if(hmin > 0.0)  kmax_low = GRT_MAX(kmax_low, GRT_KMAX_CONST_LOW_KH / hmin);
         return _decay_constant(mstat, kerfunc, kmax_init, kmax_low, kmax_ref, Ncount);
     } else {
         return _decay_zero(mstat, kerfunc, kmax_init, kmax_low, kmax_ref, Ncount);
-- 
2.43.0


From eb0d46458f9a7609a606552bd16de4f69564c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:51 +0000
Subject: [PATCH 04/57] fix: syn selectors tolerate the single precision of the
 SAC header values

Root selectors (-Ds/-Dr/-R) were compared with the float32 header values
with an absolute tolerance of 1e-5 km, so entries beyond ~200 km could not
be selected at all.
---
 pygrt/C_extension/src/dynamic/grt_syn.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index c81057a..da17d53 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -7,6 +7,8 @@
  * 
  */
 
+#include <float.h>
+
 #include "grt.h"
 
 // 防止被替换为虚数单位
@@ -571,10 +573,17 @@ static char *find_sac_in_dir(const char *dirpath)
 }
 
 
+/** SAC 头段变量为单精度，匹配容差需计入其相对舍入误差 */
+static bool real_value_match(real_t headval, real_t value, const real_t tolerance)
+{
+    return fabs(headval - value) <= tolerance + FLT_EPSILON * fabs(value);
+}
+
+
 static bool real_value_exists(const real_t *values, size_t nvalues, real_t value, const real_t tolerance)
 {
     for(size_t i = 0; i < nvalues; ++i){
-        if(fabs(values[i] - value) <= tolerance) return true;
+        if(real_value_match(values[i], value, tolerance)) return true;
     }
     return false;
 }
@@ -703,9 +712,9 @@ static void resolve_syn_grn_path(GRT_MODULE_CTRL *Ctrl)
         }
 
         SACTRACE *sac = grt_read_SACTRACE(sample, true);
-        bool depth_match = fabs(sac->hd.evdp - Ctrl->Depth.depsrc) <= match_tolerance
-            && fabs((-sac->hd.stel * 1e-3) - Ctrl->Depth.deprcv) <= match_tolerance;
-        bool dist_match = fabs(sac->hd.dist - Ctrl->R.dist) <= match_tolerance;
+        bool depth_match = real_value_match(sac->hd.evdp, Ctrl->Depth.depsrc, match_tolerance)
+            && real_value_match(-sac->hd.stel * 1e-3, Ctrl->Depth.deprcv, match_tolerance);
+        bool dist_match = real_value_match(sac->hd.dist, Ctrl->R.dist, match_tolerance);
         grt_free_SACTRACE(sac);
         GRT_SAFE_FREE_PTR(sample);
 
-- 
2.43.0


From 6d3bec343d9637eeb737055e9daece21eb42d81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:13 +0000
Subject: [PATCH 05/57] fix: syn convolution with a time function longer than
 the trace

The circular index (n-k+nx)%nx is negative for k > n+nx, so a pulse longer
than the trace read outside the trace and produced garbage. Only the first
nt samples of the time function act inside the window.
---
 pygrt/C_extension/src/dynamic/grt_syn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index da17d53..555403b 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -945,7 +945,8 @@ static void syn_postprocess_trace(SACTRACE *sac, SACTRACE *tfsac, int int_times,
         }
 
         float *convarr = (float *)calloc(nt, sizeof(float));
-        grt_oaconvolve(sac->data, nt, tfsac->data, tfsac->hd.npts, convarr, nt, true);
+        // 时间函数超出记录长度的部分对窗内的结果没有贡献
+        grt_oaconvolve(sac->data, nt, tfsac->data, GRT_MIN(tfsac->hd.npts, nt), convarr, nt, true);
         fac = 1.0f;
         dfac = expf(wI * dt);
         for(int n = 0; n < nt; ++n){
-- 
2.43.0


From 6fff6cbc55c890fed85b0d487ac5b7266d291fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:24 +0000
Subject: [PATCH 06/57] fix: no zero-size subfault when the fault divides
 evenly

---
 pygrt/C_extension/src/common/finite_fault.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/common/finite_fault.c b/pygrt/C_extension/src/common/finite_fault.c
index cf66b3d..5356c90 100644
--- a/pygrt/C_extension/src/common/finite_fault.c
+++ b/pygrt/C_extension/src/common/finite_fault.c
@@ -188,8 +188,9 @@ void grt_finite_fault_subdiv(
     if(*W <= 0.0 || *L <= 0.0){
         GRTRaiseError("fault along-dip/along-strike length must be positive (W=%.6g, L=%.6g).", *W, *L);
     }
-    *nW = GRT_MAX(1, (size_t)ceil(*W / dW));
-    *nL = GRT_MAX(1, (size_t)ceil(*L / dL));
+    // 整除时浮点误差可使商略大于整数，不能因此多出一个零尺寸的末块
+    *nW = GRT_MAX(1, (size_t)ceil(*W / dW - 1e-8));
+    *nL = GRT_MAX(1, (size_t)ceil(*L / dL - 1e-8));
 }
 
 
-- 
2.43.0


From e0f36af6c5f1fe7727732c3fab2db426731cea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:24 +0000
Subject: [PATCH 07/57] fix: static syn locates the distance bracket of nearly
 uniform libraries

---
 pygrt/C_extension/src/static/grt_static_syn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index aa07e37..a43e04e 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -702,7 +702,10 @@ static void static_syn_from_gf(
 
         size_t sort_ir_pick = 0, sort_ir_pick1 = 0;
         if(isUniform){
-            sort_ir_pick = (size_t)((dist - sort_rs0[0]) / dr);
+            // isUniform 的判定有容差，估计的下标需限制在范围内并修正到包含 dist 的区间
+            sort_ir_pick = GRT_MIN((size_t)(GRT_MAX(dist - sort_rs0[0], 0.0) / dr), nr0-1);
+            while(sort_ir_pick > 0 && sort_rs0[sort_ir_pick] > dist)  --sort_ir_pick;
+            while(sort_ir_pick + 1 < nr0 && sort_rs0[sort_ir_pick+1] <= dist)  ++sort_ir_pick;
         } else {
             for(sort_ir_pick = 0; sort_ir_pick < nr0-1; ++sort_ir_pick)   if(sort_rs0[sort_ir_pick+1] > dist)  break;
         }
-- 
2.43.0


From 101b60897da8b284b068bcdf5a65d1d826b78aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:39 +0000
Subject: [PATCH 08/57] fix: a slow or equal refractor no longer hides the head
 waves of deeper layers

The search over refracting layers stopped at the first layer whose partial
time already exceeded the best time (infinite when a traversed layer has the
refractor's own velocity), although a faster layer further away can still
arrive first.
---
 pygrt/C_extension/src/common/travt.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/pygrt/C_extension/src/common/travt.c b/pygrt/C_extension/src/common/travt.c
index 8d741cb..fc1f29b 100644
--- a/pygrt/C_extension/src/common/travt.c
+++ b/pygrt/C_extension/src/common/travt.c
@@ -209,9 +209,6 @@ real_t grt_compute_travt1d(
                 }
             }
 
-            // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-            if(sumt > travt) break;
-
             if(badrefrac) continue;
 
             // m到imin的双边
@@ -236,9 +233,6 @@ real_t grt_compute_travt1d(
                 }
             }
 
-            // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-            if(sumt > travt) break;
-
             if(badrefrac) continue;
 
             // printf("up m=%d, refracted wave, sumt=%f, sumx=%f\n", m, sumt, sumx);
@@ -321,9 +315,6 @@ real_t grt_compute_travt1d(
             }
         }
 
-        // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-        if(sumt > travt) break;
-
         if(badrefrac) continue;
 
         // m到imin的双边
@@ -348,9 +339,6 @@ real_t grt_compute_travt1d(
             }
         }
 
-        // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-        if(sumt > travt) break;
-
         if(badrefrac) continue;
 
         // printf("down m=%d, refracted wave, sumt=%f, sumx=%f\n", m, sumt, sumx);
-- 
2.43.0


From 64d82a6f1b59fa645e9c9b8c14641a32bdc91888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:04 +0000
Subject: [PATCH 09/57] fix: travel time when an end point lies on the bottom
 of a faster layer

The slowness of the direct ray is bounded by the velocity at both end points.
For a point on an interface below a faster layer that no ray segment crosses,
shooting could never reach larger distances and the time of a nearer point was
reported. Beyond that distance the wave runs along the interface; propagating
the remaining distance at the slowness found gives its time, and removes the
shooting residual elsewhere.
---
 pygrt/C_extension/src/common/travt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/common/travt.c b/pygrt/C_extension/src/common/travt.c
index fc1f29b..b963536 100644
--- a/pygrt/C_extension/src/common/travt.c
+++ b/pygrt/C_extension/src/common/travt.c
@@ -138,7 +138,8 @@ real_t grt_compute_travt1d(
             // printf("iter=%d, t=%f\n", iter, t);
         } // 结束迭代
         
-        travt = t;
+        // 打靶残差（以及端点恰在界面、另一侧介质更快时的临界外距离）按慢度 p 水平传播
+        travt = t + p*(dist - x);
 
         // printf("direct wave in different layer, travt=%f\n", travt);
     }
-- 
2.43.0


From 00b620642ac9adfe3381b1156cc23e1dcf4d554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:38 +0000
Subject: [PATCH 10/57] fix: equal source and receiver depth inside a liquid
 layer is not an interface

The zero-thickness layer between a source and a receiver at one depth was taken
for a liquid interface and the request refused. The check of the deeper point
already covers a real interface at that depth.
---
 pygrt/C_extension/src/common/model.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/common/model.c b/pygrt/C_extension/src/common/model.c
index 577838f..efafb93 100755
--- a/pygrt/C_extension/src/common/model.c
+++ b/pygrt/C_extension/src/common/model.c
@@ -299,7 +299,8 @@ MODEL1D * grt_read_mod1d_from_file(const char *modelpath, real_t depsrc, real_t
     }
 
     // 检查，接收点不能位于液-液、固-液界面
-    if(ircv < nlay-1 && mod1d->Thk[ircv] == 0.0 && mod1d->Vb[ircv]*mod1d->Vb[ircv+1] == 0.0){
+    // （震源与接收点同深时，二者之间的零厚度层不是真实界面，此时由下方的源点检查判断）
+    if(ircv < nlay-1 && isrc != ircv+1 && mod1d->Thk[ircv] == 0.0 && mod1d->Vb[ircv]*mod1d->Vb[ircv+1] == 0.0){
         GRTRaiseError( 
             "The receiver is located on the interface where there is liquid on one side. "
             "Due to the discontinuity of the tangential displacement on this interface, "
-- 
2.43.0


From 3cca3c180db9952857eebd924162f128d1b2e360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:54 +0000
Subject: [PATCH 11/57] fix: okada -S for a tensile point source uses the
 shear-modulus potency like the other sources

The potency was divided by lambda (multiplied by mu/lambda with -Su), so the
result differed from static_syn and from Coulomb Kode 500 unless lambda == mu.
---
 pygrt/C_extension/src/okada/grt_okada.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index ddc4711..b4f18fb 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -412,7 +412,7 @@ static void add_point_source(const GRT_MODULE_CTRL *ctrl, const OKADA_MEDIUM_PAR
         pot1 = scalar * cos(ctrl->M.rake * DEG1);
         pot2 = scalar * sin(ctrl->M.rake * DEG1);
     } else {
-        pot3 = ctrl->S.mult_src_mu ? ctrl->S.value * medium->mu / medium->lambda : ctrl->S.value / medium->lambda;
+        pot3 = scalar;
     }
 
     // Okada 点源输出的位移和偏导分别需要乘以 1e-10 和 1e-15
-- 
2.43.0


From 1bafb7bee9060f24187361e9060f36c601fd95b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:54 +0000
Subject: [PATCH 12/57] fix: okada gradients near the extension of a fault edge

R+xi (R+eta) cancels there: the branch for it was taken only exactly on the
line and dropped a finite part, elsewhere close to it the gradient lost all
digits. Both corners lie on the negative side, so the equivalent expressions
in R-xi (R-eta), which differ by terms common to both corners, are used.
---
 pygrt/C_extension/src/okada/okada.c | 34 ++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/pygrt/C_extension/src/okada/okada.c b/pygrt/C_extension/src/okada/okada.c
index b714568..de4d9be 100644
--- a/pygrt/C_extension/src/okada/okada.c
+++ b/pygrt/C_extension/src/okada/okada.c
@@ -82,6 +82,8 @@ typedef struct {
     real_t y11;
     real_t x32;
     real_t y32;
+    real_t x53;
+    real_t y53;
     real_t ey;
     real_t ez;
     real_t fy;
@@ -667,25 +669,31 @@ static void DCCON2(const OKADA_MEDIUM *c, OKADA_FINITE *f,
     f->tt = (q == 0.0) ? 0.0 : atan(xi * et / (q * f->r));
 
     if(kxi){
-        f->alx = -log(f->r - xi);
-        f->x11 = 0.0;
-        f->x32 = 0.0;
+        real_t rxi = f->r - xi;
+        f->alx = -log(rxi);
+        f->x11 = -1.0 / (f->r * rxi);
+        f->x32 = -(f->r + rxi) * f->x11 * f->x11 / f->r;
+        f->x53 = (8.0 * f->r2 - 9.0 * f->r * xi + 3.0 * f->xi2) * f->x11 * f->x11 * f->x11 / f->r2;
     } else {
         real_t rxi = f->r + xi;
         f->alx = log(rxi);
         f->x11 = 1.0 / (f->r * rxi);
         f->x32 = (f->r + rxi) * f->x11 * f->x11 / f->r;
+        f->x53 = (8.0 * f->r2 + 9.0 * f->r * xi + 3.0 * f->xi2) * f->x11 * f->x11 * f->x11 / f->r2;
     }
 
     if(ket){
-        f->ale = -log(f->r - et);
-        f->y11 = 0.0;
-        f->y32 = 0.0;
+        real_t ret = f->r - et;
+        f->ale = -log(ret);
+        f->y11 = -1.0 / (f->r * ret);
+        f->y32 = -(f->r + ret) * f->y11 * f->y11 / f->r;
+        f->y53 = (8.0 * f->r2 - 9.0 * f->r * et + 3.0 * f->et2) * f->y11 * f->y11 * f->y11 / f->r2;
     } else {
         real_t ret = f->r + et;
         f->ale = log(ret);
         f->y11 = 1.0 / (f->r * ret);
         f->y32 = (f->r + ret) * f->y11 * f->y11 / f->r;
+        f->y53 = (8.0 * f->r2 + 9.0 * f->r * et + 3.0 * f->et2) * f->y11 * f->y11 * f->y11 / f->r2;
     }
 
     f->ey = c->sd/f->r - f->y*q/f->r3;
@@ -907,14 +915,14 @@ static void UC(const OKADA_MEDIUM *c, const OKADA_FINITE *f, real_t z,
 {
     const real_t alp4 = c->alp4, alp5 = c->alp5;
     const real_t sd = c->sd, cd = c->cd, sdcd = c->sdcd, cdcd = c->cdcd, sdsd = c->sdsd;
-    const real_t xi = f->xi, et = f->et, q = f->q, xi2 = f->xi2, et2 = f->et2;
+    const real_t xi = f->xi, et = f->et, q = f->q, xi2 = f->xi2;
     const real_t r = f->r, r2 = f->r2, r3 = f->r3, r5 = f->r5;
     const real_t y = f->y, d = f->d, x11 = f->x11, y11 = f->y11;
     const real_t x32 = f->x32, y32 = f->y32;
     real_t du[12];
     const real_t cc = d + z;
-    const real_t x53 = (8.0 * r2 + 9.0 * r * xi + 3.0 * xi2) * x11 * x11 * x11 / r2;
-    const real_t y53 = (8.0 * r2 + 9.0 * r * et + 3.0 * et2) * y11 * y11 * y11 / r2;
+    const real_t x53 = f->x53;
+    const real_t y53 = f->y53;
     const real_t h = q * cd - z;
     const real_t z32 = sd / r3 - h * y32;
     const real_t z53 = 3.0 * sd / r5 - h * y53;
@@ -1034,8 +1042,8 @@ static void okada_add_finite_real(const OKADA_MEDIUM *c,
         for(int j = 0; j < 2; ++j){
             OKADA_FINITE f;
             real_t dua[12], du[12];
-            int kxi = xi[j] < 0.0 && q == 0.0 && et[k] == 0.0;
-            int ket = et[k] < 0.0 && q == 0.0 && xi[j] == 0.0;
+            int kxi = xi[0] < 0.0 && xi[1] < 0.0;
+            int ket = et[0] < 0.0 && et[1] < 0.0;
             DCCON2(c, &f, xi[j], et[k], q, kxi, ket);
             UA(c, &f, disl1, disl2, disl3, dua);
 
@@ -1077,8 +1085,8 @@ static void okada_add_finite_image(const OKADA_MEDIUM *c,
         for(int j = 0; j < 2; ++j){
             OKADA_FINITE f;
             real_t dua[12], dub[12], duc[12], du[12];
-            int kxi = xi[j] < 0.0 && q == 0.0 && et[k] == 0.0;
-            int ket = et[k] < 0.0 && q == 0.0 && xi[j] == 0.0;
+            int kxi = xi[0] < 0.0 && xi[1] < 0.0;
+            int ket = et[0] < 0.0 && et[1] < 0.0;
             DCCON2(c, &f, xi[j], et[k], q, kxi, ket);
             UA(c, &f, disl1, disl2, disl3, dua);
             UB(c, &f, disl1, disl2, disl3, dub);
-- 
2.43.0


From 90d2b877057c3d74535cb506ec78c573ce926854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:37 +0000
Subject: [PATCH 13/57] fix: lamb1 arrival offset independent of the other
 samples (out-of-bounds read with one time, abort with repeated times)

---
 pygrt/C_extension/src/lamb/lamb1.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/lamb/lamb1.c b/pygrt/C_extension/src/lamb/lamb1.c
index ac196e7..0816080 100644
--- a/pygrt/C_extension/src/lamb/lamb1.c
+++ b/pygrt/C_extension/src/lamb/lamb1.c
@@ -786,7 +786,8 @@ void grt_solve_lamb1(
 
     real_t phi = azimuth * DEG1;
     
-    real_t tbar_eps = GRT_MIN(1e-8, (ts[1]-ts[0]) * 1e-5);
+    // 与其它采样点无关，nt 可以为1，ts 也可以无序或重复
+    const real_t tbar_eps = 1e-8;
 
     // 初始化相关变量
     VARS V0 = {0};
-- 
2.43.0


From c7a154875353f00cfbe6f0ec42ed4af95f937628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 14/57] fix: lamb1 long-time values for small Poisson ratios
 (logarithms of cancelled differences gave nan)

---
 pygrt/C_extension/src/lamb/lamb1.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/lamb/lamb1.c b/pygrt/C_extension/src/lamb/lamb1.c
index 0816080..b5d99eb 100644
--- a/pygrt/C_extension/src/lamb/lamb1.c
+++ b/pygrt/C_extension/src/lamb/lamb1.c
@@ -294,7 +294,8 @@ static cplx_t U_P(int n, real_t tbar, cplx_t c, VARS *V)
 
     if(n==1){
         if(cimag(c) == 0.0 && creal(c) < aa){
-            return 0.5/xi * log(fabs((creal(xi)+a)/(creal(xi)-a)));
+            // (ξ+a)/(ξ-a) = -(ξ+a)^2/c，避免 ξ 与 a 相减
+            return 0.5/xi * log(fabs((creal(xi)+a)*(creal(xi)+a)/creal(c)));
         } else {
             return I/xi *  atan(a/(I*xi));
         }
@@ -336,10 +337,14 @@ static cplx_t V_P(int n, real_t tbar, cplx_t c, VARS *V)
     real_t m2 = bb/aa;
     cplx_t n1 = bb/(xi*xi);
 
+    // |(c+ak'+ξη)(ξ+η) / (c+ak'-ξη)(ξ-η)|，其中 (c+ak')^2-ξ^2η^2 = c(a+k')^2，ξ^2-η^2 = a^2-k'^2，避免相近数相减
+    real_t ratio = fabs((c + a*kp + xi*et)*(xi + et)/(a + kp));
+    ratio = ratio*ratio / fabs(c*bb);
+
     if(tbar > 1.0){
         if(n == 1){
             if(cimag(c) == 0.0 && ((creal(c)) > aa || creal(c) < kpkp)){
-                return 0.5/(xi*et) * (log(fabs((c + a*kp + xi*et)*(xi + et)/((c + a*kp - xi*et)*(xi - et)))) - I*M_PI);
+                return 0.5/(xi*et) * (log(ratio) - I*M_PI);
             } else {
                 return -I/(xi*et) * (atan(I*kp*xi/(a*et)) + M_PI*0.5);
             }
@@ -363,7 +368,7 @@ static cplx_t V_P(int n, real_t tbar, cplx_t c, VARS *V)
     else {
         if(n == 1){
             if(cimag(c) == 0.0 && ((creal(c)) < aa || creal(c) > kpkp)){
-                return 0.5/(xi*et) * log(fabs((c + a*kp + xi*et)*(xi + et)/((c + a*kp - xi*et)*(xi - et))));
+                return 0.5/(xi*et) * log(ratio);
             } else {
                 return -I/(xi*et) * atan(I*a*et/(kp*xi));
             }
-- 
2.43.0


From 033dc16aa8da8002fdbcd099f2f487e0e58acf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:42 +0000
Subject: [PATCH 15/57] fix: ranges a1/a2/d keep the end point despite rounding
 (0/0.3/0.1 gave three values)

---
 pygrt/C_extension/include/grt/common/const.h      | 1 +
 pygrt/C_extension/src/common/util.c               | 2 +-
 pygrt/C_extension/src/dynamic/grt_kernel.c        | 4 ++--
 pygrt/C_extension/src/lamb/grt_lamb1.c            | 2 +-
 pygrt/C_extension/src/modal/grt_eigenfn.c         | 4 ++--
 pygrt/C_extension/src/modal/grt_eigenv.c          | 2 +-
 pygrt/C_extension/src/okada/grt_okada.c           | 2 +-
 pygrt/C_extension/src/static/grt_static_greenfn.c | 4 ++--
 pygrt/C_extension/src/static/grt_static_syn.c     | 4 ++--
 pygrt/C_extension/src/tools/grt_disp2asc.c        | 2 +-
 pygrt/C_extension/src/tools/grt_travt.c           | 2 +-
 11 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/const.h b/pygrt/C_extension/include/grt/common/const.h
index f7b462a..ef0fa39 100755
--- a/pygrt/C_extension/include/grt/common/const.h
+++ b/pygrt/C_extension/include/grt/common/const.h
@@ -78,6 +78,7 @@ typedef double complex cplx_t;
 
 #define GRT_MAX(a, b) ((a) > (b) ? (a) : (b))  ///< 求两者较大值
 #define GRT_MIN(a, b) ((a) < (b) ? (a) : (b))  ///< 求两者较小值
+#define GRT_RANGE_NUM(a1, a2, d) ((size_t)floor(((a2) - (a1)) / (d) + 1e-6) + 1)  ///< 等间距范围 a1/a2/d 的点数（包含终点，容许浮点误差）
 
 #define GRT_SQUARE(x) ((x) * (x))  ///< 计算一个数的平方
 
diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index b452898..372fa19 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -80,7 +80,7 @@ real_t *grt_parse_real_array(const char *optarg, size_t *size, char ***s_values,
         if(a1 > a2){
             GRTRaiseError("-%c: start (%f) > end (%f).", optname, a1, a2);
         }
-        n = (size_t)floor((a2 - a1) / delta) + 1;
+        n = GRT_RANGE_NUM(a1, a2, delta);
         s_vals = (char **)calloc(n, sizeof(char *));
         for(size_t i = 0; i < n; ++i){
             GRT_SAFE_ASPRINTF(&s_vals[i], "%.15g", a1 + delta * i);
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 0474c1e..55f1024 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -266,7 +266,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                         }
                     }
 
-                    Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                    Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
                     // 至少要有两个频率点，才能在程序中用差分计算 df
                     if(Ctrl->F.nf < 2){
                         GRTBadOptionError(F, "Too few frequency points, only %zu.", Ctrl->F.nf);
@@ -315,7 +315,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                             GRTBadOptionError(C, "cmin(%lf) >= cmax(%lf).", Ctrl->C.cmin, Ctrl->C.cmax);
                         }
 
-                        Ctrl->C.nc = floor((a2-a1)/df) + 1;
+                        Ctrl->C.nc = GRT_RANGE_NUM(a1, a2, df);
                         Ctrl->C.c_phases = (real_t *)calloc(Ctrl->C.nc, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->C.nc; ++i){
                             Ctrl->C.c_phases[i] = a1 + df*i;
diff --git a/pygrt/C_extension/src/lamb/grt_lamb1.c b/pygrt/C_extension/src/lamb/grt_lamb1.c
index c013de2..927d89d 100644
--- a/pygrt/C_extension/src/lamb/grt_lamb1.c
+++ b/pygrt/C_extension/src/lamb/grt_lamb1.c
@@ -111,7 +111,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(T, "t1(%f) > t2(%f).", a1, a2);
                     }
 
-                    Ctrl->T.nt = floor((a2-a1)/delta) + 1;
+                    Ctrl->T.nt = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->T.ts = (real_t*)calloc(Ctrl->T.nt, sizeof(real_t));
                     for(int i=0; i<Ctrl->T.nt; ++i){
                         Ctrl->T.ts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index 1ec2b62..bbec7c3 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -259,7 +259,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     }
 
                     if(nscan == 3 || nscan == 1){
-                        Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                        Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->F.nf; ++i){
                             if(isperiod){
@@ -374,7 +374,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                                     }
                                 }
 
-                                Ctrl->W.nz = floor((a2-a1)/dif) + 1;
+                                Ctrl->W.nz = GRT_RANGE_NUM(a1, a2, dif);
                                 Ctrl->W.zs = (real_t*)calloc(Ctrl->W.nz, sizeof(real_t));
                                 for(size_t i=0; i<Ctrl->W.nz; ++i){
                                     Ctrl->W.zs[i] = a1 + dif*i;
diff --git a/pygrt/C_extension/src/modal/grt_eigenv.c b/pygrt/C_extension/src/modal/grt_eigenv.c
index ae5b2b5..5ff9443 100644
--- a/pygrt/C_extension/src/modal/grt_eigenv.c
+++ b/pygrt/C_extension/src/modal/grt_eigenv.c
@@ -289,7 +289,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         }
                     }
 
-                    Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                    Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
                     Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                     for(size_t i = 0; i < Ctrl->F.nf; ++i){
                         if(isperiod){
diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index b4f18fb..58a4a22 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -210,7 +210,7 @@ static void parse_axis(const char *text, char option, size_t *n, real_t **values
     if(sscanf(text, "%lf/%lf/%lf", &a1, &a2, &delta) != 3 || delta <= 0.0 || a1 > a2){
         GRTRaiseError("Error in \"-%c\". expected x1/x2/dx with x1 <= x2 and dx > 0. Use \"-h\" for help.\n", option);
     }
-    *n = (size_t)floor((a2 - a1) / delta) + 1;
+    *n = GRT_RANGE_NUM(a1, a2, delta);
     *values = (real_t *)calloc(*n, sizeof(real_t));
     if(*values == NULL) GRTRaiseError("failed to allocate receiver axis.");
     for(size_t i = 0; i < *n; ++i) (*values)[i] = a1 + i * delta;
diff --git a/pygrt/C_extension/src/static/grt_static_greenfn.c b/pygrt/C_extension/src/static/grt_static_greenfn.c
index 5ce7c6d..0ed4705 100644
--- a/pygrt/C_extension/src/static/grt_static_greenfn.c
+++ b/pygrt/C_extension/src/static/grt_static_greenfn.c
@@ -467,7 +467,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(X, "x1(%f) > x2(%f).", a1, a2);
                     }
 
-                    Ctrl->X.nnorth = floor((a2-a1)/delta) + 1;
+                    Ctrl->X.nnorth = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->X.norths = (real_t*)calloc(Ctrl->X.nnorth, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->X.nnorth; ++i){
                         Ctrl->X.norths[i] = a1 + delta*i;
@@ -490,7 +490,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(Y, "y1(%f) > y2(%f).", a1, a2);
                     }
 
-                    Ctrl->Y.neast = floor((a2-a1)/delta) + 1;
+                    Ctrl->Y.neast = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->Y.easts = (real_t*)calloc(Ctrl->Y.neast, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->Y.neast; ++i){
                         Ctrl->Y.easts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index a43e04e..ef6439e 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -494,7 +494,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(X, "x1(%f) > x2(%f).", a1, a2);
                     }
 
-                    Ctrl->X.nnorth = floor((a2-a1)/delta) + 1;
+                    Ctrl->X.nnorth = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->X.norths = (real_t*)calloc(Ctrl->X.nnorth, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->X.nnorth; ++i){
                         Ctrl->X.norths[i] = a1 + delta*i;
@@ -517,7 +517,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(Y, "y1(%f) > y2(%f).", a1, a2);
                     }
 
-                    Ctrl->Y.neast = floor((a2-a1)/delta) + 1;
+                    Ctrl->Y.neast = GRT_RANGE_NUM(a1, a2, delta);
                     Ctrl->Y.easts = (real_t*)calloc(Ctrl->Y.neast, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->Y.neast; ++i){
                         Ctrl->Y.easts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index 253e2f0..2e65bcf 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -212,7 +212,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     }
 
                     if(nscan == 3 || nscan == 1){
-                        Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                        Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->F.nf; ++i){
                             if(isperiod){
diff --git a/pygrt/C_extension/src/tools/grt_travt.c b/pygrt/C_extension/src/tools/grt_travt.c
index e24b3dc..4e4420d 100644
--- a/pygrt/C_extension/src/tools/grt_travt.c
+++ b/pygrt/C_extension/src/tools/grt_travt.c
@@ -171,7 +171,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                             place++;
                         } while (place < 8);  // 最多小数点后 8 位
 
-                        Ctrl->R.nr = floor((a2-a1)/delta) + 1;
+                        Ctrl->R.nr = GRT_RANGE_NUM(a1, a2, delta);
                         Ctrl->R.s_rs = (char **)calloc(Ctrl->R.nr, sizeof(char*) * Ctrl->R.nr);
                         for(size_t ir = 0; ir < Ctrl->R.nr; ++ir){
                             GRT_SAFE_ASPRINTF(&Ctrl->R.s_rs[ir], "%.*f", place, a1 + delta*ir);
-- 
2.43.0


From 3d094fbf3d66e65a379cc3f37d68d99167d97ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:05 +0000
Subject: [PATCH 16/57] fix: static strain/rotation/stress without an argument
 (null pointer)

---
 pygrt/C_extension/src/static/grt_static_rotation.c | 3 ++-
 pygrt/C_extension/src/static/grt_static_strain.c   | 3 ++-
 pygrt/C_extension/src/static/grt_static_stress.c   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/static/grt_static_rotation.c b/pygrt/C_extension/src/static/grt_static_rotation.c
index 5786439..c34e20a 100644
--- a/pygrt/C_extension/src/static/grt_static_rotation.c
+++ b/pygrt/C_extension/src/static/grt_static_rotation.c
@@ -55,7 +55,8 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
         }
     }
 
-    // 暂不支持设置其它参数
+    // 检查必选项有没有设置
+    GRTCheckOptionSet(argc > 1);
 }
 
 /** 由静态位移偏导合成旋转张量 */
diff --git a/pygrt/C_extension/src/static/grt_static_strain.c b/pygrt/C_extension/src/static/grt_static_strain.c
index af4b080..62d1f7d 100644
--- a/pygrt/C_extension/src/static/grt_static_strain.c
+++ b/pygrt/C_extension/src/static/grt_static_strain.c
@@ -52,7 +52,8 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
         }
     }
 
-    // 暂不支持设置其它参数
+    // 检查必选项有没有设置
+    GRTCheckOptionSet(argc > 1);
 }
 
 /** 由静态位移偏导合成应变张量 */
diff --git a/pygrt/C_extension/src/static/grt_static_stress.c b/pygrt/C_extension/src/static/grt_static_stress.c
index aacea2d..c4b72bf 100644
--- a/pygrt/C_extension/src/static/grt_static_stress.c
+++ b/pygrt/C_extension/src/static/grt_static_stress.c
@@ -55,7 +55,8 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
         }
     }
 
-    // 暂不支持设置其它参数
+    // 检查必选项有没有设置
+    GRTCheckOptionSet(argc > 1);
 }
 
 /** 由静态位移偏导合成应力张量 */
-- 
2.43.0


From b3021eef4da85250a520135f98388a69748fdbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:33 +0000
Subject: [PATCH 17/57] fix: ranges with an absurd or undefined number of
 points refused (float to size_t overflow, null array)

---
 pygrt/C_extension/include/grt/common/const.h      |  1 -
 pygrt/C_extension/include/grt/common/util.h       | 11 +++++++++++
 pygrt/C_extension/src/common/util.c               | 12 +++++++++++-
 pygrt/C_extension/src/dynamic/grt_kernel.c        |  6 +++---
 pygrt/C_extension/src/lamb/grt_lamb1.c            |  2 +-
 pygrt/C_extension/src/modal/grt_eigenfn.c         |  4 ++--
 pygrt/C_extension/src/modal/grt_eigenv.c          |  2 +-
 pygrt/C_extension/src/okada/grt_okada.c           |  2 +-
 pygrt/C_extension/src/static/grt_static_greenfn.c |  4 ++--
 pygrt/C_extension/src/static/grt_static_syn.c     |  4 ++--
 pygrt/C_extension/src/tools/grt_disp2asc.c        |  2 +-
 pygrt/C_extension/src/tools/grt_travt.c           |  2 +-
 12 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/const.h b/pygrt/C_extension/include/grt/common/const.h
index ef0fa39..f7b462a 100755
--- a/pygrt/C_extension/include/grt/common/const.h
+++ b/pygrt/C_extension/include/grt/common/const.h
@@ -78,7 +78,6 @@ typedef double complex cplx_t;
 
 #define GRT_MAX(a, b) ((a) > (b) ? (a) : (b))  ///< 求两者较大值
 #define GRT_MIN(a, b) ((a) < (b) ? (a) : (b))  ///< 求两者较小值
-#define GRT_RANGE_NUM(a1, a2, d) ((size_t)floor(((a2) - (a1)) / (d) + 1e-6) + 1)  ///< 等间距范围 a1/a2/d 的点数（包含终点，容许浮点误差）
 
 #define GRT_SQUARE(x) ((x) * (x))  ///< 计算一个数的平方
 
diff --git a/pygrt/C_extension/include/grt/common/util.h b/pygrt/C_extension/include/grt/common/util.h
index 7e9ad7c..adb082d 100644
--- a/pygrt/C_extension/include/grt/common/util.h
+++ b/pygrt/C_extension/include/grt/common/util.h
@@ -37,6 +37,17 @@ char ** grt_string_split(const char *string, const char *delim, size_t *size);
  */
 char ** grt_string_from_file(FILE *fp, size_t *size);
 
+/**
+ * 等间距范围 a1/a2/delta 的点数（包含终点，容许浮点误差），点数不合理时报错退出
+ *
+ * @param[in]    a1       起点
+ * @param[in]    a2       终点
+ * @param[in]    delta    间隔
+ *
+ * @return   点数
+ */
+size_t grt_range_num(const real_t a1, const real_t a2, const real_t delta);
+
 /**
  * 从逗号列表、等间距范围或文本文件中读取非负且严格升序的数值数组
  *
diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index 372fa19..25caf0e 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -62,6 +62,16 @@ char ** grt_string_from_file(FILE *fp, size_t *size){
     return s_split;
 }
 
+size_t grt_range_num(const real_t a1, const real_t a2, const real_t delta)
+{
+    real_t n = floor((a2 - a1) / delta + 1e-6) + 1.0;
+    // 排除 nan/inf 以及超出内存的点数
+    if(!(n >= 1.0 && n <= 1e8)){
+        GRTRaiseError("Invalid number of points in range %g/%g/%g.", a1, a2, delta);
+    }
+    return (size_t)n;
+}
+
 real_t *grt_parse_real_array(const char *optarg, size_t *size, char ***s_values, char optname)
 {
     real_t a1, a2, delta;
@@ -80,7 +90,7 @@ real_t *grt_parse_real_array(const char *optarg, size_t *size, char ***s_values,
         if(a1 > a2){
             GRTRaiseError("-%c: start (%f) > end (%f).", optname, a1, a2);
         }
-        n = GRT_RANGE_NUM(a1, a2, delta);
+        n = grt_range_num(a1, a2, delta);
         s_vals = (char **)calloc(n, sizeof(char *));
         for(size_t i = 0; i < n; ++i){
             GRT_SAFE_ASPRINTF(&s_vals[i], "%.15g", a1 + delta * i);
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 55f1024..5be1065 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -266,7 +266,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                         }
                     }
 
-                    Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
+                    Ctrl->F.nf = grt_range_num(a1, a2, df);
                     // 至少要有两个频率点，才能在程序中用差分计算 df
                     if(Ctrl->F.nf < 2){
                         GRTBadOptionError(F, "Too few frequency points, only %zu.", Ctrl->F.nf);
@@ -315,7 +315,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                             GRTBadOptionError(C, "cmin(%lf) >= cmax(%lf).", Ctrl->C.cmin, Ctrl->C.cmax);
                         }
 
-                        Ctrl->C.nc = GRT_RANGE_NUM(a1, a2, df);
+                        Ctrl->C.nc = grt_range_num(a1, a2, df);
                         Ctrl->C.c_phases = (real_t *)calloc(Ctrl->C.nc, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->C.nc; ++i){
                             Ctrl->C.c_phases[i] = a1 + df*i;
@@ -395,7 +395,7 @@ int kernel_main(int argc, char **argv)
     {
         Ctrl->C.cmin = 0.8 * vmin;
         Ctrl->C.cmax = vmax;
-        Ctrl->C.nc = floor((Ctrl->C.cmax - Ctrl->C.cmin)/Ctrl->C.dc) + 1;
+        Ctrl->C.nc = grt_range_num(Ctrl->C.cmin, Ctrl->C.cmax, Ctrl->C.dc);
         Ctrl->C.c_phases = (real_t *)calloc(Ctrl->C.nc, sizeof(real_t));
         for(size_t i=0; i<Ctrl->C.nc; ++i){
             Ctrl->C.c_phases[i] = Ctrl->C.cmin + Ctrl->C.dc*i;
diff --git a/pygrt/C_extension/src/lamb/grt_lamb1.c b/pygrt/C_extension/src/lamb/grt_lamb1.c
index 927d89d..3acf939 100644
--- a/pygrt/C_extension/src/lamb/grt_lamb1.c
+++ b/pygrt/C_extension/src/lamb/grt_lamb1.c
@@ -111,7 +111,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(T, "t1(%f) > t2(%f).", a1, a2);
                     }
 
-                    Ctrl->T.nt = GRT_RANGE_NUM(a1, a2, delta);
+                    Ctrl->T.nt = grt_range_num(a1, a2, delta);
                     Ctrl->T.ts = (real_t*)calloc(Ctrl->T.nt, sizeof(real_t));
                     for(int i=0; i<Ctrl->T.nt; ++i){
                         Ctrl->T.ts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index bbec7c3..28c107f 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -259,7 +259,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     }
 
                     if(nscan == 3 || nscan == 1){
-                        Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
+                        Ctrl->F.nf = grt_range_num(a1, a2, df);
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->F.nf; ++i){
                             if(isperiod){
@@ -374,7 +374,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                                     }
                                 }
 
-                                Ctrl->W.nz = GRT_RANGE_NUM(a1, a2, dif);
+                                Ctrl->W.nz = grt_range_num(a1, a2, dif);
                                 Ctrl->W.zs = (real_t*)calloc(Ctrl->W.nz, sizeof(real_t));
                                 for(size_t i=0; i<Ctrl->W.nz; ++i){
                                     Ctrl->W.zs[i] = a1 + dif*i;
diff --git a/pygrt/C_extension/src/modal/grt_eigenv.c b/pygrt/C_extension/src/modal/grt_eigenv.c
index 5ff9443..8bf28aa 100644
--- a/pygrt/C_extension/src/modal/grt_eigenv.c
+++ b/pygrt/C_extension/src/modal/grt_eigenv.c
@@ -289,7 +289,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         }
                     }
 
-                    Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
+                    Ctrl->F.nf = grt_range_num(a1, a2, df);
                     Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                     for(size_t i = 0; i < Ctrl->F.nf; ++i){
                         if(isperiod){
diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index 58a4a22..3460712 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -210,7 +210,7 @@ static void parse_axis(const char *text, char option, size_t *n, real_t **values
     if(sscanf(text, "%lf/%lf/%lf", &a1, &a2, &delta) != 3 || delta <= 0.0 || a1 > a2){
         GRTRaiseError("Error in \"-%c\". expected x1/x2/dx with x1 <= x2 and dx > 0. Use \"-h\" for help.\n", option);
     }
-    *n = GRT_RANGE_NUM(a1, a2, delta);
+    *n = grt_range_num(a1, a2, delta);
     *values = (real_t *)calloc(*n, sizeof(real_t));
     if(*values == NULL) GRTRaiseError("failed to allocate receiver axis.");
     for(size_t i = 0; i < *n; ++i) (*values)[i] = a1 + i * delta;
diff --git a/pygrt/C_extension/src/static/grt_static_greenfn.c b/pygrt/C_extension/src/static/grt_static_greenfn.c
index 0ed4705..c36224c 100644
--- a/pygrt/C_extension/src/static/grt_static_greenfn.c
+++ b/pygrt/C_extension/src/static/grt_static_greenfn.c
@@ -467,7 +467,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(X, "x1(%f) > x2(%f).", a1, a2);
                     }
 
-                    Ctrl->X.nnorth = GRT_RANGE_NUM(a1, a2, delta);
+                    Ctrl->X.nnorth = grt_range_num(a1, a2, delta);
                     Ctrl->X.norths = (real_t*)calloc(Ctrl->X.nnorth, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->X.nnorth; ++i){
                         Ctrl->X.norths[i] = a1 + delta*i;
@@ -490,7 +490,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(Y, "y1(%f) > y2(%f).", a1, a2);
                     }
 
-                    Ctrl->Y.neast = GRT_RANGE_NUM(a1, a2, delta);
+                    Ctrl->Y.neast = grt_range_num(a1, a2, delta);
                     Ctrl->Y.easts = (real_t*)calloc(Ctrl->Y.neast, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->Y.neast; ++i){
                         Ctrl->Y.easts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index ef6439e..9476e55 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -494,7 +494,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(X, "x1(%f) > x2(%f).", a1, a2);
                     }
 
-                    Ctrl->X.nnorth = GRT_RANGE_NUM(a1, a2, delta);
+                    Ctrl->X.nnorth = grt_range_num(a1, a2, delta);
                     Ctrl->X.norths = (real_t*)calloc(Ctrl->X.nnorth, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->X.nnorth; ++i){
                         Ctrl->X.norths[i] = a1 + delta*i;
@@ -517,7 +517,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(Y, "y1(%f) > y2(%f).", a1, a2);
                     }
 
-                    Ctrl->Y.neast = GRT_RANGE_NUM(a1, a2, delta);
+                    Ctrl->Y.neast = grt_range_num(a1, a2, delta);
                     Ctrl->Y.easts = (real_t*)calloc(Ctrl->Y.neast, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->Y.neast; ++i){
                         Ctrl->Y.easts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index 2e65bcf..e00fe25 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -212,7 +212,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     }
 
                     if(nscan == 3 || nscan == 1){
-                        Ctrl->F.nf = GRT_RANGE_NUM(a1, a2, df);
+                        Ctrl->F.nf = grt_range_num(a1, a2, df);
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->F.nf; ++i){
                             if(isperiod){
diff --git a/pygrt/C_extension/src/tools/grt_travt.c b/pygrt/C_extension/src/tools/grt_travt.c
index 4e4420d..0c57ed2 100644
--- a/pygrt/C_extension/src/tools/grt_travt.c
+++ b/pygrt/C_extension/src/tools/grt_travt.c
@@ -171,7 +171,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                             place++;
                         } while (place < 8);  // 最多小数点后 8 位
 
-                        Ctrl->R.nr = GRT_RANGE_NUM(a1, a2, delta);
+                        Ctrl->R.nr = grt_range_num(a1, a2, delta);
                         Ctrl->R.s_rs = (char **)calloc(Ctrl->R.nr, sizeof(char*) * Ctrl->R.nr);
                         for(size_t ir = 0; ir < Ctrl->R.nr; ++ir){
                             GRT_SAFE_ASPRINTF(&Ctrl->R.s_rs[ir], "%.*f", place, a1 + delta*ir);
-- 
2.43.0


From 422d31e192aa9aeed8127de9e859252b79848784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:36 +0000
Subject: [PATCH 18/57] fix: group-velocity sensitivity when the next frequency
 has fewer modes (out-of-bounds read)

---
 pygrt/C_extension/src/modal/modal_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/modal/modal_util.c b/pygrt/C_extension/src/modal/modal_util.c
index 30edb05..ceebd2f 100644
--- a/pygrt/C_extension/src/modal/modal_util.c
+++ b/pygrt/C_extension/src/modal/modal_util.c
@@ -143,9 +143,9 @@ void grt_group_sensitivity(EIGENFN_INFO *eigfnmet)
             for(size_t iz = 0; iz < eigfnmet->cpar_nz; ++iz){
                 // 层内的物理量
                 for(int ia = 0; ia < GRT_SNSTVTY_MAX; ++ia){
-                    // 计算相速度敏感核在频率上的差分
+                    // 计算相速度敏感核在频率上的差分，下一个频率可能不存在该阶次
                     real_t ddCdwdX = 0.0;
-                    if(iw < eigfnmet->nf-1){
+                    if(iw < eigfnmet->nf-1 && ic < eigfnmet->eigv[iw+1].n){
                         EIGENFN *eigfn_w1 = &eigfnmet->eigfn[iw+1][ic];
 
                         ddCdwdX = eigfn_w1->csens[iz][ia] - eigfn->csens[iz][ia];
-- 
2.43.0


From 55676ee288f594825e432c35db7dd938a4dfff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:28 +0000
Subject: [PATCH 19/57] fix: -F/-N/-W/-X given only '+' characters (null
 pointer)

---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 2 +-
 pygrt/C_extension/src/dynamic/grt_kernel.c  | 2 +-
 pygrt/C_extension/src/modal/grt_eigenfn.c   | 4 ++--
 pygrt/C_extension/src/modal/grt_eigenv.c    | 4 ++--
 pygrt/C_extension/src/tools/grt_disp2asc.c  | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 82257c0..20b8364 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -483,7 +483,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                 {
                     char *string = strdup(optarg);
                     char *token = strtok(string, "+");
-                    if(2 != sscanf(token, "%zu/%lf", &Ctrl->N.nt, &Ctrl->N.dt)){
+                    if(token == NULL || 2 != sscanf(token, "%zu/%lf", &Ctrl->N.nt, &Ctrl->N.dt)){
                         GRTBadOptionError(N, "");
                     };
                     if(Ctrl->N.nt <= 0 || Ctrl->N.dt <= 0.0){
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 5be1065..a63fb18 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -231,7 +231,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                     char *token = strtok(string, "+");
                     real_t a1, a2, df;
                     a1 = a2 = df = 0;
-                    if(3 != sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df)){
+                    if(token == NULL || 3 != sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df)){
                         GRTBadOptionError(F, "");
                     };
                     if(df <= 0){
diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index 28c107f..f553f64 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -215,7 +215,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     real_t a1, a2, df;
                     a1 = a2 = 0;
                     df = 1;
-                    int nscan = sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
+                    int nscan = (token == NULL)? 0 : sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
                     if( !(nscan == 1 || nscan == 2 || nscan == 3)){
                         GRTBadOptionError(F, "");
                     };
@@ -340,7 +340,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                 {
                     char *string = strdup(optarg);
                     char *token = strtok(string, "+");
-                    if(strlen(token) == 0){
+                    if(token == NULL || strlen(token) == 0){
                         GRTBadOptionError(W, "");
                     }
                     Ctrl->W.s_egn_filepath = strdup(token);
diff --git a/pygrt/C_extension/src/modal/grt_eigenv.c b/pygrt/C_extension/src/modal/grt_eigenv.c
index 8bf28aa..67da08f 100644
--- a/pygrt/C_extension/src/modal/grt_eigenv.c
+++ b/pygrt/C_extension/src/modal/grt_eigenv.c
@@ -248,7 +248,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     char *token = strtok(string, "+");
                     real_t a1, a2, df;
                     a1 = a2 = df = 0;
-                    int nscan = sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
+                    int nscan = (token == NULL)? 0 : sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
                     if( !(nscan == 1 || nscan == 3)){
                         GRTBadOptionError(F, "");
                     };
@@ -310,7 +310,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     char *string = strdup(optarg);
                     char *token = strtok(string, "+");
                     real_t fx = -1.0;
-                    if(1 != sscanf(token, "%lf", &fx)){
+                    if(token == NULL || 1 != sscanf(token, "%lf", &fx)){
                         GRTBadOptionError(X, "");
                     }
                     if(fx <= 0){
diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index e00fe25..be8902b 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -168,7 +168,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     real_t a1, a2, df;
                     a1 = a2 = 0;
                     df = 1;
-                    int nscan = sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
+                    int nscan = (token == NULL)? 0 : sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
                     if( !(nscan == 1 || nscan == 2 || nscan == 3)){
                         GRTBadOptionError(F, "");
                     };
-- 
2.43.0


From e74851e8adbc9292eb6a976df7549dc61aef2694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:48 +0000
Subject: [PATCH 20/57] fix: float to integer overflow in time-function
 lengths, travt -R range and PTAM waiting counts

---
 pygrt/C_extension/src/dynamic/signals.c | 20 +++++++++++++++-----
 pygrt/C_extension/src/integral/ptam.c   |  2 +-
 pygrt/C_extension/src/tools/grt_travt.c |  2 +-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/signals.c b/pygrt/C_extension/src/dynamic/signals.c
index 849b3b0..b657db1 100644
--- a/pygrt/C_extension/src/dynamic/signals.c
+++ b/pygrt/C_extension/src/dynamic/signals.c
@@ -194,9 +194,19 @@ void grt_differential(float *x, int nx, float dt){
 }
 
 
+/** 时长对应的采样间隔数，过长（或未定义）时报错退出 */
+static int get_interval_num(float tlen, float dt){
+    float n = floorf(tlen/dt);
+    if( ! (fabsf(n) < 1e8f)){
+        GRTRaiseError("window length of time function (%g) is too long for sampling interval (%g).\n", tlen, dt);
+    }
+    return (int)n;
+}
+
+
 float * grt_get_parabola_wave(float dt, float *Tlen, int *Nt){
     float tlen = *Tlen;
-    int nt = floorf(tlen/dt);
+    int nt = get_interval_num(tlen, dt);
     if(fabsf(tlen - nt*dt) <= 1e-6) nt--;
     if(nt==0) {
         GRTRaiseError("window length of time function is too short.\n");
@@ -224,7 +234,7 @@ float * grt_get_trap_wave(float dt, float *T1, float *T2, float *T3, int *Nt){
 
     // 微调T1
     float t1 = *T1;
-    int n1 = floorf(t1/dt);
+    int n1 = get_interval_num(t1, dt);
     if((fabsf(t1 - n1*dt)) <= 1e-6) n1--;
     n1 += 2;
     t1 = (n1-1)*dt;
@@ -236,7 +246,7 @@ float * grt_get_trap_wave(float dt, float *T1, float *T2, float *T3, int *Nt){
         t2 = t1;
     } else {
         t2 = *T2;
-        n2 = floorf((t2-t1)/dt);
+        n2 = get_interval_num(t2-t1, dt);
         if((fabsf(t2-t1 - n2*dt)) <= 1e-6) n2--;
         n2 += 2;
         t2 = t1 + (n2-1)*dt;
@@ -244,7 +254,7 @@ float * grt_get_trap_wave(float dt, float *T1, float *T2, float *T3, int *Nt){
     
     // 微调T3
     float t3 = *T3;
-    int n3 = floorf((t3-t2)/dt);
+    int n3 = get_interval_num(t3-t2, dt);
     if((fabsf(t3-t2 - n3*dt)) <= 1e-6) n3--;
     n3 += 2;
     t3 = t2 + (n3-1)*dt;
@@ -290,7 +300,7 @@ float * grt_get_ricker_wave(float dt, float f0, int *Nt){
     }
 
     float t0 = 1.0/f0;
-    int nt = (floorf(t0/dt) + 1) * 2; // 估计2倍长度够包含
+    int nt = (get_interval_num(t0, dt) + 1) * 2; // 估计2倍长度够包含
     float *arr = (float*)calloc(nt, sizeof(float));
 
     float PPI = PI*PI;
diff --git a/pygrt/C_extension/src/integral/ptam.c b/pygrt/C_extension/src/integral/ptam.c
index 59dca8b..40b3c1e 100755
--- a/pygrt/C_extension/src/integral/ptam.c
+++ b/pygrt/C_extension/src/integral/ptam.c
@@ -286,7 +286,7 @@ void grt_PTA_method(
     bool *iendkrs = (bool *)calloc(nr, sizeof(*iendkrs));
     for(size_t ir = 0; ir < nr; ++ir){
         if(GRT_IS_ZERO(rs[ir]))  continue;
-        waits_max[ir] = (size_t)ceil(PI/(rs[ir]*dk)) + 5;  // + 5 以防万一
+        waits_max[ir] = (size_t)GRT_MIN(ceil(PI/(rs[ir]*dk)), 1e9) + 5;  // + 5 以防万一
         if(waits_max[ir] < GRT_PTAM_WINDOW_SIZE-1){
             waits_max[ir] = GRT_PTAM_WINDOW_SIZE-1;
         }
diff --git a/pygrt/C_extension/src/tools/grt_travt.c b/pygrt/C_extension/src/tools/grt_travt.c
index 0c57ed2..b8b3ff3 100644
--- a/pygrt/C_extension/src/tools/grt_travt.c
+++ b/pygrt/C_extension/src/tools/grt_travt.c
@@ -160,7 +160,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         do {
                             bool agree = true;
                             for(size_t i = 0; i < 3; ++i)  {
-                                real_t new_frac = test[i] - (int)test[i];
+                                real_t new_frac = test[i] - trunc(test[i]);
                                 test[i] *= 10.0;
                                 // 如果乘以10后变成整数（或非常接近整数）
                                 if (fabs(new_frac) > 1e-8) {
-- 
2.43.0


From 83f3446f49a50385a72f5d9a5e20e887cbdab904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:32 +0000
Subject: [PATCH 21/57] fix: wavenumber interval that is nonpositive or gives
 an absurd number of points refused

---
 .../include/grt/integral/integ_process.h            | 10 ++++++++++
 pygrt/C_extension/src/dynamic/grn.c                 |  3 +++
 pygrt/C_extension/src/integral/integ_process.c      | 13 +++++++++++++
 pygrt/C_extension/src/static/static_grn.c           |  2 ++
 4 files changed, 28 insertions(+)

diff --git a/pygrt/C_extension/include/grt/integral/integ_process.h b/pygrt/C_extension/include/grt/integral/integ_process.h
index 7e0733a..3f50505 100644
--- a/pygrt/C_extension/include/grt/integral/integ_process.h
+++ b/pygrt/C_extension/include/grt/integral/integ_process.h
@@ -64,6 +64,16 @@ typedef struct {
 } K_INTEG_PROCESS;
 
 
+/**
+ * 检查波数积分间隔，积分点数不合理（间隔非正、过小或未定义）时报错退出
+ * 
+ * @param[in]      Kproc         K_INTEG_PROCESS 结构体指针
+ * @param[in]      kmax          积分上限
+ * 
+ */
+void grt_KPROC_check_dk(const K_INTEG_PROCESS *Kproc, const real_t kmax);
+
+
 /**
  * 初始化 K_INTEG_PROCESS 结构体中的文件指针
  * 
diff --git a/pygrt/C_extension/src/dynamic/grn.c b/pygrt/C_extension/src/dynamic/grn.c
index 33afeec..36d7866 100755
--- a/pygrt/C_extension/src/dynamic/grn.c
+++ b/pygrt/C_extension/src/dynamic/grn.c
@@ -104,6 +104,9 @@ void grt_integ_grn_spec(MODEL1D *mod1d, K_INTEG_PROCESS *Kproc, GRNSPEC *grn, co
     // 实际计算的频点数
     size_t nf_valid = grn->nf2 - nf1_valid + 1;
 
+    // 最高频率的积分上限对应的积分点数
+    grt_KPROC_check_dk(Kproc, hypot(Kproc->k0, Kproc->ampk * PI2*grn->freqs[grn->nf2] / Kproc->vmin));
+
     // 频率omega循环
     // schedule语句可以动态调度任务，最大程度地使用计算资源
     #pragma omp parallel for schedule(guided) default(shared) 
diff --git a/pygrt/C_extension/src/integral/integ_process.c b/pygrt/C_extension/src/integral/integ_process.c
index dfd7704..048d67c 100644
--- a/pygrt/C_extension/src/integral/integ_process.c
+++ b/pygrt/C_extension/src/integral/integ_process.c
@@ -17,6 +17,19 @@
 
 
 
+void grt_KPROC_check_dk(const K_INTEG_PROCESS *Kproc, const real_t kmax)
+{
+    const real_t max_nk = 1e9;
+    bool valid = (Kproc->dk > 0.0 && kmax/Kproc->dk < max_nk);
+    if(Kproc->applyFIM){
+        valid = valid && (Kproc->filondk > 0.0 && kmax/Kproc->filondk < max_nk);
+    }
+    if(!valid){
+        GRTRaiseError("Invalid wavenumber interval (dk = %.3e, kmax = %.3e).", Kproc->dk, kmax);
+    }
+}
+
+
 void grt_KPROC_init_fstats(
     const size_t nr, const real_t *rs, 
     const char *statsstr, const char *suffix, K_INTEG_PROCESS *Kproc)
diff --git a/pygrt/C_extension/src/static/static_grn.c b/pygrt/C_extension/src/static/static_grn.c
index eaf2c17..1e08656 100644
--- a/pygrt/C_extension/src/static/static_grn.c
+++ b/pygrt/C_extension/src/static/static_grn.c
@@ -86,6 +86,8 @@ void grt_integ_static_grn(
         rs_refidx[ir] = jr;
     }
 
+    grt_KPROC_check_dk(Kproc, Kproc->k0);
+
     // 是否要输出积分过程文件
     bool needfstats = (statsstr!=NULL);
 
-- 
2.43.0


From 7f6901dca08d918fd25e886b8a1bc795fb7ac8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:32 +0000
Subject: [PATCH 22/57] fix: nan or inf depths and model values refused
 (out-of-bounds layer index)

---
 pygrt/C_extension/src/common/model.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pygrt/C_extension/src/common/model.c b/pygrt/C_extension/src/common/model.c
index efafb93..d7999f7 100755
--- a/pygrt/C_extension/src/common/model.c
+++ b/pygrt/C_extension/src/common/model.c
@@ -130,6 +130,10 @@ real_t (* grt_read_modarr_from_file(
             io_depth = true;
         }
 
+        // 品质因子允许为 inf
+        if( ! (isfinite(h) && isfinite(va) && isfinite(vb) && isfinite(rho)) || isnan(qa) || isnan(qb)){
+            GRTRaiseError("In model file, line %zu, non-finite value is not supported.\n", iline);
+        }
         if(va <= 0.0 || rho <= 0.0 || (ncols == nscan && (qa <= 0.0 || qb <= 0.0))){
             GRTRaiseError("In model file, line %zu, nonpositive value is not supported.\n", iline);
         }
@@ -197,6 +201,9 @@ void grt_modarr_medium_at_depth(
 
 MODEL1D * grt_read_mod1d_from_file(const char *modelpath, real_t depsrc, real_t deprcv, bool allowLiquid)
 {
+    if( ! (isfinite(depsrc) && isfinite(deprcv))){
+        GRTRaiseError("depsrc and deprcv should be finite.");
+    }
     if(depsrc * deprcv < 0.0){
         GRTRaiseError("depsrc and deprcv should have the same sign.");
     }
-- 
2.43.0


From ad770784ecc0556212b1069c1bc89cfdb8889347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:32 +0000
Subject: [PATCH 23/57] fix: travt -R range allocated nr*nr pointers

---
 pygrt/C_extension/src/tools/grt_travt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/tools/grt_travt.c b/pygrt/C_extension/src/tools/grt_travt.c
index b8b3ff3..7b1c9ed 100644
--- a/pygrt/C_extension/src/tools/grt_travt.c
+++ b/pygrt/C_extension/src/tools/grt_travt.c
@@ -172,7 +172,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         } while (place < 8);  // 最多小数点后 8 位
 
                         Ctrl->R.nr = grt_range_num(a1, a2, delta);
-                        Ctrl->R.s_rs = (char **)calloc(Ctrl->R.nr, sizeof(char*) * Ctrl->R.nr);
+                        Ctrl->R.s_rs = (char **)calloc(Ctrl->R.nr, sizeof(char*));
                         for(size_t ir = 0; ir < Ctrl->R.nr; ++ir){
                             GRT_SAFE_ASPRINTF(&Ctrl->R.s_rs[ir], "%.*f", place, a1 + delta*ir);
                         }
-- 
2.43.0


From 8d2c72ecd80316a3e2ab4b5bcd9d478cafb2376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:34 +0000
Subject: [PATCH 24/57] fix: finite fault with an absurd number of subfaults
 refused (float to size_t overflow)

---
 pygrt/C_extension/src/common/finite_fault.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygrt/C_extension/src/common/finite_fault.c b/pygrt/C_extension/src/common/finite_fault.c
index 5356c90..a3c140c 100644
--- a/pygrt/C_extension/src/common/finite_fault.c
+++ b/pygrt/C_extension/src/common/finite_fault.c
@@ -188,6 +188,9 @@ void grt_finite_fault_subdiv(
     if(*W <= 0.0 || *L <= 0.0){
         GRTRaiseError("fault along-dip/along-strike length must be positive (W=%.6g, L=%.6g).", *W, *L);
     }
+    if(! (*W / dW < 1e6 && *L / dL < 1e6)){
+        GRTRaiseError("too many subfaults (W/dW=%.6g, L/dL=%.6g).", *W / dW, *L / dL);
+    }
     // 整除时浮点误差可使商略大于整数，不能因此多出一个零尺寸的末块
     *nW = GRT_MAX(1, (size_t)ceil(*W / dW - 1e-8));
     *nL = GRT_MAX(1, (size_t)ceil(*L / dL - 1e-8));
-- 
2.43.0


From acc7c92cdb4db563e3a5a4a11c5604f397473dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:53 +0000
Subject: [PATCH 25/57] fix: Rayleigh roots not searched above the half-space
 velocity (leaky waves reported as modes)

---
 pygrt/C_extension/src/modal/root.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/src/modal/root.c b/pygrt/C_extension/src/modal/root.c
index 1b31c72..6334b4c 100644
--- a/pygrt/C_extension/src/modal/root.c
+++ b/pygrt/C_extension/src/modal/root.c
@@ -693,9 +693,10 @@ static void get_secular_roots_single_freq(MODEL1D_STATE *mstat, EIGENV_INFO *eig
             if(iy < mstat->mod1d->n){
                 real_t target = grt_halfspace_Rayleigh_croot(mstat, iy);
                 cpred = (real_t *)realloc(cpred, sizeof(real_t)*(npred+2));
-                grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
+                // 不能超过半空间速度，否则会搜索到泄漏模式
+                if(target < cmax)  grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
                 target *= 0.95;
-                grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
+                if(target < cmax)  grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
             }
         }
         // 在 cpred 中补充 Scholte 波的估计根
@@ -714,9 +715,9 @@ static void get_secular_roots_single_freq(MODEL1D_STATE *mstat, EIGENV_INFO *eig
                     }
                     real_t target = grt_halfspace_Scholte_croot(mstat, iref_liquid, iref_solid);
                     cpred = (real_t *)realloc(cpred, sizeof(real_t)*(npred+2));
-                    grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
+                    if(target < cmax)  grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
                     target *= 0.95;
-                    grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
+                    if(target < cmax)  grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
                 }
             }
         }
-- 
2.43.0


From 2827c59f41968d42bb779ed107e32fe014b1d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:53 +0000
Subject: [PATCH 26/57] fix: no false Rayleigh root at c = 1 km/s from a jump
 in the scaling of the solid-liquid secular function

---
 pygrt/C_extension/src/modal/secular.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/modal/secular.c b/pygrt/C_extension/src/modal/secular.c
index e941bca..c2d60ea 100644
--- a/pygrt/C_extension/src/modal/secular.c
+++ b/pygrt/C_extension/src/modal/secular.c
@@ -457,8 +457,8 @@ void grt_secular_function_potential_Rayl(
                - R3[0][1] * (R3[1][0] * R3[2][2] - R3[1][2] * R3[2][0])
                + R3[0][2] * (R3[1][0] * R3[2][1] - R3[1][1] * R3[2][0]);
 
-        // 适当调整幅值
-        if(cphase < cref && cphase > 1.0){
+        // 适当调整幅值（在 cphase = 0.5 处连续，避免形成虚假波谷）
+        if(cphase < cref && 2.0*cphase > 1.0){
             *psec /= 4.0*cphase*cphase;
         }
 
-- 
2.43.0


From 1561e3dbc4875d7c7f33a7094d7aee0d74d513e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:42 +0000
Subject: [PATCH 27/57] fix: Rayleigh search reaches below the smallest S
 velocity when another layer or the half-space carries a slower Rayleigh wave

---
 pygrt/C_extension/src/modal/root.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pygrt/C_extension/src/modal/root.c b/pygrt/C_extension/src/modal/root.c
index 6334b4c..0ffc10a 100644
--- a/pygrt/C_extension/src/modal/root.c
+++ b/pygrt/C_extension/src/modal/root.c
@@ -699,6 +699,17 @@ static void get_secular_roots_single_freq(MODEL1D_STATE *mstat, EIGENV_INFO *eig
                 if(target < cmax)  grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
             }
         }
+        // 其它固体层（包括半空间）的 Rayleigh 波可能比最小 S 波速度更慢，需降低搜索下限
+        if(eigmet->wtype == GRT_DISPERSION_RAYL)
+        {
+            for(size_t iy = 0; iy < mstat->mod1d->n; ++iy){
+                if(mstat->mod1d->isLiquid[iy]) continue;
+                real_t target = 0.95 * grt_halfspace_Rayleigh_croot(mstat, iy);
+                if(target >= cpred[0]) continue;
+                cpred = (real_t *)realloc(cpred, sizeof(real_t)*(npred+1));
+                grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
+            }
+        }
         // 在 cpred 中补充 Scholte 波的估计根
         if(eigmet->wtype == GRT_DISPERSION_RAYL){
             for(size_t iy = 0; iy < mstat->mod1d->n - 1; ++iy){
-- 
2.43.0


From c64f23492b22acc44223ec0852f8d99841d5e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:42 +0000
Subject: [PATCH 28/57] fix: no false Rayleigh root at the half-space Rayleigh
 velocity of the first layer (singular free-surface matrix skipped the layers
 below)

---
 pygrt/C_extension/src/modal/secular.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygrt/C_extension/src/modal/secular.c b/pygrt/C_extension/src/modal/secular.c
index c2d60ea..641e29b 100644
--- a/pygrt/C_extension/src/modal/secular.c
+++ b/pygrt/C_extension/src/modal/secular.c
@@ -205,18 +205,18 @@ void grt_GRT_matrix_Rayl(MODEL1D_STATE *mstat, const real_t k, const size_t iref
     } // END for loop 
     //===================================================================================
 
+    // 先递推 RD_RL，首层的久期函数只需要它，而自由表面的 RU 在首层半空间 Rayleigh 波速度处奇异
+    grt_botbound_RD_PSV(mstat);
+    if(M_bot->stats==GRT_INVERSE_FAILURE)  goto BEFORE_RETURN;
+    grt_recursion_RD_PSV(M_BL, M_bot, M_BL);
+    if(M_BL->stats==GRT_INVERSE_FAILURE)  goto BEFORE_RETURN;
+
     // 递推 RU_FR
     grt_topbound_RU_PSV(mstat);
     if(M_top->stats==GRT_INVERSE_FAILURE)  goto BEFORE_RETURN;
     grt_recursion_RU_PSV(M_top, M_FA, M_FA);
     if(M_FA->stats==GRT_INVERSE_FAILURE)  goto BEFORE_RETURN;
 
-    // 递推 RD_RL
-    grt_botbound_RD_PSV(mstat);
-    if(M_bot->stats==GRT_INVERSE_FAILURE)  goto BEFORE_RETURN;
-    grt_recursion_RD_PSV(M_BL, M_bot, M_BL);
-    if(M_BL->stats==GRT_INVERSE_FAILURE)  goto BEFORE_RETURN;
-
     BEFORE_RETURN:
     return;
 }
-- 
2.43.0


From b96e5e6707a88ca24a0bb7bc83532df6dd0ebb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:48 +0000
Subject: [PATCH 29/57] fix: sampling points of the root search kept off the
 singular half-space Rayleigh and Scholte velocities (false roots)

---
 pygrt/C_extension/src/modal/root.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/modal/root.c b/pygrt/C_extension/src/modal/root.c
index 0ffc10a..461d8e9 100644
--- a/pygrt/C_extension/src/modal/root.c
+++ b/pygrt/C_extension/src/modal/root.c
@@ -691,7 +691,8 @@ static void get_secular_roots_single_freq(MODEL1D_STATE *mstat, EIGENV_INFO *eig
                 if(! mstat->mod1d->isLiquid[iy]) break;
             }
             if(iy < mstat->mod1d->n){
-                real_t target = grt_halfspace_Rayleigh_croot(mstat, iy);
+                // 略微偏离，自由表面的反射系数在该速度处奇异，恰好采样到会得到错误的久期函数值
+                real_t target = grt_halfspace_Rayleigh_croot(mstat, iy) * (1.0 - 1e-5);
                 cpred = (real_t *)realloc(cpred, sizeof(real_t)*(npred+2));
                 // 不能超过半空间速度，否则会搜索到泄漏模式
                 if(target < cmax)  grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
@@ -724,7 +725,8 @@ static void get_secular_roots_single_freq(MODEL1D_STATE *mstat, EIGENV_INFO *eig
                     } else {
                         iref_liquid++;
                     }
-                    real_t target = grt_halfspace_Scholte_croot(mstat, iref_liquid, iref_solid);
+                    // 同样略微偏离界面反透射系数的奇异点
+                    real_t target = grt_halfspace_Scholte_croot(mstat, iref_liquid, iref_solid) * (1.0 - 1e-5);
                     cpred = (real_t *)realloc(cpred, sizeof(real_t)*(npred+2));
                     if(target < cmax)  grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
                     target *= 0.95;
-- 
2.43.0


From 916d6ec11d2c7f1e1a773a835fb73cef39bb0619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:35 +0000
Subject: [PATCH 30/57] fix: half-space Rayleigh velocity estimate converges
 for every Poisson ratio (fundamental mode missed over soft layers)

---
 pygrt/C_extension/src/modal/root.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pygrt/C_extension/src/modal/root.c b/pygrt/C_extension/src/modal/root.c
index 461d8e9..290cd4f 100644
--- a/pygrt/C_extension/src/modal/root.c
+++ b/pygrt/C_extension/src/modal/root.c
@@ -559,16 +559,8 @@ static real_t grt_halfspace_Rayleigh_croot(const MODEL1D_STATE *mstat, const siz
     real_t vp = mstat->mod1d->Va[iref];
     real_t vs = mstat->mod1d->Vb[iref];
     real_t xi2 = GRT_SQUARE(vs/vp);
-    real_t eta = 0.0;
-
-    // 初始猜想值 eta，从微偏离三次函数的局部极小值开始
-    {
-        real_t a = 3.0;
-        real_t b = -16.0;
-        real_t c = 8.0*(3.0 - 2.0*xi2);
-        eta = b*b - 4.0*a*c;
-        eta = (eta >= 0.0)? sqrt((- b - sqrt(eta))/(2.0*a)) * 0.9 : 0.9;
-    }
+    // 初始猜想值，从此处出发对任意泊松比均收敛到 (0,1) 内的根
+    real_t eta = 0.9;
 
     // 简单用一个牛顿迭代法求解
     for(size_t i = 0; i < 10; ++i){
-- 
2.43.0


From 361410c7e74f92d4acb9c9e31c6eecc8edb73481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 31/57] fix: eigenfn and disp2asc -F f1/f2+p converts the range
 from periods to frequencies

---
 pygrt/C_extension/src/modal/grt_eigenfn.c  | 4 ++--
 pygrt/C_extension/src/tools/grt_disp2asc.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index f553f64..dccc686 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -273,8 +273,8 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         // 只约束最大值和最小值，内存申请由读取频散文件的过程中进行
                         Ctrl->F.nf = 2;
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
-                        Ctrl->F.freqs[0] = a1;
-                        Ctrl->F.freqs[1] = a2;
+                        Ctrl->F.freqs[0] = isperiod ? 1.0/a2 : a1;
+                        Ctrl->F.freqs[1] = isperiod ? 1.0/a1 : a2;
                         Ctrl->F.def_range = true;
                     }
                     
diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index be8902b..1bdd950 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -226,8 +226,8 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         // 只约束最大值和最小值，内存申请由读取频散文件的过程中进行
                         Ctrl->F.nf = 2;
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
-                        Ctrl->F.freqs[0] = a1;
-                        Ctrl->F.freqs[1] = a2;
+                        Ctrl->F.freqs[0] = isperiod ? 1.0/a2 : a1;
+                        Ctrl->F.freqs[1] = isperiod ? 1.0/a1 : a2;
                         Ctrl->F.def_range = true;
                     }
                     
-- 
2.43.0


From da23601f2655ff9a06a22506fad4f4c65df3d2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 32/57] fix: mode selection from dispersion files holding a
 subset of modes compares positions, not mode numbers

---
 pygrt/C_extension/src/modal/modal_def.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/modal/modal_def.c b/pygrt/C_extension/src/modal/modal_def.c
index d609b4f..279b53a 100644
--- a/pygrt/C_extension/src/modal/modal_def.c
+++ b/pygrt/C_extension/src/modal/modal_def.c
@@ -124,10 +124,9 @@ void grt_filter_eigenfn_info(
 
         EIGENV *in_eigv = &eigmet->eigv[iw];
         for(size_t i = 0; i < eigfnmet->nmode; ++i){
-            size_t mode = eigfnmet->modes[i];
-            if(mode >= in_eigv->n) break;
-
+            // 文件中可能只保存了部分阶数，故比较的是在原数组中的位置
             size_t idx = idxs_modes[i];
+            if(idx >= in_eigv->n) break;
 
             eigvtmp->c_roots[eigvtmp->n] = in_eigv->c_roots[idx];
             eigvtmp->u_roots[eigvtmp->n] = in_eigv->u_roots[idx];
-- 
2.43.0


From 39ad362a3c4fa644d473ae9d743daa6f24d6ebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 33/57] fix: group sensitivity at the last frequency uses a
 backward difference

---
 pygrt/C_extension/src/modal/modal_util.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/modal/modal_util.c b/pygrt/C_extension/src/modal/modal_util.c
index ceebd2f..736d457 100644
--- a/pygrt/C_extension/src/modal/modal_util.c
+++ b/pygrt/C_extension/src/modal/modal_util.c
@@ -143,13 +143,19 @@ void grt_group_sensitivity(EIGENFN_INFO *eigfnmet)
             for(size_t iz = 0; iz < eigfnmet->cpar_nz; ++iz){
                 // 层内的物理量
                 for(int ia = 0; ia < GRT_SNSTVTY_MAX; ++ia){
-                    // 计算相速度敏感核在频率上的差分，下一个频率可能不存在该阶次
+                    // 计算相速度敏感核在频率上的差分，下一个频率可能不存在该阶次，此时使用上一个频率
                     real_t ddCdwdX = 0.0;
+                    size_t iw1 = iw;
                     if(iw < eigfnmet->nf-1 && ic < eigfnmet->eigv[iw+1].n){
-                        EIGENFN *eigfn_w1 = &eigfnmet->eigfn[iw+1][ic];
+                        iw1 = iw + 1;
+                    } else if(iw > 0 && ic < eigfnmet->eigv[iw-1].n){
+                        iw1 = iw - 1;
+                    }
+                    if(iw1 != iw){
+                        EIGENFN *eigfn_w1 = &eigfnmet->eigfn[iw1][ic];
 
                         ddCdwdX = eigfn_w1->csens[iz][ia] - eigfn->csens[iz][ia];
-                        ddCdwdX /= eigfnmet->freqs[iw+1] - eigfnmet->freqs[iw];
+                        ddCdwdX /= eigfnmet->freqs[iw1] - eigfnmet->freqs[iw];
                     }
                     
                     // 合并公式，计算群速度敏感核
-- 
2.43.0


From 7334e7557480bf9c6c5ad10fee2ac8303fba2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 34/57] fix: modsum travel times use the inserted source and
 receiver layers, and -Ep the first P arrival of each distance

---
 pygrt/C_extension/src/modal/grt_modsum.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index 755a52e..9e10405 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -552,6 +552,12 @@ static void compute_modsum_one(
     sac->hd.user7 = mod1d->Vb[mod1d->isrc];
     sac->hd.user8 = mod1d->Rho[mod1d->isrc];
     
+    // 走时计算需要插入震源和台站虚拟层的模型
+    MODEL1D *mod1d_travt = NULL;
+    if((mod1d_travt = grt_read_mod1d_from_file(modelpath, Ctrl->D.depsrc, Ctrl->D.deprcv, true)) == NULL){
+        exit(EXIT_FAILURE);
+    }
+
     // 为每个震中距设置对应的变量
     real_t (*travtPS)[2] = (real_t (*)[2])calloc(grn->nr, sizeof(real_t)*2);
     real_t *begintimes = (real_t *)calloc(grn->nr, sizeof(real_t));
@@ -564,8 +570,8 @@ static void compute_modsum_one(
             Ctrl->O.s_output_dir, grt_get_basename(modelpath), Ctrl->D.s_depsrc, Ctrl->D.s_deprcv, Ctrl->R.s_rs[ir]);
 
         // 计算理论走时
-        travtPS[ir][0] = grt_compute_travt1d(mod1d->Thk, mod1d->Va, mod1d->n, mod1d->isrc, mod1d->ircv, dist);
-        travtPS[ir][1] = grt_compute_travt1d(mod1d->Thk, mod1d->Vb, mod1d->n, mod1d->isrc, mod1d->ircv, dist);
+        travtPS[ir][0] = grt_compute_travt1d(mod1d_travt->Thk, mod1d_travt->Va, mod1d_travt->n, mod1d_travt->isrc, mod1d_travt->ircv, dist);
+        travtPS[ir][1] = grt_compute_travt1d(mod1d_travt->Thk, mod1d_travt->Vb, mod1d_travt->n, mod1d_travt->isrc, mod1d_travt->ircv, dist);
 
         // 时间延迟
         {
@@ -574,7 +580,7 @@ static void compute_modsum_one(
                 delayT = Ctrl->E.delayT0;
                 if(Ctrl->E.delayV0 > 0.0)   delayT += hypot( dist, Ctrl->D.deprcv - Ctrl->D.depsrc ) / Ctrl->E.delayV0;
             } else {
-                delayT = Ctrl->E.delayT0 + sac->hd.t0;
+                delayT = Ctrl->E.delayT0 + travtPS[ir][0];
             }
             begintimes[ir] = delayT;
         }
@@ -599,6 +605,7 @@ static void compute_modsum_one(
         GRT_SAFE_FREE_PTR(outputdirs[ir]);
     }
     GRT_SAFE_FREE_PTR(outputdirs);
+    grt_free_mod1d(mod1d_travt);
     GRT_SAFE_FREE_PTR(travtPS);
     GRT_SAFE_FREE_PTR(begintimes);
     GRT_SAFE_FREE_PTR(grn->freqs);
-- 
2.43.0


From c8438cb1dbe058848c99a3a9c7e829c7c47cdae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 35/57] fix: modsum depth derivatives in a liquid receiver
 layer

---
 pygrt/C_extension/src/modal/modgrn.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/modal/modgrn.c b/pygrt/C_extension/src/modal/modgrn.c
index d5c44f2..6313311 100644
--- a/pygrt/C_extension/src/modal/modgrn.c
+++ b/pygrt/C_extension/src/modal/modgrn.c
@@ -78,9 +78,12 @@ void grt_modsum_grn_Rayl(
             {aa, bk, aa, -bk}
         };
 
-        if(! isLiquid){
-            grt_get_eigenfn_single_depth_Rayl(mstat, mod_potRaylLove_Down, mod_potRaylLove_Up, T0_z, true, mstat->mod1d->deprcv, ircv, rcv_eigenfn_z);
+        // 位于液体层，仅有 P 波
+        if(isLiquid){
+            T0_z[0][1] = T0_z[0][3] = T0_z[1][1] = T0_z[1][3] = 0.0;
         }
+
+        grt_get_eigenfn_single_depth_Rayl(mstat, mod_potRaylLove_Down, mod_potRaylLove_Up, T0_z, true, mstat->mod1d->deprcv, ircv, rcv_eigenfn_z);
     }
 
     // 计算该频点、该本征值下的频谱
-- 
2.43.0


From 889afc9fcdfb9ff7fae7870897849970b8e32963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 36/57] fix: SAC end time consistent with the begin time of
 shifted traces

---
 pygrt/C_extension/src/common/sacio.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygrt/C_extension/src/common/sacio.c b/pygrt/C_extension/src/common/sacio.c
index e56193a..ced8bdc 100644
--- a/pygrt/C_extension/src/common/sacio.c
+++ b/pygrt/C_extension/src/common/sacio.c
@@ -54,6 +54,8 @@ SACTRACE * grt_new_SACTRACE(float dt, int nt, float b0)
 
 int grt_write_SACTRACE(const char *path, SACTRACE *sac)
 {
+    // 起始时刻可能在创建之后才设置，结束时刻须与之一致
+    sac->hd.e = sac->hd.b + (sac->hd.npts - 1) * sac->hd.delta;
     return write_sac(path, sac->hd, sac->data);
 }
 
-- 
2.43.0


From 0711fd54d47eb5818e02da69e62f2087f2d20583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 37/57] fix: compute_syn returns only the traces it generated,
 result paths are taken literally

---
 pygrt/pymod.py | 15 +++++++++++++--
 pygrt/utils.py |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pygrt/pymod.py b/pygrt/pymod.py
index ff6d37e..660e254 100755
--- a/pygrt/pymod.py
+++ b/pygrt/pymod.py
@@ -9,6 +9,7 @@
 
 from __future__ import annotations
 
+import glob
 import os
 import warnings
 from ctypes import c_size_t, cast, c_void_p
@@ -17,7 +18,7 @@ from typing import Dict, Iterable, Optional, Sequence, Union
 
 import numpy as np
 import numpy.ctypeslib as npct
-from obspy import read
+from obspy import Stream, read
 
 from .cli import format_float, format_range, run_grt
 from .c_interfaces import C_grt_compute_travt1d_from_file, C_grt_free, PREAL
@@ -718,7 +719,17 @@ class PyModel1D:
 
         run_grt(list(command.values()))
         if return_result:
-            return read(str(output / "*.sac"))
+            # 只读取本次生成的文件，目录中可能有之前的结果
+            channels = "ZNE" if zne else "ZRT"
+            names = list(channels)
+            if calc_upar:
+                names += [f"{c1.lower()}{c2}" for c1 in channels for c2 in channels]
+            if time_function is not None:
+                names.append("sig")
+            stream = Stream()
+            for name in sorted(names):
+                stream += read(glob.escape(str(output / f"{name}.sac")))
+            return stream
         return None
 
     def compute_static_syn(
diff --git a/pygrt/utils.py b/pygrt/utils.py
index 8eb5943..b5efc45 100755
--- a/pygrt/utils.py
+++ b/pygrt/utils.py
@@ -290,7 +290,7 @@ def _postprocess(path: PathLike, module: str, return_result: bool):
     if path.is_dir():
         run_grt([module, path])
         # 动态结果只能靠文件名前缀区分 strain/rotation/stress
-        return read(str(path / f"{module}_*.sac")) if return_result else None
+        return read(os.path.join(glob.escape(str(path)), f"{module}_*.sac")) if return_result else None
     if path.is_file():
         run_grt(["static", module, path])
         return read_static_nc(path) if return_result else None
-- 
2.43.0


From e81ef04345e15edcbef5adcb7d75f0be00a5e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 38/57] fix: stream_convolve with a signal longer than the
 trace

---
 pygrt/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygrt/utils.py b/pygrt/utils.py
index b5efc45..9913762 100755
--- a/pygrt/utils.py
+++ b/pygrt/utils.py
@@ -404,9 +404,10 @@ def stream_convolve(st0: Stream, signal0: np.ndarray, inplace: bool = True) -> S
             npts = trace.stats.npts
             w_i = trace.stats.sac["user0"]
             factor = np.exp(np.arange(npts) * dt * w_i)
-            adjusted_signal = signal / factor[: len(signal)]
+            # 信号超出记录长度的部分对窗内的结果没有贡献
+            adjusted_signal = signal[:npts] / factor[: len(signal)]
             data[:] /= factor
-            data1 = np.pad(data, (len(signal) - 1, 0), mode="wrap")
+            data1 = np.pad(data, (len(adjusted_signal) - 1, 0), mode="wrap")
             data[:] = oaconvolve(data1, adjusted_signal, mode="valid")[:npts] * dt
             data[:] *= factor
         else:
-- 
2.43.0


From 002a18a7f6dd5cf044301a24e786740d73069781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 39/57] fix: Python functions raise for invalid values instead
 of ending the interpreter

---
 pygrt/pymod.py   |  8 ++++----
 pygrt/signals.py | 29 +++++++++++++++++++++++++++++
 pygrt/utils.py   |  4 +++-
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/pygrt/pymod.py b/pygrt/pymod.py
index 660e254..979a3b4 100755
--- a/pygrt/pymod.py
+++ b/pygrt/pymod.py
@@ -52,8 +52,8 @@ def _normalize_float_array(
 
     if arr.size == 0:
         raise ValueError(f"{name} must not be empty.")
-    if np.any(arr < 0.0):
-        raise ValueError(f"{name} must be nonnegative.")
+    if not np.all(np.isfinite(arr)) or np.any(arr < 0.0):
+        raise ValueError(f"{name} must be finite and nonnegative.")
     if arr.size > 1 and not np.all(np.diff(arr) > 0.0):
         raise ValueError(f"{name} must be strictly ascending when multiple values are given.")
     return arr
@@ -159,8 +159,8 @@ class PyModel1D:
         :return: ``(travtP, travtS)`` in s. For a scalar distance both are floats;
                  for multiple distances both are NumPy arrays of shape ``(n,)``.
         """
-        if depsrc < 0 or deprcv < 0:
-            raise ValueError("Source and receiver depths must be nonnegative.")
+        if not (np.isfinite(depsrc) and np.isfinite(deprcv)) or depsrc < 0 or deprcv < 0:
+            raise ValueError("Source and receiver depths must be finite and nonnegative.")
 
         if modelpath is not None:
             use_model = str(Path(modelpath))
diff --git a/pygrt/signals.py b/pygrt/signals.py
index 3674efd..77a9eeb 100755
--- a/pygrt/signals.py
+++ b/pygrt/signals.py
@@ -22,6 +22,20 @@ __all__ = [
 ]
 
 
+def _check_interval_num(tlen, dt):
+    '''
+        返回时长对应的采样间隔数。参数不合法时 C 库会直接结束进程，故在调用前检查
+    '''
+    if not (np.isfinite(dt) and dt > 0.0):
+        raise ValueError(f"dt ({dt}) should be positive.")
+    num = np.floor(np.float32(tlen) / np.float32(dt))
+    if not abs(num) < 1e8:
+        raise ValueError(f"window length of time function ({tlen}) is too long for sampling interval ({dt}).")
+    if abs(np.float32(tlen) - num * np.float32(dt)) <= 1e-6:
+        num -= 1
+    return int(num)
+
+
 def gen_triangle_wave(vlen, dt):
     '''
         generate triangle-shape wave
@@ -45,6 +59,11 @@ def gen_parabola_wave(vlen, dt):
         :return:
             - **wave** -    amplitude sequence
     '''
+    if not vlen > 0.0:
+        raise ValueError(f"vlen ({vlen}) should be larger than 0.")
+    if _check_interval_num(vlen, dt) < 1:
+        raise ValueError("window length of time function is too short.")
+
     ct1 = c_float(vlen)
     cnt = c_int(0)
 
@@ -68,6 +87,10 @@ def gen_trap_wave(t1, t2, t3, dt):
         :return:
             - **wave** -    amplitude sequence
     '''
+    if not (0.0 <= t1 <= t2 < t3):
+        raise ValueError(f"It should be 0<=t1<=t2<t3 ({t1}/{t2}/{t3}).")
+    _check_interval_num(t3, dt)
+
     ct1 = c_float(t1)
     ct2 = c_float(t2)
     ct3 = c_float(t3)
@@ -91,6 +114,12 @@ def gen_ricker_wave(f0:float, dt:float):
         :return:
             - **wave** -    amplitude sequence
     '''
+    if not f0 > 0.0:
+        raise ValueError(f"f0 ({f0}) should be larger than 0.")
+    _check_interval_num(1.0/f0, dt)
+    if 1.0/float(np.float32(dt)) <= 2.0*float(np.float32(f0)):
+        raise ValueError(f"Compare to sampling freq ({1.0/dt:.3f}), dominant freq ({f0:.3f}) is too high.")
+
     cnt = c_int(0)
 
     carr = C_grt_get_ricker_wave(dt, f0, byref(cnt))
diff --git a/pygrt/utils.py b/pygrt/utils.py
index 9913762..f51ef60 100755
--- a/pygrt/utils.py
+++ b/pygrt/utils.py
@@ -925,7 +925,9 @@ def solve_lamb1(nu:float, ts:np.ndarray, azimuth:float):
                     divide by :math:`\pi^2 \mu r`
     """
 
-    # 检查数据
+    # 检查数据，泊松比越界时 C 库会直接结束进程
+    if not 0.0 < nu < 0.5:
+        raise ValueError("nu should be in (0, 0.5).")
     if np.any(ts < 0.0):
         raise ValueError("ts should be nonnegative.")
     if azimuth < 0.0 or azimuth > 360.0:
-- 
2.43.0


From 553a2288de0213d9facb9fa39fd44fd0eb15ecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 40/57] fix: lamb1 refuses a Poisson ratio or azimuth that is
 not a number

---
 pygrt/C_extension/src/lamb/grt_lamb1.c | 4 ++--
 pygrt/C_extension/src/lamb/lamb1.c     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/lamb/grt_lamb1.c b/pygrt/C_extension/src/lamb/grt_lamb1.c
index 3acf939..dccb9af 100644
--- a/pygrt/C_extension/src/lamb/grt_lamb1.c
+++ b/pygrt/C_extension/src/lamb/grt_lamb1.c
@@ -88,7 +88,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                 if(1 != sscanf(optarg, "%lf", &Ctrl->P.nu)){
                     GRTBadOptionError(P, "");
                 }
-                if(Ctrl->P.nu <= 0.0 || Ctrl->P.nu >= 0.5){
+                if(! (Ctrl->P.nu > 0.0 && Ctrl->P.nu < 0.5)){
                     GRTBadOptionError(P, "possion ratio (%lf) is out of bound.", Ctrl->P.nu);
                 }
                 break;
@@ -125,7 +125,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                 if(1 != sscanf(optarg, "%lf", &Ctrl->A.azimuth)){
                     GRTBadOptionError(A, "");
                 }
-                if(Ctrl->A.azimuth < 0.0 || Ctrl->A.azimuth > 360){
+                if(! (Ctrl->A.azimuth >= 0.0 && Ctrl->A.azimuth <= 360)){
                     GRTBadOptionError(A, "azimuth should be in [0, 360].");
                 }
                 break;
diff --git a/pygrt/C_extension/src/lamb/lamb1.c b/pygrt/C_extension/src/lamb/lamb1.c
index b5d99eb..956fa2c 100644
--- a/pygrt/C_extension/src/lamb/lamb1.c
+++ b/pygrt/C_extension/src/lamb/lamb1.c
@@ -768,7 +768,7 @@ void grt_solve_lamb1(
     const real_t nu, const real_t *ts, const int nt, const real_t azimuth, real_t (*u)[3][3])
 {
     // 检查泊松比范围
-    if(nu <= 0.0 || nu >= 0.5){
+    if(! (nu > 0.0 && nu < 0.5)){
         GRTRaiseError("possion ratio (%lf) is out of bound.", nu);
     }
 
-- 
2.43.0


From 67548c29ef06f45fbe613177993af21a7f3c8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 41/57] fix: okada refuses nonpositive medium parameters and
 depths that are not numbers

---
 pygrt/C_extension/src/okada/grt_okada.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index 3460712..fe16532 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -233,6 +233,10 @@ static void parse_command(GRT_MODULE_CTRL *ctrl, int argc, char **argv)
                 if(sscanf(optarg, "%lf/%lf/%lf%c", &ctrl->I.vp, &ctrl->I.vs, &ctrl->I.rho, &extra) != 3){
                     GRTBadOptionError(I, "expected vp/vs/rho.");
                 }
+                if(!(ctrl->I.vp > 0.0 && ctrl->I.vs > 0.0 && ctrl->I.rho > 0.0)
+                    || isinf(ctrl->I.vp) || isinf(ctrl->I.vs) || isinf(ctrl->I.rho)){
+                    GRTBadOptionError(I, "vp, vs and rho must be positive.");
+                }
                 ctrl->I.active = true;
                 break;
             }
@@ -298,12 +302,12 @@ static void parse_command(GRT_MODULE_CTRL *ctrl, int argc, char **argv)
             case 'D':
                 if(optarg[0] == 's'){
                     ctrl->Dsrc.active = true;
-                    if(sscanf(optarg + 1, "%lf", &ctrl->depsrc) != 1 || ctrl->depsrc < 0.0){
+                    if(sscanf(optarg + 1, "%lf", &ctrl->depsrc) != 1 || !(ctrl->depsrc >= 0.0) || isinf(ctrl->depsrc)){
                         GRTBadOptionError(Ds, "source depth must be nonnegative.");
                     }
                 } else if(optarg[0] == 'r'){
                     ctrl->Drcv.active = true;
-                    if(sscanf(optarg + 1, "%lf", &ctrl->deprcv) != 1 || ctrl->deprcv < 0.0){
+                    if(sscanf(optarg + 1, "%lf", &ctrl->deprcv) != 1 || !(ctrl->deprcv >= 0.0) || isinf(ctrl->deprcv)){
                         GRTBadOptionError(Dr, "receiver depth must be nonnegative.");
                     }
                 } else {
-- 
2.43.0


From a447a2186d9a339c4ff353f64ab195b6bc72c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 42/57] fix: static syn refuses depths that are not numbers
 instead of crashing

---
 pygrt/C_extension/src/static/grt_static_syn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index 9476e55..b76c100 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -329,7 +329,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     if(1 != sscanf(optarg + 1, "%lf", &Ctrl->D.depsrc)){
                         GRTBadOptionError(Ds, "");
                     }
-                    if(Ctrl->D.depsrc < 0.0){
+                    if(!(Ctrl->D.depsrc >= 0.0)){
                         GRTBadOptionError(Ds, "Negative source depth is not supported.");
                     }
                 } else if(optarg[0] == 'r'){
@@ -337,7 +337,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     if(1 != sscanf(optarg + 1, "%lf", &Ctrl->D.deprcv)){
                         GRTBadOptionError(Dr, "");
                     }
-                    if(Ctrl->D.deprcv < 0.0){
+                    if(!(Ctrl->D.deprcv >= 0.0)){
                         GRTBadOptionError(Dr, "Negative receiver depth is not supported.");
                     }
                 } else {
-- 
2.43.0


From e9283648d44b7f955fb19729390142cd405237c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 43/57] fix: greenfn and static greenfn refuse negative or
 non-number values of -L

---
 pygrt/C_extension/src/dynamic/grt_greenfn.c       | 12 ++++++++++++
 pygrt/C_extension/src/static/grt_static_greenfn.c | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 20b8364..df4dab1 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -561,6 +561,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         if(1 != sscanf(optarg, "%lf", &Ctrl->L.Length)){
                             GRTBadOptionError(L, "");
                         }
+                        if(!(Ctrl->L.Length >= 0.0) || isinf(Ctrl->L.Length)){
+                            GRTBadOptionError(L, "Can't set negative length(%f).", Ctrl->L.Length);
+                        }
                         token = strtok(NULL, "+");
                     }
 
@@ -571,6 +574,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                                 if(1 != sscanf(token+1, "%lf", &Ctrl->L.FIM.Length)){
                                     GRTBadOptionError(L+l, "");
                                 }
+                                if(!(Ctrl->L.FIM.Length > 0.0) || isinf(Ctrl->L.FIM.Length)){
+                                    GRTBadOptionError(L+l, "Nonpositive Flength(%f) is not supported.", Ctrl->L.FIM.Length);
+                                }
                                 break;
                             
                             case 'a':
@@ -578,12 +584,18 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                                 if(1 != sscanf(token+1, "%lf", &Ctrl->L.SAFIM.tol)){
                                     GRTBadOptionError(L+a, "");
                                 }
+                                if(!(Ctrl->L.SAFIM.tol > 0.0) || isinf(Ctrl->L.SAFIM.tol)){
+                                    GRTBadOptionError(L+a, "Nonpositive Ftol(%f) is not supported.", Ctrl->L.SAFIM.tol);
+                                }
                                 break;
                             
                             case 'o':
                                 if(1 != sscanf(token+1, "%lf", &Ctrl->L.kcut)){
                                     GRTBadOptionError(L+o, "");
                                 }
+                                if(!(Ctrl->L.kcut >= 0.0) || isinf(Ctrl->L.kcut)){
+                                    GRTBadOptionError(L+o, "Can't set negative offset(%f).", Ctrl->L.kcut);
+                                }
                                 break;
 
                             default:
diff --git a/pygrt/C_extension/src/static/grt_static_greenfn.c b/pygrt/C_extension/src/static/grt_static_greenfn.c
index c36224c..17c90d8 100644
--- a/pygrt/C_extension/src/static/grt_static_greenfn.c
+++ b/pygrt/C_extension/src/static/grt_static_greenfn.c
@@ -350,6 +350,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         if(1 != sscanf(optarg, "%lf", &Ctrl->L.Length)){
                             GRTBadOptionError(L, "");
                         }
+                        if(!(Ctrl->L.Length >= 0.0) || isinf(Ctrl->L.Length)){
+                            GRTBadOptionError(L, "Can't set negative length(%f).", Ctrl->L.Length);
+                        }
                         token = strtok(NULL, "+");
                     }
 
@@ -360,6 +363,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                                 if(1 != sscanf(token+1, "%lf", &Ctrl->L.FIM.Length)){
                                     GRTBadOptionError(L+l, "");
                                 }
+                                if(!(Ctrl->L.FIM.Length > 0.0) || isinf(Ctrl->L.FIM.Length)){
+                                    GRTBadOptionError(L+l, "Nonpositive Flength(%f) is not supported.", Ctrl->L.FIM.Length);
+                                }
                                 break;
                             
                             case 'a':
@@ -367,12 +373,18 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                                 if(1 != sscanf(token+1, "%lf", &Ctrl->L.SAFIM.tol)){
                                     GRTBadOptionError(L+a, "");
                                 }
+                                if(!(Ctrl->L.SAFIM.tol > 0.0) || isinf(Ctrl->L.SAFIM.tol)){
+                                    GRTBadOptionError(L+a, "Nonpositive Ftol(%f) is not supported.", Ctrl->L.SAFIM.tol);
+                                }
                                 break;
                             
                             case 'o':
                                 if(1 != sscanf(token+1, "%lf", &Ctrl->L.kcut)){
                                     GRTBadOptionError(L+o, "");
                                 }
+                                if(!(Ctrl->L.kcut >= 0.0) || isinf(Ctrl->L.kcut)){
+                                    GRTBadOptionError(L+o, "Can't set negative offset(%f).", Ctrl->L.kcut);
+                                }
                                 break;
 
                             default:
-- 
2.43.0


From 61441481efe21ebbc56c3428b6605977ed9f07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 44/57] fix: greenfn refuses frequency indices of -S that are
 not integers or out of range

---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index df4dab1..9478b8c 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -778,7 +778,10 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     // 转为浮点数
                     Ctrl->S.statsidxs = (size_t*)realloc(Ctrl->S.statsidxs, sizeof(size_t)*(Ctrl->S.nstatsidxs));
                     for(size_t i=0; i<Ctrl->S.nstatsidxs; ++i){
-                        int tmp = atoi(Ctrl->S.s_statsidxs[i]);
+                        int tmp;
+                        if(1 != sscanf(Ctrl->S.s_statsidxs[i], "%d", &tmp)){
+                            GRTBadOptionError(S, "index (%s) is not an integer.", Ctrl->S.s_statsidxs[i]);
+                        }
                         if(tmp < 0){
                             GRTBadOptionError(S, "index (%d) can't negative.", tmp);
                         }
@@ -803,6 +806,12 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
     GRTCheckOptionActive(Ctrl, R);
     GRTCheckOptionActive(Ctrl, O);
 
+    for(size_t i=0; i<Ctrl->S.nstatsidxs; ++i){
+        if(Ctrl->S.statsidxs[i] > Ctrl->N.nt / 2){
+            GRTBadOptionError(S, "index (%zu) exceeds the last frequency (%zu).", Ctrl->S.statsidxs[i], Ctrl->N.nt / 2);
+        }
+    }
+
     if(Ctrl->D.active && (Ctrl->D.s_active || Ctrl->D.r_active)){
         GRTRaiseError("Options -D and -Ds/-Dr are mutually exclusive.");
     }
-- 
2.43.0


From 9bfb0b8367efff42ef869fe72d958f4a737aa6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 45/57] fix: an empty value of -S, -A or -E is refused instead
 of read as zero

---
 pygrt/C_extension/src/dynamic/grt_greenfn.c   | 2 +-
 pygrt/C_extension/src/dynamic/grt_syn.c       | 4 ++--
 pygrt/C_extension/src/modal/grt_modsum.c      | 2 +-
 pygrt/C_extension/src/static/grt_static_syn.c | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 9478b8c..893ed8d 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -648,7 +648,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(E, "Can't set positive t0(%f) in -Ep.", Ctrl->E.delayT0);
                     }
                 } else {
-                    if(0 == sscanf(optarg, "%lf/%lf", &Ctrl->E.delayT0, &Ctrl->E.delayV0)){
+                    if(1 > sscanf(optarg, "%lf/%lf", &Ctrl->E.delayT0, &Ctrl->E.delayV0)){
                         GRTBadOptionError(E, "");
                     };
                     if(Ctrl->E.delayV0 < 0.0){
diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index 555403b..e8a356f 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -298,7 +298,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 方位角
             case 'A':
                 Ctrl->A.active = true;
-                if(0 == sscanf(optarg, "%lf", &Ctrl->A.azimuth)){
+                if(1 != sscanf(optarg, "%lf", &Ctrl->A.azimuth)){
                     GRTBadOptionError(A, "");
                 };
                 if(Ctrl->A.azimuth < 0.0 || Ctrl->A.azimuth > 360.0){
@@ -320,7 +320,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         *upos = ' ';
                     }
                 }
-                if(0 == sscanf(optarg, "%lf", &Ctrl->S.M0)){
+                if(1 != sscanf(optarg, "%lf", &Ctrl->S.M0)){
                     GRTBadOptionError(S, "");
                 };
                 break;
diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index 9e10405..bbcfb2c 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -345,7 +345,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(E, "Can't set positive t0(%f) in -Ep.", Ctrl->E.delayT0);
                     }
                 } else {
-                    if(0 == sscanf(optarg, "%lf/%lf", &Ctrl->E.delayT0, &Ctrl->E.delayV0)){
+                    if(1 > sscanf(optarg, "%lf/%lf", &Ctrl->E.delayT0, &Ctrl->E.delayV0)){
                         GRTBadOptionError(E, "");
                     };
                     if(Ctrl->E.delayV0 < 0.0){
diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index b76c100..8855684 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -362,7 +362,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         *upos = ' ';
                     }
                 }
-                if(0 == sscanf(optarg, "%lf", &Ctrl->S.M0)){
+                if(1 != sscanf(optarg, "%lf", &Ctrl->S.M0)){
                     GRTBadOptionError(S, "");
                 };
                 break;
-- 
2.43.0


From c399991401de600af9e42bac805ba662ffcc2fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 46/57] fix: failure to write a SAC file is an error

---
 pygrt/C_extension/src/common/sacio.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/common/sacio.c b/pygrt/C_extension/src/common/sacio.c
index ced8bdc..5320b86 100644
--- a/pygrt/C_extension/src/common/sacio.c
+++ b/pygrt/C_extension/src/common/sacio.c
@@ -56,7 +56,10 @@ int grt_write_SACTRACE(const char *path, SACTRACE *sac)
 {
     // 起始时刻可能在创建之后才设置，结束时刻须与之一致
     sac->hd.e = sac->hd.b + (sac->hd.npts - 1) * sac->hd.delta;
-    return write_sac(path, sac->hd, sac->data);
+    if(write_sac(path, sac->hd, sac->data) != 0){
+        GRTRaiseError("write %s failed.\n", path);
+    }
+    return 0;
 }
 
 
-- 
2.43.0


From d0c33dc573c60d7b5dd35b964e816f6902f5169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 47/57] fix: eigenfn -W accepts the free surface as a single
 depth

---
 pygrt/C_extension/src/modal/grt_eigenfn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index dccc686..c18c7d1 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -355,8 +355,8 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                                 if( !(nscan == 1 || nscan == 3)){
                                     GRTBadOptionError(Z, "");
                                 };
-                                if(nscan == 1 && a1 <= 0.0){
-                                    GRTBadOptionError(Z, "Can't set a single nonpositive value.");
+                                if(nscan == 1 && a1 < 0.0){
+                                    GRTBadOptionError(Z, "Can't set a single negative value.");
                                 }
                                 if(nscan == 1){
                                     a2 = a1;
-- 
2.43.0


From 4546fec844499905852ac8e9079a3c9f191afb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 48/57] fix: phase- and group-velocity dispersion files are not
 taken for each other

---
 pygrt/C_extension/src/modal/modal_util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygrt/C_extension/src/modal/modal_util.c b/pygrt/C_extension/src/modal/modal_util.c
index 736d457..33331b4 100644
--- a/pygrt/C_extension/src/modal/modal_util.c
+++ b/pygrt/C_extension/src/modal/modal_util.c
@@ -643,6 +643,11 @@ void grt_read_dispersion(const char *filepath, EIGENV_INFO *eigmet, char **pt_mo
         }
     }
 
+    // 需要模型路径时应为相速度文件，否则应为群速度文件
+    if(isGroup == (pt_modelpath != NULL)){
+        GRTRaiseError("\"%s\" is not a %s-velocity dispersion file.\n", filepath, isGroup? "phase" : "group");
+    }
+
     // 在相速度文件中读取读取模型路径
     if(! isGroup){
         size_t m_len = 0;
-- 
2.43.0


From 13780b8db859f557faf51124fa1b363b0e3eae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 49/57] fix: travt refuses an empty distance list

---
 pygrt/C_extension/src/tools/grt_travt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygrt/C_extension/src/tools/grt_travt.c b/pygrt/C_extension/src/tools/grt_travt.c
index 7b1c9ed..9444e59 100644
--- a/pygrt/C_extension/src/tools/grt_travt.c
+++ b/pygrt/C_extension/src/tools/grt_travt.c
@@ -184,6 +184,10 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         fclose(fp);
                     }
                         
+                    if(Ctrl->R.nr == 0){
+                        GRTBadOptionError(R, "Empty value list.");
+                    }
+
                     // 转为浮点数
                     Ctrl->R.rs = (real_t*)realloc(Ctrl->R.rs, sizeof(real_t)*(Ctrl->R.nr));
                     for(size_t i=0; i<Ctrl->R.nr; ++i){
-- 
2.43.0


From e0e7babedaef55671d1c2f8c736ed6305de77c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 50/57] fix: ker2asc reports a file with an incomplete last
 record

---
 pygrt/C_extension/src/tools/grt_ker2asc.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/tools/grt_ker2asc.c b/pygrt/C_extension/src/tools/grt_ker2asc.c
index c72659a..3f334db 100644
--- a/pygrt/C_extension/src/tools/grt_ker2asc.c
+++ b/pygrt/C_extension/src/tools/grt_ker2asc.c
@@ -65,7 +65,11 @@ static void print_K(FILE *fp, const char *col0_name){
     
     // 读取数据    
     while (true) {
-        if(0 != grt_extract_stats(fp, stdout, col0_name))  break;
+        long pos = ftell(fp);
+        if(0 != grt_extract_stats(fp, stdout, col0_name)){
+            if(ftell(fp) != pos)  GRTRaiseError("The last record is incomplete.\n");
+            break;
+        }
 
         fprintf(stdout, "\n");
     }
@@ -83,7 +87,11 @@ static void print_PTAM(FILE *fp){
     
     // 读取数据    
     while (true) {
-        if(0 != grt_extract_stats_ptam(fp, stdout))  break;
+        long pos = ftell(fp);
+        if(0 != grt_extract_stats_ptam(fp, stdout)){
+            if(ftell(fp) != pos)  GRTRaiseError("The last record is incomplete.\n");
+            break;
+        }
 
         fprintf(stdout, "\n");
     }
-- 
2.43.0


From 16bdd8dba38e9af388c41e4a5445be5e6f6e0684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 51/57] fix: values in depth and distance lists that are not
 numbers are refused

---
 pygrt/C_extension/src/common/util.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index 25caf0e..e8729bb 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -109,7 +109,11 @@ real_t *grt_parse_real_array(const char *optarg, size_t *size, char ***s_values,
 
     real_t *values = (real_t *)calloc(n, sizeof(real_t));
     for(size_t i = 0; i < n; ++i){
-        values[i] = atof(s_vals[i]);
+        char *end = NULL;
+        values[i] = strtod(s_vals[i], &end);
+        if(end == s_vals[i] || !isfinite(values[i])){
+            GRTRaiseError("-%c: \"%s\" is not a number.", optname, s_vals[i]);
+        }
         if(values[i] < 0.0){
             GRTRaiseError("-%c: negative value (%f) is not supported.", optname, values[i]);
         }
-- 
2.43.0


From c326831534a3555c288faf70bc9a3b33887f18ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 52/57] fix: greenfn checks model, depths and distances before
 it writes any file

---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 28 ++++++++++++++-------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 893ed8d..5992808 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -823,6 +823,25 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
     }
     Ctrl->D.active = true;
 
+    // FIM/SAFIM 面向远震中距，公式含 1/r、1/√r，不能用于 r=0（含 kcut 分段）
+    if(Ctrl->L.FIM.active || Ctrl->L.SAFIM.active){
+        for(size_t ir = 0; ir < Ctrl->R.nr; ++ir){
+            if(GRT_IS_ZERO(Ctrl->R.rs[ir])){
+                GRTRaiseError("FIM/SAFIM cannot be used with zero epicentral distance.");
+            }
+        }
+    }
+
+    // 在写出任何文件之前，检查模型是否适用于所有深度
+    for(size_t is = 0; is < Ctrl->D.ndepsrc; ++is){
+        for(size_t ir = 0; ir < Ctrl->D.ndeprcv; ++ir){
+            MODEL1D *mod1d = grt_read_mod1d_from_file(Ctrl->M.s_modelpath, Ctrl->D.depsrcs[is], Ctrl->D.deprcvs[ir], true);
+            if(mod1d == NULL)  exit(EXIT_FAILURE);
+            grt_set_mod1d_boundary(mod1d, Ctrl->B.topbound, Ctrl->B.botbound);
+            grt_free_mod1d(mod1d);
+        }
+    }
+
     // 建立保存目录
     GRTCheckMakeDir(Ctrl->O.s_output_dir);
     grt_check_greenfn_output_dir(Ctrl->O.s_output_dir, Ctrl->M.s_modelname);
@@ -870,15 +889,6 @@ static void prepare_grn_spec(
     K_INTEG_PROCESS *Kproc,
     GRNSPEC *grn)
 {
-    // FIM/SAFIM 面向远震中距，公式含 1/r、1/√r，不能用于 r=0（含 kcut 分段）
-    if(filonLength > 0.0 || safilonTol > 0.0){
-        for(size_t ir = 0; ir < nr; ++ir){
-            if(GRT_IS_ZERO(rs[ir])){
-                GRTRaiseError("FIM/SAFIM cannot be used with zero epicentral distance.");
-            }
-        }
-    }
-
     real_t vmin, vmax;
     grt_get_mod1d_vmin_vmax(mod1d, &vmin, &vmax);
 
-- 
2.43.0


From 51ecdfc6e42f6dbf3779d1f027a3270778630f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 53/57] fix: modsum checks dispersion file and depths before it
 writes any file

---
 pygrt/C_extension/src/modal/grt_modsum.c | 33 +++++++++++++++++-------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index bbcfb2c..21019c5 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -481,16 +481,6 @@ static void compute_modsum_one(
     // 使用模型层计算能量积分
     eigfnmet->cpar_nz = mod1d->n;
     
-    // 如果要计算面波格林函数，对生成频散文件的参数有限制，在 eigenv 必须以 -F0/fmax/df 的形式使用
-    // 不能只传入一个频率值
-    if(eigfnmet->nf <= 1){
-        GRTRaiseError("Modal summation need at least two sampled freqs, but only found %zu.\n", eigfnmet->nf);
-    }
-    // 原频散文件中，起始频率必须等于频率间隔，且不能以周期的形式给定
-    if(fabs(2.0*eigmet->freqs[0] - eigmet->freqs[1]) > 1e-8){
-        GRTRaiseError("Modal summation need dispersion file generated like `grt eigenv -F0/fmax/df`.\n");
-    }
-
     // 初始化 eigfn
     eigfnmet->eigfn = (EIGENFN **)calloc(eigfnmet->nf, sizeof(EIGENFN *));
     for(size_t iw = 0; iw < eigfnmet->nf; ++iw){
@@ -634,6 +624,29 @@ int modsum_main(int argc, char **argv){
         exit(EXIT_FAILURE);
     }
 
+    // 在写出任何文件之前，检查频散文件以及模型是否适用于所有深度
+    // 如果要计算面波格林函数，对生成频散文件的参数有限制，在 eigenv 必须以 -F0/fmax/df 的形式使用
+    // 不能只传入一个频率值
+    EIGENFN_INFO *eigfnmet = (EIGENFN_INFO *)calloc(1, sizeof(EIGENFN_INFO));
+    grt_filter_eigenfn_info(
+        Ctrl->F.nf, Ctrl->F.freqs, true,
+        Ctrl->N.nmode, Ctrl->N.modes, eigmet, eigfnmet);
+    if(eigfnmet->nf <= 1){
+        GRTRaiseError("Modal summation need at least two sampled freqs, but only found %zu.\n", eigfnmet->nf);
+    }
+    grt_free_eigenfn_info(eigfnmet);
+    // 原频散文件中，起始频率必须等于频率间隔，且不能以周期的形式给定
+    if(fabs(2.0*eigmet->freqs[0] - eigmet->freqs[1]) > 1e-8){
+        GRTRaiseError("Modal summation need dispersion file generated like `grt eigenv -F0/fmax/df`.\n");
+    }
+    for(size_t is = 0; is < Ctrl->D.ndepsrc; ++is){
+        for(size_t irc = 0; irc < Ctrl->D.ndeprcv; ++irc){
+            MODEL1D *mod1d_travt = grt_read_mod1d_from_file(modelpath, Ctrl->D.depsrcs[is], Ctrl->D.deprcvs[irc], true);
+            if(mod1d_travt == NULL)  exit(EXIT_FAILURE);
+            grt_free_mod1d(mod1d_travt);
+        }
+    }
+
     // 建立保存目录并检查已有内容
     GRTCheckMakeDir(Ctrl->O.s_output_dir);
     grt_check_greenfn_output_dir(Ctrl->O.s_output_dir, grt_get_basename(modelpath));
-- 
2.43.0


From a72472a896b8baa850c62d33c9852ebeb0ab27be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:09 +0000
Subject: [PATCH 54/57] fix: greenfn and static greenfn options with a range
 refuse values that are not numbers

---
 pygrt/C_extension/src/dynamic/grt_greenfn.c       | 14 +++++++-------
 pygrt/C_extension/src/static/grt_static_greenfn.c |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 5992808..13602a8 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -486,7 +486,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     if(token == NULL || 2 != sscanf(token, "%zu/%lf", &Ctrl->N.nt, &Ctrl->N.dt)){
                         GRTBadOptionError(N, "");
                     };
-                    if(Ctrl->N.nt <= 0 || Ctrl->N.dt <= 0.0){
+                    if(Ctrl->N.nt <= 0 || !(Ctrl->N.dt > 0.0)){
                         GRTBadOptionError(N, "Nonpositive value in -N is not supported.");
                     }
 
@@ -507,7 +507,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                                 if(1 != sscanf(token+1, "%lf", &Ctrl->N.zeta)){
                                     GRTBadOptionError(N, "");
                                 }
-                                if(Ctrl->N.zeta <= 0.0){
+                                if(!(Ctrl->N.zeta > 0.0)){
                                     GRTBadOptionError(N, "+%s need positive float, but get (%lf).", token, Ctrl->N.zeta);
                                 }
                                 break;
@@ -644,14 +644,14 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     if(1 != sscanf(optarg+1, "%lf", &Ctrl->E.delayT0)){
                         GRTBadOptionError(E, "");
                     };
-                    if(Ctrl->E.delayT0 >= 0.0){
+                    if(!(Ctrl->E.delayT0 < 0.0)){
                         GRTBadOptionError(E, "Can't set positive t0(%f) in -Ep.", Ctrl->E.delayT0);
                     }
                 } else {
                     if(1 > sscanf(optarg, "%lf/%lf", &Ctrl->E.delayT0, &Ctrl->E.delayV0)){
                         GRTBadOptionError(E, "");
                     };
-                    if(Ctrl->E.delayV0 < 0.0){
+                    if(!(Ctrl->E.delayV0 >= 0.0)){
                         GRTBadOptionError(E, "Can't set negative v0(%f) in -E.", Ctrl->E.delayV0);
                     }
                 }
@@ -669,7 +669,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                             if(1 != sscanf(token+1, "%lf", &Ctrl->K.k0)){
                                 GRTBadOptionError(K+k, "");
                             }
-                            if(Ctrl->K.k0 < 0.0){
+                            if(!(Ctrl->K.k0 >= 0.0)){
                                 GRTBadOptionError(K, "Can't set negative k0(%f).", Ctrl->K.k0);
                             }
                             break;
@@ -678,7 +678,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                             if(1 != sscanf(token+1, "%lf", &Ctrl->K.ampk)){
                                 GRTBadOptionError(K+s, "");
                             }
-                            if(Ctrl->K.ampk < 0.0){
+                            if(!(Ctrl->K.ampk >= 0.0)){
                                 GRTBadOptionError(K, "Can't set negative ampk(%f).", Ctrl->K.ampk);
                             }
                             break;
@@ -693,7 +693,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                             if(1 != sscanf(token+1, "%lf", &Ctrl->K.vmin)){
                                 GRTBadOptionError(K+v, "");
                             }
-                            if(Ctrl->K.vmin <= 0.0){
+                            if(!(Ctrl->K.vmin > 0.0)){
                                 GRTBadOptionError(K, "Illegal vmin (%f).", Ctrl->K.vmin);
                             }
                             break;
diff --git a/pygrt/C_extension/src/static/grt_static_greenfn.c b/pygrt/C_extension/src/static/grt_static_greenfn.c
index 17c90d8..6b49e3a 100644
--- a/pygrt/C_extension/src/static/grt_static_greenfn.c
+++ b/pygrt/C_extension/src/static/grt_static_greenfn.c
@@ -437,7 +437,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                             if(1 != sscanf(token+1, "%lf", &Ctrl->K.k0)){
                                 GRTBadOptionError(K+k, "");
                             }
-                            if(Ctrl->K.k0 < 0.0){
+                            if(!(Ctrl->K.k0 >= 0.0)){
                                 GRTBadOptionError(K, "Can't set negative k0(%f).", Ctrl->K.k0);
                             }
                             break;
-- 
2.43.0


From ceee882d7bc7b04dc528df2c072ca9b4af2d42cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:09 +0000
Subject: [PATCH 55/57] fix: Coulomb fault rows with values that are not finite
 are refused

---
 pygrt/C_extension/src/common/finite_fault.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pygrt/C_extension/src/common/finite_fault.c b/pygrt/C_extension/src/common/finite_fault.c
index a3c140c..2807758 100644
--- a/pygrt/C_extension/src/common/finite_fault.c
+++ b/pygrt/C_extension/src/common/finite_fault.c
@@ -125,6 +125,14 @@ FINITE_FAULT *grt_finite_fault_load_coulomb(const char *path, size_t *nfault)
             GRTRaiseError("parse Coulomb fault data at line %zu of %s failed.", line_number, path);
         }
 
+        if(!isfinite(east_begin) || !isfinite(north_begin) || !isfinite(east_end) || !isfinite(north_end)
+            || !isfinite(value1) || !isfinite(value2) || !isfinite(dip) || !isfinite(top) || !isfinite(bot)){
+            fclose(fp);
+            GRT_SAFE_FREE_PTR(line);
+            GRT_SAFE_FREE_PTR(faults);
+            GRTRaiseError("invalid number at line %zu of %s.", line_number, path);
+        }
+
         if(fabs(kode_value - round(kode_value)) > 1e-8 || kode_value < 0.0){
             fclose(fp);
             GRT_SAFE_FREE_PTR(line);
-- 
2.43.0


From 81fb41bb4de56b3fe6f10f3ebb089ce548fb379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 56/57] fix: greenfn refuses a negative number of points or
 upsampling factor

---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 13602a8..c2c48d1 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -9,6 +9,7 @@
 
 
 #include "grt.h"
+#include <limits.h>
 
 
 // 一些变量的非零默认值
@@ -528,6 +529,11 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         token = strtok(NULL, "+");
                     }
 
+                    // 负数会被读为极大的无符号数
+                    if(Ctrl->N.nt > INT_MAX || Ctrl->N.upsample_n > INT_MAX / Ctrl->N.nt){
+                        GRTBadOptionError(N, "Negative or too large number of points.");
+                    }
+
                     GRT_SAFE_FREE_PTR(string);
                 }
                 
-- 
2.43.0


From 8c89bba7c87043ea5b455d89aace8b79867f644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 57/57] fix: trapezoid whose end time is passed by the adjusted
 second time overran its array or never fell

---
 pygrt/C_extension/src/dynamic/signals.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygrt/C_extension/src/dynamic/signals.c b/pygrt/C_extension/src/dynamic/signals.c
index b657db1..4462082 100644
--- a/pygrt/C_extension/src/dynamic/signals.c
+++ b/pygrt/C_extension/src/dynamic/signals.c
@@ -249,6 +249,7 @@ float * grt_get_trap_wave(float dt, float *T1, float *T2, float *T3, int *Nt){
         n2 = get_interval_num(t2-t1, dt);
         if((fabsf(t2-t1 - n2*dt)) <= 1e-6) n2--;
         n2 += 2;
+        if(n2 < 1) n2 = 1;
         t2 = t1 + (n2-1)*dt;
     }
     
@@ -257,6 +258,7 @@ float * grt_get_trap_wave(float dt, float *T1, float *T2, float *T3, int *Nt){
     int n3 = get_interval_num(t3-t2, dt);
     if((fabsf(t3-t2 - n3*dt)) <= 1e-6) n3--;
     n3 += 2;
+    if(n3 < 2) n3 = 2;  // 微调后的 T2 可能已超过 T3，下坡至少占一个采样间隔
     t3 = t2 + (n3-1)*dt;
 
     // 总点数
-- 
2.43.0

