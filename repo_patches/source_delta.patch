From 59879503c95559e345c6cbce5c18e7504667c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 01/12] fix: keep radiative coefficients aligned with the
 boundary order

get_h_r_js concatenated the form factors room by room, so every boundary
list that was not grouped by room in ascending order gave the surfaces of
one room the coefficients of another.
---
 heat_load_calc/core/shape_factor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/core/shape_factor.py b/heat_load_calc/core/shape_factor.py
index a5b73f0..a10ca15 100644
--- a/heat_load_calc/core/shape_factor.py
+++ b/heat_load_calc/core/shape_factor.py
@@ -23,9 +23,11 @@ def get_h_r_js(a_srf_js: np.ndarray, p_js_is: np.ndarray) -> np.ndarray:
 
     # 微小点に対する境界jの形態係数
     # 永田先生の方法
-    f_js = np.concatenate([
-        _get_f_i_js(a_srf_js=a_srf_js.flatten()[p_js_is[:, i] == 1])
-        for i in range(n_spaces)])
+    # 境界は室ごとにまとめて並んでいるとは限らないため、元の境界の並び順の位置に代入する。
+    f_js = np.zeros(p_js_is.shape[0], dtype=float)
+    for i in range(n_spaces):
+        is_connected = p_js_is[:, i] == 1
+        f_js[is_connected] = _get_f_i_js(a_srf_js=a_srf_js.flatten()[is_connected])
 
     # 境界間の放射熱伝達率を決定する際、平均放射温度を20℃固定値であるとして計算する。
     t_mrt = 273.15 + 20.0
-- 
2.43.0


From 53151dc75d01b0e59774f608f8269b31c67e2a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 02/12] fix: do not grow the layer lists while computing
 response factors

get_response_factors appended the outside layer to the caller's own lists,
so calling it a second time (or reusing the lists) silently added another
layer and gave different factors.
---
 heat_load_calc/initializer/response_factor.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/heat_load_calc/initializer/response_factor.py b/heat_load_calc/initializer/response_factor.py
index ecbbc83..e852d9d 100644
--- a/heat_load_calc/initializer/response_factor.py
+++ b/heat_load_calc/initializer/response_factor.py
@@ -400,12 +400,10 @@ class ResponseFactorFactoryTransientEnvelope(ResponseFactorFactory):
 
         is_ground = False
 
-        c = self._cs
-        c.append(0.0)
+        c = self._cs + [0.0]
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
-        r.append(self._r_o)
+        r = self._rs + [self._r_o]
         r_layer_i_k_l = np.array(r)
 
         # 応答係数
@@ -433,12 +431,10 @@ class ResponseFactorFactoryTransientGround(ResponseFactorFactory):
 
         is_ground = True
 
-        c = self._cs
-        c.append(3300.0 * 3.0)
+        c = self._cs + [3300.0 * 3.0]
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
-        r.append(3.0 / 1.0)
+        r = self._rs + [3.0 / 1.0]
         r_layer_i_k_l = np.array(r)
 
         # 応答係数
-- 
2.43.0


From 8802f5595482affca98d8f660a4d0c51b76fe1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 03/12] fix: use the exact complement of the temperature
 difference coefficient

The weight of the room side was rounded to one digit, so for coefficients
such as 0.25 or 0.15 the two weights did not add up to 1 and a building at
one uniform temperature did not stay there.
---
 heat_load_calc/initializer/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index a6fc2ea..da8fd1e 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -639,7 +639,7 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
             # 温度差係数が1.0でない場合はk_ei_jsに値を代入する。
             # id は自分自身の境界IDとし、自分自身の表面の影響は1.0から温度差係数を減じた値になる。
             if bs.h_td < 1.0:
-                k_ei_js.append({'id': bs.id, 'coef': round(1.0 - bs.h_td, 1)})
+                k_ei_js.append({'id': bs.id, 'coef': 1.0 - bs.h_td})
             else:
                 # 温度差係数が1.0の場合はNoneとする。
                 k_ei_js.append(None)
-- 
2.43.0


From e6ba3ab21fd79315c56f482a2b04afb6ad528c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 04/12] fix: let the deep ground temperature act on ground
 boundaries

The rear weight of ground boundaries was 0, which replaced the annual mean
outdoor temperature prepared for them by 0 degree C.
---
 heat_load_calc/initializer/boundary_simple.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heat_load_calc/initializer/boundary_simple.py b/heat_load_calc/initializer/boundary_simple.py
index 4d15b12..73e5983 100644
--- a/heat_load_calc/initializer/boundary_simple.py
+++ b/heat_load_calc/initializer/boundary_simple.py
@@ -110,6 +110,9 @@ def get_boundary_simple(theta_o_ns, i_dn_ns, i_sky_ns, r_n_ns, a_sun_ns, h_sun_n
     # 境界の種類が'external_general_part', 'external_transparent_part', 'external_opaque_part'の場合に定義される。
     if b['boundary_type'] in ['external_general_part', 'external_transparent_part', 'external_opaque_part']:
         h_td = float(b['temp_dif_coef'])
+    # 地盤の場合は、裏面温度（年平均外気温度）がそのまま作用するため1.0とする。
+    elif b['boundary_type'] == 'ground':
+        h_td = 1.0
     else:
         h_td = 0.0
 
-- 
2.43.0


From f573ce1678c06b4decd695092a728568228a2424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 05/12] fix: hand the deep ground response over to the building
 calculation

The ground-only run-up works with the full influence of the deep ground
temperature, but the building calculation started with none of it (0 degree
C), and the slow ground response would have needed decades to recover.
---
 heat_load_calc/core/conditions.py          | 6 +++++-
 heat_load_calc/core/core.py                | 4 +++-
 heat_load_calc/core/pre_calc_parameters.py | 4 ++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/heat_load_calc/core/conditions.py b/heat_load_calc/core/conditions.py
index ff3238b..2728278 100644
--- a/heat_load_calc/core/conditions.py
+++ b/heat_load_calc/core/conditions.py
@@ -142,10 +142,14 @@ def initialize_ground_conditions(n_grounds: int):
     )
 
 
-def update_conditions_by_ground_conditions(is_ground: np.array, c: Conditions, gc: GroundConditions):
+def update_conditions_by_ground_conditions(
+        is_ground: np.array, c: Conditions, gc: GroundConditions, theta_dsh_srf_t_js_ms: np.ndarray
+):
 
     c.theta_dsh_srf_a_js_ms_n[is_ground, :] = gc.theta_dsh_srf_a_js_ms_n
 
+    c.theta_dsh_srf_t_js_ms_n[is_ground, :] = theta_dsh_srf_t_js_ms
+
     c.q_srf_js_n[is_ground, :] = gc.q_srf_js_n
 
     return c
diff --git a/heat_load_calc/core/core.py b/heat_load_calc/core/core.py
index 9c42906..d11f58e 100644
--- a/heat_load_calc/core/core.py
+++ b/heat_load_calc/core/core.py
@@ -70,10 +70,12 @@ def calc(
     c_n = conditions.initialize_conditions(n_spaces=pp.n_spaces, n_bdries=pp.n_bdries)
 
     # 地盤計算の結果（項別公比法の指数項mの吸熱応答の項別成分・表面熱流）を建物の計算に引き継ぐ
+    # 貫流応答の項別成分は、地盤計算と同じく深部温度が年平均外気温度で定常であるとした値とする。
     c_n = conditions.update_conditions_by_ground_conditions(
         is_ground=pp.is_ground_js.flatten(),
         c=c_n,
-        gc=gc_n
+        gc=gc_n,
+        theta_dsh_srf_t_js_ms=ppg.phi_t1_js_ms / (1.0 - ppg.r_js_ms) * ppg.theta_o_ave
     )
 
     print('助走計算（建物全体）')
diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index c76f653..746447b 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -199,6 +199,9 @@ class PreCalcParametersGround:
     # 地盤jの項別公比法における項mの吸熱応答係数の第一項 , m2K/W, [j, 12]
     phi_a1_js_ms: np.ndarray
 
+    # 地盤jの項別公比法における項mの貫流応答係数の第一項, [j, 12]
+    phi_t1_js_ms: np.ndarray
+
     # 地盤jにおける室内側放射熱伝達率, W/m2K, [j, 1]
     h_r_js: np.ndarray
 
@@ -613,6 +616,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
         r_js_ms=r_js_ms[is_ground_js.flatten(), :],
         phi_a0_js=phi_a0_js[is_ground_js.flatten(), :],
         phi_a1_js_ms=phi_a1_js_ms[is_ground_js.flatten(), :],
+        phi_t1_js_ms=phi_t1_js_ms[is_ground_js.flatten(), :],
         h_r_js=h_r_js[is_ground_js.flatten(), :],
         h_c_js=h_c_js[is_ground_js.flatten(), :],
         theta_o_ns=theta_o_ns,
-- 
2.43.0


From b1943e16006cc0d93fc5fc27cc8e3459be0d6732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 06/12] fix: refuse hand-over series that do not match the
 building

A mid_data file or weather file that had lost rows (e.g. after an
interrupted initialisation) was accepted silently; negative step numbers of
the run-up then wrapped around at the wrong place and shifted one series
against the others.
---
 heat_load_calc/core/pre_calc_parameters.py | 51 ++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index 746447b..f5caffb 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -412,6 +412,23 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
         r = csv.reader(f, quoting=csv.QUOTE_NONNUMERIC)
         theta_o_sol_js_ns = np.array([row for row in r]).T
 
+    # 途中で切れた（又は別の建物の）ファイルのまま計算を続けないように、全ての時系列データの大きさを確認する。
+    _check_series(
+        theta_o_ns=theta_o_ns,
+        x_o_ns=x_o_ns,
+        is_ns={
+            'mid_data_local_vent.csv': v_mec_vent_local_is_ns,
+            'mid_data_heat_generation.csv': q_gen_is_ns,
+            'mid_data_moisture_generation.csv': x_gen_is_ns,
+            'mid_data_occupants.csv': n_hum_is_ns,
+            'mid_data_ac_demand.csv': ac_demand_is_ns,
+            'mid_data_q_trs_sol.csv': q_trs_sol_is_ns
+        },
+        js_ns={'mid_data_theta_o_sol.csv': theta_o_sol_js_ns},
+        n_spaces=n_spaces,
+        n_boundaries=len(bs)
+    )
+
     # endregion
 
     # region 読み込んだ変数をベクトル表記に変換する
@@ -626,6 +643,40 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     return pre_calc_parameters, pre_calc_parameters_ground
 
 
+def _check_series(
+        theta_o_ns: np.ndarray,
+        x_o_ns: np.ndarray,
+        is_ns: Dict[str, np.ndarray],
+        js_ns: Dict[str, np.ndarray],
+        n_spaces: int,
+        n_boundaries: int
+):
+    """
+    読み込んだ時系列データの大きさが互いに整合していることを確認する。
+
+    Args:
+        theta_o_ns: ステップnの外気温度, degree C, [n]
+        x_o_ns: ステップnの外気絶対湿度, kg/kg(DA), [n]
+        is_ns: 室iの時系列データ（ファイル名をキーとする）, [i, n]
+        js_ns: 境界jの時系列データ（ファイル名をキーとする）, [j, n]
+        n_spaces: 空間の数
+        n_boundaries: 境界の数
+    """
+
+    n_step = len(theta_o_ns)
+
+    if not (np.all(np.isfinite(theta_o_ns)) and np.all(np.isfinite(x_o_ns))):
+        raise ValueError('weather.csv has missing values.')
+
+    for series, n_row in ((is_ns, n_spaces), (js_ns, n_boundaries)):
+        for name, values in series.items():
+            if values.shape != (n_row, n_step):
+                raise ValueError(
+                    name + ' does not match the building and weather.csv: '
+                    + str((n_row, n_step)) + ' expected, ' + str(values.shape) + ' found.'
+                )
+
+
 def _get_responsfactors(bs):
 
     # 境界jの吸熱応答係数の初項, m2K/W, [j, 1]
-- 
2.43.0


From e469d4405a22abae8cadb67b0c3822057eff9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 07/12] fix: keep every radiant panel within its rated capacity

Fixing one room's panel at its capacity changes the load of the panels in
coupled rooms, so the capacity has to be checked again after each solve.
---
 heat_load_calc/core/next_condition.py | 41 ++++++++++++++++-----------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/heat_load_calc/core/next_condition.py b/heat_load_calc/core/next_condition.py
index 7e03e23..3f0a8e9 100644
--- a/heat_load_calc/core/next_condition.py
+++ b/heat_load_calc/core/next_condition.py
@@ -103,29 +103,36 @@ def calc_next_temp_and_load(
     # lr 放射空調負荷, W, [i, 1]
     theta, lc, lr = get_load_and_temp(kt, kc, kr, k, nt, theta_set, c, lc_set, r, lr_set)
 
-    # 計算された放射空調負荷が最大放熱量を上回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
-    over_lr = lr > lr_h_max_cap_is
+    # ある室の放射空調を最大放熱量に固定すると他の室の放射空調負荷も変わるため、最大放熱量を超える室が無くなるまで繰り返す。
+    # （1回の計算で少なくとも1室が新たに固定されるため、計算回数は室の数を超えない。）
+    for _ in range(n_room):
 
-    # 対流負荷を未知数とする。
-    c[over_lr] = 1
+        # 計算された放射空調負荷が最大放熱量を上回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
+        over_lr = lr > lr_h_max_cap_is
 
-    # 放射負荷を最大放熱量に指定する。
-    r[over_lr] = 0
-    lr_set[over_lr] = lr_h_max_cap_is[over_lr]
+        # 対流負荷を未知数とする。
+        c[over_lr] = 1
 
-    # 計算された放射空調負荷が最大放熱量を下回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
-    # 注意：冷房の最大放熱量は正の値で指定される。一方、計算される負荷（lr）は、冷房の場合、負の値で指定される。
-    under_lr = lr < -lr_cs_max_cap_is
+        # 放射負荷を最大放熱量に指定する。
+        r[over_lr] = 0
+        lr_set[over_lr] = lr_h_max_cap_is[over_lr]
 
-    # 対流負荷を未知数とする。
-    c[under_lr] = 1
+        # 計算された放射空調負荷が最大放熱量を下回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
+        # 注意：冷房の最大放熱量は正の値で指定される。一方、計算される負荷（lr）は、冷房の場合、負の値で指定される。
+        under_lr = lr < -lr_cs_max_cap_is
 
-    # 放射負荷を最大放熱量に指定する。
-    r[under_lr] = 0
-    lr_set[under_lr] = -lr_cs_max_cap_is[under_lr]
+        # 対流負荷を未知数とする。
+        c[under_lr] = 1
 
-    # 放射暖房を最大放熱量に指定して再計算する。
-    theta, lc, lr = get_load_and_temp(kt, kc, kr, k, nt, theta_set, c, lc_set, r, lr_set)
+        # 放射負荷を最大放熱量に指定する。
+        r[under_lr] = 0
+        lr_set[under_lr] = -lr_cs_max_cap_is[under_lr]
+
+        if not np.any(over_lr | under_lr):
+            break
+
+        # 放射暖房を最大放熱量に指定して再計算する。
+        theta, lc, lr = get_load_and_temp(kt, kc, kr, k, nt, theta_set, c, lc_set, r, lr_set)
 
     return theta, lc, lr
 
-- 
2.43.0


From 39f97bf8a1cbff97498fc5fa9444acd1e2d687f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:21 +0000
Subject: [PATCH 08/12] fix: refuse weather files whose rows are longer than
 the header

---
 heat_load_calc/core/pre_calc_parameters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index f5caffb..46511b9 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -372,7 +372,11 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
 
     # region スケジュール化されたデータの読み込み
 
-    pp = pd.read_csv(data_directory + '/weather.csv', index_col=0, engine='python')
+    pp = pd.read_csv(data_directory + '/weather.csv', engine='python')
+
+    # 先頭行の項目数が見出しより多い場合、pandas は余った先頭の列を index とみなし、全ての列が1列ずれる。
+    if not isinstance(pp.index, pd.RangeIndex):
+        raise ValueError('weather.csv の項目数が見出しと一致していません。')
 
     theta_o_ns = pp['temperature'].values
     x_o_ns = pp['absolute humidity'].values
-- 
2.43.0


From 5fa8d094776917dcdca2a88f6d5f5808510f90f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 09/12] fix: converted specifications share no lists with the
 specification they were made from

---
 heat_load_calc/convert/ees_house.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heat_load_calc/convert/ees_house.py b/heat_load_calc/convert/ees_house.py
index b94fd24..c303ccd 100644
--- a/heat_load_calc/convert/ees_house.py
+++ b/heat_load_calc/convert/ees_house.py
@@ -2039,7 +2039,7 @@ class EarthfloorCenterSpec:
     def get_as_dict(self):
 
         return {
-            'layers': self._layers
+            'layers': deepcopy(self._layers)
         }
 
 
@@ -2294,7 +2294,7 @@ class Heatbridge(HeatbridgeNoSpec, IGetQ, IGetM):
         return {
             'name': self.name,
             'next_spaces': [next_space.value for next_space in self.next_spaces],
-            'directions': self.directions,
+            'directions': list(self.directions),
             'length': self.length,
             'space_type': self.space_type.value,
             'spec': self._heatbridge_spec.get_as_dict()
-- 
2.43.0


From 1ec4c62b64b708663d9aab40878dfe6b6fe8b606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 10/12] fix: response factors and sol-air temperatures are not
 aliases of the caller's data

---
 heat_load_calc/initializer/outside_eqv_temp.py | 2 +-
 heat_load_calc/initializer/response_factor.py  | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/heat_load_calc/initializer/outside_eqv_temp.py b/heat_load_calc/initializer/outside_eqv_temp.py
index d37b81e..c52b0ea 100644
--- a/heat_load_calc/initializer/outside_eqv_temp.py
+++ b/heat_load_calc/initializer/outside_eqv_temp.py
@@ -266,7 +266,7 @@ class OutsideEqvTempExternalNotSunStriked(OutsideEqvTemp):
             室iの境界jの傾斜面のステップnにおける相当外気温度, ℃, [8760 * 4]
         """
 
-        return theta_o_ns
+        return theta_o_ns.copy()
 
 
 class OutsideEqvTempGround(OutsideEqvTemp):
diff --git a/heat_load_calc/initializer/response_factor.py b/heat_load_calc/initializer/response_factor.py
index e852d9d..18af0f8 100644
--- a/heat_load_calc/initializer/response_factor.py
+++ b/heat_load_calc/initializer/response_factor.py
@@ -2,6 +2,7 @@
 
 """
 
+import copy
 import math
 import numpy as np
 from typing import List, Dict
@@ -373,9 +374,9 @@ class ResponseFactorFactoryDirect(ResponseFactorFactory):
         return ResponseFactor(
             rft0=self._rft0,
             rfa0=self._rfa0,
-            rft1=self._rft1,
-            rfa1=self._rfa1,
-            row=self._row,
+            rft1=copy.copy(self._rft1),
+            rfa1=copy.copy(self._rfa1),
+            row=copy.copy(self._row),
             n_root=self._n_root
         )
 
-- 
2.43.0


From 5d1eb1b9958121bdd9567124d76ab74fdd9d19a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 11/12] fix: refuse a specification whose boundary numbers or
 references do not resolve

Boundaries listed out of the order of their ids, or pointing to a room, boundary or
upstream room that does not exist (negative ids wrapped around), were silently
simulated as a different house.
---
 heat_load_calc/initializer/initializer.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index da8fd1e..2e253c9 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -360,6 +360,11 @@ def _make_spaces_dict(rooms: List[dict]):
         ] for r in rooms
     ]
 
+    # 流出側の室IDが存在することをチェック
+    for next_vent in [next_vent for r in rooms for next_vent in r['next_vent']]:
+        if not 0 <= next_vent['upstream_room_id'] < n_spaces:
+            raise ValueError('指定されたnext_ventのupstream_room_idに対応するroomがありません。')
+
     # 室iの自然風利用時の換気回数, 1/h, [i]
     n_ntrl_vent_is = np.array([r['natural_vent_time'] for r in rooms])
 
@@ -627,6 +632,16 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
     # 室の数
     n_spaces = len(rooms)
 
+    # boundaryのIDが0始まりで1ずつ増え、一意であることをチェック
+    # 接する室及び裏側表面の境界が存在することをチェック
+    for i, bs in enumerate(bss2):
+        if bs.id != i:
+            raise ValueError('指定されたboundaryのIDは0からインクリメントする必要があります。')
+        if not 0 <= bs.connected_room_id < n_spaces:
+            raise ValueError('指定されたboundaryのconnected_room_idに対応するroomがありません。')
+        if bs.boundary_type == BoundaryType.Internal and not 0 <= bs.rear_surface_boundary_id < len(bss2):
+            raise ValueError('指定されたboundaryのrear_surface_boundary_idに対応するboundaryがありません。')
+
     k_ei_js = []
 
     for bs in bss2:
-- 
2.43.0


From f57810aafba68b783b58abda187a2fdcdf75ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:20 +0000
Subject: [PATCH 12/12] fix: a coil that would humidify because neighbours'
 coils dried the room condenses nothing

---
 heat_load_calc/core/sequence.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/heat_load_calc/core/sequence.py b/heat_load_calc/core/sequence.py
index 0747557..825f965 100644
--- a/heat_load_calc/core/sequence.py
+++ b/heat_load_calc/core/sequence.py
@@ -231,6 +231,23 @@ def run_tick(n: int, delta_t: float, ss: PreCalcParameters, c_n: Conditions, log
     # 室絶対湿度の計算 式(16)
     x_r_is_npls = np.dot(np.linalg.inv(brmx_is_n_pls), brxc_is_n_pls)
 
+    # 隣室の除湿により室の絶対湿度が吹出絶対湿度を下回る室は、加湿することになるため、除湿しないものとして再計算する。
+    # （1回の計算で少なくとも1室が除湿しなくなるため、計算回数は室の数を超えない。）
+    for _ in range(ss.n_spaces):
+
+        is_humidifying_is_n = np.dot(brmx_rac_is_n_pls, x_r_is_npls) < brxc_rac_is_n_pls
+
+        if not np.any(is_humidifying_is_n):
+            break
+
+        brmx_rac_is_n_pls = np.where(is_humidifying_is_n, 0.0, brmx_rac_is_n_pls)
+        brxc_rac_is_n_pls = np.where(is_humidifying_is_n, 0.0, brxc_rac_is_n_pls)
+
+        x_r_is_npls = np.dot(
+            np.linalg.inv(brmx_non_dh_is_n_pls + brmx_rac_is_n_pls),
+            brxc_non_dh_is_n_pls + brxc_rac_is_n_pls
+        )
+
     # 除湿量
     l_cl_i_n = - (np.dot(brmx_rac_is_n_pls, x_r_is_npls) - brxc_rac_is_n_pls) * get_l_wtr()
 
-- 
2.43.0

