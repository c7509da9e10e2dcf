From 1d5edacf018aeece2af785003f9dace5d49c54d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:53 +0000
Subject: [PATCH 01/27] fix: validate custom peak load shapes of untyped
 buildings after normalising

---
 src/ecoengine/objects/building/Building.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/building/Building.py b/src/ecoengine/objects/building/Building.py
index 78c0116..22a9b27 100644
--- a/src/ecoengine/objects/building/Building.py
+++ b/src/ecoengine/objects/building/Building.py
@@ -331,12 +331,12 @@ class Building:
                 peak_ls   = np.array([x / raw_sum for x in raw])
             else:
                 daily_gal = float(magnitude)
-                # normalize if unnormalized, otherwise validate
+                # normalize if unnormalized
                 if abs(raw_sum - 1.0) > 1e-3:
                     peak_ls = np.array([x / raw_sum for x in raw])
                 else:
-                    _validate_load_shape(raw, 'custom_peak_load_shape')
                     peak_ls = np.array(raw)
+            _validate_load_shape(list(peak_ls), 'custom_peak_load_shape')
 
             if custom_avg_ls is not None:
                 raw_avg     = list(custom_avg_ls)
-- 
2.43.0


From 86ac73ce00ab1e88c8e6e08d819a240bb168007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:17 +0000
Subject: [PATCH 02/27] fix: keep recorded TM heater power aligned with
 timesteps when the TM heater idles

---
 src/ecoengine/objects/simulation/SimulationRun.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 5c68b12..9ad6b39 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -76,7 +76,7 @@ class SimulationRun:
         # TM (swing tank) per-timestep data — only populated for SwingSystem runs
         self.tm_tank_temp_f:           list[float] = []
         self.tm_heater_output_kbtuh:   list[float] = []
-        self.tm_heater_input_kw:   list[float] = []
+        self.tm_heater_input_kw:   list[float | None] = []
 
         # Cumulative outage counter [minutes]
         self.outage_minutes: int = 0
@@ -150,7 +150,8 @@ class SimulationRun:
             self.tm_tank_temp_f.append(tm_tank_temp_f)
         if tm_heater_output_kbtuh is not None:
             self.tm_heater_output_kbtuh.append(tm_heater_output_kbtuh)
-        if tm_heater_input_kw is not None:
+        # Keep TM power aligned with the timesteps: an idle TM heater reports None.
+        if tm_heater_input_kw is not None or tm_heater_output_kbtuh is not None:
             self.tm_heater_input_kw.append(tm_heater_input_kw)
 
     def check_outlet_deficit(self, top_tank_temp_f: float, supply_temp_f: float) -> bool:
-- 
2.43.0


From 68cf7eb1aded83640e17963838d18364cf94dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:22 +0000
Subject: [PATCH 03/27] fix: include TM heater power in monthly costs, monthly
 energy and peak demand

---
 src/ecoengine/objects/simulation/SimulationRun.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 9ad6b39..fd0e20a 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -270,14 +270,17 @@ class SimulationRun:
 
     def get_peak_demand_kw(self) -> float:
         """
-        Return peak instantaneous power draw observed during the simulation [kW].
+        Return peak instantaneous power draw observed during the simulation [kW],
+        primary and TM heaters together.
 
         Returns
         -------
         float
         """
-        non_none = [p for p in self.heater_power_in_kw if p is not None]
-        return max(non_none) if non_none else 0.0
+        total_kw = [p or 0.0 for p in self.heater_power_in_kw]
+        for i, p in enumerate(self.tm_heater_input_kw):
+            total_kw[i] += p or 0.0
+        return max(total_kw) if total_kw else 0.0
 
     def get_summary(self) -> dict:
         """
@@ -602,6 +605,8 @@ class SimulationRun:
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw   = kw_raw or 0.0
+            if self.tm_heater_input_kw and i < len(self.tm_heater_input_kw):
+                kw += self.tm_heater_input_kw[i] or 0.0
             rate = uc.get_energy_charge_at_step(i, self.timestep_min)
             energy_by_month[_step_to_month(i, self.timestep_min)] += (
                 kw * hours_per_step * rate
@@ -699,6 +704,9 @@ class SimulationRun:
             monthly[month_idx] = sum(
                 (self.heater_power_in_kw[i] or 0.0) * hours_per_step
                 for i in range(step, min(step + n_steps, len(self.heater_power_in_kw)))
+            ) + sum(
+                (self.tm_heater_input_kw[i] or 0.0) * hours_per_step
+                for i in range(step, min(step + n_steps, len(self.tm_heater_input_kw)))
             )
             step += n_steps
         return monthly
-- 
2.43.0


From 9aeedba8dfa558297bf7881173dbd00cb42b9b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:42 +0000
Subject: [PATCH 04/27] fix: bill each demand period in the month its peak
 occurred, whatever its label

---
 .../objects/simulation/SimulationRun.py       | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index fd0e20a..7ee260c 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -602,27 +602,26 @@ class SimulationRun:
         hours_per_step  = self.timestep_min / 60.0
         energy_by_month = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
+        month_by_period:  dict[int, int]   = {}   # month in which the period's max kW occurred
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw   = kw_raw or 0.0
             if self.tm_heater_input_kw and i < len(self.tm_heater_input_kw):
                 kw += self.tm_heater_input_kw[i] or 0.0
             rate = uc.get_energy_charge_at_step(i, self.timestep_min)
-            energy_by_month[_step_to_month(i, self.timestep_min)] += (
-                kw * hours_per_step * rate
-            )
+            month = _step_to_month(i, self.timestep_min)
+            energy_by_month[month] += kw * hours_per_step * rate
             period = uc.get_demand_period_at_step(i, self.timestep_min)
             if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                 max_kw_by_period[period] = kw
+                month_by_period[period]  = month
 
-        # Assign each period's demand charge to its calendar month.
-        # Period key = month * num_periods + offset → month = key // num_periods.
-        num_periods     = 3 if uc.include_discount else 2
+        # Assign each period's demand charge to the calendar month it was incurred in.
         demand_by_month = [0.0] * 12
         for period, max_kw in max_kw_by_period.items():
-            m = period // num_periods
-            if 0 <= m < 12:
-                demand_by_month[m] += uc.get_demand_charge_for_period(period, max_kw)
+            demand_by_month[month_by_period[period]] += (
+                uc.get_demand_charge_for_period(period, max_kw)
+            )
 
         return {
             "energy": energy_by_month,
@@ -645,6 +644,7 @@ class SimulationRun:
         energy_peak         = [0.0] * 12
         energy_off_peak     = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
+        month_by_period:  dict[int, int]   = {}   # month in which the period's max kW occurred
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw = kw_raw or 0.0
@@ -660,18 +660,17 @@ class SimulationRun:
                 energy_off_peak[month] += cost
             if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                 max_kw_by_period[period] = kw
+                month_by_period[period]  = month
 
-        num_periods    = 3 if uc.include_discount else 2
         demand_peak    = [0.0] * 12
         demand_off_peak = [0.0] * 12
         for period, max_kw in max_kw_by_period.items():
-            m = period // num_periods
-            if 0 <= m < 12:
-                charge = uc.get_demand_charge_for_period(period, max_kw)
-                if uc.is_peak_map.get(period, False):
-                    demand_peak[m] += charge
-                else:
-                    demand_off_peak[m] += charge
+            m = month_by_period[period]
+            charge = uc.get_demand_charge_for_period(period, max_kw)
+            if uc.is_peak_map.get(period, False):
+                demand_peak[m] += charge
+            else:
+                demand_off_peak[m] += charge
 
         return {
             "energy_peak":     energy_peak,
-- 
2.43.0


From 5f3c7580b6923134ad773662ccd9a4de0e0ef69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:57 +0000
Subject: [PATCH 05/27] fix: keep hour-specific energy rates when exporting a
 rate structure to CSV

---
 src/ecoengine/objects/building/UtilityCostTracker.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index d008c95..7567e3d 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -640,8 +640,9 @@ class UtilityCostTracker:
 
         Produces 8760 data rows (one per hour of a non-leap year) plus a header.
         Energy and demand rates are written on the *first* occurrence of each
-        demand period; subsequent rows leave those fields blank.  The monthly
-        base charge appears only in the first data row.
+        demand period; subsequent rows leave those fields blank unless the hour
+        has its own energy rate.  The monthly base charge appears only in the
+        first data row.
 
         Parameters
         ----------
@@ -679,6 +680,10 @@ class UtilityCostTracker:
                 else:
                     energy_rate = ""
                     demand_rate = ""
+                # Hourly rates that differ from their period's rate are written out.
+                if (len(self.energy_charge_by_hour) == 8760
+                        and self.energy_charge_by_hour[h] != self.energy_charge_map.get(period)):
+                    energy_rate = self.energy_charge_by_hour[h]
 
                 base_charge = self.monthly_base_charge if h == 0 else ""
                 writer.writerow([date_str, period, energy_rate, demand_rate, base_charge])
-- 
2.43.0


From ad420a8ab679a4eccd191f9a913bfeac35efd9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:36 +0000
Subject: [PATCH 06/27] fix: size instantaneous heaters for the peak hour's
 flow, not sixty times it

---
 src/ecoengine/objects/dhwsystems/InstantWHSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
index 5a0bdf6..4d15890 100644
--- a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
+++ b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
@@ -81,7 +81,7 @@ class InstantWHSystem(DHWSystem):
         delta_t = self.supply_temp_f - design_inlet_temp_f
 
         # Peak instantaneous generation rate [gal/hr at supply temp]
-        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape)) * 60.0
+        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape))
 
         self._minimum_capacity_kbtuh       = peak_gph * _RHO_CP * delta_t / self.defrost_factor / 1000.0
         self._minimum_storage_storageT_gal = 0.0
-- 
2.43.0


From 86b495ff80fcc69b2fb10c3b305cbd2a51e89729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:36 +0000
Subject: [PATCH 07/27] fix: report the outdoor air temperature in multi-pass
 RTP simulation steps

---
 .../objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
index 60198e8..5c46c07 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
@@ -638,7 +638,7 @@ class MultiPassRTPSystem(RTPSystem):
             "usable_volume_supplyT_gal": usable_vol_gal,
             "heater_output_kbtuh":       total_kbtuh,
             "heater_power_in_kw":        total_kw,
-            "oat_f":                     top_temp_f,
+            "oat_f":                     oat_f,
             "inlet_water_temp_f":        inlet_water_temp_f,
             "tank_temps_f":              tank_temps_f,
             "mode":                      mode,
-- 
2.43.0


From a1777761e415bc229d08aec348c0a6aad3d52e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:54 +0000
Subject: [PATCH 08/27] fix: start every simulation with the heaters off,
 whatever an earlier run left

---
 src/ecoengine/interfaces/Simulator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecoengine/interfaces/Simulator.py b/src/ecoengine/interfaces/Simulator.py
index 0127b4c..7bf6dc4 100644
--- a/src/ecoengine/interfaces/Simulator.py
+++ b/src/ecoengine/interfaces/Simulator.py
@@ -75,6 +75,12 @@ def simulate(dhw_system: DHWSystem, building: Building, duration: str = "3day",
             cold_temp_f     = inlet_temp_f,
             percent_useable = 1.0,
         )
+    # Every run starts with the heaters off, whatever an earlier run left behind
+    for wh in dhw_system.water_heaters:
+        wh.turn_off()
+    tm_heater = getattr(dhw_system, "tm_water_heater", None)
+    if tm_heater is not None:
+        tm_heater.turn_off()
 
     sim_run.supply_temp_f = dhw_system.supply_temp_f
     num_steps = duration_min // timestep_min
-- 
2.43.0


From 39f6bb51833f38e53039df0758b5e3a4990e493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:24 +0000
Subject: [PATCH 09/27] fix: give the load-shift sizing curve of a swing system
 the capacity size() reports

---
 src/ecoengine/objects/dhwsystems/DHWSystem.py                  | 3 +++
 src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index 46e39f9..e04f959 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -598,6 +598,9 @@ class DHWSystem:
             # Pre-compute quantities that don't vary with fract_total_vol.
             cap_normal     = self._calc_required_capacity(building)
             run_vol_normal = self._calc_running_volume_supplyT_gal(building, cap_normal)
+            # The running volume may update what the capacity depends on (the
+            # swing tank's mix fraction), so take the capacity after it, as size() does.
+            cap_normal     = self._calc_required_capacity(building)
             strat_normal   = self._calc_stratification_factor(
                 control_map, _strat_slope, design_inlet
             )
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 7b90b9a..5e58d3c 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -453,6 +453,7 @@ class SwingSystem(RecircSystem):
 
         peak_indices = _get_peak_indices(hourly_diff)
         if not peak_indices:
+            self._eff_mix_fraction = 1.0
             return 0.0
 
         n_real_peaks = len(peak_indices)
-- 
2.43.0


From 72c31a10c4f5836c5cc091979b2ab64b21cac572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:27 +0000
Subject: [PATCH 10/27] fix: restore the building's annual load shape when
 sizing fails

---
 src/ecoengine/objects/dhwsystems/DHWSystem.py                | 5 ++---
 .../objects/dhwsystems/recirc_systems/SwingSystem.py         | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index e04f959..69fdedc 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -379,9 +379,8 @@ class DHWSystem:
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     def get_minimum_capacity_kbtuh(self) -> float:
         """
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 5e58d3c..575ca77 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -266,9 +266,8 @@ class SwingSystem(RecircSystem):
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     # ------------------------------------------------------------------
     # Sizing curve — override to enforce correct call order
-- 
2.43.0


From 708b7db1f7a2e03636e63a130228833a5e4de1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:26 +0000
Subject: [PATCH 11/27] fix: size tankless, multi-pass RTP and swing ER systems
 on the 24-hour load shape

---
 .../objects/dhwsystems/InstantWHSystem.py         | 10 +++++++++-
 .../recirc_systems/SwingERTrdOffSystem.py         | 15 +++++++++++++++
 .../dhwsystems/rtp_systems/MultiPassRTPSystem.py  | 12 ++++++++++++
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
index 4d15890..3f91f02 100644
--- a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
+++ b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
@@ -81,7 +81,15 @@ class InstantWHSystem(DHWSystem):
         delta_t = self.supply_temp_f - design_inlet_temp_f
 
         # Peak instantaneous generation rate [gal/hr at supply temp]
-        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape))
+        # from the 24-hour design day, like all other sizing
+        was_annual = building.is_annual_load_shape()
+        if was_annual:
+            building.set_to_daily_load_shape()
+        try:
+            peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape))
+        finally:
+            if was_annual:
+                building.set_to_annual_load_shape()
 
         self._minimum_capacity_kbtuh       = peak_gph * _RHO_CP * delta_t / self.defrost_factor / 1000.0
         self._minimum_storage_storageT_gal = 0.0
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 2d21238..5d3ae68 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -295,6 +295,21 @@ class SwingERTrdOffSystem(SwingSystem):
         self._size_er_element(building)
 
     def _size_er_element(self, building: Building) -> None:
+        """
+        Size the ER addition on the 24-hour daily load shape, like all other
+        sizing. A building set to the annual shape is switched back for the
+        sizing simulation and restored afterwards.
+        """
+        was_annual = building.is_annual_load_shape()
+        if was_annual:
+            building.set_to_daily_load_shape()
+        try:
+            self._size_er_element_daily(building)
+        finally:
+            if was_annual:
+                building.set_to_annual_load_shape()
+
+    def _size_er_element_daily(self, building: Building) -> None:
         """
         Determine additional ER capacity for the swing tank TM element by
         simulating the full system over 2 days with two initial primary-tank
diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
index 5c46c07..0555627 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
@@ -115,6 +115,18 @@ class MultiPassRTPSystem(RTPSystem):
                         f"percent_useable={percent_useable:.3f})."
                     )
 
+        # Both size() and the capacity-boost trials work on the 24-hour daily load shape.
+        if building.is_annual_load_shape():
+            building.set_to_daily_load_shape()
+            try:
+                return cls.from_size(
+                    building, supply_temp_f, storage_temp_f, return_temp_f, return_flow_gpm,
+                    max_daily_run_hr, defrost_factor, control_schedule, control_map, strat_slope,
+                    percent_useable, capacity_boost_trial_days, capacity_boost_iterations,
+                )
+            finally:
+                building.set_to_annual_load_shape()
+
         system = cls(
             water_heaters=[],
             storage_tank=None,
-- 
2.43.0


From 3a78f19276ae120c857fe226d3a2369956380563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:30 +0000
Subject: [PATCH 12/27] fix: leave building and system as found when an ER
 coverage point cannot be sized

---
 .../dhwsystems/recirc_systems/SwingERTrdOffSystem.py   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 5d3ae68..841fa15 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -601,7 +601,15 @@ class SwingERTrdOffSystem(SwingSystem):
                 self._minimum_tm_capacity_kbtuh    = base_tm_kbtuh
                 self._er_capacity_kbtuh            = None
                 self.er_safety_factor              = additional_er_safety
-                self._size_er_element(building)
+                try:
+                    self._size_er_element(building)
+                except ValueError:
+                    # swing tank too small at this fraction: leave everything as found
+                    building.daily_dhw_use_supplyT_gal = original_daily_gal
+                    self._minimum_tm_capacity_kbtuh    = original_total_tm
+                    self._er_capacity_kbtuh            = original_er_kbtuh
+                    self.er_safety_factor              = original_er_safety
+                    raise
                 self.er_safety_factor              = original_er_safety
                 total_tm_i = self._minimum_tm_capacity_kbtuh
                 er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
-- 
2.43.0


From ed91a8985ad1863a603a55b2507e0df393f9a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:23 +0000
Subject: [PATCH 13/27] fix: accept CA zip codes given as int, as documented

---
 src/ecoengine/interfaces/EcosizerEngine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index d6c7039..719ce2c 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -704,6 +704,8 @@ class EcosizerEngine:
             return ClimateZone.from_zip_code(czv)
         if isinstance(czv, int) and 1 <= czv <= 96:
             return ClimateZone.from_zone_id(czv)
+        if isinstance(czv, int) and 10000 <= czv <= 99999:
+            return ClimateZone.from_zip_code(czv)
         if isinstance(czv, str):
             return ClimateZone.from_weather_station(czv)
         raise ValueError(
-- 
2.43.0


From e74b63ea2674caa4bb40f62325efacd3e2d26965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:23 +0000
Subject: [PATCH 14/27] fix: attach the engine's utility cost tracker to its
 building

---
 src/ecoengine/interfaces/EcosizerEngine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 719ce2c..aa98467 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -693,6 +693,7 @@ class EcosizerEngine:
             gpdpp                   = self.gpdpp,
             custom_peak_load_shape  = self.custom_peak_load_shape,
             custom_avg_load_shape   = self.custom_avg_load_shape,
+            utility_cost_tracker    = self.utility_cost_tracker,
         )
 
     def _build_climate_zone(self, ClimateZone):
-- 
2.43.0


From f17ca2f0ce5f99b69d5c1ad58823a3321f7a31d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:23 +0000
Subject: [PATCH 15/27] fix: use the default gallons per person when the engine
 is given none

---
 src/ecoengine/interfaces/EcosizerEngine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index aa98467..206efac 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -686,11 +686,12 @@ class EcosizerEngine:
         from ecoengine.objects.building.ClimateZone import ClimateZone
 
         zone = self._build_climate_zone(ClimateZone)
+        gpdpp_kwargs = {} if self.gpdpp is None else {"gpdpp": self.gpdpp}
         return Building.from_building_type(
             building_type           = self.building_type,
             magnitude               = self.magnitude,
             climate_zone            = zone,
-            gpdpp                   = self.gpdpp,
+            **gpdpp_kwargs,
             custom_peak_load_shape  = self.custom_peak_load_shape,
             custom_avg_load_shape   = self.custom_avg_load_shape,
             utility_cost_tracker    = self.utility_cost_tracker,
-- 
2.43.0


From 9ac0baac38867f1f15b7c48211da5f1d53a1afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:23 +0000
Subject: [PATCH 16/27] fix: give scheduled load-up hours controls when no
 load-up aquastat is set

---
 src/ecoengine/interfaces/EcosizerEngine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 206efac..7d71c5a 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -768,11 +768,12 @@ class EcosizerEngine:
             outlet_temp_f    = self.storage_temp_f,
         )
 
-        if self.load_up_hours > 0 and self.load_up_aquastat_fract is not None:
+        if self.load_up_hours > 0:
+            lu_on_fract  = self.load_up_aquastat_fract if self.load_up_aquastat_fract is not None else self.aquastat_fract
             lu_off_fract = self.load_up_off_sensor_fract if self.load_up_off_sensor_fract is not None else self.off_sensor_fract
             lu_off_t     = self.load_up_off_trigger_t_f  if self.load_up_off_trigger_t_f  is not None else off_t
             cmap["loadUp"] = Controls(
-                on_sensor_fract  = self.load_up_aquastat_fract,
+                on_sensor_fract  = lu_on_fract,
                 on_trigger_t_f   = on_t,
                 off_sensor_fract = lu_off_fract,
                 off_trigger_t_f  = lu_off_t,
-- 
2.43.0


From c7ef4fbb2fc2e2f7664043c368b3e90ede9e61eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:24 +0000
Subject: [PATCH 17/27] fix: pass the number of TM heaters to parallel-loop
 sizing

---
 src/ecoengine/interfaces/EcosizerEngine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 7d71c5a..e8178be 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -844,6 +844,7 @@ class EcosizerEngine:
                     tm_off_temp_f              = self.tm_off_temp_f,
                     tm_off_time_hr             = self.tm_off_time_hr,
                     tm_safety_factor           = self.tm_safety_factor,
+                    num_tm_heaters             = self.num_tm_heaters,
                     max_daily_run_hr           = self.max_daily_run_hr,
                     defrost_factor             = self.defrost_factor,
                     control_schedule           = control_schedule,
-- 
2.43.0


From 10302f5437c959db8f9da8a2b4f5bd9621cc4d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:26 +0000
Subject: [PATCH 18/27] fix: a design-condition climate reports a condition it
 was not given as None

---
 src/ecoengine/objects/building/ClimateZone.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ecoengine/objects/building/ClimateZone.py b/src/ecoengine/objects/building/ClimateZone.py
index b4b3b33..dba73e7 100644
--- a/src/ecoengine/objects/building/ClimateZone.py
+++ b/src/ecoengine/objects/building/ClimateZone.py
@@ -211,7 +211,7 @@ class ClimateZone:
         float
             Outdoor air temperature [°F].
         """
-        if self._constant_oat_f is not None:
+        if self._constant_oat_f is not None or self._oat_f_by_hour is None:
             return self._constant_oat_f
         actual_minute = timestep_interval * interval_min
         hour_of_year  = (actual_minute // 60) % len(self._oat_f_by_hour)
@@ -237,7 +237,7 @@ class ClimateZone:
         float
             Inlet water temperature [°F].
         """
-        if self._constant_inlet_water_temp_f is not None:
+        if self._constant_inlet_water_temp_f is not None or self._inlet_water_temp_f_by_month is None:
             return self._constant_inlet_water_temp_f
         actual_minute = timestep_interval * interval_min
         day_of_year   = (actual_minute // (60 * 24)) % 365
@@ -256,7 +256,7 @@ class ClimateZone:
         condition for heat-pump sizing).
         For design-condition zones: the constant value set at construction.
         """
-        if self._constant_oat_f is not None:
+        if self._constant_oat_f is not None or self._oat_f_by_hour is None:
             return self._constant_oat_f
         return min(self._oat_f_by_hour)
 
@@ -268,7 +268,7 @@ class ClimateZone:
         sizing condition).
         For design-condition zones: the constant value set at construction.
         """
-        if self._constant_inlet_water_temp_f is not None:
+        if self._constant_inlet_water_temp_f is not None or self._inlet_water_temp_f_by_month is None:
             return self._constant_inlet_water_temp_f
         return min(self._inlet_water_temp_f_by_month)
 
-- 
2.43.0


From 225536ec7649cf14017a1485cc11c9f29588107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:19 +0000
Subject: [PATCH 19/27] fix: switching from the annual back to the daily load
 shape restores custom shapes

---
 src/ecoengine/objects/building/Building.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/building/Building.py b/src/ecoengine/objects/building/Building.py
index 22a9b27..da56122 100644
--- a/src/ecoengine/objects/building/Building.py
+++ b/src/ecoengine/objects/building/Building.py
@@ -111,6 +111,7 @@ class Building:
         self.avg_load_shape  = np.array(avg_load_shape)
         self.utility_cost_tracker = utility_cost_tracker
         self.building_type = building_type
+        self._daily_load_shapes = None
 
     # ------------------------------------------------------------------
     # Factory
@@ -437,12 +438,16 @@ class Building:
             )
         data      = _load_shape_json('multi_family')
         annual_ls = np.array(data['loadshapes']['Annual_Normalized'])
+        if not self.is_annual_load_shape():
+            self._daily_load_shapes = (self.peak_load_shape, self.avg_load_shape)
         self.peak_load_shape = annual_ls
         self.avg_load_shape  = annual_ls  # one shape for the whole year; no separate peak/avg
 
     def set_to_daily_load_shape(self) -> None:
         """
-        Switch back to the 24-hour daily load shapes (Stream / Stream_Avg).
+        Switch back to the 24-hour daily load shapes: the ones the building had
+        before it was switched to the annual shape (its custom shapes, if any),
+        otherwise Stream / Stream_Avg.
 
         Only supported for multi_family buildings.
 
@@ -456,6 +461,9 @@ class Building:
                 "set_to_daily_load_shape() is only available for multi_family buildings. "
                 f"This building is type '{self.building_type}'."
             )
+        if self.is_annual_load_shape() and self._daily_load_shapes is not None:
+            self.peak_load_shape, self.avg_load_shape = self._daily_load_shapes
+            return
         data = _load_shape_json('multi_family')
         self.peak_load_shape = np.array(data['loadshapes']['Stream'])
         self.avg_load_shape  = np.array(data['loadshapes']['Stream_Avg'])
-- 
2.43.0


From 17888d4722a2b6a7776ade18a864b8e5a582be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:18 +0000
Subject: [PATCH 20/27] fix: average draw temperature above an active slug
 follows the hot zone that draws have lifted

---
 .../objects/components/storage/SlugOverlayTank.py     | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ecoengine/objects/components/storage/SlugOverlayTank.py b/src/ecoengine/objects/components/storage/SlugOverlayTank.py
index b96496f..d00aea9 100644
--- a/src/ecoengine/objects/components/storage/SlugOverlayTank.py
+++ b/src/ecoengine/objects/components/storage/SlugOverlayTank.py
@@ -267,14 +267,19 @@ class SlugOverlayTank(EnergyTank):
         """
         if not self._slug_active:
             return super().get_average_draw_temp_f(draw_gal)
+        if draw_gal <= 0.0:
+            return super().get_average_draw_temp_f(draw_gal)
         draw_gal_pct = draw_gal/self.total_volume_gal * 100.0
+        # draws have lifted the frozen hot-zone profile by the slug's growth
+        top_pct = 100.0 - (self._slug_vol_gal - self._original_slug_vol_gal) / self.total_volume_gal * 100.0
         if 100.0 - draw_gal_pct >= self._slug_top_pct:
             # All draw above slug
-            return super().get_average_draw_temp_f(draw_gal)
+            return self._zone_average_temp_f(top_pct - draw_gal_pct, top_pct)
         non_slug_draw_pct = 100.0 - self._slug_top_pct
         slug_draw_pct = draw_gal_pct - non_slug_draw_pct
-        return ((super().get_average_draw_temp_f(self.total_volume_gal * (non_slug_draw_pct/100.0)) * non_slug_draw_pct) + (self._slug_temp_f * slug_draw_pct)) / draw_gal_pct
-    
+        above_slug_temp_f = self._zone_average_temp_f(top_pct - non_slug_draw_pct, top_pct)
+        return ((above_slug_temp_f * non_slug_draw_pct) + (self._slug_temp_f * slug_draw_pct)) / draw_gal_pct
+
     def get_temperature_at_fraction(self, fract: float, verbose = False) -> float:
         """
         Return water temperature at fractional tank height (0=bottom, 1=top).
-- 
2.43.0


From 894d6cb589c92596d543a39f88c4a684e46d4749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:05 +0000
Subject: [PATCH 21/27] fix: refuse controls that leave no usable water instead
 of dividing by zero or sizing a negative tank

---
 src/ecoengine/objects/dhwsystems/DHWSystem.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index 69fdedc..4960e29 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -946,7 +946,19 @@ class DHWSystem:
         -------
         float
             Required physical storage volume [gallons].
+
+        Raises
+        ------
+        ValueError
+            If *stratification_factor* is zero or negative: the controls leave
+            no usable water between their sensors, so no tank is large enough.
         """
+        if stratification_factor <= 0:
+            raise ValueError(
+                "The aquastat settings leave no usable hot water to size storage from: "
+                "raise the ON trigger temperature or lower the ON sensor, and for load "
+                "shifting make load-up charge the tank past the shed ON sensor."
+            )
         return running_volume_supplyT_gal / stratification_factor
 
     def _calc_stratification_factor(
-- 
2.43.0


From e76a46a8e429eaec677354de401247ae8dd8e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:58 +0000
Subject: [PATCH 22/27] fix: refuse a pre-sized swing tank without
 tm_capacity_kbtuh instead of building one with no heat

---
 src/ecoengine/interfaces/EcosizerEngine.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index e8178be..a012a51 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -611,8 +611,8 @@ class EcosizerEngine:
             Pre-sized TM tank volume [gallons]. Required for ``parallel_loop``
             and ``swing_tank`` when using the pre-sized path.
         tm_capacity_kbtuh : float, optional
-            Pre-sized TM heater capacity [kBTU/hr]. Required for ``parallel_loop``
-            and ``swing_tank`` when ``tm_model`` is not provided.
+            Pre-sized TM heater capacity [kBTU/hr]. Required for ``swing_tank``, and
+            for ``parallel_loop`` when ``tm_model`` is not provided.
         tm_model : str, optional
             HPWH model name for the TM heater's performance map. When provided,
             ``tm_capacity_kbtuh`` is used only as the ER fallback capacity.
@@ -944,6 +944,11 @@ class EcosizerEngine:
                 f"Schematic '{self.schematic}' requires tm_capacity_kbtuh or tm_model "
                 "in pre-sized mode."
             )
+        if self.tm_capacity_kbtuh is None and self.schematic in ["swing_tank", "swingtank"]:
+            # A swing tank's heater is always an electric element, never tm_model.
+            raise ValueError(
+                f"Schematic '{self.schematic}' requires tm_capacity_kbtuh in pre-sized mode."
+            )
 
     def _build_tm_water_heater(self, tm_controls, force_electric_resistance : bool = False):
         """Build the TM WaterHeater (single unit) from tm_model or tm_capacity_kbtuh."""
-- 
2.43.0


From ff6fdd80d6836abf7371025119ad39f42b6074d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:27 +0000
Subject: [PATCH 23/27] fix: export every hour's energy rate when a period's
 first hour has a rate of its own

---
 .../objects/building/UtilityCostTracker.py    | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index 7567e3d..f1caed8 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -654,7 +654,7 @@ class UtilityCostTracker:
             "Energy Rate ($/kWh)", "Demand Rate ($/kW)",
             "Monthly Base Charge",
         ]
-        seen_periods: set[int] = set()
+        first_rates: dict[int, float] = {}
         month = 0
         day   = 1
 
@@ -673,17 +673,19 @@ class UtilityCostTracker:
                 date_str = f"{_MONTH_NAMES[month]} {day}, {h % 24:02d}:00"
                 period   = self.demand_period_chart[h]
 
-                if period not in seen_periods:
-                    energy_rate = self.energy_charge_map.get(period, "")
+                rate = (
+                    self.energy_charge_by_hour[h]
+                    if len(self.energy_charge_by_hour) == 8760
+                    else self.energy_charge_map.get(period, "")
+                )
+                # A blank rate reads back as the rate of its period's first row.
+                if period not in first_rates:
+                    energy_rate = rate
                     demand_rate = self.demand_charge_map.get(period, "")
-                    seen_periods.add(period)
+                    first_rates[period] = rate
                 else:
-                    energy_rate = ""
+                    energy_rate = "" if rate == first_rates[period] else rate
                     demand_rate = ""
-                # Hourly rates that differ from their period's rate are written out.
-                if (len(self.energy_charge_by_hour) == 8760
-                        and self.energy_charge_by_hour[h] != self.energy_charge_map.get(period)):
-                    energy_rate = self.energy_charge_by_hour[h]
 
                 base_charge = self.monthly_base_charge if h == 0 else ""
                 writer.writerow([date_str, period, energy_rate, demand_rate, base_charge])
-- 
2.43.0


From e861131673b57afc75f6ad215c26ee735b082189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:14 +0000
Subject: [PATCH 24/27] fix: mix without dividing by zero when storage has
 cooled to supply temperature or nothing flows

---
 src/ecoengine/objects/dhwsystems/utils.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/utils.py b/src/ecoengine/objects/dhwsystems/utils.py
index a47a94e..2a690f6 100644
--- a/src/ecoengine/objects/dhwsystems/utils.py
+++ b/src/ecoengine/objects/dhwsystems/utils.py
@@ -3,6 +3,17 @@ from ecoengine.constants.constants import _RHO_CP
 
 def mixing_valve_behavior(load_supplyT_gal : float, flow_returnT_gal : float, cold_temp_f : float, supply_temp_f : float, return_temp_f : float, storage_temp_f : float) -> dict:
     # For minute intervals, storage_temp_f is whatever temperature is at the top of the storage tank, set point storage temperature or not
+    if storage_temp_f <= supply_temp_f:
+        # Storage is too cool to be tempered: everything delivered is drawn from storage, undiluted
+        storage_draw_gal = load_supplyT_gal + flow_returnT_gal
+        inlet_temp_f = cold_temp_f
+        if storage_draw_gal > 0:
+            inlet_temp_f = ((load_supplyT_gal * cold_temp_f) + (flow_returnT_gal * return_temp_f)) / storage_draw_gal
+        return {
+            "storage_draw_gal" : storage_draw_gal,
+            "inlet_temp_f" : inlet_temp_f
+        }
+
     recirc_loss_btu = flow_returnT_gal * _RHO_CP * (supply_temp_f - return_temp_f)
     critical_flow_gal = recirc_loss_btu / (_RHO_CP * (storage_temp_f - supply_temp_f))
 
@@ -13,7 +24,10 @@ def mixing_valve_behavior(load_supplyT_gal : float, flow_returnT_gal : float, co
     else:
         storage_draw_gal = (load_supplyT_gal + flow_returnT_gal) * ((supply_temp_f - return_temp_f) / (storage_temp_f - return_temp_f))
         recirc_to_tank_gal = storage_draw_gal - load_supplyT_gal
-        inlet_temp_f = ((load_supplyT_gal * cold_temp_f) + (recirc_to_tank_gal * return_temp_f)) / storage_draw_gal
+        if storage_draw_gal > 0:
+            inlet_temp_f = ((load_supplyT_gal * cold_temp_f) + (recirc_to_tank_gal * return_temp_f)) / storage_draw_gal
+        else:
+            inlet_temp_f = cold_temp_f
     return {
         "storage_draw_gal" : storage_draw_gal,
         "inlet_temp_f" : inlet_temp_f
-- 
2.43.0


From b547d6e83562817ae0c4ef33e2a0fecf84b94de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:43 +0000
Subject: [PATCH 25/27] fix: refuse climate zone numbers without data instead
 of reading another zone's column

---
 src/ecoengine/objects/building/ClimateZone.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ecoengine/objects/building/ClimateZone.py b/src/ecoengine/objects/building/ClimateZone.py
index dba73e7..a07a54d 100644
--- a/src/ecoengine/objects/building/ClimateZone.py
+++ b/src/ecoengine/objects/building/ClimateZone.py
@@ -143,7 +143,14 @@ class ClimateZone:
         Returns
         -------
         ClimateZone
+
+        Raises
+        ------
+        ValueError
+            If there is no data for zone_id.
         """
+        if not 1 <= zone_id <= 96:
+            raise ValueError(f"There is no climate data for zone {zone_id}. Climate zones are numbered 1-96.")
         oat_f_by_hour               = cls._load_oat_data(zone_id)
         inlet_water_temp_f_by_month = cls._load_inlet_water_data(zone_id)
         return cls(zone_id, oat_f_by_hour, inlet_water_temp_f_by_month)
-- 
2.43.0


From 58f27e7b4cbc117e5689a73afdd043692c9fd0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:36 +0000
Subject: [PATCH 26/27] fix: a recirculation loop takes no more heat than the
 stratified tank holds

---
 src/ecoengine/objects/components/storage/StratifiedTank.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoengine/objects/components/storage/StratifiedTank.py b/src/ecoengine/objects/components/storage/StratifiedTank.py
index e79021a..d727f31 100644
--- a/src/ecoengine/objects/components/storage/StratifiedTank.py
+++ b/src/ecoengine/objects/components/storage/StratifiedTank.py
@@ -324,6 +324,8 @@ class StratifiedTank(StorageTank):
         recirc_loss_kbtu = vol_gal * _RHO_CP * (t_supply - return_temp_f) / 1000.0
         net_delta_gal    = recirc_loss_kbtu * 1000.0 / (_RHO_CP * (self._outlet_temp_f - self._inlet_temp_f))
         self._delta_gal -= net_delta_gal
+        # A fully cold tank has no heat left to lose to the loop.
+        self._delta_gal = max(self._delta_gal, self._delta_gal_floor())
 
     def get_average_draw_temp_f(self, draw_gal: float) -> float:
         """
-- 
2.43.0


From e092657553f5d7077b163484f523975279ef958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:13 +0000
Subject: [PATCH 27/27] fix: drawing from a stratified tank without usable
 water no longer warms it to supply temperature

---
 .../components/storage/StratifiedTank.py        | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ecoengine/objects/components/storage/StratifiedTank.py b/src/ecoengine/objects/components/storage/StratifiedTank.py
index d727f31..e5822e0 100644
--- a/src/ecoengine/objects/components/storage/StratifiedTank.py
+++ b/src/ecoengine/objects/components/storage/StratifiedTank.py
@@ -163,6 +163,14 @@ class StratifiedTank(StorageTank):
         shift_pct_min = (t_floor - self._strat_inter) / self.strat_slope - 100.0
         return shift_pct_min * self.total_volume_gal / 100.0
 
+    def _remove_gal(self, gal: float, min_temp_f: float | None) -> None:
+        """
+        Shift the profile up by ``gal``, no further than the top of the tank at
+        ``min_temp_f``. A tank already colder than that stays as it is.
+        """
+        floor = min(self._delta_gal, self._delta_gal_floor(min_temp_f))
+        self._delta_gal = max(self._delta_gal - gal, floor)
+
     def draw(
         self,
         volume_supplyT_gal: float,
@@ -219,8 +227,7 @@ class StratifiedTank(StorageTank):
         # If avg_temp ≈ outlet_temp_f the standard formula is exact.
         avg_temp = self.get_average_draw_temp_f(physical_vol)
         if avg_temp >= outlet_temp_f - 1e-6:
-            self._delta_gal -= physical_vol
-            self._delta_gal = max(self._delta_gal, self._delta_gal_floor(supply_temp_f))
+            self._remove_gal(physical_vol, supply_temp_f)
             return
 
         # Slow path: draw dips into the transition / cold zone.
@@ -243,8 +250,7 @@ class StratifiedTank(StorageTank):
             if hi - lo < 1e-6:
                 break
 
-        self._delta_gal -= min((lo + hi) * 0.5, self.total_volume_gal)
-        self._delta_gal = max(self._delta_gal, self._delta_gal_floor(supply_temp_f))
+        self._remove_gal(min((lo + hi) * 0.5, self.total_volume_gal), supply_temp_f)
 
     def heat(
         self,
@@ -411,8 +417,7 @@ class StratifiedTank(StorageTank):
         """
         self._inlet_temp_f = inlet_temp_f
         if gal > 0.0:
-            self._delta_gal -= gal
-            self._delta_gal = max(self._delta_gal, self._delta_gal_floor(supply_temp_f))
+            self._remove_gal(gal, supply_temp_f)
 
     # ------------------------------------------------------------------
     # Sizing support
-- 
2.43.0

