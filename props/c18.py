"""One simulated step of each schematic against a twin built from the same (separately checked) components."""
from props.common import RHO_CP

TEMPS = (0.0, 0.2, 0.4, 0.6, 0.8, 1.0)
PROBE = (0.07, 0.33, 0.5, 0.71, 0.93)


def lin_map(c, p):
    """Performance map that is a distinct linear function of every argument."""
    from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap

    class Lin(PerformanceMap):
        def get_capacity_kbtuh(self, oat_f, outlet_temp_f, inlet_temp_f=None):
            return c + 0.1 * oat_f + 0.01 * outlet_temp_f - (0.03 * inlet_temp_f if inlet_temp_f is not None else -7.0)

        def get_power_in_kw(self, oat_f, outlet_temp_f, inlet_temp_f=None):
            if p is None:
                return None
            return p + 0.02 * oat_f + 0.015 * outlet_temp_f + (0.01 * inlet_temp_f if inlet_temp_f is not None else 0.7)
    return Lin(None)


def make_bldg(daily, oat, inlet, design_inlet):
    """A real building whose weather is given per step and whose hourly profiles differ in every hour."""
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.building.ClimateZone import ClimateZone
    peak = [(i + 1) / 300 for i in range(24)]
    avg = [(24 - i) / 300 for i in range(24)]
    cz = ClimateZone.from_design_conditions(35.0, design_inlet)

    class B(Building):
        def get_oat_f(self, timestep_interval, interval_min=1):
            return oat[timestep_interval]

        def get_inlet_water_temp_f(self, timestep_interval, interval_min=1):
            return inlet[timestep_interval]
    b = B(cz, daily, peak, avg)

    def load(i, m, use_avg):
        hr = (i * m // 60) % 24
        return daily * (avg if use_avg else peak)[hr] * m / 60
    return b, load


class Unit:
    """Reference heater: the ON/OFF rule, capacity and power of one unit."""

    def __init__(self, pm, sched, cm, on):
        self.pm, self.sched, self.cm, self.on = pm, sched, cm, on

    def ctl(self, hr):
        return self.cm[self.sched[hr]]

    def update(self, tank, hr):
        onf, ont, off, offt, out = self.ctl(hr)
        if self.on:
            self.on = not bool(tank.get_temperature_at_fraction(off) >= offt)
        else:
            self.on = bool(tank.get_temperature_at_fraction(onf) < ont)


def heater(pm, sched, cm, on):
    from ecoengine.objects.components.heating.Controls import Controls
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    w = WaterHeater(pm, list(sched), {k: Controls(*v) for k, v in cm.items()})
    if on:
        w.turn_on()
    return w, Unit(pm, sched, cm, on)


def totals(h, units, hr, oat, inlet):
    out = h.total(u.pm.get_capacity_kbtuh(oat, u.ctl(hr)[4], inlet) for u in units if u.on)
    kws = [u.pm.get_power_in_kw(oat, u.ctl(hr)[4], inlet) for u in units if u.on]
    kws = [k for k in kws if k is not None]
    return out, (h.total(kws) if kws else None)


def same_tank(h, tank, twin, supply, what):
    for f in PROBE:
        h.eq(tank.get_temperature_at_fraction(f), twin.get_temperature_at_fraction(f), what, 1e-3)
    h.eq(tank.get_usable_volume_supplyT_gal(supply), twin.get_usable_volume_supplyT_gal(supply), what + " (usable)", 1e-2)


def common_claims(h, st, twin, supply, dem, out, kw, oat, inlet, mode):
    h.eq(st["demand_supplyT_gal"], dem, "the step serves the building's demand of that interval", 1e-6)
    h.eq(st["heater_output_kbtuh"], out, "output is the sum of the heaters that are on", 1e-6)
    if kw is None:
        h.ok(st["heater_power_in_kw"] is None, "no power reported without power data or running heaters")
    else:
        h.ok(st["heater_power_in_kw"] is not None, "power reported")
        h.eq(st["heater_power_in_kw"], kw, "power is the sum of the heaters that are on", 1e-6)
    h.eq(st["oat_f"], oat, "outdoor temperature of the interval")
    h.eq(st["inlet_water_temp_f"], inlet, "inlet temperature of the interval")
    h.ok(st["mode"] == mode, "mode of the hour")
    for f, t in zip(TEMPS, st["tank_temps_f"]):
        h.eq(t, twin.get_temperature_at_fraction(f), "reported temperatures are the tank's after the step", 1e-3)
    h.ok(len(st["tank_temps_f"]) == 6, "six reported temperatures")


def setting(h, n, at, modes=("normal",), fixed_inlet=None, oats=True):
    i0, m = at
    oat = {i: (h.real(f"oat{i - i0}", -10, 105) if oats else 40.0 + 7 * (i - i0)) for i in range(i0, i0 + n)}
    inlet = {i: (fixed_inlet if fixed_inlet is not None else 48.0 + 3.5 * (i - i0)) for i in range(i0, i0 + n)}
    sched = ["normal"] * 24
    if len(modes) > 1:
        sched[6:8] = ["loadUp"] * 2
        sched[0], sched[1], sched[23] = "shed", "loadUp", "shed"
    return i0, m, oat, inlet, sched


def modes_map(h, modes, storage, free=True):
    cm = {"normal": (0.5, h.real("on_t", 100, 150) if free else 118.0, 0.2, h.real("off_t", 60, 150) if free else 130.0, storage)}
    if "shed" in modes:
        cm["shed"] = (0.8, 119.0, 0.6, h.real("shed_off", 60, 150), storage - 4.0)
    if "loadUp" in modes:
        cm["loadUp"] = (0.3, h.real("lu_on", 60, 150), 0.1, 135.0, storage + 6.0)
    return cm


def h_primary(h, at, kind, n, modes, units, start, cap=None, daily=900.0, plain=None):
    """Primary-only, parallel-loop and single-pass return-to-primary steps."""
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    supply, storage = 120.0, 150.0
    V, slope = 500.0, (1.7 if kind == "sprtp" else 2.8)
    i0, m, oat, inlet, sched = setting(h, n, at, modes, oats=cap is None)
    b, load = make_bldg(daily, oat, inlet, 50.0)
    cm = modes_map(h, modes, storage)
    whs, us = [], []
    for k in range(units):
        on = h.flag(f"on{k}")
        c = (h.real(f"cap{k}", 20, 400) if cap is None else cap) if k == 0 else 35.0
        pm = lin_map(c, 4.0 if k == 0 else (None if modes == ["normal"] else 2.5))
        cmk = cm if k == 0 else {key: (v[0], v[1] - 1.0, v[2], v[3] - 2.0, v[4] - (5.0 if key == "normal" else -3.0)) for key, v in cm.items()}
        if k == plain:                      # this unit does not shift load
            w, u = heater(pm, ["normal"] * 24, {"normal": cmk["normal"]}, on)
        else:
            w, u = heater(pm, sched, cmk, on)
        whs.append(w)
        us.append(u)
    tank, twin = StratifiedTank(V, slope), StratifiedTank(V, slope)
    p = h.real("p", *start) if isinstance(start, (list, tuple)) else start
    for t in (tank, twin):
        t.initialize(storage, 50.0, p)
    ret, flow = 104.0, 2.5
    if kind == "primary":
        from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
        s = DHWSystem(whs, tank, supply, storage)
    elif kind == "sprtp":
        from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
        flow = h.real("flow", 0, 6)
        s = SinglePassRTPSystem(whs, tank, supply, storage, ret, flow)
    for i in range(i0, i0 + n):
        hr = (i * m // 60) % 24
        st = s.simulate_step(b, i, m)
        for u in us:
            u.update(twin, hr)
        out, kw = totals(h, us, hr, oat[i], inlet[i])
        top = max(float(u.ctl(hr)[4]) for u in us)
        twin.heat(out, m, top)
        dem = load(i, m, any(x in u.cm for u in us for x in ("shed", "loadUp")))
        twin.draw(dem, inlet[i], supply, top)
        if kind == "sprtp":
            twin.add_recirc_return(flow, ret, m, supply_temp_f=supply)
        common_claims(h, st, twin, supply, dem, out, kw, oat[i], inlet[i], us[0].sched[hr])
        left = st["usable_volume_supplyT_gal"]
        if left <= 0:
            h.ok(bool(s.check_for_outage(dem)), "a tank without usable water is an outage")
        elif left >= 0.001:
            h.ok(not bool(s.check_for_outage(dem)), "a tank with usable water is no outage")
        h.eq(st["usable_volume_supplyT_gal"], twin.get_usable_volume_supplyT_gal(supply), "usable volume is the tank's after the step", 1e-2)
        same_tank(h, tank, twin, supply, "the tank holds what the step's heat and draw leave")
        h.ok([bool(w.is_active()) for w in whs] == [u.on for u in us], "heaters are in the state their controls ask for")


def h_parallel(h, at, n, num, model):
    """Parallel loop: primary as above, plus the temperature-maintenance tank."""
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    supply, storage, V = 120.0, 150.0, 500.0
    i0, m, oat, inlet, sched = setting(h, n, at)
    b, load = make_bldg(900.0, oat, inlet, 50.0)
    w, u = heater(lin_map(90.0, 4.0), sched, modes_map(h, ("normal",), storage, free=False), False)
    tank, twin = StratifiedTank(V), StratifiedTank(V)
    for t in (tank, twin):
        t.initialize(storage, 50.0, 0.8)
    ret, flow = h.real("ret", 85, 118), h.real("flow", 0.2, 8)
    on_t, off_t = 121.0, 129.0
    tmv, tmT = h.real("tmv", 100, 300), h.real("tmT", 110, 135)
    tmc = h.real("tmcap", 10, 80)
    tw, tu = heater(lin_map(tmc, 1.5 if model else None), ["normal"] * 24, {"normal": (0.5, on_t, 0.5, off_t, off_t)}, h.flag("tm_on"))
    tm, tmt = MixedStorageTank(tmv), MixedStorageTank(tmv)
    for t in (tm, tmt):
        t.initialize(tmT, 50.0, 1.0)
    s = ParallelLoopSystem([w], tank, supply, storage, ret, flow, on_t, off_t, tm_storage_tank=tm, tm_water_heater=tw, num_tm_heaters=num)
    for i in range(i0, i0 + n):
        hr = (i * m // 60) % 24
        st = s.simulate_step(b, i, m)
        u.update(twin, hr)
        out, kw = totals(h, [u], hr, oat[i], inlet[i])
        twin.heat(out, m, storage)
        dem = load(i, m, False)
        twin.draw(dem, inlet[i], supply, storage)
        common_claims(h, st, twin, supply, dem, out, kw, oat[i], inlet[i], "normal")
        h.eq(st["usable_volume_supplyT_gal"], twin.get_usable_volume_supplyT_gal(supply), "usable volume is the tank's after the step", 1e-2)
        same_tank(h, tank, twin, supply, "the loop leaves the primary tank alone")
        before = tmt.get_temperature_at_fraction(0.5)
        tmt.add_recirc_return(flow, ret, m)
        tu.update(tmt, hr)
        top = tmt.get_temperature_at_fraction(1.0)
        c = tu.pm.get_capacity_kbtuh(oat[i], top, (on_t + off_t) / 2) * num if tu.on else 0
        k = tu.pm.get_power_in_kw(oat[i], top, (on_t + off_t) / 2) if tu.on else None
        tmt.heat(c, m, off_t)
        h.eq(st["tm_heater_output_kbtuh"], c, "TM output is that of all TM units when on", 1e-5)
        if k is None:
            h.ok(st["tm_heater_input_kw"] is None, "no TM power when off or without power data")
        else:
            h.ok(st["tm_heater_input_kw"] is not None, "TM power reported")
            h.eq(st["tm_heater_input_kw"], k * num, "TM power is that of all TM units", 1e-5)
        h.eq(st["tm_tank_temp_f"], tmt.get_temperature_at_fraction(0.5), "TM temperature after the loop's return and heating", 1e-4)
        bal = before + (flow * m * (ret - before) * RHO_CP + c * 1000 * m / 60) / (tmv * RHO_CP)
        h.eq(st["tm_tank_temp_f"], bal, "TM tank gains exactly the heat supplied less the loop's return", 1e-3)
        h.ok(bool(tw.is_active()) == tu.on, "TM heater is in the state its thermostat asks for")


def h_swing(h, at, n, start, tm_free, demand, p, modes=("normal",)):
    """Swing tank: feed from primary, loop loss, element."""
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    supply, storage, V = 120.0, 150.0, 400.0
    i0, m, oat, inlet, sched = setting(h, n, at, modes)
    b, load = make_bldg(h.real("daily", 0, demand) if isinstance(demand, float) else 0.0, oat, inlet, 50.0)
    w, u = heater(lin_map(90.0, 4.0), sched, modes_map(h, modes, storage, free=False), h.flag("on"))
    whs, us = [w], [u]
    if len(modes) > 1:
        w2, u2 = heater(lin_map(25.0, None), ["normal"] * 24, {"normal": (0.5, 117.0, 0.2, 128.0, storage - 2.0)}, False)
        whs, us = whs + [w2], us + [u2]
    tank, twin = StratifiedTank(V), StratifiedTank(V)
    for t in (tank, twin):
        t.initialize(storage, 50.0, p)
    ret, flow = 108.0, (h.real("flow", 0, 8) if tm_free else 3.0)
    tmv = h.real("tmv", 60, 300) if tm_free else 100.0
    tmT = h.real("tmT", *start)
    tmc = h.real("tmcap", 10, 120)
    tw, tu = heater(lin_map(tmc, None), ["normal"] * 24, {"normal": (0.5, supply, 0.5, supply + 8.0, supply + 8.0)}, h.flag("tm_on"))
    tm = MixedStorageTank(tmv)
    tm.initialize(tmT, 50.0, 1.0)
    s = SwingSystem(whs, tank, supply, storage, ret, flow)
    s.tm_storage_tank, s.tm_water_heater = tm, tw
    T = tmT
    for i in range(i0, i0 + n):
        hr = (i * m // 60) % 24
        st = s.simulate_step(b, i, m)
        for x in us:
            x.update(twin, hr)
        out, kw = totals(h, us, hr, oat[i], inlet[i])
        twin.heat(out, m, max(float(x.ctl(hr)[4]) for x in us))
        dem = load(i, m, len(modes) > 1)
        pull = dem * (supply - inlet[i]) / (T - inlet[i]) if T > supply else dem
        feed = twin.get_average_draw_temp_f(pull)
        before = T
        if pull >= tmv:
            T = feed
        else:
            T = (pull * feed + (tmv - pull) * T) / tmv
        T = T - flow * 60 * RHO_CP * (supply - ret) / 1000 * m / 60 * 1000 / (tmv * RHO_CP)
        tm_was = tu.on
        tu.on = (not bool(T >= supply + 8.0)) if tu.on else bool(T < supply)
        c = tu.pm.get_capacity_kbtuh(oat[i], T, None) if tu.on else 0
        T = T + c * 1000 * m / 60 / (tmv * RHO_CP)
        twin.draw_physical_gal(pull, inlet[i], supply)
        kw_ok = kw
        if kw is None:                      # without power data, or off: nothing or zero, which count the same
            h.ok(st["heater_power_in_kw"] is None or bool(st["heater_power_in_kw"] == 0), "no primary power when the primary is off or has no power data")
            st = dict(st, heater_power_in_kw=None)
        common_claims(h, st, twin, supply, dem, out, kw_ok, oat[i], inlet[i], sched[hr])
        same_tank(h, tank, twin, supply, "the primary tank gives the swing tank exactly what is drawn from it")
        if before < supply:
            h.eq(st["usable_volume_supplyT_gal"], 0, "nothing usable while the swing tank is below supply temperature", 1e-6)
        else:
            h.eq(st["usable_volume_supplyT_gal"], twin.get_usable_volume_supplyT_gal(supply), "usable volume is the primary's", 1e-2)
        h.eq(st["tm_tank_temp_f"], T, "swing tank balances feed, loop loss and element heat", 1e-3)
        h.eq(st["delivery_temp_f"], T, "delivery temperature is the swing tank's", 1e-3)
        h.eq(st["tm_heater_output_kbtuh"], c, "element output", 1e-5)
        h.eq(st["tm_heater_input_kw"] * 3.412142, c, "element power at unit efficiency", 1e-4)
        h.ok(bool(tw.is_active()) == tu.on, "element follows its thermostat")


def h_mprtp(h, at, n, start, flow_rng, cap=None, second=False):
    """Multi-pass return to primary: valve, slug and report."""
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    from ecoengine.objects.dhwsystems.utils import mixing_valve_behavior
    supply, storage, V, cold = 120.0, 150.0, 600.0, 50.0
    i0, m, oat, inlet, sched = setting(h, n, at, fixed_inlet=cold, oats=cap is None)
    b, load = make_bldg(900.0, oat, inlet, cold)
    on_t = h.real("on_t", 100, 150)
    off_t = h.real("off_t", 100, 150)
    w, u = heater(lin_map(h.real("cap", 20, 300) if cap is None else cap, 4.0), sched, {"normal": (0.5, on_t, 0.2, off_t, storage)}, False)
    whs, us = [w], [u]
    if second:                              # a second unit, without power data, on tighter controls
        w2, u2 = heater(lin_map(25.0, None), sched, {"normal": (0.5, on_t + 2.0, 0.2, off_t - 3.0, storage - 5.0)}, False)
        whs, us = [w, w2], [u, u2]
    mk = lambda: SlugOverlayTank(V, cold, storage, supply, 0.9, 0.8)
    tank, twin = mk(), mk()
    p = h.real("p", *start) if isinstance(start, list) else start
    for t in (tank, twin):
        t.initialize(storage, cold, p)
    ret, flow = 105.0, (h.real("flow", *flow_rng) if isinstance(flow_rng, list) else flow_rng)
    s = MultiPassRTPSystem(whs, tank, supply, storage, ret, flow)
    for i in range(i0, i0 + n):
        hr = (i * m // 60) % 24
        was = any(x.on for x in us)
        st = s.simulate_step(b, i, m)
        for x in us:
            x.update(twin, hr)
        on = any(x.on for x in us)
        if on:
            twin.activate_slug(supply)
        elif was:
            twin.deactivate_slug()
        out, kw = totals(h, us, hr, oat[i], None)
        top = twin.get_temperature_at_fraction(1.0)
        dem = load(i, m, False)
        mv = mixing_valve_behavior(dem, flow * m, cold, supply, ret, top)
        if on:
            twin.heat_slug(out, m)
        twin.draw_physical_gal(mv["storage_draw_gal"], mv["inlet_temp_f"], update_internal_cold_temp=False)
        common_claims(h, st, twin, supply, dem, out, kw, oat[i], inlet[i], "normal")
        h.eq(st["usable_volume_supplyT_gal"], twin.get_usable_volume_supplyT_gal(supply), "usable volume is the tank's after the step", 1e-2)
        same_tank(h, tank, twin, supply, "the tank holds what the step's heat and draw leave")
        h.eq(st["delivery_temp_f"], supply if on else top, "delivery temperature", 1e-3)
        h.ok([bool(x.is_active()) for x in whs] == [x.on for x in us], "heaters follow their controls")


LS = ["normal", "loadUp", "shed"]
A, B, C, D, E = [0, 1], [479, 1], [1438, 1], [5, 10], [287, 10]
HARNESSES = [
    dict(name="primary", fn=h_primary,
         quick=[dict(at=B, kind="primary", n=1, modes=["normal"], units=1, start=[0.55, 1.0]),
                dict(at=E, kind="primary", n=2, modes=["normal"], units=2, start=0.9),
                dict(at=B, kind="primary", n=2, modes=LS, units=1, start=0.8),
                dict(at=C, kind="primary", n=1, modes=LS, units=2, start=0.8),
                dict(at=C, kind="primary", n=1, modes=LS, units=2, start=0.5), dict(at=D, kind="primary", n=2, modes=LS, units=2, start=0.5),
                dict(at=B, kind="primary", n=2, modes=LS, units=2, start=0.55), dict(at=B, kind="sprtp", n=1, modes=LS, units=2, start=0.95),
                dict(at=D, kind="primary", n=2, modes=LS, units=1, start=0.8),
                dict(at=A, kind="primary", n=2, modes=["normal"], units=1, start=0.12, cap=20.0),
                dict(at=B, kind="sprtp", n=2, modes=["normal"], units=1, start=0.97),
                dict(at=C, kind="sprtp", n=3, modes=LS, units=1, start=0.9),
                dict(at=[425, 1], kind="primary", n=1, modes=LS, units=2, start=0.8, plain=0), dict(at=A, kind="primary", n=1, modes=LS, units=2, start=0.5, plain=1),
                dict(at=A, kind="primary", n=2, modes=["normal"], units=1, start=0.01, cap=20.0, daily=9000.0)],
         thorough=[dict(at=a, kind="primary", n=3, modes=["normal"], units=2, start=0.9) for a in (A, C, D)] +
                  [dict(at=a, kind="primary", n=2, modes=LS, units=2, start=0.8) for a in (A, C, D)] +
                  [dict(at=a, kind="primary", n=2, modes=["normal"], units=1, start=[0.55, 1.0]) for a in (A, C, D)] +
                  [dict(at=a, kind="sprtp", n=3, modes=["normal"], units=1, start=0.97) for a in (A, C, D)] +
                  [dict(at=a, kind="sprtp", n=2, modes=LS, units=1, start=0.9) for a in (A, B, D)],
         opts=dict(time_s=60)),
    dict(name="parallel", fn=h_parallel, quick=[dict(at=B, n=1, num=2, model=True), dict(at=C, n=2, num=1, model=False), dict(at=D, n=1, num=3, model=True)],
         thorough=[dict(at=a, n=3, num=2, model=True) for a in (A, E)], opts=dict(time_s=60)),
    dict(name="swing", fn=h_swing,
         quick=[dict(at=B, n=1, start=[112, 135], tm_free=True, demand=1500.0, p=0.9),
                dict(at=D, n=1, start=[112, 135], tm_free=True, demand=1500.0, p=0.9),
                dict(at=C, n=2, start=[116, 124], tm_free=False, demand=1500.0, p=0.9),
                dict(at=A, n=2, start=[118, 132], tm_free=False, demand=None, p=0.3),
                dict(at=[425, 1], n=1, start=[116, 124], tm_free=False, demand=1500.0, p=0.9, modes=LS), dict(at=A, n=1, start=[116, 124], tm_free=False, demand=1500.0, p=0.5, modes=LS)],
         thorough=[dict(at=a, n=3, start=[116, 124], tm_free=False, demand=1500.0, p=0.9) for a in (A, E)], opts=dict(time_s=60)),
    dict(name="mprtp", fn=h_mprtp,
         quick=[dict(at=B, n=1, start=[0.4, 0.6], flow_rng=3.0), dict(at=A, n=1, start=0.45, flow_rng=[0.5, 6.0]),
                dict(at=C, n=4, start=0.5, flow_rng=2.0, cap=150.0), dict(at=D, n=4, start=0.5, flow_rng=2.0, cap=90.0),
                dict(at=E, n=6, start=0.75, flow_rng=0.5, cap=400.0), dict(at=[1020, 1], n=2, start=0.5, flow_rng=3.0, cap=120.0),
                dict(at=A, n=3, start=0.02, flow_rng=3.0, cap=20.0), dict(at=C, n=3, start=0.12, flow_rng=2.0, cap=40.0),
                dict(at=D, n=2, start=0.5, flow_rng=2.0, cap=90.0, second=True)],
         thorough=[dict(at=a, n=3, start=0.45, flow_rng=[0.5, 6.0]) for a in (B, D)], opts=dict(time_s=30), topts=dict(time_s=200)),
]
