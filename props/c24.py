"""Results depend on what was asked, not on what was done before."""
from props.common import raises
from props.c19 import PEAK, mk, sched
from props.c20 import HEAVY, AVG
from props.c23 import engine, ALIAS

CUSTOM = {"peak": PEAK, "heavy": HEAVY}


class Stop(Exception):
    pass


def mf(daily, custom, annual):
    """A multi-family building in either state; with its stock profile or a custom one."""
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.building.ClimateZone import ClimateZone
    return Building.from_building_type("multi_family", daily / 20.0, ClimateZone.from_design_conditions(35.0, 50.0), gpdpp=20.0, annual=annual,
                                       custom_peak_load_shape=list(CUSTOM[custom]) if custom else None, custom_avg_load_shape=list(AVG) if custom else None)


def controls(ls=False):
    from ecoengine.objects.components.heating.Controls import Controls
    cm = {"normal": Controls(0.45, 118.0, 0.25, 140.0, 150.0)}
    if ls:
        cm["shed"] = Controls(0.8, 119.0, 0.5, 140.0, 150.0)
        cm["loadUp"] = Controls(0.3, 116.0, 0.15, 138.0, 150.0)
    return cm


def make(kind, b, run, dfr, key=None, slope=2.8):
    sc, cm = (sched(key), controls(True)) if key else (["normal"] * 24, controls())
    if kind == "instant":
        from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
        return InstantWHSystem.from_size(b, 120.0, 150.0, dfr)
    if kind == "mprtp":
        from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
        return MultiPassRTPSystem.from_size(b, 120.0, 150.0, 112.0, 2.5, run, dfr, sc, cm, capacity_boost_iterations=0)
    if kind == "er":
        from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
        # the free parameter is the ER safety factor here: the defrost factor reaches every simulated minute
        return SwingERTrdOffSystem.from_size(b, 120.0, 150.0, 112.0, 2.5, 1.5, dfr, run, 0.9, sc, cm)
    return mk(kind, b, 120.0, 150.0, run, dfr, sc, cm, slope, 0.9 if key else 1.0)


def sizes(s, kind):
    out = [s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal()]
    if kind in ("parallel", "swing", "er"):
        out += [s.get_minimum_tm_volume_gal(), s.get_minimum_tm_capacity_kbtuh()]
    return out


def plain(x):
    return [float(v) for v in x]


def snapshot(b):
    return b.daily_dhw_use_supplyT_gal, plain(b.peak_load_shape), plain(b.avg_load_shape), b.is_annual_load_shape()


def unchanged(h, b, was, what):
    h.eq(b.daily_dhw_use_supplyT_gal, was[0], what + " (daily use)")
    h.ok(snapshot(b)[1:] == was[1:], what + " (load shapes)")


def h_annual(h, kind, custom, vary, key=None):
    """Sizing works on the design day whichever shape the building is set to, and leaves the setting."""
    daily = h.real("daily", 300, 6000) if "daily" in vary else 1200.0
    dfr = h.real("defrost", *vary["defrost"]) if "defrost" in vary else 0.9
    day, year = mf(daily, custom, False), mf(daily, custom, True)
    h.ok(year.is_annual_load_shape() and not day.is_annual_load_shape(), "annual shape only when asked for")
    w0, w1 = snapshot(day), snapshot(year)
    a, b = make(kind, day, 16.0, dfr, key), make(kind, year, 16.0, dfr, key)
    for p, q in zip(sizes(a, kind), sizes(b, kind)):
        h.eq(q, p, "sizing uses the design day, whatever shape the building is set to", 1e-4)
    unchanged(h, day, w0, "sizing leaves a daily building as it was")
    unchanged(h, year, w1, "sizing leaves an annual building as it was")
    year.set_to_daily_load_shape()
    unchanged(h, year, w0, "an annual building switched back to the day has the shapes it was made with")


def h_curves(h, kind, custom, vary, key=None):
    daily = h.real("daily", 300, 6000) if "daily" in vary else 1200.0
    dfr = h.real("defrost", *vary["defrost"]) if "defrost" in vary else 0.9
    day, year = mf(daily, custom, False), mf(daily, custom, True)
    w0, w1 = snapshot(day), snapshot(year)
    add = dfr
    s = make(kind, day, 16.0, dfr if kind != "er" else 1.2, key)
    before = sizes(s, kind)

    def curve(b):
        if kind == "er":
            k, p, i = s.get_er_sized_points(b, add)
            return list(k) + list(p) + [i]
        if key:
            c = s.get_ls_sizing_curve(b, sched(key), controls(True), load_shift_percent=0.9)
            return list(c["capacity_kbtuh"]) + list(c["storage_storageT_gal"]) + [c["recommended_index"]]
        c = s.get_sizing_curve(b, step=2.0)
        return list(c["capacity_kbtuh"]) + list(c["storage_storageT_gal"]) + [c["recommended_index"]]
    x, y, z = curve(day), curve(year), curve(day)
    h.ok(len(x) == len(y) == len(z), "curves have the same points")
    for p, q, r in zip(x, y, z):
        h.eq(q, p, "curves use the design day, whatever shape the building is set to", 1e-4)
        h.eq(r, p, "asking again gives the same curve", 1e-6)
    unchanged(h, day, w0, "a curve leaves a daily building as it was")
    unchanged(h, year, w1, "a curve leaves an annual building as it was")
    for p, q in zip(before, sizes(s, kind)):
        h.eq(q, p, "a curve leaves the system's size alone", 1e-6)


def h_fail(h, kind, key=None, rng=(1, 24)):
    """Sizing that cannot succeed leaves building and system as they were."""
    run = h.real("run", *rng)
    year = mf(1200.0, "heavy", True)
    day = mf(1200.0, "heavy", False)
    w0, w1 = snapshot(day), snapshot(year)
    e0, e1 = raises(lambda: make(kind, day, run, 0.9, key)), raises(lambda: make(kind, year, run, 0.9, key))
    h.ok(type(e0) is type(e1), "sizing fails for the same run hours whatever shape the building is set to")
    unchanged(h, day, w0, "failed or not, sizing leaves a daily building as it was")
    unchanged(h, year, w1, "failed or not, sizing leaves an annual building as it was")
    s = make(kind, day, 16.0, 0.9, key)
    before = sizes(s, kind)
    s.max_daily_run_hr = run
    ex = raises(lambda: s.size(day, ["normal"] * 24, controls(), strat_slope=2.8))
    h.eq(s.max_daily_run_hr, run, "sizing leaves the allowed run hours alone")
    if ex is None:
        t = make(kind, mf(1200.0, "heavy", False), run, 0.9)
        for p, q in zip(sizes(s, kind), sizes(t, kind)):
            h.eq(p, q, "a system sized again is sized as a new one", 1e-4)
    unchanged(h, day, w0, "failed or not, sizing leaves a daily building as it was")


def h_resize(h, kind, vary, key=None, curve=False):
    """Sizing one system for several buildings and settings, one after the other."""
    d1 = h.real("first", 300, 3000)
    d2 = h.real("daily", 300, 6000) if "daily" in vary else 1700.0
    dfr = h.real("defrost", *vary["defrost"]) if "defrost" in vary else 0.9
    if kind in ("swing", "er"):
        d1 = 900.0
    s = make(kind, mf(d1, "peak", False), 15.0, dfr, key, slope=2.1)
    b = mf(d2, "heavy", False)
    if kind == "instant":
        s.size(b)
    else:
        s.size(b, ["normal"] * 24, controls(), strat_slope=2.8)
    t = make(kind, mf(d2, "heavy", False), 15.0, dfr)
    for p, q in zip(sizes(s, kind), sizes(t, kind)):
        h.eq(p, q, "a system sized again is sized as a new one", 1e-4)
    if curve:
        # the curve of the re-sized system: its points are those of a new system, not of an earlier sizing
        x, y = s.get_sizing_curve(b, step=4.0), t.get_sizing_curve(b, step=4.0)
        h.ok(len(x["heat_hours"]) == len(y["heat_hours"]), "a system sized again has the curve of a new one")
        for k in ("capacity_kbtuh", "storage_storageT_gal"):
            for p, q in zip(x[k], y[k]):
                h.eq(p, q, "a system sized again has the curve of a new one", 1e-4)
        if kind != "swing":
            x, y = (z.get_ls_sizing_curve(b, sched("evening"), controls(True), load_shift_percent=0.9) for z in (s, t))
            for k in ("capacity_kbtuh", "storage_storageT_gal"):
                h.ok(len(x[k]) == len(y[k]), "a system sized again has the load-shift curve of a new one")
                for p, q in zip(x[k], y[k]):
                    h.eq(p, q, "a system sized again has the load-shift curve of a new one", 1e-4)
    b2 = mf(d2, "heavy", False)
    u, v = make(kind, b2, 15.0, dfr), make(kind, b2, 15.0, dfr)
    for p, q in zip(sizes(u, kind), sizes(v, kind)):
        h.eq(p, q, "sizing twice gives the same", 1e-9)


SIM = dict(primary=dict(cap=90.0, vol=260.0), sprtp=dict(cap=120.0, vol=300.0), mprtp=dict(cap=140.0, vol=300.0), parallel=dict(cap=90.0, vol=250.0),
           swing=dict(cap=90.0, vol=250.0), instant=dict(cap=200.0, vol=10.0))


def plant(kind, alias=0):
    return engine(ALIAS[kind][0], 40.0, storage_volume_storageT_gal=SIM[kind]["vol"], heating_capacity_kbtuh=SIM[kind]["cap"], num_heaters=2, return_temp_f=112.0,
                  return_flow_gpm=2.0, tm_storage_vol=60.0, tm_capacity_kbtuh=25.0, tm_on_temp_f=118.0, tm_off_temp_f=127.0, aquastat_fract=0.45, off_sensor_fract=0.2,
                  on_trigger_t_f=120.0, off_trigger_t_f=140.0, load_shift_schedule=[0 if 1 <= i < 3 else 1 for i in range(24)] if kind != "mprtp" else None, load_up_hours=1,
                  shed_aquastat_fract=0.8, load_up_aquastat_fract=0.3)


def limited(s, n, also=None):
    """Record every step of the next simulation and break it off after n steps."""
    real, out = type(s).simulate_step.__get__(s), []

    def step(*a, **k):
        if len(out) >= n:
            raise Stop()
        r = real(*a, **k)
        out.append(r)
        if also is not None:
            also(len(out))
        return r
    s.simulate_step = step
    return out


def run(e, b, dur, n, also=None):
    from ecoengine.interfaces import Simulator as S
    out = limited(e._dhw_system, n, also)
    raises(lambda: S.simulate(e._dhw_system, b, dur, outlet_deficit_max_min=10 ** 9), Stop)
    return out


def same_trace(h, x, y, n, what):
    h.ok(len(x) == len(y) == n, what + " (steps)")
    for p, q in zip(x, y):
        h.ok(set(p) == set(q), what + " (fields)")
        for k in p:
            if isinstance(p[k], (list, tuple)):
                for a, c in zip(p[k], q[k]):
                    h.eq(a, c, what + f" ({k})", 1e-6)
            elif isinstance(p[k], str):
                h.ok(p[k] == q[k], what + f" ({k})")
            else:
                h.same(p[k] is None, q[k] is None, what + f" ({k})")
                if p[k] is not None and q[k] is not None:
                    h.eq(p[k], q[k], what + f" ({k})", 1e-6)


def bldg(daily, oat=35.0):
    from ecoengine.objects.building.Building import Building
    return Building(None, daily, list(PEAK), list(AVG), design_inlet_water_temp_f=52.0, design_oat_f=oat)


def h_rerun(h, kind, first, second, n1, n2, daily):
    """A run gives the same results however the plant was used before."""
    e, f = plant(kind), plant(kind)
    d = h.real("daily", *daily)
    run(e, bldg(d), first, n1)
    again = run(e, bldg(700.0), second, n2)
    fresh = run(f, bldg(700.0), second, n2)
    same_trace(h, again, fresh, n2, "a run does not depend on earlier runs")


def h_beside(h, kind, other, n, daily):
    """Plants do not influence each other."""
    e, f, o = plant(kind), plant(kind), plant(other)
    d, b = h.real("daily", *daily), None
    b = bldg(d, 80.0)
    s = o._dhw_system
    if s.storage_tank is not None:
        s.storage_tank.initialize(149.0, 52.0, 0.5)
    if getattr(s, "tm_storage_tank", None) is not None:
        s.tm_storage_tank.initialize(127.0, 52.0, 1.0)
    x = run(e, bldg(700.0), "3day", n, also=lambda i: s.simulate_step(b, i * 7, 1))
    y = run(f, bldg(700.0), "3day", n)
    same_trace(h, x, y, n, "a run does not depend on other plants")


def h_shared(h, kind, n, daily):
    """One set of controls, schedule and building handed to two plants."""
    from ecoengine.interfaces import Simulator as S
    d = h.real("daily", *daily)
    cm, sc, b = controls(True), sched("evening"), bldg(800.0)
    keep = {k: (c.on_sensor_fract, c.on_trigger_t_f, c.off_sensor_fract, c.off_trigger_t_f, c.outlet_temp_f) for k, c in cm.items()}
    s = mk(kind, b, 120.0, 150.0, 16.0, 0.9, sc, cm, 2.8, 0.9)
    first = sizes(s, kind)
    limited(s, n)
    raises(lambda: S.simulate(s, bldg(d), "3day", outlet_deficit_max_min=10 ** 9), Stop)
    t = mk(kind, b, 120.0, 150.0, 16.0, 0.9, sc, cm, 2.8, 0.9)
    for p, q in zip(first, sizes(t, kind)):
        h.eq(q, p, "sizing does not depend on simulations", 1e-9)
    for p, q in zip(first, sizes(s, kind)):
        h.eq(q, p, "simulating leaves the sizes alone", 1e-9)
    h.ok(sc == sched("evening") and keep == {k: (c.on_sensor_fract, c.on_trigger_t_f, c.off_sensor_fract, c.off_trigger_t_f, c.outlet_temp_f) for k, c in cm.items()},
         "the caller's schedule and controls are left alone")
    x, y = limited(s, n), limited(t, n)
    for p in (s, t):
        raises(lambda: S.simulate(p, bldg(650.0), "3day", outlet_deficit_max_min=10 ** 9), Stop)
    same_trace(h, x, y, n, "a run does not depend on earlier runs")


def h_engine(h, kind, presized):
    """Building an engine again, beside others, gives the same plant and touches no argument."""
    n = h.real("units", 20, 300)
    shape, avg, shift, zone = list(PEAK), list(AVG), [0 if 16 <= i < 20 else 1 for i in range(24)], dict(design_inlet_water_temp_f=51.0, design_oat_f=30.0)
    kw = dict(custom_peak_load_shape=shape, custom_avg_load_shape=avg, load_shift_schedule=shift, load_up_hours=2, load_up_aquastat_fract=0.3, shed_aquastat_fract=0.8,
              zip_code_or_climate_zone=zone, return_temp_f=110.0, return_flow_gpm=2.0)
    if presized:
        kw.update(storage_volume_storageT_gal=n, heating_capacity_kbtuh=n, tm_storage_vol=80.0, tm_capacity_kbtuh=30.0)
    e = engine(ALIAS[kind][0], n, **kw)
    r = e.get_sizing_results()
    g = engine(ALIAS[kind][0], 50.0, **dict(kw, zip_code_or_climate_zone=dict(design_inlet_water_temp_f=70.0, design_oat_f=80.0), load_shift_schedule=None))
    e2 = engine(ALIAS[kind][0], n, **kw)
    q = e2.get_sizing_results()
    e.build()
    z = e.get_sizing_results()
    h.ok(set(r) == set(q) == set(z), "same results")
    for k in r:
        if r[k] is None:
            h.ok(q[k] is None and z[k] is None, "same results")
            continue
        h.eq(q[k], r[k], "the same arguments give the same plant", 1e-9)
        h.eq(z[k], r[k], "building again gives the same plant", 1e-9)
    for x in (e, e2):
        h.eq(x._building.daily_dhw_use_supplyT_gal, n * 20.0, "daily use", 1e-9)
        h.eq(x._building.get_design_inlet_water_temp_f(), 51.0, "design inlet")
        h.ok(x._dhw_system.water_heaters[0].control_schedule[16] == "shed" and x._dhw_system.water_heaters[0].control_schedule[15] == "loadUp", "schedule")
    h.ok(g._building.get_design_inlet_water_temp_f() == 70.0 and g._dhw_system.water_heaters[0].control_schedule == ["normal"] * 24, "the other engine keeps its own settings")
    h.ok(shape == list(PEAK) and avg == list(AVG) and shift == [0 if 16 <= i < 20 else 1 for i in range(24)] and zone == dict(design_inlet_water_temp_f=51.0, design_oat_f=30.0),
         "the caller's arguments are left alone")


def h_climates(h, keys):
    """Climates looked up one after the other are independent of each other and of the order."""
    from ecoengine.objects.building.ClimateZone import ClimateZone
    order = h.pick("order", [0, 1])
    t = h.pick("t", [0, 1, 23, 24, 743, 744, 4379, 4380, 8016, 8759])
    mkz = lambda k: ClimateZone.from_zone_id(k)
    a = [mkz(k) for k in (keys if order == 0 else keys[::-1])]
    if order:
        a = a[::-1]
    for k, z in zip(keys, a):
        y = mkz(k)
        h.eq(z.get_oat_f(t, 60), y.get_oat_f(t, 60), "hourly weather of its own zone")
        h.eq(z.get_inlet_water_temp_f(t, 60), y.get_inlet_water_temp_f(t, 60), "hourly inlet of its own zone")
        h.eq(z.get_design_oat_f(), y.get_design_oat_f(), "design conditions of its own zone")
    h.ok(len({z.get_design_oat_f() for z in a}) == len(keys), "zones differ")


def h_queries(h, tm):
    """Reading a simulation's results changes none of them."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    r = SimulationRun(365 * 1440, 10)
    steps = 4464 + 3
    for i in range(steps):
        if i in (0, 5, 4463, 4466):
            kw = h.real(f"kw{i}", 0.1, 50)
            t = dict(tm_tank_temp_f=120.0, tm_heater_output_kbtuh=h.real(f"to{i}", 0, 30), tm_heater_input_kw=h.real(f"tk{i}", 0, 9)) if tm else {}
            r.record_timestep(h.real(f"d{i}", 0, 9), h.real(f"u{i}", -3, 90), h.real(f"o{i}", 0, 200), kw, 40.0, 50.0, [100.0] * 6, "normal", **t)
        else:
            r.record_timestep(1.0, 50.0, 0.0, None, 40.0, 50.0, [100.0] * 6, "normal", **(dict(tm_tank_temp_f=120.0, tm_heater_output_kbtuh=0.0, tm_heater_input_kw=None) if tm else {}))
    r.record_outage(10)
    u = U.from_params(9.0, 0, 6, 3.0, 0.4, 1.5, 0.2)

    def look():
        s = r.get_summary()
        out = [s["total_energy_kwh"], s["peak_demand_kw"], s["total_outage_min"], s["num_steps_recorded"], r.get_total_energy_kwh(), r.get_peak_demand_kw(), r.get_annual_utility_cost(u)]
        out += list(r.get_monthly_energy_kwh())
        for d in (r.get_monthly_cost_breakdown(u), r.get_monthly_cost_breakdown_detailed(u)):
            for k in sorted(d):
                v = d[k]
                for x in (v if isinstance(v, (list, tuple)) else [v]):
                    if isinstance(x, dict):
                        out += [x[j] for j in sorted(x) if not isinstance(x[j], (str, list))]
                    elif not isinstance(x, str):
                        out.append(x)
        return out
    a = look()
    b = look()
    h.ok(len(a) == len(b), "reading again gives as many figures")
    for p, q in zip(a, b):
        h.eq(p, q, "reading again gives the same figures", 1e-9)
    h.ok(len(r.heater_power_in_kw) == steps, "reading leaves the recorded series alone")


D = dict(defrost=[0.7, 1.0])
HARNESSES = [
    dict(name="annual", fn=h_annual,
         quick=[dict(kind="primary", custom=None, vary=["daily"]), dict(kind="primary", custom="heavy", vary=D, key="evening"), dict(kind="parallel", custom="heavy", vary=["daily"]),
                dict(kind="sprtp", custom=None, vary=["daily"]), dict(kind="sprtp", custom="peak", vary=D, key="late"), dict(kind="swing", custom="peak", vary=D), dict(kind="swing", custom=None, vary=D, key="evening"),
                dict(kind="instant", custom=None, vary=["daily"] ), dict(kind="instant", custom="heavy", vary=D), dict(kind="er", custom="peak", vary=D), dict(kind="mprtp", custom="peak", vary=dict(defrost=[0.9, 0.9002]))],
         opts=dict(time_s=60)),
    dict(name="curves", fn=h_curves,
         quick=[dict(kind="primary", custom=None, vary=["daily"]), dict(kind="primary", custom="peak", vary=D, key="evening"), dict(kind="sprtp", custom="heavy", vary=["daily"]),
                dict(kind="parallel", custom=None, vary=D, key="nolu"), dict(kind="swing", custom="heavy", vary=D), dict(kind="er", custom="peak", vary=dict(defrost=[1.2, 1.4]))],
         opts=dict(time_s=60)),
    dict(name="fail", fn=h_fail, quick=[dict(kind=k) for k in ("primary", "parallel", "sprtp")] + [dict(kind="swing", rng=[1, 5.9]), dict(kind="swing", rng=[15.98, 16.02])] + [dict(kind="primary", key="long"), dict(kind="sprtp", key="evening")], opts=dict(time_s=60)),
    dict(name="resize", fn=h_resize, quick=[dict(kind="primary", vary=["daily"], curve=True), dict(kind="primary", vary=D, key="evening"), dict(kind="parallel", vary=D, curve=True), dict(kind="sprtp", vary=["daily"], curve=True), dict(kind="swing", vary=D, curve=True), dict(kind="sprtp", vary=["daily"], key="evening"),
                                            dict(kind="swing", vary=D), dict(kind="swing", vary=D, key="evening"), dict(kind="instant", vary=["daily"])], opts=dict(time_s=60)),
    dict(name="rerun", fn=h_rerun,
         quick=[dict(kind=k, first=a, second=c, n1=2 if k.endswith("rtp") else n, n2=12, daily=[600, 602] if k.endswith("rtp") else [200, 9000]) for k in SIM for a, c, n in (("3day", "3day", 4), ("annual", "3day", 3), ("3day", "annual", 3))],
         thorough=[dict(kind=k, first="annual", second=c, n1=6, n2=24, daily=[200, 9000]) for k in SIM for c in ("3day", "annual")], opts=dict(time_s=60), topts=dict(time_s=300)),
    dict(name="beside", fn=h_beside, quick=[dict(kind=k, other=o, n=5, daily=[400, 2000]) for k, o in (("primary", "primary"), ("swing", "swing"), ("parallel", "parallel"), ("mprtp", "mprtp"), ("sprtp", "mprtp"), ("instant", "instant"))],
         opts=dict(time_s=60)),
    dict(name="shared", fn=h_shared, quick=[dict(kind=k, n=5, daily=[400, 2000]) for k in ("primary", "swing", "parallel", "sprtp")], opts=dict(time_s=60)),
    dict(name="engine", fn=h_engine, quick=[dict(kind=k, presized=p) for k, p in (("primary", False), ("primary", True), ("parallel", False), ("parallel", True), ("sprtp", False), ("swing", True))], opts=dict(time_s=60)),
    dict(name="climates", fn=h_climates, quick=[dict(keys=[3, 16]), dict(keys=[90, 1, 12])], opts=dict(time_s=60)),
    dict(name="queries", fn=h_queries, quick=[dict(tm=False), dict(tm=True)], opts=dict(time_s=60)),
]
