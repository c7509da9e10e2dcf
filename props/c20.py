"""Sizing curves: every point is a sizing, and the recommended point is the system's own."""
from props.c19 import PEAK, mk, sched

HEAVY = [0.17 if i == 8 else 0.83 / 23 for i in range(24)]
EVEN = [0.05 if 6 <= i < 14 else 0.6 / 16 for i in range(24)]
SHAPES = {"peak": PEAK, "heavy": HEAVY, "even": EVEN}
AVG = [x / 300 for x in ([(7 * i) % 24 + 1 for i in range(24)])]


def setup(h, vary, shape, storage=150.0, ls=False):
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.components.heating.Controls import Controls
    v = dict(daily=h.real("daily", 50, 9000) if "daily" in vary else 1200.0, defrost=h.real("defrost", 0.5, 1) if "defrost" in vary else 0.9,
             inlet=h.real("inlet", 35, 70) if "inlet" in vary else 50.0, on=h.real("on", 0.3, 0.6) if "on" in vary else 0.45)
    mkb = lambda: Building(None, v["daily"], list(SHAPES[shape]), AVG, design_inlet_water_temp_f=v["inlet"], design_oat_f=35.0)
    cm = {"normal": Controls(v["on"], 118.0, 0.25, 140.0, storage)}
    if ls:
        cm["shed"] = Controls(0.8, 119.0, 0.5, 140.0, storage)
        cm["loadUp"] = Controls(0.3, 116.0, 0.15, 138.0, storage)
    return v, mkb, cm


def size_of(s):
    return s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal()


def h_curve(h, kind, run, shape, vary, step, slope, mono=True):
    v, mkb, cm = setup(h, vary, shape)
    b = mkb()
    s = mk(kind, b, 120.0, 150.0, run, v["defrost"], ["normal"] * 24, cm, slope, 1.0)
    cap, vol = size_of(s)
    c = s.get_sizing_curve(b, step=step) if step != 0.25 else s.get_sizing_curve(b)
    hh, cc, vv, r = c["heat_hours"], c["capacity_kbtuh"], c["storage_storageT_gal"], c["recommended_index"]
    h.ok(len(hh) == len(cc) == len(vv) and 0 <= r < len(hh), "one capacity and storage per point")
    h.eq(hh[r], run, "the recommended point is at the allowed run hours")
    h.eq(cc[r], cap, "the recommended point has the sized capacity", 1e-4)
    h.eq(vv[r], vol, "the recommended point has the sized storage", 1e-3)
    h.eq(hh[0], 24.0, "the curve starts at round-the-clock running")
    least = 1 / max(SHAPES[shape]) * 1.001
    h.ok(hh[-1] > least and hh[-1] - step <= least + 1e-9, "the curve runs down to the shortest feasible hours")
    for i in range(1, len(hh)):
        d = hh[i - 1] - hh[i]
        h.ok(0 < d <= step + 1e-9 and (i == r or abs(d - step) < 1e-9), "hours fall step by step")
        if mono:
            h.ge(cc[i], cc[i - 1], "fewer hours, more capacity", 1e-4)
            h.le(vv[i], vv[i - 1], "fewer hours, less storage", 1e-3)
    for i in range(len(hh)):
        p, q = size_of(mk(kind, mkb(), 120.0, 150.0, hh[i], v["defrost"], ["normal"] * 24, cm, slope, 1.0))
        h.eq(cc[i], p, "each point's capacity is what sizing at its hours gives", 1e-4)
        h.eq(vv[i], q, "each point's storage is what sizing at its hours gives", 1e-3)
    h.eq(s.max_daily_run_hr, run, "the curve leaves the allowed hours alone")
    h.eq(s.get_minimum_capacity_kbtuh(), cap, "the curve leaves the sized capacity alone", 1e-6)
    h.eq(s.get_minimum_storage_storageT_gal(), vol, "the curve leaves the sized storage alone", 1e-6)
    h.eq(b.daily_dhw_use_supplyT_gal, v["daily"], "the curve leaves the building alone", 1e-6)


def h_ls(h, kind, key, run, vary, slope, pct, every=1, mono=True):
    from statistics import NormalDist
    v, mkb, cm = setup(h, vary, "peak", ls=True)
    nd = NormalDist(0.7052988591269841, 0.08236427664525116)
    fr = lambda p: 1.0 if p >= 1 else min(1.0, nd.inv_cdf(p))
    b, sc = mkb(), sched(key)
    s = mk(kind, b, 120.0, 150.0, run, v["defrost"], sc, cm, slope, fr(pct))
    cap, vol = size_of(s)
    c = s.get_ls_sizing_curve(b, sc, cm, load_shift_percent=pct)
    pp, cc, vv, r = c["load_shift_percent"], c["capacity_kbtuh"], c["storage_storageT_gal"], c["recommended_index"]
    h.ok([round(100 * p) for p in pp] == list(range(25, 101)) and len(cc) == len(vv) == 76, "one point per percent from 25 to 100")
    h.eq(pp[r], pct, "the recommended point is the system's coverage", 1e-6)
    h.eq(cc[r], cap, "the recommended point has the sized capacity", 1e-4)
    h.eq(vv[r], vol, "the recommended point has the sized storage", 1e-3)
    for i in range(0, 76):
        if i and mono:
            h.ge(cc[i], cc[i - 1], "more coverage, no less capacity", 1e-4)
            h.ge(vv[i], vv[i - 1], "more coverage, no less storage", 1e-3)
        if i % every and i != 75:
            continue
        p, q = size_of(mk(kind, mkb(), 120.0, 150.0, run, v["defrost"], sc, cm, slope, fr(pp[i])))
        h.eq(cc[i], p, "each point's capacity is what sizing at its coverage gives", 1e-4)
        h.eq(vv[i], q, "each point's storage is what sizing at its coverage gives", 1e-3)
    h.eq(s.max_daily_run_hr, run, "the curve leaves the allowed hours alone")
    h.eq(s.get_minimum_capacity_kbtuh(), cap, "the curve leaves the sized capacity alone", 1e-6)
    h.eq(s.get_minimum_storage_storageT_gal(), vol, "the curve leaves the sized storage alone", 1e-6)
    h.eq(b.daily_dhw_use_supplyT_gal, v["daily"], "the curve leaves the building alone", 1e-6)


def h_points(h, schematic, ls):
    """The points the engine hands to its callers are the system's curve, marked at the system's own size."""
    from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
    n = h.real("units", 10, 400)
    kw = dict(load_shift_schedule=[0 if 16 <= i < 20 else 1 for i in range(24)], load_up_hours=3, shed_aquastat_fract=0.8,
              load_up_aquastat_fract=0.3, load_shift_percent=0.8) if ls else {}
    e = EcosizerEngine("multi_family", n, dict(design_inlet_water_temp_f=50.0, design_oat_f=35.0), 120.0, 150.0, schematic, gpdpp=20.0,
                       custom_peak_load_shape=PEAK, custom_avg_load_shape=AVG, aquastat_fract=0.45, off_sensor_fract=0.25,
                       return_temp_f=112.0, return_flow_gpm=2.5, tm_on_temp_f=115.0, tm_off_temp_f=123.0, tm_safety_factor=1.2, **kw)
    e._dhw_system.plot_sizing_curve = lambda **k: "figure"
    fig, x, y, i = e.plot_sizing_curve(return_with_x_y_points=True)
    r = e.get_sizing_results()
    h.ok(len(x) == len(y) and 0 <= i < len(x), "points come in pairs")
    if ls:
        h.eq(x[i], 80.0, "marked at the requested coverage", 1e-6)
        h.eq(y[i], r["min_storage_storageT_gal"], "marked at the sized storage", 1e-3)
        h.ok([round(p) for p in x] == list(range(25, 101)), "coverage in percent")
        for k in range(1, len(y)):
            h.ge(y[k], y[k - 1], "more coverage, no less storage", 1e-3)
    else:
        h.eq(x[i], r["min_storage_storageT_gal"], "marked at the sized storage", 1e-3)
        h.eq(y[i], r["min_capacity_kbtuh"], "marked at the sized capacity", 1e-3)
        for k in range(1, len(x)):
            h.ge(x[k], x[k - 1], "points run from least to most storage", 1e-3)
            h.le(y[k], y[k - 1], "more storage goes with less capacity", 1e-3)
    h.ok(fig == "figure", "the figure comes first")


HARNESSES = [
    dict(name="curve", fn=h_curve,
         quick=[dict(kind="primary", run=16.0, shape="peak", vary=["daily"], step=0.25, slope=2.8), dict(kind="primary", run=17.5, shape="peak", vary=["defrost"], step=0.25, slope=2.8),
                dict(kind="primary", run=13.3, shape="peak", vary=["inlet"], step=0.5, slope=2.0),
                dict(kind="primary", run=24.0, shape="heavy", vary=["on"], step=1.0, slope=2.8),
                dict(kind="sprtp", run=14.0, shape="heavy", vary=["daily"], step=0.5, slope=1.7), dict(kind="sprtp", run=15.0, shape="heavy", vary=["inlet"], step=1.0, slope=1.7),
                dict(kind="parallel", run=22.0, shape="even", vary=["daily"], step=0.25, slope=2.5),
                dict(kind="swing", run=16.0, shape="peak", vary=["defrost"], step=2.0, slope=2.8, mono=False),
                dict(kind="swing", run=14.5, shape="heavy", vary=["defrost", "on"], step=3.0, slope=2.3, mono=False)],
         thorough=[dict(kind=k, run=r, shape=s, vary=v, step=st, slope=2.4) for k in ("primary", "sprtp", "parallel") for r in (15.0, 20.25)
                   for s in SHAPES for v, st in ((["daily", "inlet"], 0.25), (["on"], 0.5), (["defrost"], 1.5))],
         opts=dict(time_s=60, fork_minmax=True, quot=1)),
    dict(name="ls", fn=h_ls,
         quick=[dict(kind="primary", key="evening", run=16.0, vary=["daily"], slope=2.8, pct=0.8), dict(kind="primary", key="late", run=18.0, vary=["defrost"], slope=2.8, pct=0.9, every=15, mono=False),
                dict(kind="primary", key="long", run=16.0, vary=["daily"], slope=2.0, pct=0.25),
                dict(kind="sprtp", key="split", run=14.0, vary=["defrost"], slope=1.7, pct=1.0, every=5), dict(kind="sprtp", key="evening", run=14.0, vary=["daily"], slope=1.7, pct=0.7, every=25, mono=False),
                dict(kind="parallel", key="nolu", run=16.0, vary=["defrost"], slope=2.8, pct=0.5, every=5),
                dict(kind="swing", key="evening", run=16.0, vary=["defrost"], slope=2.8, pct=0.95, every=25, mono=False),
                dict(kind="swing", key="two", run=10.0, vary=["defrost"], slope=2.2, pct=0.6, every=25, mono=False)],
         thorough=[dict(kind=k, key=key, run=r, vary=v, slope=2.4, pct=0.9) for k in ("primary", "sprtp", "parallel") for r in (15.0, 20.25)
                   for key in ("evening", "late", "gap") for v in (["daily"], ["defrost"], ["inlet"])],
         opts=dict(time_s=60, fork_minmax=True, quot=1)),
    dict(name="points", fn=h_points, quick=[dict(schematic="primary_no_recirc", ls=False), dict(schematic="sprtp", ls=False), dict(schematic="paralleltank", ls=False),
                                            dict(schematic="primary_no_recirc", ls=True), dict(schematic="single_pass_rtp", ls=True)],
         opts=dict(time_s=60, fork_minmax=True, quot=1)),
]
