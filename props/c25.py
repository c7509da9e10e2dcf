"""Look-ups, wrappers and figures hand on exactly what was computed."""
from props.common import RHO_CP, raises
from props.figures import Div, numbers, plotting, title
from props.c19 import mk, sched
from props.c20 import AVG, setup, size_of
from props.c23 import ALIAS, engine


def flat(x):
    return list(x)


def series(h, got, exp, what, tol=1e-6):
    got, exp = flat(got), flat(exp)
    h.ok(len(got) == len(exp), what + " (points)")
    for a, b in zip(got, exp):
        h.eq(a, b, what, tol)


# ---------------------------------------------------------------- look-ups
def h_models(h, extra):
    import json
    import os
    import ecoengine
    from ecoengine.interfaces import EcosizerEngine as E
    with open(os.path.join(os.path.dirname(ecoengine.__file__), "data/preformanceMaps/maps.json")) as f:
        maps = json.load(f)
    mp, res, sgip = h.flag("multi_pass"), h.flag("include_residential"), h.flag("sgip_models_only")
    codes = list(maps)
    skip = [[], [codes[0]], [codes[3], codes[-1], "NOT_A_MODEL"]][h.pick("exclude", [0, 1, 2])]
    kw = dict(multi_pass=mp, include_residential=res, sgip_models_only=sgip)
    got = E.get_list_of_models(exclude_models=skip, **kw) if extra else E.get_list_of_models(**kw)
    skip = skip if extra else []
    exp = [[c, m["name"]] for c, m in maps.items()
           if c not in skip and (m.get("SGIP_avail", False) or not sgip) and (res or "_C_" in c[-6:]) and c.endswith("_MP" if mp else "_SP")]
    h.ok(sorted([list(x) for x in got]) == sorted(exp), "exactly the models asked for, each with its name")
    h.ok(len(E.get_list_of_models()) == len(E.get_list_of_models(False, True, None, True)), "defaults: single-pass, residential included, SGIP only")


def h_stations(h):
    import csv
    import os
    import ecoengine
    from ecoengine.interfaces import EcosizerEngine as E
    with open(os.path.join(os.path.dirname(ecoengine.__file__), "data/climate_data/WeatherStation_ClimateZone_Lookup.csv"), newline="") as f:
        rows = [(a, int(b)) for a, b in list(csv.reader(f))[1:]]
    k = h.pick("exclude", [None, 0, 1, 2, 3])
    skip = None if k is None else [[], [96], [67, 68, 3], sorted({z for _, z in rows})][k]
    got = E.get_weather_stations(skip) if k is not None else E.get_weather_stations()
    out = [96] if skip is None else skip
    h.ok([tuple(x) for x in got] == [r for r in rows if r[1] not in out], "every station outside the excluded zones, with its zone")


def h_buckets(h, zones):
    from ecoengine.interfaces import EcosizerEngine as E
    from ecoengine.objects.building.ClimateZone import ClimateZone
    z = h.pick("zone", zones)
    got = E.get_oat_buckets(zone_id=z)
    h.ok(got == ClimateZone.from_zone_id(z).get_oat_buckets() and sum(got.values()) == 365, "every day of the zone's year in one bucket")
    a, b, c = h.flag("zip"), h.flag("zone_given"), h.flag("station")
    kw = {}
    if a:
        kw["zip_code"] = 90210
    if b:
        kw["zone_id"] = z
    if c:
        kw["weather_station"] = "ID - Boise Air Terminal"
    if len(kw) != 1:
        h.ok(isinstance(raises(lambda: E.get_oat_buckets(**kw)), ValueError), "exactly one way of naming the place")
    else:
        ref = ClimateZone.from_zip_code(90210) if a else ClimateZone.from_zone_id(z) if b else ClimateZone.from_weather_station("ID - Boise Air Terminal")
        h.ok(E.get_oat_buckets(**kw) == ref.get_oat_buckets(), "buckets of the place named")


def h_capacity(h, model, oat, inlet, outlet):
    from ecoengine.interfaces import EcosizerEngine as E
    from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
    t, i = h.real("oat", *oat), h.real("inlet", *inlet)
    der, n, kw = h.real("derate", -0.5, 1.5), h.pick("num", [0, 1, 2, 5, 1.5]), h.flag("kw")
    got = []
    ex = raises(lambda: got.append(E.get_hpwh_output_capacity(model, t, i, outlet, num_heaters=n, return_as_kw=kw, defrost_derate=der)))
    if n in (0, 1.5):
        h.ok(isinstance(ex, ValueError), "no fewer than one heater, whole heaters only")
        return
    if bool(h.Or(der < 0, der > 1)):
        h.ok(isinstance(ex, ValueError), "defrost derate between none and all")
        return
    h.ok(ex is None, "capacity available")
    one = PerformanceMap.from_model_name(model).get_capacity_kbtuh(t, outlet, i)
    h.eq(got[0] * 3.412142 if kw else got[0], one * n * (1 - der), "capacity of all heaters after defrost, in the unit asked for", 1e-2)
    base = E.get_hpwh_output_capacity(model, t, i, outlet)
    h.eq(base * 3.412142, one, "by default one heater, no derate, in kW", 1e-2)


# ---------------------------------------------------------------- wrappers
class Fake:
    """Steps of a plant, with arbitrary figures at some of them."""

    def __init__(self, h, at):
        self.calls = []
        self.at = {i: dict(demand=h.real(f"d{i}", 0, 9), use=h.real(f"u{i}", 1, 90), out=h.real(f"o{i}", 0, 200), kw=h.real(f"k{i}", 0, 60)) for i in at}

    def __call__(self, building, timestep_interval, interval_min, **kw):
        self.calls.append((building, timestep_interval, interval_min))
        v = self.at.get(timestep_interval)
        f = v or dict(demand=1.0, use=50.0, out=0.0, kw=None)
        return dict(demand_supplyT_gal=f["demand"], usable_volume_supplyT_gal=f["use"], heater_output_kbtuh=f["out"], heater_power_in_kw=f["kw"], oat_f=40.0, inlet_water_temp_f=50.0,
                    tank_temps_f=[140.0] * 6, mode="normal", delivery_temp_f=140.0)


def h_wrappers(h, kind, dur, at):
    import ecoengine.interfaces.Simulator as S
    e = engine(ALIAS[kind][0], 40.0, storage_volume_storageT_gal=200.0, heating_capacity_kbtuh=90.0, return_temp_f=112.0, return_flow_gpm=2.0, tm_storage_vol=60.0, tm_capacity_kbtuh=25.0)
    f = Fake(h, at)
    e._dhw_system.simulate_step = f
    limit = h.pick("limit", [7, 30]) if dur == "3day" else 12
    r = (e.simulate_3day if dur == "3day" else e.simulate_annual)(outlet_deficit_max_min=limit)
    ts, n = (1, 4320) if dur == "3day" else (10, 52560)
    h.ok(r.timestep_min == ts and r.duration_min == ts * n, "length and step of the simulation asked for")
    h.ok([c[1:] for c in f.calls] == [(i, ts) for i in range(n)] and all(c[0] is e._building for c in f.calls), "every step of the engine's own building, in order")
    h.ok(r.outlet_deficit_max_min == limit, "settings of the run are handed on")
    for i, v in f.at.items():
        h.eq(r.dhw_demand_supplyT_gal[i], v["demand"], "demand recorded at its step")
        h.eq(r.heater_power_in_kw[i], v["kw"], "power recorded at its step")
    s, q = e.get_simulation_summary(r), r.get_summary()
    h.ok(set(s) == set(q), "the run's own summary")
    for k in q:
        if isinstance(q[k], (int, float)) or not isinstance(q[k], (str, list, dict, type(None))):
            h.eq(s[k], q[k], "the run's own summary")
    h.eq(s["total_energy_kwh"], h.total(v["kw"] for v in f.at.values()) * ts / 60, "all energy in the summary", 1e-4)
    m = e.get_annual_cost_estimate(r)["monthly_energy_kwh"]
    h.ok(len(m) == 12, "twelve months")
    MH = [0, 744, 1416, 2160, 2880, 3624, 4344, 5088, 5832, 6552, 7296, 8016, 8760]
    for j in range(12):
        exp = h.total([v["kw"] * ts / 60 for i, v in f.at.items() if MH[j] <= i * ts / 60 < MH[j + 1]] + [0.0]) if dur == "annual" else 0.0
        h.eq(m[j], exp, "monthly energy of the run (a year only)", 1e-4)
    h.eq(e.get_hw_magnitude(), 800.0, "daily hot water of the building")
    g = (S.simulate_3day if dur == "3day" else S.simulate_annual)(e._dhw_system, e._building)
    h.ok(g.duration_min == ts * n and g.timestep_min == ts and len(g.oat_f) == n, "stand-alone runs alike")


# ---------------------------------------------------------------- figures
COL = ["usable", "demand", "output"]


def h_run_figure(h, ts, tm, temps, supply, modes, n):
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    r = SimulationRun(4320 if ts == 1 else 525600, ts)
    r.show_tm_panel = tm
    r.supply_temp_f = h.real("supply", 100, 140) if supply else None
    rec = []
    opt = ["normal", "shed", "loadUp"]
    for i in range(n):
        v = dict(d=h.real(f"d{i}", 0, 50), u=h.real(f"u{i}", -5, 900), o=h.real(f"o{i}", 0, 300), oat=h.real(f"oat{i}", -10, 110), inlet=h.real(f"in{i}", 33, 80),
                 tank=[h.real(f"t{i}_{j}", 40, 180) for j in range(6)] if i == 1 else [100.0 + j for j in range(6)], mode=h.pick(f"m{i}", opt) if modes == "free" else modes[i], tt=h.real(f"tt{i}", 90, 150), to=h.real(f"to{i}", 0, 60))
        rec.append(v)
        r.record_timestep(v["d"], v["u"], v["o"], 3.0, v["oat"], v["inlet"], v["tank"], v["mode"], **(dict(tm_tank_temp_f=v["tt"], tm_heater_output_kbtuh=v["to"], tm_heater_input_kw=1.0) if tm else {}))
    with plotting():
        f = r.to_plotly(title="The title", filepath="/nowhere/fig.html", include_temperatures=temps)
    h.ok(title(f) == "The title" and f.files == ["/nowhere/fig.html"], "titled and written where asked")
    by = {}
    for t in f.data:
        h.ok(t.get("name") not in by, "one line per quantity")
        by[t.get("name")] = t
        h.ok(t.get("visible") in (None, True), "every line is shown")

    def line(prefix, exp, second=False, row=1, tol=1e-6):
        m = [t for k, t in by.items() if k.startswith(prefix)]
        h.ok(len(m) == 1, prefix + " drawn once")
        if len(m) != 1:
            return
        t = m[0]
        h.ok(list(t.get("x")) == [i * ts for i in range(n)], prefix + " at its minutes")
        series(h, t.get("y"), exp, prefix, tol)
        h.ok(t.secondary_y == second and (t.row or 1) == row, prefix + " on its own axis")
        by.pop(t.get("name"))
    line("Usable Volume", [v["u"] for v in rec])
    line("DHW Demand", [v["d"] * 60 / ts for v in rec])
    if supply:
        line("Heater Generation", [v["o"] * 1000 / (RHO_CP * h.max(1.0, r.supply_temp_f - v["inlet"])) for v in rec], tol=1e-4)
    if temps:
        line("OAT", [v["oat"] for v in rec], True)
        line("Inlet Water", [v["inlet"] for v in rec], True)
        nodes = list(by)[:6]
        for j in range(6):
            line(nodes[j], [v["tank"][j] for v in rec], True)
    if tm:
        line("TM Heater Output", [v["to"] for v in rec], False, 2)
        line("Swing Tank Temp", [v["tt"] for v in rec], True, 2)
    h.ok(not by, "nothing else is drawn")
    for i, v in enumerate(rec):
        cover = [q for q in f.rects if q.get("x0") <= i * ts and i * ts + ts <= q.get("x1")]
        part = [q for q in f.rects if q.get("x0") < i * ts + ts and i * ts < q.get("x1")]
        h.ok(len(part) == len(cover) == (v["mode"] != "normal"), "shading exactly over the load-shift steps")
        v["shade"] = cover[0].get("fillcolor") if cover else None
    shades = {m: {v["shade"] for v in rec if v["mode"] == m} for m in opt}
    h.ok(len(shades["shed"]) <= 1 and len(shades["loadUp"]) <= 1 and not shades["shed"] & shades["loadUp"], "one colour per mode")
    notes = [(q.get("annotation_text"), {v["mode"] for i, v in enumerate(rec) if q.get("x0") <= i * ts < q.get("x1")}) for q in f.rects if q.get("annotation_text")]
    for m, name in (("shed", "Shed"), ("loadUp", "Load-Up")):
        h.ok([x for x in notes if x[0] == name] == ([(name, {m})] if shades[m] else []), "each mode is named once, at a stretch of its own")


def check_curve_figure(h, f, x, y, rec, printed, what, tol=1e-6, extra=None):
    line, marks = f.data[0], f.data[1:]
    series(h, line.get("x"), x, what + ": line", tol)
    series(h, line.get("y"), y, what + ": line", tol)
    h.ok(line.get("visible") in (None, True) and "markers" != line.get("mode"), "the curve is a line and is shown")
    h.ok(len(marks) == len(x), what + ": a marker for every point")
    for i, t in enumerate(marks):
        series(h, t.get("x"), [x[i]], what + ": marker", tol)
        series(h, t.get("y"), [y[i]], what + ": marker", tol)
        h.ok(t.get("mode") == "markers" and bool(t.get("visible")) == (i == rec), "only the recommended point is marked at first")
    s = f.layout.get("sliders")
    h.ok(s is not None and len(s) == 1, "one slider")
    h.ok(s[0]["active"] == rec and len(s[0]["steps"]) == len(x), "the slider starts at the recommended point")
    for i, st in enumerate(s[0]["steps"]):
        vis = list(st["args"][0]["visible"])
        h.ok(vis == [True] + [j == i for j in range(len(x))], "moving the slider marks its point alone")
        nums = numbers(st["label"], printed)
        exp = [x[i], y[i]] + ([extra[i]] if extra is not None else [])
        h.ok(len(nums) == len(exp), "the label names the point's figures")
        for (v, half), w in zip(nums, exp):
            h.eq(v, w, "the label names the point's figures", half)


def h_curve_figure(h, kind, vary, key=None, slope=2.8):
    from statistics import NormalDist
    v, mkb, cm = setup(h, vary, "peak", ls=bool(key))
    b, sc = mkb(), sched(key) if key else ["normal"] * 24
    s = mk(kind, b, 120.0, 150.0, 16.0, v["defrost"], sc, cm, slope, NormalDist(0.7052988591269841, 0.08236427664525116).inv_cdf(0.9) if key else 1.0)
    with plotting() as printed:
        if key:
            f = s.plot_sizing_curve(b, control_schedule=sc, control_map=cm, load_shift_percent=0.9, strat_slope=slope, title="A curve", filepath="/nowhere/c.html")
            c = s.get_ls_sizing_curve(b, sc, cm, strat_slope=slope, load_shift_percent=0.9)
            x, y, rec, extra = [p * 100 for p in c["load_shift_percent"]], list(c["storage_storageT_gal"]), c["recommended_index"], None
        else:
            f = s.plot_sizing_curve(b, control_schedule=sc, control_map=cm, strat_slope=slope, title="A curve", filepath="/nowhere/c.html")
            c = s.get_sizing_curve(b, strat_slope=slope)
            x, y, extra = list(c["storage_storageT_gal"])[::-1], list(c["capacity_kbtuh"])[::-1], list(c["heat_hours"])[::-1]
            rec = len(x) - 1 - c["recommended_index"]
        h.ok(title(f) == "A curve" and f.files == ["/nowhere/c.html"], "titled and written where asked")
        check_curve_figure(h, f, x, y, rec, printed, "sizing curve", 1e-4, extra)
    cap, vol = size_of(s)
    h.eq((y if key else x)[rec], vol, "the marked point is the system's storage", 1e-3)
    if not key:
        h.eq(y[rec], cap, "the marked point is the system's capacity", 1e-3)


def h_engine_figure(h, kind, shift, div, points):
    n = h.real("units", 20, 300)
    kw = dict(load_shift_schedule=[0 if 16 <= i < 20 else 1 for i in range(24)], load_up_hours=2, load_up_aquastat_fract=0.3, shed_aquastat_fract=0.8, load_shift_percent=0.9) if shift else {}
    e = engine(ALIAS[kind][0], n, return_temp_f=110.0, return_flow_gpm=2.0, **kw)
    r = e.get_sizing_results()
    with plotting() as printed:
        out = e.plot_sizing_curve(title="Mine", filepath="/nowhere/e.html", return_as_div=div, return_with_x_y_points=points)
        fig = out[0] if points else out
        h.ok(isinstance(fig, Div) == div, "a piece of HTML exactly when asked for")
        if div:
            h.ok(fig.kw.get("full_html") is False and fig.kw.get("include_plotlyjs") is False, "a fragment, not a page")
            fig = fig.fig
        h.ok(title(fig) == "Mine" and fig.files == ["/nowhere/e.html"], "titled and written where asked")
        rec = fig.layout.get("sliders")[0]["active"]
        x, y = flat(fig.data[0].get("x")), flat(fig.data[0].get("y"))
        check_curve_figure(h, fig, x, y, rec, printed, "engine curve", extra=None if shift else [numbers(s["label"], printed)[-1][0] for s in fig.layout.get("sliders")[0]["steps"]])
    if points:
        h.ok(len(out) == 4 and out[3] == rec, "the recommended point's place in the lists")
        series(h, out[1], x, "x values as drawn", 1e-4)
        series(h, out[2], y, "y values as drawn", 1e-4)
    h.eq((y if shift else x)[rec], r["min_storage_storageT_gal"], "the marked point is the engine's storage", 1e-3)
    if shift:
        h.eq(x[rec], 90.0, "the marked point is the engine's coverage", 1e-6)
    else:
        h.eq(y[rec], r["min_capacity_kbtuh"], "the marked point is the engine's capacity", 1e-3)


def h_helper(h, n):
    from ecoengine.interfaces import EcosizerEngine as E
    x, y = [h.real(f"x{i}", 0, 5000) for i in range(n)], [h.real(f"y{i}", 0, 900) for i in range(n)]
    k, ls, er, div = h.pick("start", list(range(n))), h.flag("ls"), h.flag("er"), h.flag("div")
    with plotting():
        f = E.get_sizing_curve_plot(x, y, k, load_shifting=ls, er_sized=er, return_as_div=div)
    h.ok(isinstance(f, Div) == bool(div), "a piece of HTML exactly when asked for")
    f = f.fig if isinstance(f, Div) else f
    h.ok(len(f.data) == 2, "the curve and the chosen point")
    series(h, f.data[0].get("x"), x, "curve")
    series(h, f.data[0].get("y"), y, "curve")
    series(h, f.data[1].get("x"), [x[k]], "chosen point")
    series(h, f.data[1].get("y"), [y[k]], "chosen point")
    ax = [str(f.layout.get("xaxis_title")), str(f.layout.get("yaxis_title"))]
    want = ("Coverage", "kW") if er else ("Covered", "gal") if ls else ("gal", "kBTU")
    h.ok(want[0] in ax[0] and want[1] in ax[1], "axes named for the kind of curve")


def h_er_figure(h, rng):
    from props.c24 import make, mf
    b = mf(1200.0, "peak", False)
    s = make("er", b, 16.0, 1.2)
    add = h.real("safety", *rng)
    with plotting() as printed:
        f = s.get_er_sizing_curve(b, add)
        kw, pct, k = s.get_er_sized_points(b, add)
        check_curve_figure(h, f, list(pct), list(kw), k, printed, "ER curve", 1e-4)


def h_compare(h, at, ts=10):
    from ecoengine.interfaces import EcosizerEngine as E
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    dur = [365 * 1440, 3 * 1440][0]
    runs, steps = [], max(at) + 1
    for j in (0, 1):
        r = SimulationRun(dur, ts)
        for i in range(steps):
            r.record_timestep(1.0, 50.0, 0.0, h.real(f"kw{j}_{i}", 0.1, 50) if i in at else None, 40.0, 50.0, [100.0] * 6, "normal")
        runs.append(r)
    base = h.real("base", 0, 100)
    u = U.from_params(base, 0, 6, 3.0, 0.4, 1.5, 0.2)
    exp = [r.get_monthly_cost_breakdown_detailed(u) for r in runs]
    arr = E.get_annual_utility_comparison_graph(runs[0], runs[1], u, return_as_array=True)
    for a, b in zip(arr, exp):
        h.ok(set(a) == set(b), "both breakdowns as numbers")
        for k in b:
            if isinstance(b[k], list):
                series(h, a[k], b[k], "breakdown as numbers")
            else:
                h.eq(a[k], b[k], "breakdown as numbers")
    div = h.flag("div")
    with plotting():
        f = E.get_annual_utility_comparison_graph(runs[0], runs[1], u, return_as_div=div)
    h.ok(isinstance(f, Div) == bool(div), "a piece of HTML exactly when asked for")
    f = f.fig if isinstance(f, Div) else f
    h.ok(f.layout.get("barmode") == "stack", "charges are stacked")
    months = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
    cats = [("Peak Energy", "energy_peak"), ("Off-Peak Energy", "energy_off_peak"), ("Peak Demand", "demand_peak"), ("Off-Peak Demand", "demand_off_peak"), ("Base", None)]
    seen = 0
    sums = [[[], []] for _ in range(12)]
    for t in f.data:
        x, y, name = list(t.get("x")), list(t.get("y")), t.get("name")
        h.ok(x == [m + s for m in months for s in ("", " ")] and len(y) == 24, "two bars for each month, in order")
        j = 0 if name.endswith("HP") else 1
        key = [k for p, k in cats if name.startswith(p)]
        h.ok(len(key) == 1, "every bar belongs to one kind of charge")
        seen += 1
        for m in range(12):
            h.eq(y[2 * m + j], exp[j][key[0]][m] if key[0] else base, "charge of the month, plant and kind", 1e-6)
            h.eq(y[2 * m + 1 - j], 0.0, "nothing in the other plant's bar")
            sums[m][j].append(y[2 * m + j])
    h.ok(seen == 10 and len({t.get("name") for t in f.data}) == 10, "five kinds of charge for both plants")
    for j in (0, 1):
        h.eq(h.total(h.total(sums[m][j]) for m in range(12)), runs[j].get_annual_utility_cost(u), "all bars together are the year's bill", 1e-3)
    short = SimulationRun(3 * 1440, 1)
    for a, b in ((short, runs[1]), (runs[0], short)):
        h.ok(isinstance(raises(lambda: E.get_annual_utility_comparison_graph(a, b, u, return_as_array=True)), ValueError), "only for a year of both")


def h_sim_figure(h, kind, temps, div):
    e = engine(ALIAS[kind][0], 40.0, storage_volume_storageT_gal=200.0, heating_capacity_kbtuh=90.0, return_temp_f=112.0, return_flow_gpm=2.0, tm_storage_vol=60.0, tm_capacity_kbtuh=25.0)
    f = Fake(h, [0, 7, 4319])
    e._dhw_system.simulate_step = f
    with plotting():
        g = e.plot_simulation(title="Three days", filepath="/nowhere/s.html", include_temperatures=temps, return_as_div=div)
    h.ok(isinstance(g, Div) == div, "a piece of HTML exactly when asked for")
    g = g.fig if div else g
    h.ok(title(g) == "Three days" and g.files == ["/nowhere/s.html"], "titled and written where asked")
    by = {t.get("name"): t for t in g.data}
    use = [t for k, t in by.items() if k.startswith("Usable")][0]
    h.ok(len(use.get("y")) == 4320 and list(use.get("x"))[-1] == 4319, "three days, minute by minute")
    for i, v in f.at.items():
        h.eq(use.get("y")[i], v["use"], "usable volume of the run")
        h.eq([t for k, t in by.items() if k.startswith("DHW")][0].get("y")[i], v["demand"] * 60, "demand of the run")
        h.eq([t for k, t in by.items() if k.startswith("Heater Gen")][0].get("y")[i], v["out"] * 1000 / (RHO_CP * (121.0 - 50.0)), "output of the run", 1e-4)
    h.ok(any(k.startswith("OAT") for k in by) == temps, "temperatures only when asked for")
    h.ok(any(k.startswith("Swing Tank") for k in by) == (kind == "swing"), "a swing tank's temperature for swing tanks only")


M6 = ["normal", "shed", "shed", "loadUp", "shed", "normal"]
HARNESSES = [
    dict(name="models", fn=h_models, quick=[dict(extra=False), dict(extra=True)], opts=dict(time_s=60)),
    dict(name="stations", fn=h_stations, quick=[dict()], opts=dict(time_s=60)),
    dict(name="buckets", fn=h_buckets, quick=[dict(zones=[1, 3, 16, 90, 96])], opts=dict(time_s=60)),
    dict(name="capacity", fn=h_capacity,
         quick=[dict(model="MODELS_ColmacCxA_10_C_SP", oat=[30, 80], inlet=[45, 60], outlet=140.0), dict(model="MODELS_AOSmithHPTS50_R_MP", oat=[45, 100], inlet=[50, 90], outlet=120.0)],
         opts=dict(time_s=60)),
    dict(name="wrappers", fn=h_wrappers, quick=[dict(kind="primary", dur="3day", at=[0, 1440, 4319]), dict(kind="primary", dur="annual", at=[4463, 4464]), dict(kind="swing", dur="3day", at=[3])],
         opts=dict(time_s=60)),
    dict(name="run_figure", fn=h_run_figure,
         quick=[dict(ts=t, tm=m, temps=p, supply=s, modes=M6, n=4) for t, m, p, s in ((1, False, False, True), (10, True, True, True), (1, True, False, False), (10, False, True, False))] + [dict(ts=10, tm=False, temps=False, supply=False, modes="free", n=5)],
         opts=dict(time_s=60)),
    dict(name="curve_figure", fn=h_curve_figure, quick=[dict(kind="primary", vary=["daily"]), dict(kind="primary", vary=["defrost"], key="evening", slope=2.0), dict(kind="sprtp", vary=["daily"]), dict(kind="parallel", vary=["defrost"], key="evening")],
         opts=dict(time_s=60)),
    dict(name="engine_figure", fn=h_engine_figure, quick=[dict(kind="primary", shift=False, div=False, points=True), dict(kind="primary", shift=True, div=True, points=True), dict(kind="parallel", shift=False, div=True, points=False), dict(kind="sprtp", shift=True, div=False, points=True)],
         opts=dict(time_s=60)),
    dict(name="helper", fn=h_helper, quick=[dict(n=3)], opts=dict(time_s=60)),
    dict(name="er_figure", fn=h_er_figure, quick=[dict(rng=[1.2, 1.4])], opts=dict(time_s=60)),
    dict(name="compare", fn=h_compare, quick=[dict(at=[5, 40, 4466]), dict(at=[3, 4463, 4465])], opts=dict(time_s=60)),
    dict(name="sim_figure", fn=h_sim_figure, quick=[dict(kind="primary", temps=True, div=False), dict(kind="swing", temps=False, div=True)], opts=dict(time_s=60)),
]
