"""Multi-pass return-to-primary sizing: capacity, growing slug, usable zone, capacity boost, curve."""
from props.common import RHO_CP, raises
from props.c19 import PEAK, content

HEAVY = [0.17 if i == 8 else 0.83 / 23 for i in range(24)]
TWO = [0.09 if i in (7, 18) else 0.11 if i in (8, 19) else 0.6 / 20 for i in range(24)]
LATE = [0.15 if i == 23 else 0.1 if i == 0 else 0.75 / 22 for i in range(24)]
FLAT = [1 / 24] * 24
H22 = [0.14 if i == 22 else 0.1 if i == 23 else 0.76 / 22 for i in range(24)]
ALT = [0.06 if i % 2 else 0.28 / 12 for i in range(24)]
ZERO = [0.0] * 6 + [0.14, 0.1, 0.06] + [0.0] * 3 + [0.05] * 5 + [0.11, 0.13] + [0.06] * 3 + [0.03, 0.0]
SHAPES = {"h22": H22, "alt": ALT, "zero": ZERO, "peak": PEAK, "heavy": HEAVY, "two": TWO, "late": LATE, "flat": FLAT}


def bldg(daily, inlet, shape, annual=False):
    from ecoengine.objects.building.Building import Building
    return Building(None, daily, SHAPES[shape], SHAPES["peak"], design_inlet_water_temp_f=inlet, design_oat_f=35.0)


def avg_hot(supply, storage, on, on_t, slope):
    """Mean temperature of what lies above the supply-temperature height when the ON sensor trips."""
    t = lambda x: on_t + slope * (x - on * 100)
    x0 = max(0.0, on * 100 + (supply - on_t) / slope)
    xs = on * 100 + (storage - on_t) / slope
    if xs >= 100:
        return (t(x0) + t(100)) / 2
    return ((xs - x0) * (t(x0) + storage) / 2 + (100 - xs) * storage) / (100 - x0)


def h_hot(h, vary):
    """Mean temperature of the hot zone at the ON trigger, for any sensor and slope (where the code still has that helper)."""
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    supply, storage = h.real("supply", 105, 135) if "supply" in vary else 120.0, h.real("storage", 138, 180) if "storage" in vary else 150.0
    on, on_t = h.real("on", 0, 0.95) if "on" in vary else 0.4, h.real("on_t", 60, 135) if "on_t" in vary else 118.0
    slope = h.real("slope", 0.3, 5) if "slope" in vary else 0.8
    s = MultiPassRTPSystem([], None, supply, storage, 100.0, 3.0)
    try:
        got = s._calc_avg_hot_temp_at_on_trigger(on, on_t, slope)
    except (AttributeError, TypeError):
        h.ok(True, "no such helper in this version")
        return
    x0 = h.max(0, on + (supply - on_t) / slope / 100)         # bottom of the hot zone
    xs = h.min(1, on + (storage - on_t) / slope / 100)        # bottom of the part at storage temperature
    t = lambda x: on_t + slope * 100 * (x - on)
    h.assume(x0 < 0.999)
    h.eq(got * (1 - x0), (xs - x0) * (t(x0) + t(xs)) / 2 + (1 - xs) * storage, "mean temperature of the water above supply temperature", 1e-3)


def valve(load, flow, cold, supply, ret, hot):
    """(gallons drawn, temperature of what replaces them): heat and mass balance around the mixing valve."""
    d = (load * (supply - cold) + flow * (supply - ret)) / (hot - cold)
    if load > flow * (supply - ret) / (hot - supply):
        return d, cold
    d = (load + flow) * (supply - ret) / (hot - ret)
    return d, (load * cold + (d - load) * ret) / d


def slug(shape, daily, flow, cold, supply, ret, hot, storage, cap):
    """Largest slug in two days: draws join it, the heater warms it, at storage temperature it is used up."""
    V, E, worst = 0.0, 0.0, 0.0
    for t in range(2 * 1440):
        d, tin = valve(daily * SHAPES[shape][t // 60 % 24] / 60, flow, cold, supply, ret, hot)
        V = V + d
        E = E + d * (tin - cold) + cap * 1000 / 60 / RHO_CP
        if E > V * (storage - cold) - 1e-7:
            if E < V * (storage - cold) + 1e-7:
                return None                 # too close to call in floating point
            V, E = 0.0, 0.0
        if V > worst:
            worst = V
    return worst


def params(h, vary, run, defrost):
    if "run" in vary:
        run = h.real("run", *vary["run"])
    if "defrost" in vary:
        defrost = h.real("defrost", *vary["defrost"])
    return run, defrost


def need_cap(daily, inlet, supply, ret, flow, run, defrost):
    return (daily * RHO_CP * (supply - inlet) + flow * 60 * RHO_CP * (supply - ret) * 24) / 1000 / run / defrost


def h_size(h, shape, daily, flow, vary, run=14.0, defrost=0.9, supply=120.0, storage=150.0, inlet=50.0, ret=108.0, on=0.5, on_t=120.0, slope=0.8, extra=None, how="size"):
    from ecoengine.objects.components.heating.Controls import Controls
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    run, defrost = params(h, vary, run, defrost)
    cm = {"normal": Controls(on, on_t, 0.3, 140.0, storage)}
    hots = [avg_hot(supply, storage, on, on_t, slope)]
    if extra:
        cm["loadUp"] = Controls(extra[0], extra[1], 0.25, 142.0, storage)
        hots.append(avg_hot(supply, storage, extra[0], extra[1], slope))
    b = bldg(daily, inlet, shape)
    if how == "size":
        s = MultiPassRTPSystem([], None, supply, storage, ret, flow, max_daily_run_hr=run, defrost_factor=defrost)
        s.size(b, control_map=cm, strat_slope=slope)
    else:
        pu = 0.9
        s = MultiPassRTPSystem.from_size(b, supply, storage, ret, flow, run, defrost, ["normal"] * 24, cm, slope, pu, capacity_boost_iterations=0)
    cap = need_cap(daily, inlet, supply, ret, flow, run, defrost)
    h.eq(s.get_minimum_capacity_kbtuh(), cap, "capacity covers the day's water and the loop's day in the allowed hours", 1e-3)
    vol = slug(shape, daily, flow, inlet, supply, ret, min(hots), storage, cap)
    if vol is None:
        return
    # the slug is at supply temperature: volume at storage temperature of a tank stratified at the ON trigger
    strat = content(h, supply, storage, inlet, on, on_t, slope)
    h.eq(s.get_minimum_storage_storageT_gal() * strat, vol, "storage holds the largest slug of the design days", 1e-2)
    if how == "size":
        return
    h.eq(s.storage_tank.total_volume_gal, s.get_minimum_storage_storageT_gal(), "built tank", 1e-6)
    h.eq(s.storage_tank.percent_useable, 0.9, "usable share of the built tank")
    h.eq(s.storage_tank.strat_slope, slope, "stratification of the built tank")
    h.ok(len(s.water_heaters) == 1, "one heater")
    h.eq(s.water_heaters[0].performance_map.get_capacity_kbtuh(35.0, storage), cap, "built heater", 1e-3)
    h.eq(s.max_daily_run_hr, run, "run hours kept")
    h.eq(s.defrost_factor, defrost, "defrost factor kept")


def h_zone(h):
    """Sensors in the unusable zone, and shed controls, are refused."""
    from ecoengine.objects.components.heating.Controls import Controls
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    pu = h.real("usable", 0.5, 1)
    on, off = h.real("on", 0.05, 0.6), h.real("off", 0.0, 0.6)
    h.assume(off <= on)
    second = h.flag("second")
    cm = {"normal": Controls(on, 120.0, off, 140.0, 150.0)} if not second else {"normal": Controls(0.5, 120.0, 0.5, 140.0, 150.0), "loadUp": Controls(on, 120.0, off, 141.0, 150.0)}

    class Reached(Exception):
        pass

    class B:
        def __getattr__(self, n):
            raise Reached()
    ex = raises(lambda: MultiPassRTPSystem.from_size(B(), 120.0, 150.0, 108.0, 3.0, 14.0, 1.0, ["normal"] * 24, cm, 0.8, pu))
    bad = h.Or(on < 1 - pu, off < 1 - pu)
    edge = h.Or(h.And(on - 1 + pu < 1e-9, on - 1 + pu > -1e-9), h.And(off - 1 + pu < 1e-9, off - 1 + pu > -1e-9))
    if isinstance(ex, ValueError):
        h.ok(h.Or(bad, edge), "only sensors in the unusable zone are refused")
    else:
        h.ok(isinstance(ex, Reached), "usable sensors are accepted")
        h.ok(h.Or(h.Not(bad), edge), "sensors in the unusable zone are refused")


def h_shed(h):
    from ecoengine.objects.components.heating.Controls import Controls
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    daily = h.real("daily", 10, 9000)
    cm = {"normal": Controls(0.5, 120.0, 0.3, 140.0, 150.0), "shed": Controls(0.8, 120.0, 0.6, 140.0, 150.0)}
    b = bldg(daily, 50.0, "peak")
    s = MultiPassRTPSystem([], None, 120.0, 150.0, 108.0, 3.0)
    h.ok(isinstance(raises(lambda: s.size(b, control_map=cm)), ValueError), "load-shift sizing is refused")
    h.ok(isinstance(raises(lambda: MultiPassRTPSystem.from_size(b, 120.0, 150.0, 108.0, 3.0, control_schedule=["normal"] * 24, control_map=cm)), ValueError), "load-shift sizing is refused")
    h.ok(isinstance(raises(s.get_minimum_capacity_kbtuh), Exception), "nothing sized")
    h.eq(b.daily_dhw_use_supplyT_gal, daily, "building unchanged")


def h_boost(h, at, iters, pu, busy, run=14.0, defrost=0.9):
    """Capacity boost over arbitrary trial-day histories: the simulated steps are given, the sizing around them is real."""
    from ecoengine.objects.components.heating.Controls import Controls
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem as MP
    supply, storage, inlet, ret, flow, slope, daily, on = 120.0, 150.0, 44.0, 108.0, 3.0, 0.8, 1200.0, 0.5
    cm = {"normal": Controls(on, 120.0, 0.4, 140.0, storage)}
    days = 1
    hist = [{i: (h.flag(f"on{r}_{i}"), h.real(f"use{r}_{i}", -5, 5), h.real(f"top{r}_{i}", 60, 135)) for i in at} for r in range(iters)]
    caps, starts = [], []

    class S(MP):
        rnd = -1

        def simulate_step(self, building, timestep_interval, interval_min=1, mode="normal"):
            if timestep_interval == 0:
                self.rnd += 1
                caps.append(self.water_heaters[0].performance_map.get_capacity_kbtuh(35.0, storage))
                starts.append(self.storage_tank)
                f = SlugOverlayTank(self.storage_tank.total_volume_gal, inlet, storage, supply, pu, slope)
                f.initialize(storage, inlet, 1 - on)
                for x in (0.3, 0.5, 0.52, 0.6, 1.0):
                    h.eq(self.storage_tank.get_temperature_at_fraction(x), f.get_temperature_at_fraction(x), "each trial starts with the tank at its ON trigger", 1e-4)
            o, u, t = hist[self.rnd].get(timestep_interval, (busy, 50.0, 140.0))
            return dict(demand_supplyT_gal=1.0, usable_volume_supplyT_gal=u, heater_output_kbtuh=80.0 if o else 0.0, heater_power_in_kw=None, oat_f=35.0,
                        inlet_water_temp_f=inlet, tank_temps_f=[50.0, 60.0, 70.0, 80.0, 90.0, t], mode="normal", delivery_temp_f=supply)
    s = S.from_size(bldg(daily, inlet, "peak"), supply, storage, ret, flow, run, defrost, ["normal"] * 24, cm, slope, pu,
                    capacity_boost_trial_days=days, capacity_boost_iterations=iters)
    cap = need_cap(daily, inlet, supply, ret, flow, run, defrost)
    V = s.get_minimum_storage_storageT_gal()
    done = 0
    for r in range(iters):
        done += 1
        h.eq(caps[r], cap, "each trial runs with the capacity found so far", 1e-3)
        low, span, since, hot = supply, 0, 0, False
        for i in range(1440 * days):
            o, u, t = hist[r].get(i, (busy, 50.0, 140.0))
            if o and not hot:
                since = i
            hot = o
            if i in hist[r] and u <= 0 and t < low:
                low, span = t, i - since
        if span <= 0:
            break
        cap = cap + V * pu * RHO_CP * (supply - low) / 1000 / (span / 60)
    h.ok(len(caps) == done, "trials stop at the first without a shortfall")
    h.eq(s.get_minimum_capacity_kbtuh(), cap, "capacity makes up the worst shortfall in the minutes the heater had", 1e-3)
    h.ok(len(s.water_heaters) == 1, "one heater")
    h.eq(s.water_heaters[0].performance_map.get_capacity_kbtuh(35.0, storage), cap, "the built heater has the boosted capacity", 1e-3)
    h.eq(s.storage_tank.total_volume_gal, V, "boosting leaves the tank alone")


def h_curve(h, run, step, defrost, fail=None):
    """The curve around arbitrary sized points."""
    import inspect
    from ecoengine.objects.components.heating.Controls import Controls
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    from ecoengine.objects.dhwsystems.rtp_systems import MultiPassRTPSystem as mod
    MP = mod.MultiPassRTPSystem
    supply, storage, inlet, ret, flow, slope, daily = 120.0, 150.0, 55.0, 108.0, 3.0, 0.9, 1200.0
    cm = {"normal": Controls(0.5, 120.0, 0.4, 140.0, storage)}
    b = bldg(daily, inlet, "heavy")
    s = MP([], None, supply, storage, ret, flow, max_daily_run_hr=run, defrost_factor=defrost)
    s.size(b, control_map=cm, strat_slope=slope)
    cap, vol = s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal()
    s.storage_tank = SlugOverlayTank(vol, inlet, storage, supply, 0.85, slope)
    sc = ["normal"] * 24
    s.water_heaters = [WaterHeater.from_nominal_capacity(cap, sc, cm)]
    num = cap * run * defrost
    asked, given = [], []
    real = MP.__dict__["from_size"]
    sig = inspect.signature(real.__func__)

    def stand_in(*a, **k):
        v = sig.bind(MP, *a, **k)
        v.apply_defaults()
        asked.append(v.arguments)
        if fail is not None and len(asked) == fail:
            raise ValueError("cannot be sized")
        p = MP([], None, supply, storage, ret, flow, max_daily_run_hr=v.arguments["max_daily_run_hr"], defrost_factor=defrost)
        i = len(given)
        p._minimum_capacity_kbtuh = h.real(f"cap{i}", 0.9 * cap, 2.5 * cap)
        p._minimum_storage_storageT_gal = h.real(f"vol{i}", 1, 5000)
        given.append((p._minimum_capacity_kbtuh, p._minimum_storage_storageT_gal))
        return p
    MP.from_size = staticmethod(stand_in)
    try:
        c = s.get_sizing_curve(b, step=step)
    finally:
        MP.from_size = real
    hh, cc, vv, r = c["heat_hours"], c["capacity_kbtuh"], c["storage_storageT_gal"], c["recommended_index"]
    h.ok(len(hh) == len(cc) == len(vv) and 0 <= r < len(hh), "one capacity and storage per point")
    h.eq(cc[r], cap, "the recommended point has the sized capacity")
    h.eq(vv[r], vol, "the recommended point has the sized storage")
    want = [x for x in (run - step * i for i in range(1, 100)) if x >= 9 - 1e-9]
    if fail is not None:
        want = want[:fail]
    h.ok(len(asked) == len(want), "one sizing per step down to nine hours, stopping where sizing fails")
    for a, w in zip(asked, want):
        h.eq(a["max_daily_run_hr"], w, "points step down in run hours", 1e-9)
        h.ok((a["supply_temp_f"], a["storage_temp_f"], a["return_temp_f"], a["return_flow_gpm"], a["strat_slope"], a["percent_useable"]) ==
             (supply, storage, ret, flow, slope, 0.85), "points are sized like the system")
        h.eq(a["defrost_factor"], defrost, "points are sized with the system's defrost factor")
        h.ok(a["building"] is b and a["control_map"] is cm and list(a["control_schedule"]) == sc, "points are sized for the same building and controls")
    pts = [(cap, vol)] + given
    keep = []
    for p, q in pts:
        t = num / (p * defrost)
        fl = h.floor(t * 10 + 0.5)
        if t * 10 + 0.5 - fl < 1e-6 or t * 10 + 0.5 - fl > 1 - 1e-6:
            return                          # a rounding tie
        if keep and not (fl < keep[-1][0]):
            continue
        keep.append((fl, p, q))
    h.ok(len(keep) == len(hh), "every point that needs fewer hours than those before it is on the curve")
    for i, (fl, p, q) in enumerate(keep):
        h.eq(hh[i] * 10, fl, "hours of a point follow from its capacity", 1e-4)
        h.eq(cc[i], p, "capacity of a point")
        h.eq(vv[i], q, "storage of a point")
    h.eq(s.get_minimum_capacity_kbtuh(), cap, "the curve leaves the sized capacity alone")
    h.eq(s.get_minimum_storage_storageT_gal(), vol, "the curve leaves the sized storage alone")
    h.eq(s.max_daily_run_hr, run, "the curve leaves the run hours alone")


HARNESSES = [
    dict(name="size", fn=h_size,
         quick=[dict(shape="peak", daily=1200.0, flow=3.0, vary=dict(defrost=[0.9, 0.901])), dict(shape="heavy", daily=3000.0, flow=5.0, vary=dict(run=[13.99, 14.0]), inlet=60.0),
                dict(shape="late", daily=800.0, flow=1.0, vary=dict(run=[12.0, 12.01]), extra=[0.3, 112.0], on=0.45, storage=145.0, how="from_size"),
                dict(shape="two", daily=2000.0, flow=8.0, vary=dict(defrost=[0.999, 1.0]), extra=[0.7, 118.0], ret=112.0, slope=1.1, how="from_size"),
                dict(shape="flat", daily=600.0, flow=2.0, vary=dict(defrost=[0.8, 0.801]), supply=125.0, run=16.0),
                dict(shape="peak", daily=300.0, flow=6.0, vary=dict(run=[10.0, 10.01]), on=0.3, on_t=121.0, slope=0.6, how="from_size"),
                dict(shape="h22", daily=1600.0, flow=12.0, vary=dict(run=[15.0, 15.005]), ret=114.0, supply=122.0, storage=140.0, inlet=42.0, on=0.35, slope=0.9, how="from_size"),
                dict(shape="alt", daily=5000.0, flow=0.3, vary=dict(defrost=[0.7, 0.7005]), ret=95.0, storage=160.0, on=0.6, on_t=115.0, slope=1.4, how="from_size"),
                dict(shape="zero", daily=900.0, flow=4.0, vary=dict(run=[18.0, 18.005]), ret=105.0, on=0.2, on_t=124.0, slope=0.5)],
         thorough=[dict(shape=sh, daily=d, flow=f, vary=v, how="from_size") for sh in SHAPES for d, f in ((1000.0, 2.0), (4000.0, 12.0))
                   for v in (dict(run=[13.9, 14.0]), dict(defrost=[0.85, 0.855]))],
         opts=dict(time_s=60, fork_minmax=True), topts=dict(time_s=300)),
    dict(name="hot", fn=h_hot, quick=[dict(vary=v) for v in (["on"], ["on_t"], ["slope"], ["supply"], ["storage"], ["on", "on_t"], ["on_t", "supply"], ["slope", "on"])],
         thorough=[dict(vary=v) for v in (["on", "on_t", "slope"], ["on", "on_t", "supply", "storage"])], opts=dict(time_s=60, fork_minmax=True)),
    dict(name="zone", fn=h_zone, quick=[{}], opts=dict(time_s=30)),
    dict(name="shed", fn=h_shed, quick=[{}], opts=dict(time_s=30)),
    dict(name="boost", fn=h_boost, quick=[dict(at=[700, 701], iters=2, pu=0.9, busy=False), dict(at=[0, 1, 1439], iters=1, pu=1.0, busy=False), dict(at=[5, 6, 900], iters=1, pu=0.8, busy=True)],
         thorough=[dict(at=[1, 2, 3, 4], iters=1, pu=0.9, busy=b) for b in (True, False)] + [dict(at=[10, 11], iters=3, pu=0.9, busy=False)], opts=dict(time_s=60), topts=dict(time_s=400)),
    dict(name="curve", fn=h_curve, quick=[dict(run=10.0, step=0.5, defrost=0.9), dict(run=10.5, step=0.4, defrost=1.0, fail=2), dict(run=11.0, step=0.75, defrost=0.8), dict(run=9.4, step=0.5, defrost=1.0)], opts=dict(time_s=60, fork_minmax=True)),
]
