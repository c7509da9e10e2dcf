"""Load-shift sizing: shed block, load-up, and the larger of the two requirements."""
from props.common import RHO_CP, raises
from props.c01 import reserve_needed

PEAK = [0.02] * 6 + [0.08, 0.10, 0.07] + [0.03] * 8 + [0.07, 0.09, 0.06] + [0.04] * 4
PEAK = [x / sum(PEAK) for x in PEAK]

SCHED = {
    "evening": "NNNNNNNNNNNNNLLLSSSSNNNN",     # load-up before an evening shed
    "nolu": "NNNNNNNNNNNNNNNNSSSSSNNN",        # no load-up
    "two": "NNNNLLSSNNNNNNNNSSSSNNNN",         # two blocks: the first one counts
    "gap": "NNNLNNSSSNNNNNNNNNNNNNNN",         # load-up not adjacent to the shed
    "late": "NNNNNNNNNNNNNNNNNNLSSSSS",        # shed up to midnight
    "early": "SSSNNNNNNNNNNNNNNNNNNNNN",       # shed from midnight
    "split": "NNLLSSNNSSNNNNNNNNNLSSSN",       # several short ones
    "long": "NNLLLLSSSSSSSSSSSNNNNNNN",        # long shed, caps the run hours
}
NAME = {"N": "normal", "L": "loadUp", "S": "shed"}


def sched(key):
    return [NAME[c] for c in SCHED[key]]


def any_sched(h, lead):
    """Up to two shed blocks of any small length, any small gap before and between, with and without load-up."""
    t = "N" * lead + "L" * h.pick("load-up hours", [0, 1, 2]) + "N" * h.pick("hours between load-up and shed", [0, 1]) + "S" * h.pick("shed hours", [1, 3])
    t += h.pick("between sheds", ["N", "L", "NN", "LN"])
    t += "S" * h.pick("second shed", [0, 2])
    return [NAME[c] for c in (t + "N" * 24)[:24]]


def content(h, supply, storage, inlet, f, t, slope):
    """Supply-temperature gallons per gallon of tank when the sensor at height f reads t."""
    hs = h.min(1, f + (storage - t) / slope / 100)
    hp = h.max(f, f + (supply - t) / slope / 100)
    t0 = t + (hp - f) * 100 * slope
    t1 = t + (hs - f) * 100 * slope
    if hp >= 1:
        return 0
    return ((hs - hp) * ((t0 + t1) / 2 - inlet) + (1 - hs) * (storage - inlet)) / (supply - inlet)


def hot_fract(h, supply, storage, f, t, slope):
    """Share of the tank above supply temperature (half the transition), as the load-up rate uses it."""
    hs = h.min(1, f + (storage - t) / slope / 100)
    hp = h.max(f, f + (supply - t) / slope / 100)
    return (1 - hs) + (hs - hp) / 2


def mk(kind, b, supply, storage, run, defrost, sc, cm, slope, fract, ret=112.0, flow=2.5):
    if kind == "primary":
        from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
        return DHWSystem.from_size(b, supply, storage, run, defrost, sc, cm, slope, fract)
    if kind == "parallel":
        from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
        return ParallelLoopSystem.from_size(b, supply, storage, ret, flow, 115.0, 123.0, max_daily_run_hr=run, defrost_factor=defrost,
                                            control_schedule=sc, control_map=cm, strat_slope=slope, load_shift_fract_total_vol=fract)
    if kind == "sprtp":
        from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
        return SinglePassRTPSystem.from_size(b, supply, storage, ret, flow, run, defrost, sc, cm, slope, fract)
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    return SwingSystem.from_size(b, supply, storage, ret, flow, 1.5, run, defrost, sc, cm, slope, fract)


def blocks(sc):
    i = sc.index("shed")
    j = i
    while j < 24 and sc[j] == "shed":
        j += 1
    k = i
    while k > 0 and sc[k - 1] == "loadUp":
        k -= 1
    return list(range(i, j)), list(range(k, i))


def h_size(h, kind, key, vary, slope=2.8, run=16.0, avg="free", no_lu=False, heavy=False):
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.components.heating.Controls import Controls
    sc = sched(key) if key in SCHED else any_sched(h, int(key))
    if no_lu:
        sc = ["normal" if x == "loadUp" else x for x in sc]
    supply = h.real("supply", 105, 135) if "supply" in vary else 120.0
    storage = h.real("storage", 138, 180) if "storage" in vary else 150.0
    slope = h.real("slope", 0.8, 5) if "slope" in vary else slope
    run = h.real("run", 11, 24) if "run" in vary else run
    ret, flow = h.real("ret", 80, 119) if "ret" in vary else 112.0, h.real("flow", 0.2, 20) if "flow" in vary else 2.5
    inlet = h.real("inlet", 35, 70) if "inlet" in vary else 50.0
    daily = h.real("daily", 50, 9000) if "daily" in vary else 1200.0
    fract = h.real("fract", 0.5, 1) if "fract" in vary else 0.9
    defrost = h.real("defrost", 0.5, 1) if "defrost" in vary else 0.95
    N = (h.real("on", 0.3, 0.6) if "on" in vary else 0.45, h.real("on_t", 100, 135) if "on_t" in vary else 118.0, 0.25, h.real("off_t", 120, 150) if "off_t" in vary else 140.0)
    L = (h.real("lu_on", 0.15, 0.4) if "lu_on" in vary else 0.3, h.real("lu_t", 100, 135) if "lu_t" in vary else 116.0, h.real("lu_off", 0.05, 0.3) if "lu_off" in vary else 0.15,
         h.real("lu_off_t", 110, 150) if "lu_off_t" in vary else 138.0)
    S = (h.real("shed_on", 0.6, 0.92) if "shed_on" in vary else 0.75, h.real("shed_t", 105, 135) if "shed_t" in vary else 119.0, 0.5, 140.0)
    if avg == "free":
        a, c = h.real("a", 0, 0.1), h.real("c", 0, 0.1)
        used = [i for i in range(24) if sc[i] == "shed"]
        lus = [i for i in range(24) if sc[i] == "loadUp"]
        rest = 24 - len(used) - len(lus)
        r = (1 - a * len(used) - c * len(lus)) / rest
        h.assume(r >= 0)
        shape = [a if i in used else c if i in lus else r for i in range(24)]
    else:
        shape = [x / 300 for x in ([(7 * i) % 24 + 1 for i in range(24)])]
    peak = PEAK if not heavy else [0.3 if i == 7 else 0.7 / 23 for i in range(24)]
    b = Building(None, daily, peak, shape, design_inlet_water_temp_f=inlet, design_oat_f=35.0)
    cm = {"normal": Controls(*N, storage), "shed": Controls(*S, storage)}
    if not no_lu:
        cm["loadUp"] = Controls(*L, storage)
    else:
        L = N
    band = content(h, supply, storage, inlet, L[2], L[3], slope) - content(h, supply, storage, inlet, S[0], S[1], slope)
    h.assume(band > 0.02)
    s = mk(kind, b, supply, storage, run, defrost, sc, cm, slope, fract, ret, flow)
    cap, vol = s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal()

    nshed = sc.count("shed")
    hrs = h.min(run, 24.0 - nshed)
    rec = flow * 60 * RHO_CP * (supply - ret) / 1000
    extra = rec * 1000 / (RHO_CP * (supply - inlet)) * 24 if kind == "sprtp" else 0
    heat = RHO_CP * (supply - inlet) / 1000 / defrost
    rec_cap = rec * 24 / hrs / defrost if kind == "sprtp" else 0
    cap_n = daily / hrs * heat + rec_cap
    vol_n = reserve_needed(h, daily / hrs, [daily * x for x in peak]) / content(h, supply, storage, inlet, N[0], N[1], slope)
    shed_h, lu_h = blocks(sc)
    D = daily + extra
    dem = [D * x for x in shape]
    vs = h.total(dem[i] for i in shed_h) * fract
    gen = D / hrs
    if lu_h:
        fl, fn, fs = (hot_fract(h, supply, storage, c[0], c[1], slope) for c in (L, N, S))
        if fl - fs > 0:
            g2 = (vs * (fl - fn) / (fl - fs) + h.total(dem[i] for i in lu_h)) / len(lu_h)
            if g2 > gen:
                gen = g2
    cap_l = gen * heat + rec_cap
    short = worst = 0
    i = shed_h[-1] + 1
    for k in range(48 - i):
        hr = (i + k) % 24
        short = short + dem[hr] - (0 if sc[hr] == "shed" else gen)
        if short > worst:
            worst = short
    vol_l = (worst * fract + vs) / band
    h.eq(cap, h.max(cap_n, cap_l), "capacity is the larger of normal and load-shift needs", 1e-3)
    h.eq(vol, h.max(vol_n, vol_l), "storage is the larger of normal and load-shift needs", 1e-2)
    h.eq(s.storage_tank.total_volume_gal, vol, "the built tank has the sized volume", 1e-3)
    h.eq(s.water_heaters[0].get_capacity_kbtuh(40.0, storage, inlet), cap, "the built heater has the sized capacity", 1e-3)
    h.eq(s.max_daily_run_hr, run, "sizing keeps the allowed hours")
    h.eq(b.daily_dhw_use_supplyT_gal, daily, "sizing keeps the building's daily use", 1e-6)


def h_holds(h, key, free, kind="primary"):
    """What the sized tank must deliver: from load-up OFF to shed ON it covers the shed block without heating."""
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.components.heating.Controls import Controls
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    sc = sched(key)
    supply, storage, inlet, slope = 120.0, 150.0, 50.0, 2.8
    shed_on = h.real("shed_on", 0.6, 0.9) if "shed" in free else 0.75
    lu_off = h.real("lu_off", 0.05, 0.3) if "lu" in free else 0.15
    a = h.real("a", 0.001, 0.1)
    used = [i for i in range(24) if sc[i] == "shed"]
    shape = [a if i in used else (1 - a * len(used)) / (24 - len(used)) for i in range(24)]
    b = Building(None, 1000.0, PEAK, shape, design_inlet_water_temp_f=inlet, design_oat_f=35.0)
    cm = {"normal": Controls(0.45, 118.0, 0.25, 140.0, storage), "shed": Controls(shed_on, 119.0, 0.5, 140.0, storage),
          "loadUp": Controls(0.3, 116.0, lu_off, 138.0, storage)}
    s = mk(kind, b, supply, storage, 16.0, 1.0, sc, cm, slope, 1.0)
    V = s.get_minimum_storage_storageT_gal()
    shed_h, _ = blocks(sc)
    need = 1000.0 * a * len(shed_h) * (supply - inlet)
    held = []
    for f, t in ((lu_off, 138.0), (shed_on, 119.0)):
        tank = StratifiedTank(V, slope)
        tank.initialize(storage, inlet, 1 - f + (t - inlet) / (slope * 100))
        g = (1 - h.max(f, f + (supply - t) / slope / 100)) * V
        held.append(g * (tank.get_average_draw_temp_f(g) - inlet))
    h.ge((held[0] - held[1]) / 1000, need / 1000, "between load-up OFF and shed ON the tank holds the shed block's demand", 1e-4)


def h_norm(h):
    """Without a shed mode, load-shift inputs change nothing; a shed mode needs a schedule to matter."""
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.components.heating.Controls import Controls
    fract = h.real("fract", 0.2, 1)
    daily = h.real("daily", 50, 5000)
    b = Building(None, daily, PEAK, PEAK, design_inlet_water_temp_f=50.0, design_oat_f=35.0)
    n = Controls(0.45, 118.0, 0.25, 140.0, 150.0)
    base = mk("primary", b, 120.0, 150.0, 16.0, 1.0, ["normal"] * 24, {"normal": n}, 2.8, 1.0)
    for kind in ("primary", "sprtp"):
        x = mk(kind, b, 120.0, 150.0, 16.0, 1.0, ["normal"] * 24, {"normal": n}, 2.8, fract)
        y = mk(kind, b, 120.0, 150.0, 16.0, 1.0, sched("evening"), {"normal": n, "loadUp": n}, 2.8, fract)
        if kind == "primary":
            h.eq(x.get_minimum_capacity_kbtuh(), base.get_minimum_capacity_kbtuh(), "no shed mode: normal capacity", 1e-4)
        h.eq(x.get_minimum_storage_storageT_gal(), base.get_minimum_storage_storageT_gal(), "no shed mode: normal storage", 1e-3)
        h.eq(y.get_minimum_storage_storageT_gal(), x.get_minimum_storage_storageT_gal(), "no shed mode: normal storage", 1e-3)
        h.eq(y.get_minimum_capacity_kbtuh(), x.get_minimum_capacity_kbtuh(), "no shed mode: normal capacity", 1e-4)


def h_more(h, kind, key):
    """Covering more days never asks for less; load shifting never asks for less than normal operation."""
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.components.heating.Controls import Controls
    f1, f2 = h.real("f1", 0.3, 1), h.real("f2", 0.3, 1)
    h.assume(f1 <= f2)
    sc = sched(key)
    cm = {"normal": Controls(0.45, 118.0, 0.25, 140.0, 150.0), "shed": Controls(0.8, 119.0, 0.5, 140.0, 150.0),
          "loadUp": Controls(0.3, 116.0, 0.15, 138.0, 150.0)}
    shape = [x / 300 for x in ([(7 * i) % 24 + 1 for i in range(24)])]
    mkb = lambda: Building(None, 1000.0, PEAK, shape, design_inlet_water_temp_f=50.0, design_oat_f=35.0)
    a = mk(kind, mkb(), 120.0, 150.0, 14.0, 1.0, sc, cm, 2.8, f1)
    b = mk(kind, mkb(), 120.0, 150.0, 14.0, 1.0, sc, cm, 2.8, f2)
    n = mk(kind, mkb(), 120.0, 150.0, 14.0, 1.0, ["normal"] * 24, {"normal": cm["normal"]}, 2.8, 1.0)
    for g in ("get_minimum_capacity_kbtuh", "get_minimum_storage_storageT_gal"):
        h.le(getattr(a, g)(), getattr(b, g)(), "covering more days never needs less", 1e-3)
        h.ge(getattr(a, g)(), getattr(n, g)(), "load shifting never needs less than normal operation", 1e-3)


def h_dist(h):
    """Coverage percentile to demand fraction: the normal distribution's quantile, at most one."""
    from statistics import NormalDist
    from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
    pct = h.pick("pct", [0.25, 0.5, 0.8, 0.95, 0.99, 1.0])
    fr = 1.0 if pct >= 1 else min(1.0, NormalDist(0.7052988591269841, 0.08236427664525116).inv_cdf(pct))
    n = h.real("units", 10, 400)
    shape = [x / 300 for x in ([(7 * i) % 24 + 1 for i in range(24)])]
    ls = [0 if c == "S" else 1 for c in SCHED["evening"]]
    sch = h.pick("schematic", ["primary_no_recirc", "single_pass_rtp", "parallel_loop"])
    e = EcosizerEngine("multi_family", n, dict(design_inlet_water_temp_f=50.0, design_oat_f=35.0), 120.0, 150.0, sch, gpdpp=20.0,
                       custom_peak_load_shape=PEAK, custom_avg_load_shape=shape, aquastat_fract=0.45, off_sensor_fract=0.25,
                       load_shift_schedule=ls, load_up_hours=3, shed_aquastat_fract=0.8, load_up_aquastat_fract=0.3,
                       load_shift_percent=pct, return_temp_f=112.0, return_flow_gpm=2.5, tm_on_temp_f=115.0, tm_off_temp_f=123.0, tm_safety_factor=1.2)
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.components.heating.Controls import Controls
    b = Building(None, n * 20.0, PEAK, shape, design_inlet_water_temp_f=50.0, design_oat_f=35.0)
    cm = {"normal": Controls(0.45, 120.0, 0.25, 150.0, 150.0), "shed": Controls(0.8, 120.0, 0.25, 150.0, 150.0),
          "loadUp": Controls(0.3, 120.0, 0.25, 150.0, 150.0)}
    kind = {"primary_no_recirc": "primary", "single_pass_rtp": "sprtp", "parallel_loop": "parallel"}[sch]
    s = mk(kind, b, 120.0, 150.0, 16.0, 1.0, sched("evening"), cm, 1.7 if kind == "sprtp" else 2.8, fr)
    r = e.get_sizing_results()
    h.eq(r["min_capacity_kbtuh"], s.get_minimum_capacity_kbtuh(), "engine sizes for the requested share of days (capacity)", 1e-3)
    h.eq(r["min_storage_storageT_gal"], s.get_minimum_storage_storageT_gal(), "engine sizes for the requested share of days (storage)", 1e-2)


ALL = list(SCHED)
HARNESSES = [
    dict(name="size", fn=h_size,
         quick=[dict(kind="primary", key=k, vary=[]) for k in ALL] +
               [dict(kind="primary", key="evening", vary=v, avg="fixed") for v in (["fract", "daily"], ["shed_on"], ["lu_off"], ["lu_off_t"], ["shed_t"], ["lu_on"], ["on"], ["defrost", "daily"])] +
               [dict(kind="sprtp", key="evening", vary=["fract"], slope=1.7), dict(kind="sprtp", key="late", vary=["fract"], avg="fixed"),
                dict(kind="sprtp", key="two", vary=["daily", "defrost"], avg="fixed"), dict(kind="parallel", key="two", vary=[]),
                dict(kind="primary", key="evening", vary=["fract"], no_lu=True), dict(kind="primary", key="two", vary=["daily"], avg="fixed", heavy=True),
                dict(kind="primary", key="late", vary=["inlet"], avg="fixed", run=24.0), dict(kind="primary", key="long", vary=["fract"], avg="fixed", run=20.0)] +
               [dict(kind="primary", key="evening", vary=v, avg="fixed", slope=2.3) for v in (["supply"], ["storage"], ["slope"], ["run"], ["on_t"], ["off_t"], ["lu_t"])] +
               [dict(kind="sprtp", key="split", vary=v, avg="fixed", slope=1.9) for v in (["ret"], ["flow"], ["supply"], ["run"])] +
               [dict(kind="primary", key=k, vary=["daily"], avg="fixed") for k in ("0", "6", "13", "19")],
         thorough=[dict(kind=k, key=key, vary=v) for k in ("primary", "sprtp") for key in ALL for v in ([], ["fract"])] +
                  [dict(kind=k, key=key, vary=v, avg="fixed") for k in ("primary", "sprtp") for key in ("evening", "split")
                   for v in (["fract", "daily"], ["shed_on", "lu_off"], ["lu_off_t"], ["shed_t"], ["lu_on", "on"], ["defrost", "daily"], ["inlet"])] +
                  [dict(kind=k, key=str(i), vary=["fract"], avg="fixed") for k in ("primary", "sprtp") for i in (0, 1, 6, 13, 18, 20)],
         opts=dict(time_s=60, claim_ms=15000, fork_minmax=True)),
    dict(name="holds", fn=h_holds, quick=[dict(key=k, free="") for k in ("evening", "nolu", "late", "early")] + [dict(key="two", free="", kind="parallel")],
         thorough=[dict(key=k, free=f) for k in ("evening", "nolu", "late", "early") for f in ("shed", "lu")],
         opts=dict(time_s=30, claim_ms=15000, fork_minmax=True), topts=dict(time_s=120)),
    dict(name="norm", fn=h_norm, quick=[{}], opts=dict(time_s=30)),
    dict(name="more", fn=h_more, quick=[dict(kind=k, key=key) for k in ("primary", "sprtp") for key in ("evening", "split", "nolu")] + [dict(kind="swing", key="evening")],
         opts=dict(time_s=60, fork_minmax=True)),
    dict(name="dist", fn=h_dist, quick=[{}], opts=dict(time_s=60, fork_minmax=True)),
]
