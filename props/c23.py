"""The engine builds the plant it was asked for."""
from props.common import raises
from props.c19 import PEAK

AVG = [x / 300 for x in ([(7 * i) % 24 + 1 for i in range(24)])]
ALIAS = dict(primary=("primary_no_recirc", "singlepass_norecirc"), parallel=("parallel_loop", "paralleltank"), swing=("swing_tank", "swingtank"),
             sprtp=("single_pass_rtp", "sprtp"), mprtp=("multi_pass_rtp", "mprtp"), instant=("instant_wh",))


def cls_of(kind):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    return dict(primary=DHWSystem, parallel=ParallelLoopSystem, swing=SwingSystem, sprtp=SinglePassRTPSystem, mprtp=MultiPassRTPSystem, instant=InstantWHSystem)[kind]


def engine(schematic, magnitude=60, **kw):
    from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
    a = dict(building_type="multi_family", magnitude=magnitude, zip_code_or_climate_zone=dict(design_inlet_water_temp_f=52.0, design_oat_f=35.0),
             supply_temp_f=121.0, storage_temp_f=149.0, schematic=schematic, gpdpp=20.0, custom_peak_load_shape=list(PEAK), custom_avg_load_shape=list(AVG))
    a.update(kw)
    return EcosizerEngine(**a)


def h_controls(h, free, others, trig, sparse):
    """Schedule and controls of every hour, for every run/shed pattern of the free hours."""
    sched = [h.int(f"run{i}", 0, 1) if i in free else others for i in range(24)]
    lu = h.int("load_up", 0, 4)
    on, off = h.real("on", 0.2, 0.7), h.real("off", 0.0, 0.6)
    kw = dict(aquastat_fract=on, off_sensor_fract=off)
    exp_on_t, exp_off_t = 121.0, 149.0
    if trig:
        exp_on_t, exp_off_t = h.real("on_t", 100, 121), h.real("off_t", 122, 149)
        kw.update(on_trigger_t_f=exp_on_t, off_trigger_t_f=exp_off_t)
    son, soff, lon, loff, lofft = on, off, on, off, exp_off_t
    if not sparse:
        son, soff, lon, loff, lofft = h.real("shed_on", 0.4, 1), h.real("shed_off", 0, 0.9), h.real("lu_on", 0, 0.5), h.real("lu_off", 0, 0.4), h.real("lu_off_t", 125, 149)
        kw.update(shed_aquastat_fract=son, shed_off_sensor_fract=soff, load_up_aquastat_fract=lon, load_up_off_sensor_fract=loff, load_up_off_trigger_t_f=lofft)
    e = engine("primary_no_recirc", load_shift_schedule=sched, load_up_hours=lu, storage_volume_storageT_gal=500.0, heating_capacity_kbtuh=90.0, **kw)
    w = e._dhw_system.water_heaters[0]
    shed = [bool(x == 0) for x in sched]
    first = shed.index(True) if True in shed else None
    for i in range(24):
        mode = "shed" if shed[i] else "loadUp" if first is not None and bool(h.And(lu > 0, first - lu <= i, i < first)) else "normal"
        h.ok(w.control_schedule[i] == mode, "shed hours shed, the hours before the first shed window load up, the rest is normal")
        c = w.get_controls_for_hour(i)
        h.ok(c is not None, "every hour has controls")
        a, t, b, u = dict(normal=(on, exp_on_t, off, exp_off_t), shed=(son, exp_on_t, soff, exp_off_t), loadUp=(lon, exp_on_t, loff, lofft))[mode]
        h.eq(c.on_sensor_fract, a, "ON sensor height of the mode")
        h.eq(c.on_trigger_t_f, t, "ON temperature")
        h.eq(c.off_sensor_fract, b, "OFF sensor height of the mode")
        h.eq(c.off_trigger_t_f, u, "OFF temperature of the mode")
        h.eq(c.outlet_temp_f, 149.0, "heaters make storage-temperature water")


def h_presized(h, kind, alias, num):
    cap, vol = h.real("cap", 10, 2000), h.real("vol", 20, 9000)
    tmv, tmc = h.real("tmv", 20, 900), h.real("tmc", 5, 300)
    sup, sto = h.real("supply", 105, 130), h.real("storage", 131, 170)
    run, dfr = h.real("run", 8, 24), h.real("defrost", 0.5, 1)
    ret, flow = h.real("ret", 80, 104), h.real("flow", 0.2, 20)
    ton, toff = h.real("tm_on", 105, 125), h.real("tm_off", 126, 150)
    off_hr, sf = h.real("off_hr", 0.55, 1), h.real("sf", 1.1, 2)
    ntm = h.pick("ntm", [1, 2, 3]) if kind in ("parallel", "swing") else 1
    e = engine(ALIAS[kind][alias], supply_temp_f=sup, storage_temp_f=sto, num_heaters=num, heating_capacity_kbtuh=cap, storage_volume_storageT_gal=vol,
               max_daily_run_hr=run, defrost_factor=dfr, return_temp_f=ret, return_flow_gpm=flow, tm_storage_vol=tmv, tm_capacity_kbtuh=tmc,
               tm_on_temp_f=ton, tm_off_temp_f=toff, tm_off_time_hr=off_hr, tm_safety_factor=sf, num_tm_heaters=ntm)
    s = e._dhw_system
    h.ok(type(s) is cls_of(kind), "schematic")
    h.ok(len(s.water_heaters) == num, "as many heaters as asked for")
    for w in s.water_heaters:
        h.eq(w.performance_map.get_capacity_kbtuh(35.0, 140.0), cap / num, "heaters share the given capacity", 1e-4)
        h.ok(w.control_schedule == ["normal"] * 24, "no load shift unless asked for")
        c = w.get_controls_for_hour(7)
        h.eq(c.on_trigger_t_f, sup, "heaters turn on at supply temperature by default")
        h.eq(c.off_trigger_t_f, sto, "heaters turn off at storage temperature by default")
        h.eq(c.outlet_temp_f, sto, "heaters make storage-temperature water")
    h.eq(s.supply_temp_f, sup, "supply temperature")
    h.eq(s.storage_temp_f, sto, "storage temperature")
    h.eq(s.defrost_factor, dfr, "defrost factor")
    if kind == "instant":
        h.ok(s.storage_tank is None, "no tank")
        return
    h.eq(s.max_daily_run_hr, 14.0 if kind == "mprtp" else run, "run hours")
    h.eq(s.storage_tank.total_volume_gal, vol, "given volume")
    if kind == "mprtp":
        h.eq(s.storage_tank.get_temperature_at_fraction(0.5), 52.0, "a new tank holds cold water")
    h.eq(s.storage_tank.strat_slope, dict(sprtp=1.7, mprtp=0.8).get(kind, 2.8), "stratification of the schematic")
    if kind == "primary":
        return
    h.eq(s.return_temp_f, ret, "return temperature")
    h.eq(s.return_flow_gpm, flow, "return flow")
    if kind in ("parallel", "swing"):
        h.eq(s.tm_storage_tank.total_volume_gal, tmv, "given TM volume")
        n = ntm if kind == "parallel" else 1
        h.eq(s.tm_water_heater.performance_map.get_capacity_kbtuh(35.0, 130.0), tmc / n, "TM heaters share the given capacity", 1e-4)
        c = s.tm_water_heater.get_controls_for_hour(3)
        h.eq(c.on_trigger_t_f, ton if kind == "parallel" else sup, "TM heater turns on")
        h.eq(c.off_trigger_t_f, toff if kind == "parallel" else sup + 8, "TM heater turns off")
        h.eq(s.tm_safety_factor, sf, "TM safety factor")
        if kind == "parallel":
            h.ok(s.num_tm_heaters == ntm, "number of TM heaters")
            h.eq(s.tm_off_time_hr, off_hr, "TM off time")


def h_model(h, model, tm_model, num, kind, inlet=52.0):
    """Pre-sized with catalogue heaters."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    vol = h.real("vol", 20, 9000)
    e = engine(ALIAS[kind][0], num_heaters=num, hpwh_model=model, storage_volume_storageT_gal=vol, tm_model=tm_model, tm_storage_vol=120.0, tm_capacity_kbtuh=66.0, num_tm_heaters=2,
               return_temp_f=108.0, return_flow_gpm=3.0, heating_capacity_kbtuh=777.0, zip_code_or_climate_zone=dict(design_inlet_water_temp_f=inlet, design_oat_f=35.0))
    s = e._dhw_system
    ref = WaterHeater.from_model_name(model, ["normal"] * 24, None, design_inlet_temp_f=inlet)
    for oat in (20.0, 47.0, 80.0):
        tot = h.total(w.performance_map.get_capacity_kbtuh(oat, 149.0, 52.0) for w in s.water_heaters)
        h.eq(tot, ref.performance_map.get_capacity_kbtuh(oat, 149.0, 52.0) * num, "catalogue capacity of all units", 1e-4)
        kw = h.total(w.performance_map.get_power_in_kw(oat, 149.0, 52.0) for w in s.water_heaters)
        h.eq(kw, ref.performance_map.get_power_in_kw(oat, 149.0, 52.0) * num, "catalogue power of all units", 1e-4)
        tot = h.total(w.performance_map.get_capacity_kbtuh(oat, 149.0) for w in s.water_heaters)
        h.eq(tot, ref.performance_map.get_capacity_kbtuh(oat, 149.0) * num, "catalogue capacity at the design inlet temperature", 1e-4)
    h.eq(s.storage_tank.total_volume_gal, vol, "given volume")
    if kind == "parallel" and tm_model:
        t = WaterHeater.from_model_name(tm_model, ["normal"] * 24, None, design_inlet_temp_f=108.0, nominal_capacity_kbtuh=33.0)
        for oat in (-40.0, 47.0):
            h.eq(s.tm_water_heater.performance_map.get_capacity_kbtuh(oat, 129.0, 108.0), t.performance_map.get_capacity_kbtuh(oat, 129.0, 108.0), "TM catalogue capacity", 1e-4)
            h.eq(s.tm_water_heater.performance_map.get_capacity_kbtuh(oat, 129.0), t.performance_map.get_capacity_kbtuh(oat, 129.0), "TM catalogue capacity at the return temperature", 1e-4)
    if kind == "swing":
        h.eq(s.tm_water_heater.performance_map.get_capacity_kbtuh(47.0, 129.0), 66.0, "a swing tank's heater is one electric element")


def h_sized(h, kind, alias, vary, ls=False, ntm=1):
    """The engine's plant is the one its schematic's sizing gives."""
    from statistics import NormalDist
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.components.heating.Controls import Controls
    n = h.real("units", 5, 800) if "units" in vary else 60.0
    dfr = h.real("defrost", 0.5, 1) if "defrost" in vary else 0.85
    kw = dict(max_daily_run_hr=15.0, defrost_factor=dfr, aquastat_fract=0.42, off_sensor_fract=0.22, on_trigger_t_f=119.0, off_trigger_t_f=141.0,
              return_temp_f=109.0, return_flow_gpm=2.2, tm_on_temp_f=117.0, tm_off_temp_f=126.0, tm_off_time_hr=0.4, tm_safety_factor=1.3, num_tm_heaters=ntm)
    sc, fract = ["normal"] * 24, 1.0
    cm = {"normal": Controls(0.42, 119.0, 0.22, 141.0, 149.0)}
    if ls:
        kw.update(load_shift_schedule=[0 if 16 <= i < 20 else 1 for i in range(24)], load_up_hours=3, shed_aquastat_fract=0.82, load_up_aquastat_fract=0.3,
                  shed_off_sensor_fract=0.5, load_up_off_sensor_fract=0.12, load_up_off_trigger_t_f=139.0, load_shift_percent=0.8)
        sc[13:16], sc[16:20] = ["loadUp"] * 3, ["shed"] * 4
        cm["shed"] = Controls(0.82, 119.0, 0.5, 141.0, 149.0)
        cm["loadUp"] = Controls(0.3, 119.0, 0.12, 139.0, 149.0)
        fract = NormalDist(0.7052988591269841, 0.08236427664525116).inv_cdf(0.8)
    b = Building(None, n * 20.0, list(PEAK), list(AVG), design_inlet_water_temp_f=52.0, design_oat_f=35.0)
    a = dict(building=b, supply_temp_f=121.0, storage_temp_f=149.0, defrost_factor=dfr)
    if kind != "instant":
        a.update(max_daily_run_hr=15.0, control_schedule=sc, control_map=cm, load_shift_fract_total_vol=fract)
    if kind in ("parallel", "swing", "sprtp"):
        a.update(return_temp_f=109.0, return_flow_gpm=2.2)
    if kind in ("parallel", "swing"):
        a.update(tm_safety_factor=1.3)
    if kind == "parallel":
        a.update(tm_on_temp_f=117.0, tm_off_temp_f=126.0, tm_off_time_hr=0.4, num_tm_heaters=ntm)
    e = engine(ALIAS[kind][alias], n, **kw)
    d = cls_of(kind).from_size(**a)
    s, r = e._dhw_system, e.get_sizing_results()
    h.ok(type(s) is cls_of(kind), "schematic")
    h.eq(e.get_hw_magnitude(), n * 20.0, "daily use of the building", 1e-6)
    h.eq(r["min_capacity_kbtuh"], d.get_minimum_capacity_kbtuh(), "capacity is the schematic's sizing", 1e-4)
    h.eq(r["min_storage_storageT_gal"], d.get_minimum_storage_storageT_gal(), "storage is the schematic's sizing", 1e-3)
    if kind in ("parallel", "swing"):
        h.eq(r["min_tm_volume_gal"], d.get_minimum_tm_volume_gal(), "TM volume is the schematic's sizing", 1e-4)
        h.eq(r["min_tm_capacity_kbtuh"], d.get_minimum_tm_capacity_kbtuh(), "TM capacity is the schematic's sizing", 1e-4)
        h.eq(s.tm_water_heater.performance_map.get_capacity_kbtuh(35.0, 130.0) * ntm, r["min_tm_capacity_kbtuh"], "TM heaters share the capacity", 1e-4)
        if kind == "parallel":
            h.ok(s.num_tm_heaters == ntm, "number of TM heaters")
    else:
        h.ok("min_tm_volume_gal" not in r, "no TM results without TM equipment")
    if kind == "instant":
        return
    h.eq(s.storage_tank.total_volume_gal, r["min_storage_storageT_gal"], "tank of that size", 1e-6)
    h.eq(h.total(w.performance_map.get_capacity_kbtuh(35.0, 140.0) for w in s.water_heaters), r["min_capacity_kbtuh"], "heaters of that capacity", 1e-6)
    h.ok(s.water_heaters[0].control_schedule == sc, "schedule")
    h.eq(s.max_daily_run_hr, 15.0, "run hours")


OPT = ("on_trigger_t_f", "off_trigger_t_f", "shed_aquastat_fract", "shed_off_sensor_fract", "load_up_aquastat_fract", "load_up_off_sensor_fract", "load_up_off_trigger_t_f",
       "tm_on_temp_f", "tm_off_temp_f", "aquastat_fract", "off_sensor_fract")


def h_optional(h, kind, presized):
    """Each optional setting alone, or all but it: what is given holds, what is not follows its documented default."""
    which, only = h.pick("which", list(OPT)), h.flag("only")
    sup, sto = h.real("supply", 106, 124), h.real("storage", 146, 165)
    rng = dict(on_trigger_t_f=(100, 105), off_trigger_t_f=(130, 140), shed_aquastat_fract=(0.7, 0.9), shed_off_sensor_fract=(0.2, 0.3), load_up_aquastat_fract=(0.21, 0.3), load_up_off_sensor_fract=(0.01, 0.05),
               load_up_off_trigger_t_f=(141, 145), tm_on_temp_f=(100, 105), tm_off_temp_f=(133, 140), aquastat_fract=(0.4, 0.6), off_sensor_fract=(0.06, 0.19))
    if not presized:
        sup, sto = 121.0, 149.0
        rng = {k: (v[0], v[0]) for k, v in rng.items()}
    val = {k: h.real(k, *rng[k]) if presized else rng[k][0] for k in OPT if (k == which) == bool(only)}
    sched = [0 if 15 <= i < 18 else 1 for i in range(24)]
    pre = dict(storage_volume_storageT_gal=500.0, heating_capacity_kbtuh=90.0, tm_storage_vol=90.0, tm_capacity_kbtuh=40.0) if presized else {}
    e = engine(ALIAS[kind][0], supply_temp_f=sup, storage_temp_f=sto, load_shift_schedule=sched, load_up_hours=2, return_temp_f=99.0, return_flow_gpm=2.0, **pre, **val)
    on, off = val.get("aquastat_fract", 0.5), val.get("off_sensor_fract", 0.1)
    on_t, off_t = val.get("on_trigger_t_f", sup), val.get("off_trigger_t_f", sto)
    for w in e._dhw_system.water_heaters:
        h.ok(w.control_schedule == ["normal"] * 13 + ["loadUp"] * 2 + ["shed"] * 3 + ["normal"] * 6, "schedule")
        for hr, exp in ((3, (on, on_t, off, off_t)), (16, (val.get("shed_aquastat_fract", on), on_t, val.get("shed_off_sensor_fract", off), off_t)),
                        (14, (val.get("load_up_aquastat_fract", on), on_t, val.get("load_up_off_sensor_fract", off), val.get("load_up_off_trigger_t_f", off_t)))):
            c = w.get_controls_for_hour(hr)
            for a, b, n in zip((c.on_sensor_fract, c.on_trigger_t_f, c.off_sensor_fract, c.off_trigger_t_f, c.outlet_temp_f), exp + (sto,), ("ON height", "ON temperature", "OFF height", "OFF temperature", "outlet")):
                h.eq(a, b, n + " of the mode, given or by default")
    if kind == "parallel":
        ton, toff = val.get("tm_on_temp_f", sup), val.get("tm_off_temp_f", sup + 8)
        s = e._dhw_system
        c = s.tm_water_heater.get_controls_for_hour(5)
        h.eq(c.on_trigger_t_f, ton, "TM ON temperature, supply by default")
        h.eq(c.off_trigger_t_f, toff, "TM OFF temperature, 8 F above supply by default")
        h.eq(c.outlet_temp_f, toff, "the TM heater makes water of its OFF temperature")
        h.eq(s.tm_on_temp_f, ton, "TM ON temperature")
        h.eq(s.tm_off_temp_f, toff, "TM OFF temperature")


def h_defaults(h, kind):
    """An engine given only what it needs is the engine given every documented default."""
    n = h.real("units", 20, 100) if kind != "swing" else 60.0
    dfr = h.real("defrost", 0.6, 1)
    a = dict(building_type="multi_family", magnitude=n, zip_code_or_climate_zone=dict(design_inlet_water_temp_f=52.0, design_oat_f=35.0), supply_temp_f=121.0, storage_temp_f=149.0,
             schematic=ALIAS[kind][0], defrost_factor=dfr, return_temp_f=109.0, return_flow_gpm=2.2)
    full = dict(gpdpp=25, num_heaters=1, max_daily_run_hr=16.0, aquastat_fract=0.5, off_sensor_fract=0.1, on_trigger_t_f=121.0, off_trigger_t_f=149.0, tm_on_temp_f=121.0, tm_off_temp_f=129.0,
                tm_off_time_hr=0.5, tm_safety_factor=1.75, num_tm_heaters=1)
    ls = dict(load_shift_schedule=[0 if 16 <= i < 20 else 1 for i in range(24)], shed_aquastat_fract=0.8)
    from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
    for x, y in ((a, full), (dict(a, **ls), dict(full, load_shift_percent=0.95, load_up_hours=0, shed_off_sensor_fract=0.1))) if kind != "instant" else ((a, full),):
        p, q = EcosizerEngine(**x), EcosizerEngine(**x, **y)
        r, t = p.get_sizing_results(), q.get_sizing_results()
        h.ok(set(r) == set(t), "same results")
        for k in r:
            if r[k] is not None:
                h.eq(r[k], t[k], "defaults size the same " + k, 1e-6)
        h.eq(p.get_hw_magnitude(), q.get_hw_magnitude(), "same daily use")
        for u, v in zip(p._dhw_system.water_heaters, q._dhw_system.water_heaters):
            h.ok(u.control_schedule == v.control_schedule, "same schedule")
    e = EcosizerEngine(**{k: v for k, v in a.items() if k != "defrost_factor"}, storage_volume_storageT_gal=300.0, heating_capacity_kbtuh=80.0, tm_storage_vol=90.0, tm_capacity_kbtuh=40.0)
    s = e._dhw_system
    h.eq(s.defrost_factor, 1.0, "no defrost derating by default")
    h.ok(len(s.water_heaters) == 1, "one heater by default")
    if kind in ("primary", "parallel", "swing", "sprtp"):
        h.eq(s.max_daily_run_hr, 16.0, "16 run hours by default")
    if kind in ("parallel", "swing"):
        h.eq(s.tm_safety_factor, 1.75, "TM safety factor by default")
    if kind == "parallel":
        h.eq(s.tm_off_time_hr, 0.5, "TM off time by default")
        h.ok(s.num_tm_heaters == 1, "one TM heater by default")


def h_mp(h, alias):
    """Multi-pass sizing gets every parameter (its sizing itself is C22's)."""
    import inspect
    MP = cls_of("mprtp")
    real = MP.__dict__["from_size"]
    sig = inspect.signature(real.__func__)
    got = []

    def stand_in(*a, **k):
        v = sig.bind(MP, *a, **k)
        v.apply_defaults()
        got.append(v.arguments)
        return "plant"
    sup, sto, ret, flow, dfr = h.real("supply", 105, 130), h.real("storage", 131, 170), h.real("ret", 80, 104), h.real("flow", 0.2, 20), h.real("defrost", 0.5, 1)
    on, off = h.real("on", 0.3, 0.7), h.real("off", 0.1, 0.3)
    MP.from_size = staticmethod(stand_in)
    try:
        e = engine(ALIAS["mprtp"][alias], supply_temp_f=sup, storage_temp_f=sto, return_temp_f=ret, return_flow_gpm=flow, defrost_factor=dfr, aquastat_fract=on, off_sensor_fract=off)
    finally:
        MP.from_size = real
    h.ok(e._dhw_system == "plant" and len(got) == 1, "the sized plant is the engine's")
    a = got[0]
    for k, v in dict(supply_temp_f=sup, storage_temp_f=sto, return_temp_f=ret, return_flow_gpm=flow, defrost_factor=dfr, max_daily_run_hr=14.0, strat_slope=0.8, percent_useable=1.0).items():
        h.eq(a[k], v, "multi-pass sizing gets " + k)
    h.ok(a["building"] is e._building and a["control_schedule"] == ["normal"] * 24 and set(a["control_map"]) == {"normal"}, "and the building and controls")
    c = a["control_map"]["normal"]
    h.eq(c.on_sensor_fract, on, "ON height")
    h.eq(c.off_sensor_fract, off, "OFF height")


def h_missing(h, kind, alias, presized):
    """Recirculation and TM parameters are asked for where they are needed, and only there."""
    vol = h.real("vol", 50, 900)
    has = {k: h.flag(k) for k in ("ret", "flow", "tmv", "tmc")}
    tm_model = "MODELS_AOSmithCAHP120_C_MP" if presized and h.flag("tm_model") else None
    kw = dict(return_temp_f=108.0 if has["ret"] else None, return_flow_gpm=2.0 if has["flow"] else None)
    if presized:
        kw.update(storage_volume_storageT_gal=vol, heating_capacity_kbtuh=100.0, tm_storage_vol=99.0 if has["tmv"] else None, tm_capacity_kbtuh=40.0 if has["tmc"] else None, tm_model=tm_model)
    else:
        kw.update(defrost_factor=1 / (vol / 50))
    need = [] if kind in ("primary", "instant") else ["ret", "flow"]
    if presized and kind in ("parallel", "swing"):
        need += ["tmv"] if kind == "parallel" and tm_model else ["tmv", "tmc"]
    ex = raises(lambda: engine(ALIAS[kind][alias], **kw))
    if all(has[k] for k in need):
        h.ok(ex is None, "nothing more is asked for")
    else:
        h.ok(isinstance(ex, ValueError), "a missing parameter is refused when the engine is built")


def h_unknown(h, presized):
    n = h.real("n", 5, 500)
    kw = dict(storage_volume_storageT_gal=n, heating_capacity_kbtuh=50.0) if presized else {}
    for s in ("swing", "", "primary", "Parallel_loop", None):
        h.ok(isinstance(raises(lambda: engine(s, n, return_temp_f=108.0, return_flow_gpm=2.0, tm_storage_vol=9.0, tm_capacity_kbtuh=9.0, **kw)), ValueError), "unknown schematics are refused")


def h_climate(h, key, how):
    """The engine's climate is the one its key names."""
    from ecoengine.objects.building.ClimateZone import ClimateZone
    n = h.real("n", 5, 500)
    e = engine("primary_no_recirc", n, zip_code_or_climate_zone=key, storage_volume_storageT_gal=100.0, heating_capacity_kbtuh=50.0)
    z = ClimateZone.from_design_conditions(**key) if how == "dict" else getattr(ClimateZone, "from_" + how)(key)
    b = e._building
    h.same(b.get_design_inlet_water_temp_f(), z.get_design_inlet_water_temp_f(), "design inlet temperature")
    h.same(b.get_design_oat_f(), z.get_design_oat_f(), "design outdoor temperature")
    if how != "dict":
        for t in (0, 4321, 8759):
            h.eq(b.get_oat_f(t, 60), z.get_oat_f(t, 60), "hourly weather")
            h.eq(b.get_inlet_water_temp_f(t, 60), z.get_inlet_water_temp_f(t, 60), "hourly inlet temperature")
    h.eq(b.daily_dhw_use_supplyT_gal, n * 20.0, "daily use", 1e-6)


def h_no_inlet(h, kind):
    """Sizing needs the inlet temperature and says so; nothing else does."""
    n = h.real("n", 5, 500)
    kw = dict(zip_code_or_climate_zone=dict(design_oat_f=30.0), return_temp_f=108.0, return_flow_gpm=2.0)
    h.ok(isinstance(raises(lambda: engine(ALIAS[kind][0], n, **kw)), ValueError), "sizing without an inlet temperature is refused")
    e = engine(ALIAS[kind][0], n, storage_volume_storageT_gal=100.0, heating_capacity_kbtuh=50.0, tm_storage_vol=90.0, tm_capacity_kbtuh=40.0, **kw)
    h.ok(e._building.get_design_inlet_water_temp_f() is None, "no inlet temperature is made up")
    h.eq(e._building.get_oat_f(77, 60), 30.0, "the given condition holds all year")


def h_bad_climate(h):
    z = h.int("zone", -200, 9999)
    h.assume(h.Or(z < 1, z > 96))
    h.ok(isinstance(raises(lambda: engine("primary_no_recirc", zip_code_or_climate_zone=z)), ValueError), "a number that is neither a zone nor a zip code is refused")
    h.ok(isinstance(raises(lambda: engine("primary_no_recirc", zip_code_or_climate_zone=None)), ValueError), "no climate is refused")


def h_building(h):
    """What the engine hands to its building."""
    n, g = h.real("n", 1, 900), h.real("gpdpp", 5, 60)
    pre = dict(storage_volume_storageT_gal=100.0, heating_capacity_kbtuh=50.0)
    t = object()
    e = engine("primary_no_recirc", n, gpdpp=g, utility_cost_tracker=t, **pre)
    h.eq(e.get_hw_magnitude(), n * g, "people times gallons per person", 1e-6)
    h.ok(e._building.utility_cost_tracker is t, "the utility tracker is the building's")
    for i in (0, 8, 23):
        h.eq(e._building.get_dhw_load_supplyT_gal(i, 60), n * g * PEAK[i], "custom peak profile", 1e-6)
        h.eq(e._building.get_dhw_load_supplyT_gal(i, 60, True), n * g * AVG[i], "custom average profile", 1e-6)
    e = engine("primary_no_recirc", n, gpdpp=None, **pre)
    h.eq(e.get_hw_magnitude(), n * 25, "default gallons per person", 1e-6)
    e = engine("primary_no_recirc", n, building_type="motel", gpdpp=None, custom_peak_load_shape=None, custom_avg_load_shape=None, **pre)
    h.eq(e.get_hw_magnitude(), n * 21.4, "building type's use", 1e-6)


HARNESSES = [
    dict(name="controls", fn=h_controls, quick=[dict(free=[0, 1, 2, 3], others=1, trig=True, sparse=False), dict(free=[6, 7, 15, 16], others=1, trig=False, sparse=True),
                                                dict(free=[20, 22, 23], others=1, trig=True, sparse=True), dict(free=[3, 9, 12], others=0, trig=False, sparse=False)],
         thorough=[dict(free=[5, 6, 7, 8, 9, 10], others=1, trig=True, sparse=False), dict(free=[0, 5, 11, 17, 22, 23], others=1, trig=True, sparse=True)], opts=dict(time_s=60), topts=dict(time_s=300)),
    dict(name="presized", fn=h_presized, quick=[dict(kind=k, alias=a, num=n) for k in ALIAS for a, n in ((0, 3), (len(ALIAS[k]) - 1, 1))], opts=dict(time_s=30)),
    dict(name="sized", fn=h_sized,
         quick=[dict(kind="primary", alias=0, vary=["units"]), dict(kind="primary", alias=1, vary=["defrost"], ls=True), dict(kind="parallel", alias=0, vary=["units"], ntm=3),
                dict(kind="parallel", alias=1, vary=["units"], ls=True), dict(kind="swing", alias=0, vary=["defrost"]), dict(kind="swing", alias=1, vary=["defrost"], ls=True),
                dict(kind="sprtp", alias=0, vary=["units"]), dict(kind="sprtp", alias=1, vary=["defrost"], ls=True), dict(kind="instant", alias=0, vary=["units", "defrost"])], opts=dict(time_s=60)),
    dict(name="optional", fn=h_optional, quick=[dict(kind=k, presized=True) for k in ("primary", "parallel", "swing", "sprtp", "mprtp")] + [dict(kind="primary", presized=False), dict(kind="parallel", presized=False)], opts=dict(time_s=60)),
    dict(name="defaults", fn=h_defaults, quick=[dict(kind=k) for k in ("primary", "parallel", "swing", "sprtp", "instant")], opts=dict(time_s=60)),
    dict(name="multipass", fn=h_mp, quick=[dict(alias=0), dict(alias=1)], opts=dict(time_s=30)),
    dict(name="missing", fn=h_missing, quick=[dict(kind=k, alias=i % len(ALIAS[k]), presized=p) for i, k in enumerate(ALIAS) for p in (True, False) if (k, p) not in (("mprtp", False),)], opts=dict(time_s=60)),
    dict(name="unknown", fn=h_unknown, quick=[dict(presized=p) for p in (True, False)], opts=dict(time_s=30)),
    dict(name="climate", fn=h_climate, quick=[dict(key=94105, how="zip_code"), dict(key="94105", how="zip_code"), dict(key=16, how="zone_id"), dict(key=1, how="zone_id"), dict(key=96, how="zone_id"),
                                              dict(key=dict(design_oat_f=21.0, design_inlet_water_temp_f=44.0), how="dict"), dict(key=dict(design_inlet_water_temp_f=44.5), how="dict"), dict(key=dict(design_oat_f=12.5), how="dict"), dict(key="ID - Boise Air Terminal", how="weather_station")], opts=dict(time_s=60)),
    dict(name="no_inlet", fn=h_no_inlet, quick=[dict(kind=k) for k in ALIAS], opts=dict(time_s=30)),
    dict(name="model", fn=h_model, quick=[dict(kind=k, model=m, tm_model=t, num=n, inlet=70.0) for k, m, t, n in (("primary", "MODELS_ColmacCxV_5_C_SP", None, 2), ("sprtp", "MODELS_AOSmithCAHP120_C_MP", None, 1), ("mprtp", "MODELS_ColmacCxV_5_C_MP", None, 3))]
                                      + [dict(kind=k, model=m, tm_model=t, num=n) for k, m, t, n in (("primary", "MODELS_ColmacCxV_5_C_SP", None, 3), ("parallel", "MODELS_ColmacCxA_15_C_SP", "MODELS_AOSmithCAHP120_C_MP", 2),
                                          ("swing", "MODELS_AOSmithCAHP120_C_MP", "MODELS_ColmacCxV_5_C_MP", 4), ("sprtp", "MODELS_ColmacCxA_10_C_SP", None, 1), ("mprtp", "MODELS_ColmacCxV_5_C_MP", None, 2))], opts=dict(time_s=60)),
    dict(name="bad_climate", fn=h_bad_climate, quick=[{}], opts=dict(time_s=30)),
    dict(name="building", fn=h_building, quick=[{}], opts=dict(time_s=30)),
]
