from props.common import RHO_CP, raises

FLAT = [1 / 24] * 24


def _bldg(daily, inlet, shape=FLAT):
    from ecoengine.objects.building.Building import Building
    return Building(None, daily, shape, FLAT, design_inlet_water_temp_f=inlet, design_oat_f=35.0)


def _ctl(storage):
    from ecoengine.objects.components.heating.Controls import Controls
    return {"normal": Controls(on_sensor_fract=0.4, on_trigger_t_f=115.0, off_sensor_fract=0.3, off_trigger_t_f=storage - 5,
                               outlet_temp_f=storage)}


def make(kind, b, supply, storage, ret, flow, run, defrost, **kw):
    sched, cm = ["normal"] * 24, _ctl(storage)
    if kind == "no_recirc":
        from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
        return DHWSystem.from_size(b, supply, storage, run, defrost, sched, cm)
    if kind == "parallel":
        from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
        return ParallelLoopSystem.from_size(b, supply, storage, ret, flow, kw.get("tm_on", 120.0), kw.get("tm_off", 128.0),
                                            kw.get("off_time", 0.5), kw.get("safety", 1.2), kw.get("num", 1),
                                            run, defrost, sched, cm)
    if kind in ("swing", "swing_er"):
        if kind == "swing":
            from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem as K
        else:
            from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem as K
        return K.from_size(b, supply, storage, ret, flow, tm_safety_factor=kw.get("safety", 1.2), max_daily_run_hr=run,
                           defrost_factor=defrost, control_schedule=sched, control_map=cm)
    if kind == "sprtp":
        from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
        return SinglePassRTPSystem.from_size(b, supply, storage, ret, flow, run, defrost, sched, cm)
    if kind == "instant":
        from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
        return InstantWHSystem.from_size(b, supply, storage, defrost)
    raise KeyError(kind)


def h_capacity(h, kind, vary):
    """Heat made in the allowed hours equals the heat the design day needs."""
    daily = h.real("daily", 10, 20000) if "daily" in vary else 1500.0
    run = h.real("run", 6, 23) if "run" in vary else 16.0
    defrost = h.real("defrost", 0.5, 1) if "defrost" in vary else 0.9
    inlet = h.real("inlet", 33, 80) if "inlet" in vary else 50.0
    supply = h.real("supply", 100, 140) if "supply" in vary else 120.0
    storage = h.real("storage", 141, 180) if "storage" in vary else 150.0
    flow = h.real("flow", 0.5, 20) if "flow" in vary else 3.0
    ret = h.real("ret", 85, 99) if "ret" in vary else (95.0 if "supply" in vary else 112.0)
    h.assume(flow * (supply - ret) <= 800)      # above this no swing tank is large enough
    s = make(kind, _bldg(daily, inlet), supply, storage, ret, flow, run, defrost)
    cap = s.get_minimum_capacity_kbtuh()
    made = cap * run * defrost
    dt = (storage if kind.startswith("swing") else supply) - inlet
    need = daily * RHO_CP * dt / 1000
    if kind == "sprtp":
        need = need + flow * 60 * RHO_CP * (supply - ret) / 1000 * 24
    h.eq(made, need, "capacity over the allowed hours is the design day's heat", 1e-2)
    h.ok(s.max_daily_run_hr == run, "sizing keeps the allowed hours") if not h.symbolic else \
        h.eq(s.max_daily_run_hr, run, "sizing keeps the allowed hours")
    wh = s.water_heaters[0]
    h.eq(wh.performance_map.get_capacity_kbtuh(35.0, storage, inlet), cap, "the built heater has the sized capacity", 1e-4)
    if kind in ("parallel", "swing", "sprtp"):
        h.eq(s.get_recirc_loss_kbtuh(), flow * 60 * RHO_CP * (supply - ret) / 1000, "recirculation loss of the loop", 1e-4)
    if kind == "sprtp":
        h.eq(s.get_recirc_capacity_kbtuh() * run * defrost, s.get_recirc_loss_kbtuh() * 24, "recirculation share of capacity", 1e-3)
    if kind in ("parallel", "swing"):
        h.eq(s.get_daily_recirc_loss_kbtu(), s.get_recirc_loss_kbtuh() * 24, "daily loop loss", 1e-3)


def h_instant(h, vary):
    """A tankless heater is sized for the worst hour and meets it in simulation."""
    lv = h.reals("x", 3, 0, 0.5)
    daily = h.real("daily", 10, 9000) if "daily" in vary else 700.0
    defrost = h.real("defrost", 0.5, 1) if "defrost" in vary else 0.8
    inlet = h.real("inlet", 33, 80) if "inlet" in vary else 48.0
    shape = [0.02] * 24
    shape[3], shape[9], shape[23] = lv
    s = make("instant", _bldg(daily, inlet, shape), 120.0, 150.0, None, None, None, defrost)
    cap = s.get_minimum_capacity_kbtuh()
    b = _bldg(daily, inlet, shape)
    h.eq(s.get_minimum_storage_storageT_gal(), 0.0, "tankless needs no storage")
    top = h.max(0.02, *lv)
    h.eq(cap * defrost, daily * top * RHO_CP * (120.0 - inlet) / 1000, "tankless capacity serves the worst hour", 1e-3)
    hr = h.pick("hr", [0, 3, 9, 23])
    st = s.simulate_step(b, hr * 60 + 7, 1)
    h.le(st["heater_output_kbtuh"], cap, "tankless simulation never exceeds the sized capacity", 1e-3)
    h.eq(st["heater_output_kbtuh"] * defrost, st["demand_supplyT_gal"] * 60 * RHO_CP * (120.0 - inlet) / 1000,
         "tankless output is the step's heat", 1e-3)
    h.eq(st["heater_power_in_kw"] * 3.412142, st["heater_output_kbtuh"], "tankless power at unit efficiency", 1e-3)


def h_built(h, kind):
    """The built system has exactly the sized storage and capacity."""
    lv = h.real("a", 0.05, 0.2)
    rest = (1 - lv * 4) / 20
    shape = [lv if i in (7, 8, 18, 19) else rest for i in range(24)]
    daily = h.real("daily", 50, 5000) if not kind.startswith("swing") else 1000.0
    if kind.startswith("swing"):
        shape = [0.1 if i in (7, 8) else 0.8 / 22 for i in range(24)]
    defrost = h.real("defrost", 0.5, 1)
    s = make(kind, _bldg(daily, 50.0, shape), 120.0, 150.0, 112.0, 3.0, 16.0, defrost)
    h.eq(s.storage_tank.total_volume_gal, s.get_minimum_storage_storageT_gal(), "built tank has the sized volume", 1e-4)
    tot = h.total([w.performance_map.get_capacity_kbtuh(35.0, 150.0, 50.0) for w in s.water_heaters])
    h.eq(tot, s.get_minimum_capacity_kbtuh(), "built heaters have the sized capacity", 1e-4)
    if kind in ("parallel", "swing", "swing_er"):
        h.eq(s.tm_storage_tank.total_volume_gal, s.get_minimum_tm_volume_gal(), "built loop tank has the sized volume", 1e-4)


def h_before(h, kind):
    """Results are not available before sizing; sizing needs a design inlet temperature."""
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    daily = h.real("daily", 1, 5000)
    b = Building(None, daily, FLAT, FLAT)
    ex = raises(lambda: make(kind, b, 120.0, 150.0, 112.0, 3.0, 16.0, 1.0))
    h.ok(isinstance(ex, ValueError), "sizing without a design inlet temperature is rejected")
    s = DHWSystem([], None, 120.0, 150.0)
    h.ok(isinstance(raises(s.get_minimum_capacity_kbtuh), RuntimeError), "no capacity before sizing")
    h.ok(isinstance(raises(s.get_minimum_storage_storageT_gal), RuntimeError), "no storage before sizing")


KINDS = ["no_recirc", "parallel", "swing", "sprtp"]
VARY = [("daily", "run"), ("daily", "defrost"), ("inlet", "supply"), ("flow", "run"), ("flow", "defrost"), ("ret", "supply"),
        ("storage", "daily"), ("run", "defrost"), ("inlet", "storage")]
FULL = [("daily", "run", "defrost"), ("inlet", "supply", "daily"), ("flow", "ret", "supply"), ("flow", "run", "inlet"),
        ("daily", "run", "defrost", "inlet", "supply")]

HARNESSES = [
    dict(name="capacity", fn=h_capacity, quick=[dict(kind=k, vary=list(v)) for k in KINDS for v in VARY + FULL],
         thorough=[dict(kind=k, vary=list(v)) for k in KINDS for v in VARY + FULL],
         opts=dict(time_s=60, claim_ms=15000)),
    dict(name="instant", fn=h_instant, quick=[dict(vary=[]), dict(vary=["daily"]), dict(vary=["defrost"]), dict(vary=["inlet"])],
         opts=dict(time_s=60, claim_ms=15000)),
    dict(name="built", fn=h_built, quick=[dict(kind=k) for k in KINDS], opts=dict(time_s=60, claim_ms=10000, fork_minmax=True)),
    dict(name="before", fn=h_before, quick=[dict(kind=k) for k in KINDS + ["instant"]], opts=dict(time_s=30)),
]
