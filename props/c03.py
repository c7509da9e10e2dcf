from props.common import RHO_CP

#        hours        0..23: four peak hours
PEAK = [0.02] * 6 + [0.09, 0.12, 0.07] + [0.03] * 8 + [0.08, 0.10, 0.06] + [0.04] * 4
PEAK = [x / sum(PEAK) for x in PEAK]


def reserve(daily, run):
    gen, short, worst = daily / run, 0.0, 0.0
    for _ in range(2):
        for x in PEAK:
            short = max(0.0, short + daily * x - gen)
            worst = max(worst, short)
    return worst


def _ctl(on_f, on_t, storage):
    from ecoengine.objects.components.heating.Controls import Controls
    return Controls(on_sensor_fract=on_f, on_trigger_t_f=on_t, off_sensor_fract=on_f, off_trigger_t_f=storage,
                    outlet_temp_f=storage)


def _inputs(h, vary):
    on_f = h.real("on_fract", 0, 0.9) if "on_fract" in vary else 0.4
    on_t = h.real("on_temp", 70, 150) if "on_temp" in vary else 110.0
    supply = h.real("supply", 105, 140) if "supply" in vary else 120.0
    storage = h.real("storage", 125, 180) if "storage" in vary else 150.0
    inlet = h.real("inlet", 33, 68) if "inlet" in vary else 50.0
    h.assume(h.And(supply < storage, on_t <= storage, inlet < on_t))
    return on_f, on_t, supply, storage, inlet


def _build(kind, supply, storage, cm, slope, inlet, daily=1000.0, run=16.0, sched=True):
    from ecoengine.objects.building.Building import Building
    b = Building(None, daily, PEAK, PEAK, design_inlet_water_temp_f=inlet, design_oat_f=40.0)
    sc = ["normal"] * 24 if sched else None
    if kind == "no_recirc":
        from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
        return DHWSystem.from_size(b, supply, storage, run, 1.0, sc, cm, slope)
    if kind == "parallel":
        from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
        return ParallelLoopSystem.from_size(b, supply, storage, 110.0, 2.0, 100.0, 110.0, max_daily_run_hr=run,
                                            control_schedule=sc, control_map=cm, strat_slope=slope)
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    return SinglePassRTPSystem.from_size(b, supply, storage, 100.0, 2.0, run, 1.0, sc, cm, slope)


def h_tank(h, kind, slope, vary):
    """The tank that gets built, at the moment its ON sensor trips, delivers exactly the running volume."""
    slope = h.real("slope", 0.5, 6) if slope is None else slope
    on_f, on_t, supply, storage, inlet = _inputs(h, vary)
    # some water above the sensor is at supply temperature
    h.assume(on_f * 100 + (supply - on_t) / slope <= 95)
    s = _build(kind, supply, storage, {"normal": _ctl(on_f, on_t, storage)}, slope, inlet)
    V = s.get_minimum_storage_storageT_gal()
    t = s.storage_tank
    t.initialize(storage, inlet, 1 - on_f + (on_t - inlet) / (slope * 100))
    h.eq(t.get_temperature_at_fraction(on_f), on_t, "the tank's sensor reads its trigger", 1e-4)
    f0 = h.max(on_f, on_f + (supply - on_t) / slope / 100)
    g = (1 - f0) * V
    got = g * (t.get_average_draw_temp_f(g) - inlet)
    h.eq(got / 1000, reserve(1000.0, 16.0) * (supply - inlet) / 1000, "tank at its trigger delivers the running volume", 1e-4)


def h_closed(h, slope, vary, kind="no_recirc"):
    """Same, against the integral of the profile in closed form."""
    slope = h.real("slope", 0.5, 6) if slope is None else slope
    on_f, on_t, supply, storage, inlet = _inputs(h, vary)
    h.assume(on_f * 100 + (supply - on_t) / slope <= 95)
    s = _build(kind, supply, storage, {"normal": _ctl(on_f, on_t, storage)}, slope, inlet)
    V = s.get_minimum_storage_storageT_gal()
    hp = h.max(on_f, on_f + (supply - on_t) / slope / 100)
    hs = h.min(1.0, on_f + (storage - on_t) / slope / 100)
    t0 = on_t + (hp - on_f) * 100 * slope
    t1 = on_t + (hs - on_f) * 100 * slope
    heat = (hs - hp) * ((t0 + t1) / 2 - inlet) + (1 - hs) * (storage - inlet)
    h.eq(V * heat / 1000, reserve(1000.0, 16.0) * (supply - inlet) / 1000, "storage times usable heat at the trigger is the running volume", 1e-4)


def h_default(h, slope):
    """Without controls the whole tank above supply temperature counts."""
    supply, storage, inlet = 120.0, h.real("storage", 125, 180), 50.0
    s = _build("no_recirc", supply, storage, None, slope, inlet, sched=False)
    hs = h.min(1.0, (storage - supply) / slope / 100)
    t1 = supply + hs * 100 * slope
    heat = hs * ((supply + t1) / 2 - inlet) + (1 - hs) * (storage - inlet)
    h.eq(s.get_minimum_storage_storageT_gal() * heat / 1000, reserve(1000.0, 16.0) * (supply - inlet) / 1000,
         "default controls use the tank from the bottom up", 1e-4)


def h_mono(h, slope, what):
    """A higher or colder trigger never shrinks the tank; hotter storage never enlarges it."""
    base = dict(on_f=0.4, on_t=112.0, storage=150.0)
    lo, hi = {"on_f": (0.05, 0.7), "on_t": (95, 145), "storage": (130, 180)}[what]
    a, b = h.real("a", lo, hi), h.real("b", lo, hi)
    h.assume(a <= b)

    def vol(x):
        p = dict(base)
        p[what] = x
        return _build("no_recirc", 120.0, p["storage"], {"normal": _ctl(p["on_f"], p["on_t"], p["storage"])}, slope,
                      50.0).get_minimum_storage_storageT_gal()
    va, vb = vol(a), vol(b)
    if what == "on_f":
        h.le(va, vb, "a higher ON sensor never needs a smaller tank", 1e-3)
    else:
        h.ge(va, vb, "a hotter trigger or hotter storage never needs a larger tank", 1e-3)


def h_fallback(h, slope):
    """Without a normal mode the least favourable mode decides."""
    x, y = h.real("x", 0.1, 0.8), h.real("y", 0.1, 0.8)
    one = lambda f: _build("no_recirc", 120.0, 150.0, {"normal": _ctl(f, 118.0, 150.0)}, slope, 50.0).get_minimum_storage_storageT_gal()
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    b = Building(None, 1000.0, PEAK, PEAK, design_inlet_water_temp_f=50.0)
    s = DHWSystem([], None, 120.0, 150.0, 16.0)
    s.size(b, None, {"a": _ctl(x, 118.0, 150.0), "b": _ctl(y, 118.0, 150.0)}, slope)
    h.eq(s.get_minimum_storage_storageT_gal(), one(h.max(x, y)), "the least favourable mode sizes the tank", 1e-3)


V1 = [["on_fract"], ["on_temp"], ["storage"], ["inlet"], ["supply"], ["on_fract", "on_temp"], ["on_temp", "storage"],
      ["on_fract", "inlet"], ["supply", "inlet"]]
V2 = [["on_fract", "on_temp", "storage"], ["on_fract", "on_temp", "supply", "storage", "inlet"]]
HARNESSES = [
    dict(name="tank", fn=h_tank,
         quick=[dict(kind="no_recirc", slope=2.8, vary=v) for v in V1] + [dict(kind="no_recirc", slope=s, vary=v) for s in (0.8, 1.7) for v in V1[:6]]
         + [dict(kind=k, slope=s, vary=v) for k, s in (("parallel", 2.8), ("sprtp", 1.7)) for v in (V1[0], V1[1], V1[2])],
         thorough=[dict(kind=k, slope=s, vary=v) for k in ("no_recirc", "parallel", "sprtp") for s in (0.5, 0.8, 1.7, 2.8, 5.0) for v in V1 + V2]
         + [dict(kind=k, slope=None, vary=v) for k in ("no_recirc", "parallel", "sprtp") for v in ([], ["on_fract"], ["storage"])],
         opts=dict(time_s=60, claim_ms=15000, fork_minmax=True), topts=dict(time_s=240)),
    dict(name="closed", fn=h_closed, quick=[dict(slope=s, vary=v) for s in (0.8, 1.7, 2.8) for v in V1 + V2[:1]] + [dict(slope=None, vary=v) for v in ([], ["on_fract"], ["on_temp"], ["supply"])] + [dict(slope=None, vary=v, kind=k) for k in ("parallel", "sprtp") for v in ([], ["on_fract"], ["inlet"])],
         thorough=[dict(slope=s, vary=v) for s in (0.5, 0.8, 1.7, 2.8, 5.0) for v in V1 + V2],
         opts=dict(time_s=60, claim_ms=15000, fork_minmax=True), topts=dict(time_s=240)),
    dict(name="default", fn=h_default, quick=[dict(slope=s) for s in (0.4, 0.8, 2.8)], opts=dict(time_s=60)),
    dict(name="mono", fn=h_mono, quick=[dict(slope=s, what=w) for s in (0.8, 2.8) for w in ("on_f", "on_t", "storage")],
         opts=dict(time_s=60, claim_ms=15000, fork_minmax=True)),
    dict(name="fallback", fn=h_fallback, quick=[dict(slope=2.8)], opts=dict(time_s=60, fork_minmax=True)),
]
