"""Risky control sets are warned about, unusable set-ups are refused, and sound ones pass silently."""
import warnings

from props.c19 import content
from props.common import RHO_CP, raises

FLAT = [1 / 24] * 24
PEAKED = [0.1 if i in (7, 8) else 0.8 / 22 for i in range(24)]
MINUTES = 10.0                      # shortest acceptable heater cycle


def _bldg(daily, inlet, shape=PEAKED):
    from ecoengine.objects.building.Building import Building
    return Building(None, daily, shape, FLAT, design_inlet_water_temp_f=inlet, design_oat_f=35.0)


def _blank(kind, supply=120.0, storage=150.0, run=16.0, defrost=1.0):
    """A system that has not been sized."""
    if kind == "plain":
        from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
        return DHWSystem([], None, supply, storage, run, defrost)
    if kind == "parallel":
        from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
        return ParallelLoopSystem([], None, supply, storage, 112.0, 3.0, supply, supply + 8, max_daily_run_hr=run, defrost_factor=defrost)
    if kind == "swing":
        from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
        return SwingSystem([], None, supply, storage, 112.0, 3.0, max_daily_run_hr=run, defrost_factor=defrost)
    if kind == "swing_er":
        from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
        return SwingERTrdOffSystem([], None, supply, storage, 112.0, 3.0, max_daily_run_hr=run, defrost_factor=defrost)
    if kind == "sprtp":
        from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
        return SinglePassRTPSystem([], None, supply, storage, 112.0, 3.0, run, defrost)
    if kind == "mprtp":
        from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
        return MultiPassRTPSystem([], None, supply, storage, 112.0, 3.0, run, defrost)
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
    return InstantWHSystem(supply, storage)


def _sized(s, b, sched, cm):
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        s.size(b, sched, cm)
    return [str(w.message) for w in got if issubclass(w.category, UserWarning) and "Controls key" in str(w.message)]


def h_warn(h, kind, vary, keys=("normal",)):
    """Sizing warns about a control set exactly when it is backwards or cycles the heater too often."""
    from ecoengine.objects.components.heating.Controls import Controls
    daily = h.real("daily", 100, 5000) if "daily" in vary else 900.0
    storage = h.real("storage", 130, 170) if "storage" in vary else 150.0
    defrost = h.real("defrost", 0.4, 1) if "defrost" in vary else 0.9
    supply = 120.0
    on, off, cm = {}, {}, {}
    for i, k in enumerate(keys):
        on[k] = h.real(f"on_{k}", 0.15, 0.75) if "on" in vary and i == 0 else 0.5 - 0.1 * i
        on[k] = 0.9 if k == "shed" else on[k]
        off[k] = h.real(f"off_{k}", 0.0, 0.75) if "off" in vary else on[k] - 0.06
        cm[k] = Controls(on_sensor_fract=on[k], on_trigger_t_f=115.0, off_sensor_fract=off[k], off_trigger_t_f=storage - 5, outlet_temp_f=storage)
    sched = ["normal"] * 24
    if "shed" in keys:
        sched[17:20] = ["shed"] * 3
        if "loadUp" in keys:
            sched[15:17] = ["loadUp"] * 2
    s = _blank(kind, supply, storage, 16.0, defrost)
    out = _sized(s, _bldg(daily, 50.0), sched, cm)
    rate = s.get_minimum_capacity_kbtuh() * 1000 / (RHO_CP * (storage - supply))     # gallons an hour
    vol = s.get_minimum_storage_storageT_gal()
    for k in keys:
        told = [m for m in out if f"key {k}:" in m]
        h.ok(len(told) <= 1, "one warning per control set")
        cycle = (on[k] - off[k]) * vol / rate * 60
        if off[k] > on[k]:
            h.ok(len(told) == 1 and "never shut off" in told[0], "an OFF sensor above the ON sensor is warned about")
        elif told:
            h.ok("short cycling" in told[0], "the warning says what is wrong")
            h.ok(cycle < MINUTES + 1e-3, "a warned set cycles in under ten minutes")
        else:
            h.ok(cycle > MINUTES - 1e-3, "a silent set cycles in ten minutes or more")
    h.ok(len(out) == len([m for m in out if any(f"key {k}:" in m for k in keys)]), "no warning about anything else")


def h_unsized(h, kind):
    """Sized results cannot be read before sizing."""
    storage = h.real("storage", 130, 170)
    s = _blank(kind, storage=storage)
    names = ["get_minimum_capacity_kbtuh", "get_minimum_storage_storageT_gal"]
    if kind == "instant":
        names = names[:1]
    if kind == "parallel":
        names += ["get_minimum_tm_volume_gal", "get_minimum_tm_capacity_kbtuh"]
    if kind.startswith("swing"):
        names += ["get_minimum_tm_volume_gal", "get_minimum_tm_ca_volume_gal", "get_minimum_tm_capacity_kbtuh"]
    if kind == "swing_er":
        names += ["get_er_capacity_kbtuh"]
    if kind == "sprtp":
        names += ["get_recirc_capacity_kbtuh"]
    for n in names:
        h.ok(isinstance(raises(getattr(s, n)), RuntimeError), "no sized result before sizing")
    from ecoengine.objects.components.heating.Controls import Controls
    cm = {"normal": Controls(0.5, 115.0, 0.2, 145.0, storage)}
    b = _bldg(500.0, None)
    ex = raises(lambda: s.size(b, control_map=cm))
    h.ok(isinstance(ex, ValueError), "sizing without a design inlet temperature is refused")
    for n in names:
        h.ok(isinstance(raises(getattr(s, n)), RuntimeError), "a refused sizing leaves no result behind")


def h_band(h, kind, keys, vary):
    """A shed mode needs load-up (or normal) to charge the tank past the shed ON sensor, else no tank is large enough."""
    from ecoengine.objects.components.heating.Controls import Controls
    storage, supply, slope = 150.0, 120.0, 2.8
    lu = h.real("off", 0.0, 0.9) if "off" in vary else 0.4
    lu_t = h.real("off_t", 100, 149) if "off_t" in vary else 135.0
    sh = h.real("shed_on", 0.1, 0.95) if "shed_on" in vary else 0.45
    sh_t = h.real("shed_t", 100, 140) if "shed_t" in vary else 118.0
    cm = {"normal": Controls(0.5, 115.0, 0.2, 145.0, storage), "shed": Controls(sh, sh_t, 0.3, 140.0, storage)}
    which = "loadUp" if "loadUp" in keys else "normal"
    cm[which] = Controls(0.4, 115.0, lu, lu_t, storage)
    sched = ["normal"] * 24
    sched[17:20] = ["shed"] * 3
    if which == "loadUp":
        sched[15:17] = ["loadUp"] * 2
    s, b = _blank(kind, supply, storage), _bldg(900.0, 50.0)
    up, down = (content(h, supply, storage, 50.0, f, t, slope) for f, t in ((lu, lu_t), (sh, sh_t)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ex = raises(lambda: s.size(b, sched, cm, strat_slope=slope))
    if ex is not None:
        h.ok(isinstance(ex, ValueError), "a shed band without water is refused in so many words")
        h.ok(up <= down + 1e-6, "only a shed band without water is refused")
    else:
        h.ok(up >= down - 1e-6, "a shed band without water is refused")
        h.ok(s.get_minimum_storage_storageT_gal() > 0, "a sized system has a tank")


def h_empty(h, kind):
    """Controls that call for heat only once no usable water is left cannot be sized."""
    from ecoengine.objects.components.heating.Controls import Controls
    storage, supply, slope = 150.0, 120.0, 2.8
    on, t = h.real("on", 0.5, 0.97), h.real("on_t", 60, 118)
    cm = {"normal": Controls(on, t, 0.2, 145.0, storage)}
    s, b = _blank(kind, supply, storage), _bldg(900.0, 50.0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ex = raises(lambda: s.size(b, control_map=cm, strat_slope=slope))
    left = content(h, supply, storage, 50.0, on, t, slope)
    if ex is not None:
        h.ok(isinstance(ex, ValueError), "controls that leave no usable water are refused in so many words")
        h.ok(left <= 1e-6, "only controls that leave no usable water are refused")
        h.ok(isinstance(raises(s.get_minimum_storage_storageT_gal), RuntimeError), "a refused sizing leaves no result behind")
    else:
        h.ok(left > 0, "controls that leave no usable water are refused")
        h.ok(s.get_minimum_storage_storageT_gal() > 0, "a sized system has a tank")


def h_curves(h, kind):
    """Load-shift curves need load shifting; asking in vain changes nothing."""
    from ecoengine.objects.components.heating.Controls import Controls
    daily = h.real("daily", 300, 2000)
    cm = {"normal": Controls(0.5, 115.0, 0.2, 145.0, 150.0)}
    s, b = _blank(kind), _bldg(daily, 50.0)
    s.size(b, ["normal"] * 24, cm)
    cap, vol = s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal()
    for bad in (cm, {}, None):
        h.ok(isinstance(raises(lambda: s.get_ls_sizing_curve(b, ["normal"] * 24, bad)), ValueError), "a load-shift curve needs load shifting")
    h.eq(s.get_minimum_capacity_kbtuh(), cap, "a refused curve leaves the sizing alone")
    h.eq(s.get_minimum_storage_storageT_gal(), vol, "a refused curve leaves the sizing alone")
    h.ok(not b.is_annual_load_shape() and s.max_daily_run_hr == 16.0, "a refused curve leaves the set-up alone")


SLOTS = ["monthly_base_charge", "pk_start_hour", "pk_end_hour", "pk_demand_charge", "pk_energy_charge", "off_pk_demand_charge",
         "off_pk_energy_charge", "start_month", "end_month"]


def h_rates(h, season):
    """A rate plan with a missing, non-numeric or misplaced entry is refused, whichever entry it is."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    x = h.real("rate", 0, 3)
    a = dict(monthly_base_charge=x, pk_start_hour=[16, 17, 15], pk_end_hour=[21, 20, 19], pk_demand_charge=[x, 2.0, 3.0],
             pk_energy_charge=[0.2, x, 0.4], off_pk_demand_charge=[0.5, 0.4, x], off_pk_energy_charge=[0.1, 0.1, 0.2],
             start_month=[0, 5, 8], end_month=[5, 8, 12])
    slot = h.pick("slot", SLOTS + ["none"])
    how = h.pick("how", ["text", "missing", "short"])
    if slot == "monthly_base_charge":
        if how == "short":
            return
        a[slot] = "ten" if how == "text" else None
    elif slot != "none":
        v = list(a[slot])
        if how == "short":
            v = v[:2]
        else:
            v[season] = "12" if how == "text" else None
        a[slot] = v
    ex = raises(lambda: U.from_params(**a))
    if slot == "none":
        h.ok(ex is None, "a sound rate plan is accepted")
    else:
        h.ok(isinstance(ex, ValueError), "a flawed rate plan is refused")


def h_months(h, n):
    """Seasons must cover the year once, in order, without gaps or overlaps."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    st = [h.int(f"s{i}", -1, 13) for i in range(n)]
    en = [h.int(f"e{i}", -1, 13) for i in range(n)]
    if n > 1:
        h.assume(st[0] <= 1)
    good = h.And(st[0] == 0, en[-1] == 12, *[s < e for s, e in zip(st, en)], *[st[i] == en[i - 1] for i in range(1, n)])
    if good:
        return          # accepted plans: C14
    ex = raises(lambda: U.from_params(1.0, [16] * n, [21] * n, [1.0] * n, [0.2] * n, [0.5] * n, [0.1] * n, st, en))
    h.ok(isinstance(ex, ValueError), "seasons that do not cover the year once are refused")


def h_hours(h):
    """Peak hours must lie in the day and run forward."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    s, e = h.real("start", -5, 30), h.real("end", -5, 30)
    if h.And(s >= 0, s <= 23, e >= s, e <= 24):
        return
    ex = raises(lambda: U.from_params(1.0, s, e, 1.0, 0.2, 0.5, 0.1))
    h.ok(isinstance(ex, ValueError), "peak hours outside the day are refused")


def h_places(h):
    """Unknown places and weather that is not there are refused."""
    from ecoengine.objects.building.ClimateZone import ClimateZone
    t = h.real("oat", -10, 60)
    for bad in ("00000", 99999, "", "9999", "abc"):
        h.ok(isinstance(raises(lambda: ClimateZone.from_zip_code(bad)), ValueError), "an unknown zip code is refused")
    for bad in ("", "NOWHERE", "atlantis"):
        h.ok(isinstance(raises(lambda: ClimateZone.from_weather_station(bad)), ValueError), "an unknown weather station is refused")
    z = ClimateZone.from_design_conditions(50.0, t)
    h.ok(isinstance(raises(z.get_oat_buckets), ValueError), "no day counts without a year of weather")


def h_maps(h):
    """Equipment that is not in the registry, or has no data, is refused; so is weather-dependent equipment without weather."""
    from ecoengine.objects.components.heating import PerformanceMap as P
    cap = h.real("cap", 10, 500)
    for bad in ("", "NO_SUCH_MODEL", "MODELS_"):
        h.ok(isinstance(raises(lambda: P.PerformanceMap.from_model_name(bad, nominal_capacity_kbtuh=cap)), ValueError), "an unknown model is refused")
    for model in ("MODELS_NyleC125A_C_SP", "MODELS_SANCO2_C_SP", "MODELS_ColmacCxV_5_C_SP"):
        m = P.PerformanceMap.from_model_name(model, nominal_capacity_kbtuh=cap)
        for fn in (m.get_capacity_kbtuh, m.get_power_in_kw, m.get_cop):
            h.ok(isinstance(raises(lambda: fn(None, 50.0, 140.0)), ValueError), "equipment that depends on the weather needs an air temperature")


KINDS = ["plain", "parallel", "sprtp"]

HARNESSES = [
    dict(name="warn", fn=h_warn, quick=[dict(kind=k, vary=v) for k in KINDS for v in (["on", "off"], ["off", "daily"], ["off", "storage"], ["off", "defrost"])]
         + [dict(kind="plain", vary=["off"], keys=["normal", "loadUp", "shed"]), dict(kind="plain", vary=["off"], keys=["normal", "shed"])],
         opts=dict(time_s=60)),
    dict(name="unsized", fn=h_unsized, quick=[dict(kind=k) for k in KINDS + ["swing", "swing_er", "mprtp", "instant"]]),
    dict(name="band", fn=h_band, quick=[dict(kind="plain", keys=k, vary=v) for k in (["normal"], ["loadUp"])
                                        for v in (["off", "shed_on"], ["off_t", "shed_t"], ["off", "shed_t"], ["off_t", "shed_on"])]
         + [dict(kind=k, keys=["loadUp"], vary=["off", "shed_on"]) for k in ("parallel", "sprtp")], opts=dict(time_s=60)),
    dict(name="empty", fn=h_empty, quick=[dict(kind=k) for k in KINDS]),
    dict(name="curves", fn=h_curves, quick=[dict(kind=k) for k in KINDS]),
    dict(name="rates", fn=h_rates, quick=[dict(season=i) for i in range(3)]),
    dict(name="months", fn=h_months, quick=[dict(n=1), dict(n=2), dict(n=3)]),
    dict(name="hours", fn=h_hours, quick=[{}]),
    dict(name="places", fn=h_places, quick=[{}]),
    dict(name="maps", fn=h_maps, quick=[{}]),
]
