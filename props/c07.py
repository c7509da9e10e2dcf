from .common import RHO_CP, clamp

SLOPE = 2.8


def mk(V, cold, storage, p):
    from ecoengine.objects.components.storage.EnergyTank import EnergyTank
    t = EnergyTank(V, cold, storage)
    t.initialize(storage, cold, p)
    return t


def energy(h, t, V, cold):
    """Stored energy above the cold baseline [BTU], as the tank reports it."""
    if h.symbolic and hasattr(t, "_energy_btu"):
        return t._energy_btu      # avoids the inverse search; tied to the reported profile by h_report
    return V * RHO_CP * (t.get_average_draw_temp_f(V) - cold)


def state(h, conc=None):
    if conc:
        V, cold, storage, s = conc
    else:
        V = h.real("V", 10, 2000)
        cold = h.real("cold", 35, 80)
        storage = h.real("storage", 110, 180)
        s = h.real("supply", 100, 150)
        h.assume(s <= storage)
    p = h.real("p", 0, 1)
    return V, cold, storage, s, p


def h_ops(h, op):
    V, cold, storage, s, p = state(h)
    t = mk(V, cold, storage, p)
    emax = V * RHO_CP * (storage - cold)
    tol = 1e-3 if h.symbolic else 1e-6 * (1 + emax)
    e0 = energy(h, t, V, cold)
    h.ge(e0, 0, "stored energy not negative", tol)
    h.le(e0, emax, "stored energy within the full-hot tank", tol)
    if op == "init":
        from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
        r = StratifiedTank(V)
        r.initialize(storage, cold, p)
        h.eq(e0, V * RHO_CP * (r.get_average_draw_temp_f(V) - cold), "initial energy matches the stratified profile",
             h.symbolic and 1.0 or tol)
        return
    if op == "draw":
        d = h.real("demand", -5, 3000)
        t.draw(d, cold, s, storage)
        want = h.max(0, e0 - h.max(0, d) * RHO_CP * (s - cold))
    elif op == "heat":
        k = h.real("kbtuh", -50, 3000)
        m = h.real("minutes", 0, 60)
        t.heat(k, m, storage)
        want = h.min(emax, e0 + h.max(0, k) * 1000 * m / 60)
    elif op in ("heat_draw", "add_draw"):
        # heat that does not fit is not kept for later
        k = h.real("kbtuh", 0, 20000)
        if op == "heat_draw":
            t.heat(k, 60, storage)
        else:
            t.add_energy_btu(k * 1000)
        d = h.real("demand", 0, 3000)
        t.draw(d, cold, s, storage)
        want = h.max(0, h.min(emax, e0 + k * 1000) - d * RHO_CP * (s - cold))
    elif op in ("draw_heat", "recirc_heat", "draw_add"):
        # demand that was not met is not owed by the next hour's heat
        if op == "recirc_heat":
            fl = h.real("flow", 0, 50)
            r = h.real("ret", 60, 140)
            h.assume(r <= s)
            t.add_recirc_return(fl, r, 60, s)
            left = h.max(0, e0 - fl * 60 * RHO_CP * (s - r))
        else:
            d = h.real("demand", 0, 5000)
            t.draw(d, cold, s, storage)
            left = h.max(0, e0 - d * RHO_CP * (s - cold))
        k = h.real("kbtuh", 0, 3000)
        if op == "draw_add":
            t.add_energy_btu(k * 1000)
        else:
            t.heat(k, 60, storage)
        want = h.min(emax, left + k * 1000)
    elif op == "add":
        b = h.real("btu", -1000, 3000000)
        t.add_energy_btu(b)
        want = h.min(emax, e0 + h.max(0, b))
    else:
        fl = h.real("flow", 0, 20)
        r = h.real("ret", 60, 140)
        m = h.real("minutes", 0, 60)
        h.assume(r <= s)
        if h.flag("explicit"):
            t.add_recirc_return(fl, r, m, s)
            want = h.max(0, e0 - fl * m * RHO_CP * (s - r))
        else:
            t.add_recirc_return(fl, r, m)
            want = h.max(0, e0 - fl * m * RHO_CP * (storage - r))
    e1 = energy(h, t, V, cold)
    if "_" in op and h.symbolic:
        tol = 1e-4 * emax
    h.eq(e1, want, op + " changes stored energy by exactly the energy moved", tol)


def heated(h, t, storage, heat):
    """An hour of heating by any heater, up to the full-hot tank."""
    if not heat:
        return 0.0
    k = h.real("kbtuh", 0, heat)
    t.heat(k, 60, storage)
    return k * 1000


def h_report(h, conc, unroll, heat=None):
    """Temperatures / usable volume / drawn temperature reported from the stored energy."""
    V, cold, storage, s, p = state(h, conc)
    if heat:
        p = 0.9
    t = mk(V, cold, storage, p)
    heated(h, t, storage, heat)
    d = h.real("demand", 0, 3000)
    h.assume(d <= V)
    t.draw(d, cold, s, storage)
    f = h.real("f", 0, 1)
    g = h.real("g", 0, 1)
    h.assume(f <= g)
    tf, tg = t.get_temperature_at_fraction(f), t.get_temperature_at_fraction(g)
    h.le(cold, tf, "reported temperature not below the incoming water")
    h.le(tg, storage, "reported temperature not above storage")
    h.le(tf, tg, "reported temperature non-decreasing with height")
    u = t.get_usable_volume_supplyT_gal(s)
    h.ge(u, 0, "usable volume not negative")
    h.le(u, V, "usable volume within the tank")
    b = t.get_temperature_at_fraction(1 - u / V)
    if u <= 0:
        h.le(t.get_temperature_at_fraction(1.0), s, "no usable water means top not above supply", 1e-3)
    elif u >= V:
        h.ge(t.get_temperature_at_fraction(0.0), s, "fully usable means bottom at supply", 1e-3)
    else:
        h.eq(b, s, "boundary of usable water is at supply temperature", 1e-3)


def h_inverse(h, conc, unroll, heat=None):
    V, cold, storage, s, p = state(h, conc)
    if heat:
        p = 0.9
    t = mk(V, cold, storage, p)
    more = heated(h, t, storage, heat)
    emax = V * RHO_CP * (storage - cold)
    # reported energy of the whole tank vs what was put in (StratifiedTank's integral as oracle)
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    r = StratifiedTank(V)
    r.initialize(storage, cold, p)
    want = h.min(emax, V * RHO_CP * (r.get_average_draw_temp_f(V) - cold) + more)
    got = V * RHO_CP * (t.get_average_draw_temp_f(V) - cold)
    span = 100 + (storage - cold) / SLOPE
    tol = 1e-4 * (1 + emax) if not h.symbolic else emax / 100 * span / 2 ** unroll
    h.eq(got, want, "reported profile holds the stored energy", tol)
    # drawn-block temperature is the integral of the reported profile
    d1 = h.real("d1", 0.01, 3000)
    d2 = h.real("d2", 0.01, 3000)
    h.assume(d1 <= d2)
    h.assume(d2 <= V)
    i1, i2 = d1 * t.get_average_draw_temp_f(d1), d2 * t.get_average_draw_temp_f(d2)
    h.le((d2 - d1) * t.get_temperature_at_fraction(1 - d2 / V), i2 - i1, "drawn block at least as hot as its bottom",
         1e-2)
    h.le(i2 - i1, (d2 - d1) * t.get_temperature_at_fraction(1 - d1 / V), "drawn block at most as hot as its top", 1e-2)


def h_physical(h, conc, unroll, heat=None, then=None):
    V, cold, storage, s, p = state(h, conc)
    if heat:
        p = 0.9
    t = mk(V, cold, storage, p)
    heated(h, t, storage, heat)
    g = h.real("gal", -5, 1000)
    h.assume(g <= V)
    keep = h.flag("keep_baseline")
    x = h.real("inlet", 35, 120) if keep else cold
    emax = V * RHO_CP * (storage - cold)
    e0 = energy(h, t, V, cold)
    a = t.get_average_draw_temp_f(g)
    if keep:
        t.draw_physical_gal(g, x, s, update_internal_cold_temp=False)
    else:
        t.draw_physical_gal(g, x, s)
    e1 = energy(h, t, V, cold)
    gg = h.max(0, g)
    tol = 1e-2 if h.symbolic else 3e-4 * (1 + emax)
    left = h.max(0, e0 - gg * RHO_CP * h.max(0, a - x))
    if not then:
        h.eq(e1, left, "physical draw removes the energy of the water drawn", tol)
    else:
        k = h.real("more", 0, then)
        t.heat(k, 60, storage)
        h.eq(energy(h, t, V, cold), h.min(emax, left + k * 1000), "heat after a physical draw is all kept",
             1e-3 * emax if h.symbolic else 2 * tol)


TEMPS = [[100.0, 50.0, 140.0, 120.0], [400.0, 40.0, 165.0, 150.0]]
HARNESSES = [
    dict(name="ops", fn=h_ops, quick=[{"op": o} for o in ("init", "draw", "heat", "add", "recirc", "heat_draw", "add_draw", "draw_heat", "recirc_heat", "draw_add")],
         opts=dict(time_s=60, fork_minmax=True, quot=2)),
    dict(name="report", fn=h_report, quick=[{"conc": c, "unroll": 3} for c in TEMPS] + [{"conc": c, "unroll": 3, "heat": k} for c, k in zip(TEMPS, (100, 500))],
         opts=dict(time_s=90, fork_minmax=True, quot=2, range_cap={"EnergyTank": 3})),
    dict(name="inverse", fn=h_inverse, quick=[{"conc": c, "unroll": 4} for c in TEMPS] + [{"conc": c, "unroll": 4, "heat": k} for c, k in zip(TEMPS, (100, 500))],
         opts=dict(time_s=90, fork_minmax=True, quot=2, range_cap={"EnergyTank": 4})),
    dict(name="physical", fn=h_physical, quick=[{"conc": c, "unroll": 4} for c in TEMPS] + [{"conc": c, "unroll": 4, "then": k} for c, k in zip(TEMPS, (100, 500))] + [{"conc": c, "unroll": 4, "heat": k} for c, k in zip(TEMPS, (100, 500))],
         opts=dict(time_s=90, fork_minmax=True, quot=2, range_cap={"EnergyTank": 4})),
]
