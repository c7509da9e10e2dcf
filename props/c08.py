from .common import RHO_CP



def mk(conc, slope, p):
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    V, cold, storage, s, pu = conc
    t = SlugOverlayTank(V, cold, storage, s, percent_useable=pu, strat_slope=slope)
    t.initialize(storage, cold, p)
    return t


def profile_energy(t, V, cold, pu):
    return pu * V * RHO_CP * (t.get_average_draw_temp_f(pu * V) - cold)


def after_energy(h, t, V, cold, pu):
    if h.symbolic and hasattr(t, "_energy_btu"):
        return t._energy_btu
    return profile_energy(t, V, cold, pu)


def h_cycle(h, conc, slope, act, p=None):
    """heater on (slug forms) -> heat and/or draw -> heater off (slug dissolves)."""
    V, cold, storage, s, pu = conc
    if s is None:
        s = h.real("supply", 100, storage - 5)
        conc = [V, cold, storage, s, pu]
    if p is None:
        p = h.real("p", 0.02, 1)
        h.assume(p <= pu)
    t = mk(conc, slope, p)
    emax = pu * V * RHO_CP * (storage - cold)
    usable_max = pu * V
    u0 = t.get_usable_volume_supplyT_gal(s)
    h.ge(u0, 0, "usable volume not negative")
    h.le(u0, usable_max, "usable volume within the usable zone", 1e-4)
    e0 = profile_energy(t, V, cold, pu)
    h.ok(not t.is_slug_active(), "no slug before the heater starts")
    g1, g2 = h.real("g1", 0.5, V), h.real("g2", 0.5, V)
    A = {}
    if "twice" in act:
        h.assume(g1 + g2 <= u0 - 0.01)
        A = {0: t.get_average_draw_temp_f(g1) * g1, 1: t.get_average_draw_temp_f(g1 + g2) * (g1 + g2)}
    if "deep" in act and u0 > 1.0:
        A = {2: t.get_average_draw_temp_f(u0) * u0}
    t.activate_slug(s)
    h.ok(t.is_slug_active(), "slug active while heating")
    st = t.slug_temp_f
    v = usable_max - u0
    h.assume(v >= 0.02)
    h.ge(st, cold, "slug not colder than the incoming water", 1e-4)
    h.le(st, s, "slug forms from water below supply temperature", 1e-4)
    h.assume(st < s - 0.01)
    h.eq(t.get_usable_volume_supplyT_gal(s), u0, "starting to heat does not change the usable volume", 1e-3)
    # inside the slug the temperature is uniform
    f = h.real("f", 0, 1)
    h.assume(f >= (1 - pu) + 1e-4)
    h.assume(f * V <= V - u0 - 0.01)
    h.eq(t.get_temperature_at_fraction(f), st, "slug is fully mixed", 1e-4)
    if 2 in A:
        g = h.real("gal", 0, V)
        h.assume(g >= u0 + 0.1)
        h.assume(g <= usable_max)
        h.eq(t.get_average_draw_temp_f(g) * g, A[2] + (g - u0) * st, "a draw deeper than the hot zone takes the rest from the slug", 1e-1)
    q = 0
    if "heat" in act:
        k = h.real("kbtuh", 0, 400)
        m = h.real("minutes", 0, 5)
        q = k * 1000 * m / 60
        t.heat_slug(k, m)
        h.eq((t.slug_temp_f - st) * v * RHO_CP, q, "all heater output goes into the slug", 1e-1)
        st2 = t.slug_temp_f
        h.eq(t.get_usable_volume_supplyT_gal(s), h.ite(st2 >= s, usable_max, u0),
             "slug counts as usable exactly when at supply temperature", 1e-3)
        st = st2
    removed = 0
    if "draw" in act:
        g = h.real("gal", 0, V)
        x = h.real("inlet", 35, 110)
        h.assume(x >= cold)
        h.assume(g <= u0 - 0.01)
        a = t.get_average_draw_temp_f(g)
        f2 = h.real("f2", 0, 1)
        h.assume(f2 * V >= V - u0 + 0.01)
        h.assume(f2 * V <= V - g - 0.01)
        T2 = t.get_temperature_at_fraction(f2)
        removed = g * RHO_CP * (a - x)
        t.draw_physical_gal(g, x, s, update_internal_cold_temp=False)
        h.eq((v + g) * t.slug_temp_f, v * st + g * x, "make-up water blends into the slug by volume", 1e-1)
        h.eq(t.get_usable_volume_supplyT_gal(s), h.ite(t.slug_temp_f >= s, usable_max, u0 - g),
             "draw shrinks the hot zone by the volume drawn", 1e-3)
        h.eq(t.get_temperature_at_fraction(f2 + g / V), T2, "the hot water above the slug moves up by the volume drawn", 1e-3)
    if "twice" in act:
        x = h.real("inlet", 35, 110)
        h.assume(x >= cold)
        h.eq(t.get_average_draw_temp_f(g1) * g1, A[0], "starting to heat leaves the hot water above the slug alone", 1e-1)
        t.draw_physical_gal(g1, x, s, update_internal_cold_temp=False)
        h.eq(t.get_average_draw_temp_f(g2) * g2, A[1] - A[0], "the next draw takes the water below the last one", 1e-1)
        t.draw_physical_gal(g2, x, s, update_internal_cold_temp=False)
        h.eq((v + g1 + g2) * t.slug_temp_f, v * st + (g1 + g2) * x, "make-up water blends into the slug by volume", 1e-1)
        removed = A[1] * RHO_CP - (g1 + g2) * RHO_CP * x
    if "over" in act:
        g = h.real("gal", 0, 3 * V)
        x = h.real("inlet", 35, 110)
        h.assume(x >= cold)
        h.assume(g >= u0 + 0.01)
        h.assume(g <= usable_max)
        t.draw_physical_gal(g, x, s, update_internal_cold_temp=False)
        left = usable_max - g
        h.eq(usable_max * t.slug_temp_f, left * st + g * x, "slug fills the usable zone after a draw deeper than it",
             1e-1)
        h.eq(t.get_usable_volume_supplyT_gal(s), h.ite(t.slug_temp_f >= s, usable_max, 0),
             "slug fills the usable zone", 1e-3)
    if "over" in act:
        want = usable_max * RHO_CP * (t.slug_temp_f - cold)
    else:
        want = e0 + q - removed
    t.deactivate_slug()
    h.ok(not t.is_slug_active(), "slug dissolved when the heater stops")
    e1 = after_energy(h, t, V, cold, pu)
    h.ge(e1, 0, "stored energy not negative", 1e-2)
    tol = 5.0 if h.symbolic else 1e-3 * (1 + emax)
    # the tank reports at most a fully hot tank
    if h.symbolic:
        h.eq(e1, want, "heating cycle conserves energy", tol)
    else:
        h.eq(e1, min(want, emax), "heating cycle conserves energy", tol)
    t.deactivate_slug()
    h.eq(after_energy(h, t, V, cold, pu), e1, "dissolving twice changes nothing")


def h_init(h, conc, slope):
    """percent_useable of the tank starts at or above supply temperature."""
    V, cold, storage, s, pu = conc
    p = h.real("p", 0.02, 1)
    h.assume(p <= pu)
    t = mk(conc, slope, p)
    if h.symbolic:
        return_tol = V * (100 + (storage - cold) / slope) / 100 / 2 ** 5
    else:
        return_tol = 1e-3 * V
    u = t.get_usable_volume_supplyT_gal(s)
    h.eq(u, p * V, "initial usable volume is the requested fraction", return_tol)
    f = h.real("f", 0, 1)
    T = t.get_temperature_at_fraction(f)
    h.ge(T, cold, "temperature not below the incoming water")
    h.le(T, storage, "temperature not above storage")
    if f < (1 - pu) - 1e-6:
        h.eq(T, cold, "below the inlet pipe the water is cold")


def h_full(h, conc, slope):
    """A heater that starts on a fully hot tank: the slug starts empty and is the make-up water alone."""
    V, cold, storage, _, pu = conc
    s = h.real("supply", 100, storage - 5)
    t = mk([V, cold, storage, s, pu], slope, pu)
    t.heat(1e5, 60, storage)
    u0 = t.get_usable_volume_supplyT_gal(s)
    h.eq(u0, pu * V, "a fully hot tank is usable down to the inlet pipe", 1e-3)
    t.activate_slug(s)
    h.ok(t.is_slug_active(), "slug active while heating")
    h.eq(t.get_usable_volume_supplyT_gal(s), pu * V, "starting to heat does not change the usable volume", 1e-3)
    t.heat_slug(150.0, 3)      # nothing to heat yet
    h.eq(t.get_usable_volume_supplyT_gal(s), pu * V, "heating an empty slug changes nothing", 1e-3)
    g = h.real("gal", 0.01, V)
    h.assume(g <= pu * V - 0.01)
    g2 = h.real("gal2", 0, V)
    h.assume(g + g2 <= pu * V - 0.01)
    x = h.real("inlet", 35, 98)
    x2 = h.real("inlet2", 35, 98)
    h.assume(x >= cold)
    h.assume(x2 >= cold)
    t.draw_physical_gal(g, x, s, update_internal_cold_temp=False)
    h.eq(t.slug_temp_f, x, "the first make-up water is the slug", 1e-3)
    h.eq(t.get_usable_volume_supplyT_gal(s), pu * V - g, "draw shrinks the hot zone by the volume drawn", 1e-3)
    t.draw_physical_gal(g2, x2, s, update_internal_cold_temp=False)
    h.eq((g + g2) * t.slug_temp_f, g * x + g2 * x2, "make-up water blends into the slug by volume", 1e-1)
    h.eq(t.get_usable_volume_supplyT_gal(s), pu * V - g - g2, "draw shrinks the hot zone by the volume drawn", 1e-3)
    k, m = h.real("kbtuh", 0, 400), h.real("minutes", 0, 5)
    T0 = t.slug_temp_f
    t.heat_slug(k, m)
    h.eq((g + g2) * RHO_CP * (t.slug_temp_f - T0), k * 1000 * m / 60, "all heater output goes into the slug", 1e-1)


CONC = [[200.0, 50.0, 150.0, 120.0, 1.0], [500.0, 45.0, 140.0, 125.0, 0.85]]
ACTS = ["none", "heat", "draw", "heat+draw", "over", "twice", "deep"]
SL = 2.8
HARNESSES = [
    dict(name="cycle", fn=h_cycle, quick=[{"conc": c, "slope": sl, "act": a} for c in CONC for a in ACTS if a != "twice" for sl in (2.8, 0.8)],
         opts=dict(time_s=30, fork_minmax=True, quot=2, range_cap={"EnergyTank": 2}), topts=dict(time_s=300)),
    dict(name="deep", fn=h_cycle, quick=[{"conc": c, "slope": 0.8, "act": a, "p": 0.4} for c in CONC for a in ACTS] + [{"conc": CONC[0], "slope": 0.8, "act": "twice", "p": 0.9}],
         opts=dict(time_s=60, fork_minmax=True, quot=2)),
    dict(name="supply", fn=h_cycle, quick=[{"conc": [V, c, st, None, pu], "slope": sl, "act": a, "p": p} for V, c, st, _, pu in CONC for a in ("none", "draw", "heat", "over") for sl, p in ((0.8, 0.4), (1.7, 0.6))],
         thorough=[{"conc": [V, c, st, None, pu], "slope": sl, "act": a, "p": p} for V, c, st, _, pu in CONC for a in ACTS for sl, p in ((0.8, 0.4), (1.7, 0.6), (2.8, 0.3))],
         opts=dict(time_s=60, fork_minmax=True, quot=2, range_cap={"EnergyTank": 2}), topts=dict(time_s=300)),
    dict(name="full", fn=h_full, quick=[{"conc": c, "slope": sl} for c in CONC for sl in (2.8, 0.8)],
         opts=dict(time_s=60, fork_minmax=True, quot=2, range_cap={"EnergyTank": 2})),
    dict(name="init", fn=h_init, quick=[{"conc": c, "slope": sl} for c in CONC for sl in (2.8, 0.8)],
         opts=dict(time_s=60, fork_minmax=True, quot=2, range_cap={"EnergyTank": 5})),
]
