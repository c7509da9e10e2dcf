from .common import clamp



def mk(V, slope=None):
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    return StratifiedTank(V) if slope is None else StratifiedTank(V, slope)


def history(h, t, V, cold, storage, supply, ops):
    """Brings the tank into a state as a run does: any amounts of drawing, heating, loop return. Returns (incoming, outlet) temperature."""
    for k, op in enumerate(ops):
        if op == "draw":
            cold = h.real(f"cold{k}", 32, 90)
            g = h.real(f"gal{k}", 0, 5000)
            h.assume(g <= V)
            t.draw_physical_gal(g, cold, supply)
        elif op == "heat":
            t.heat(h.real(f"kbtuh{k}", 0, 10 ** 6), 60, storage)
        elif op == "setpoint":
            storage = h.real(f"storage{k}", 100, 185)
            t.heat(h.real(f"kbtuh{k}", 0, 10 ** 6), 60, storage)
        elif op == "recirc":
            r = h.real(f"ret{k}", 91, 185)
            h.assume(r <= supply)
            t.add_recirc_return(h.real(f"flow{k}", 0, 500), r, 1, supply)
    return cold, storage


def h_state(h, slope, ops):
    """Profile, usable volume and average draw temperature in any state a history reaches."""
    V = h.real("V", 1, 5000)
    cold = h.real("cold", 32, 90)
    storage = h.real("storage", 100, 185)
    p = h.real("p", 0, 1)
    s = h.real("supply", 91, 185)
    h.assume(s <= storage)
    t = mk(V, slope)
    t.initialize(storage, cold, p)
    cold, storage = history(h, t, V, cold, storage, s, ops)
    h.assume(s <= storage)
    f, g = h.real("f", 0, 1), h.real("g", 0, 1)
    h.assume(f <= g)
    tf, tg = t.get_temperature_at_fraction(f), t.get_temperature_at_fraction(g)
    h.le(cold, tf, "temperature not below the incoming water")
    h.le(tf, storage, "temperature not above the storage temperature")
    h.le(tf, tg, "temperature non-decreasing with height")
    u = t.get_usable_volume_supplyT_gal(s)
    h.le(0, u, "usable volume not negative")
    h.le(u, V, "usable volume within tank")
    if u <= 0:
        h.le(t.get_temperature_at_fraction(1.0), s, "no usable water means top not above supply", 1e-4)
    elif u >= V:
        h.ge(t.get_temperature_at_fraction(0.0), s, "fully usable means bottom at supply", 1e-4)
    else:
        h.eq(t.get_temperature_at_fraction(1 - u / V), s, "boundary of usable water is at supply temperature", 1e-4)


def h_state_avg(h, slope, ops, V=None):
    """Average temperature of any two drawn blocks in any state a history reaches."""
    V = V or h.real("V", 1, 5000)
    cold, storage, s = 50.0, 150.0, 120.0
    p = h.real("p", 0, 1)
    t = mk(V, slope)
    t.initialize(storage, cold, p)
    cold, storage = history(h, t, V, cold, storage, s, ops)
    d1, d2 = h.real("d1", 0.01, 5000), h.real("d2", 0.01, 5000)
    h.assume(d1 <= d2)
    h.assume(d2 <= V)
    i1 = d1 * t.get_average_draw_temp_f(d1)
    i2 = d2 * t.get_average_draw_temp_f(d2)
    T1 = t.get_temperature_at_fraction(1 - d1 / V)
    T2 = t.get_temperature_at_fraction(1 - d2 / V)
    h.le((d2 - d1) * T2, i2 - i1, "drawn block at least as hot as its bottom", 1e-2)
    h.le(i2 - i1, (d2 - d1) * T1, "drawn block at most as hot as its top", 1e-2)


def h_profile(h, slope):
    V = h.real("V", 1, 5000)
    cold = h.real("cold", 32, 90)
    storage = h.real("storage", 100, 185)
    p = h.real("p", 0, 1)
    t = mk(V, slope)
    t.initialize(storage, cold, p)
    f = h.real("f", 0, 1)
    g = h.real("g", 0, 1)
    h.assume(f <= g)
    tf, tg = t.get_temperature_at_fraction(f), t.get_temperature_at_fraction(g)
    h.le(cold, tf, "temperature not below the incoming water")
    h.le(tf, storage, "temperature not above the storage temperature")
    h.le(tf, tg, "temperature non-decreasing with height")
    h.eq(tf, clamp(h, cold, storage, cold + slope * 100 * (f - (1 - p))), "initial profile")


def h_usable(h, slope):
    V = h.real("V", 1, 5000)
    cold = h.real("cold", 32, 90)
    storage = h.real("storage", 100, 185)
    p = h.real("p", 0, 1)
    s = h.real("supply", 91, 185)
    h.assume(s <= storage)
    t = mk(V, slope)
    t.initialize(storage, cold, p)
    g = h.real("gal", 0, 5000)
    h.assume(g <= V)
    t.draw_physical_gal(g, cold, s)
    u = t.get_usable_volume_supplyT_gal(s)
    h.le(0, u, "usable volume not negative")
    h.le(u, V, "usable volume within tank")
    b = t.get_temperature_at_fraction(1 - u / V)
    if u <= 0:
        h.le(t.get_temperature_at_fraction(1.0), s, "no usable water means top not above supply", 1e-4)
    elif u >= V:
        h.ge(t.get_temperature_at_fraction(0.0), s, "fully usable means bottom at supply", 1e-4)
    else:
        h.eq(b, s, "boundary of usable water is at supply temperature", 1e-4)


def h_avg(h, slope):
    V = h.real("V", 1, 5000)
    cold = h.real("cold", 32, 90)
    storage = h.real("storage", 100, 185)
    p = h.real("p", 0, 1)
    t = mk(V, slope)
    t.initialize(storage, cold, p)
    d1 = h.real("d1", 0.01, 5000)
    d2 = h.real("d2", 0.01, 5000)
    h.assume(d1 <= d2)
    h.assume(d2 <= V)
    i1 = d1 * t.get_average_draw_temp_f(d1)
    i2 = d2 * t.get_average_draw_temp_f(d2)
    T1 = t.get_temperature_at_fraction(1 - d1 / V)
    T2 = t.get_temperature_at_fraction(1 - d2 / V)
    h.le((d2 - d1) * T2, i2 - i1, "drawn block at least as hot as its bottom", 1e-3)
    h.le(i2 - i1, (d2 - d1) * T1, "drawn block at most as hot as its top", 1e-3)


S = [{"slope": x} for x in (2.8, 1.7, 0.8)]
HARNESSES = [
    dict(name="profile", fn=h_profile, quick=S, opts=dict(time_s=60)),
    dict(name="usable", fn=h_usable, quick=S, opts=dict(time_s=60)),
    dict(name="state", fn=h_state, quick=[dict(slope=2.8, ops=o) for o in (["draw"], ["heat"], ["recirc"], ["heat", "draw"], ["draw", "heat"], ["heat", "recirc"], ["setpoint"])] +
         [dict(slope=x, ops=["heat"]) for x in (1.7, 0.8)],
         thorough=[dict(slope=x, ops=o) for x in (2.8, 1.7, 0.8) for o in (["draw", "heat", "draw"], ["heat", "draw", "recirc"], ["heat", "setpoint"], ["draw", "setpoint"])],
         opts=dict(time_s=60), topts=dict(time_s=300)),
    dict(name="state_avg", fn=h_state_avg, quick=[dict(slope=2.8, ops=["heat"], V=500.0), dict(slope=1.7, ops=["recirc"], V=500.0), dict(slope=0.8, ops=["heat"], V=200.0)],
         thorough=[dict(slope=2.8, ops=o) for o in (["heat"], ["recirc"], ["heat", "draw"])], opts=dict(time_s=60, fork_minmax=True), topts=dict(time_s=300)),
    dict(name="avg", fn=h_avg, quick=S, opts=dict(time_s=60,fork_minmax=True)),
]
