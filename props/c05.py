from .common import RHO_CP


WARM = (0.0, 0.6, 1.0)


def build(h, V, cold, storage, p, q, n=1):
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    out = []
    for _ in range(n):
        t = StratifiedTank(V)
        t.initialize(storage, cold, p)
        if q is not None:
            t.heat(q, 60.0, storage)
        out.append(t)
    return out


def sym_state(h, pre, conc=None):
    if conc:
        V, cold, storage, s = conc
    else:
        V = h.real("V", 10, 2000)
        cold = h.real("cold", 35, 80)
        storage = h.real("storage", 110, 180)
        s = h.real("supply", 100, 140)
        h.assume(s <= storage)
    p = h.real("p", 0, 1)
    q = h.real("q", 0, 4000) if pre == "heat" else None
    return V, cold, storage, s, p, q


def h_heat(h, pre):
    V, cold, storage, s, p, q = sym_state(h, pre)
    (t,) = build(h, V, cold, storage, p, q)
    k = h.real("kbtuh", -10, 3000)
    m = h.real("minutes", 0, 60)
    u0 = t.get_usable_volume_supplyT_gal(s)
    w0 = t.get_usable_volume_supplyT_gal(storage)
    b0 = t.get_temperature_at_fraction(0.0)
    t.heat(k, m, storage)
    u1 = t.get_usable_volume_supplyT_gal(s)
    w1 = t.get_usable_volume_supplyT_gal(storage)
    b1 = t.get_temperature_at_fraction(0.0)
    h.le(u0, u1, "heating never reduces usable water")
    v = h.ite(k > 0, k * m / 60 * 1000 / (RHO_CP * (storage - cold)), 0)
    h.le(u1, u0 + v, "heating never creates more hot water than the energy added", 1e-4)
    h.le(w1, w0 + v, "heating never creates more storage-temperature water than the energy added", 1e-4)
    h.le(w1, V, "hot zone within tank")
    if u0 > 0:
        if w1 < V:
            # not fully hot: every gallon heated shows up as usable water (unless usable volume is the whole tank)
            h.eq(u1, h.min(V, u0 + v), "heat added becomes usable water", 1e-4)
    if w0 > 0:
        h.eq(w1, h.min(V, w0 + v), "heat added becomes storage-temperature water, capped at the full tank", 1e-4)


def h_drained(h, by="loop"):
    """A loop or draw takes no more than the tank holds: what is heated afterwards is as in a tank that started cold."""
    V, cold, storage, s, p, _ = sym_state(h, None)
    t, fresh = build(h, V, cold, storage, p, None, 2)
    fresh.initialize(storage, cold, 0.0)
    if by == "loop":
        flow, ret, m = h.real("flow", 0, 100), 90.0, h.real("minutes", 0, 1440)
        h.assume(flow * m * (s - ret) / (storage - cold) >= V * (1 + (storage - cold) / 280))
        t.add_recirc_return(flow, ret, m, s)
    else:
        g = h.real("gal", 0, 5000)
        h.assume(g >= V * (1 + (storage - cold) / 280))
        t.draw_physical_gal(g, cold, None)
    h.eq(t.get_temperature_at_fraction(1.0), cold, "a " + by + " that loses all the tank holds leaves it cold", 1e-6)
    q = h.real("q", 0, 4000)
    for x in (t, fresh):
        x.heat(q, 60.0, storage)
    for want in (s, storage):
        h.eq(t.get_usable_volume_supplyT_gal(want), fresh.get_usable_volume_supplyT_gal(want), "no heat is owed for a " + by + " that found the tank cold", 1e-3)
    for f in (0.3, 0.7, 1.0):
        h.eq(t.get_temperature_at_fraction(f), fresh.get_temperature_at_fraction(f), "no heat is owed for a " + by + " that found the tank cold (temperatures)", 1e-3)


def h_recirc(h, pre):
    V, cold, storage, s, p, q = sym_state(h, pre)
    (t,) = build(h, V, cold, storage, p, q)
    flow = h.real("flow", 0, 20)
    ret = h.real("ret", 80, 140)
    m = h.real("minutes", 0, 60)
    h.assume(ret <= s)
    explicit = h.flag("explicit")
    u0 = t.get_usable_volume_supplyT_gal(s)
    w0 = t.get_usable_volume_supplyT_gal(storage)
    if explicit:
        t.add_recirc_return(flow, ret, m, s)
        loss = flow * m * (s - ret) / (storage - cold)
    else:
        t.add_recirc_return(flow, ret, m)
        loss = flow * m * (storage - ret) / (storage - cold)
    u1 = t.get_usable_volume_supplyT_gal(s)
    w1 = t.get_usable_volume_supplyT_gal(storage)
    h.le(u1, u0, "recirculation loss never adds usable water")
    h.ge(u1, u0 - loss, "recirculation removes no more than the loop loss", 1e-4)
    h.eq(w1, h.max(0, w0 - loss) if w0 > 0 else w1, "recirculation removes exactly the loop loss (hot zone)", 1e-4)
    if u0 < V:
        h.eq(u1, h.max(0, u0 - loss) if u0 > 0 else 0, "recirculation removes exactly the loop loss", 1e-4)


def h_physical(h, pre):
    V, cold, storage, s, p, q = sym_state(h, pre)
    (t,) = build(h, V, cold, storage, p, q)
    g = h.real("gal", -5, 3000)
    mode = h.flag("with_supply")
    u0 = t.get_usable_volume_supplyT_gal(s)
    w0 = t.get_usable_volume_supplyT_gal(storage)
    before = [t.get_temperature_at_fraction(f) for f in WARM]
    t.draw_physical_gal(g, cold, s if mode else None)
    for f, x in zip(WARM, before):
        h.le(t.get_temperature_at_fraction(f), x, "physical draw never warms the tank", 1e-6)
    if mode:
        h.ge(t.get_temperature_at_fraction(1.0), h.min(before[-1], s), "a physical draw for supply water takes no water below supply temperature", 1e-6)
    u1 = t.get_usable_volume_supplyT_gal(s)
    w1 = t.get_usable_volume_supplyT_gal(storage)
    gg = h.max(g, 0)
    h.le(u1, u0, "physical draw never adds usable water")
    h.ge(u1, u0 - gg, "physical draw removes at most the volume drawn", 1e-4)
    if u0 < V:
        h.eq(u1, h.max(0, u0 - gg), "physical draw removes exactly the volume drawn", 1e-4)
    if w0 > 0:
        h.eq(w1, h.max(0, w0 - gg), "physical draw removes exactly the volume drawn (hot zone)", 1e-4)


def h_draw(h, pre, conc=None, p=None, unroll=None):
    if p is None:
        V, cold, storage, s, p, q = sym_state(h, pre, conc)
    else:
        V, cold, storage, s = conc
        q = None
    # after `unroll` halvings the bisection is within V/2**(unroll+1) gallons of its answer
    tol = 2e-2 if unroll is None or not h.symbolic else 1.1 * V / 2 ** (unroll + 1) * (storage - 32)
    t, t0 = build(h, V, cold, storage, p, q, 2)
    c2 = cold if conc else h.real("cold2", 35, 80)
    d = h.real("demand", 0, 3000)
    h.assume(d <= 2 * V)
    t.draw(0.0, c2, s, storage)
    t0.draw(0.0, c2, s, storage)
    u0 = t.get_usable_volume_supplyT_gal(s)
    w0 = t.get_usable_volume_supplyT_gal(storage)
    before = [t.get_temperature_at_fraction(f) for f in WARM]
    t.draw(d, c2, s, storage)
    for f, x in zip(WARM, before):
        h.le(t.get_temperature_at_fraction(f), x, "drawing never warms the tank", 1e-6)
    h.ge(t.get_temperature_at_fraction(1.0), h.min(before[-1], s), "a draw takes no water below supply temperature", 1e-6)
    u1 = t.get_usable_volume_supplyT_gal(s)
    w1 = t.get_usable_volume_supplyT_gal(storage)
    h.le(u1, u0, "drawing never adds usable water")
    need = d * (s - c2)
    if w1 > 0:
        h.eq((w0 - w1) * (storage - c2), need, "hot-zone draw delivers exactly the demanded energy", 1e-2)
    if u1 > 0:
        if u0 < V:
            g = u0 - u1
            if g > 0:
                h.eq(g * (t0.get_average_draw_temp_f(g) - c2), need, "water removed carries exactly the demanded energy",
                     tol)
            else:
                h.eq(need, 0, "demand with no water removed", tol)
    else:
        if u0 > 0:
            h.le(u0 * (t0.get_average_draw_temp_f(u0) - c2), need,
                 "storage only runs out when the demand exceeds what it held", tol)


TEMPS = [[100.0, 50.0, 140.0, 120.0], [100.0, 50.0, 150.0, 150.0], [500.0, 40.0, 165.0, 125.0], [200.0, 45.0, 160.0, 102.0]]
CONC = [{"pre": pre, "conc": c, "unroll": 4} for pre in ("none", "heat") for c in TEMPS]
GRID = [{"pre": "none", "conc": c, "p": p} for c in TEMPS for p in (0.15, 0.3, 0.5, 1.0)]
PRE = [{"pre": "none"}, {"pre": "heat"}]
HARNESSES = [
    dict(name="heat", fn=h_heat, quick=PRE, opts=dict(time_s=60, fork_minmax=True)),
    dict(name="drained", fn=h_drained, quick=[{}, {"by": "draw"}], opts=dict(time_s=60, fork_minmax=True)),
    dict(name="recirc", fn=h_recirc, quick=PRE, opts=dict(time_s=60, fork_minmax=True)),
    dict(name="physical", fn=h_physical, quick=PRE, opts=dict(time_s=60, fork_minmax=True)),
    dict(name="draw", fn=h_draw, quick=CONC, opts=dict(time_s=75, fork_minmax=True, quot=2, range_cap={"StratifiedTank": 4})),
    dict(name="drawmid", fn=h_draw, quick=[dict(g, unroll=8) for g in GRID], opts=dict(time_s=60, fork_minmax=True, quot=2, range_cap={"StratifiedTank": 8})),
    dict(name="drawfine", fn=h_draw, quick=[], thorough=[dict(g, unroll=10) for g in GRID if g["p"] < 1], opts=dict(time_s=400, fork_minmax=True, quot=2, range_cap={"StratifiedTank": 10})),
    dict(name="drawdeep", fn=h_draw, quick=[GRID[3], GRID[6]], thorough=GRID,
         opts=dict(time_s=30, fork_minmax=True, quot=2, site_bound=6), topts=dict(time_s=200)),
]
