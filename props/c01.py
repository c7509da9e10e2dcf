from props.common import RHO_CP


def _shape(h, pattern):
    """24 hourly fractions with one arbitrary non-negative level per letter, summing to one."""
    lets = sorted(set(pattern))
    lv = {c: h.real("lv_" + c, 0, 1) for c in lets}
    n = {c: pattern.count(c) for c in lets}
    tot = h.total([lv[c] * n[c] for c in lets])
    if h.symbolic:
        h.assume(tot == 1)
        h.feasible()
    else:
        lv = {c: lv[c] / tot for c in lets}
    return [lv[c] for c in pattern]


def _usable_per_gal(supply, storage, inlet, on_fract, on_temp, slope):
    """Supply-temperature gallons one gallon of tank holds when the ON sensor reads its trigger (closed form)."""
    hs = min(1.0, on_fract + (storage - on_temp) / slope / 100)
    hp = max(on_fract, on_fract + (supply - on_temp) / slope / 100)
    t0 = on_temp + (hp - on_fract) * 100 * slope
    t1 = on_temp + (hs - on_fract) * 100 * slope
    eq = (hs - hp) * ((t0 + t1) / 2 - inlet) + (1 - hs) * (storage - inlet)
    return eq / (supply - inlet)


def reserve_needed(h, gen, dem, skip=()):
    """Worst cumulative shortfall of a repeating day (two laps reach the fixpoint)."""
    short, worst = 0, 0
    for lap in range(2):
        for j, d in enumerate(dem):
            short = short + d - (0 if j in skip else gen)
            if short <= 0:
                short = 0
            if short > worst:
                worst = short
    return worst


def _controls(on_fract, on_temp, storage, off_fract=None):
    from ecoengine.objects.components.heating.Controls import Controls
    return {"normal": Controls(on_sensor_fract=on_fract, on_trigger_t_f=on_temp,
                               off_sensor_fract=on_fract if off_fract is None else off_fract,
                               off_trigger_t_f=storage, outlet_temp_f=storage)}


def _size(cls_name, building, run, ctl, supply, storage, slope):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    return DHWSystem.from_size(building, supply, storage, run, 1.0, ["normal"] * 24 if ctl else None, ctl, slope)


def h_reserve(h, pattern, run=None, daily=1000.0, ctl=(0.4, 120.0), temps=(120.0, 150.0, 50.0)):
    """Sized storage holds exactly the reserve the design day needs."""
    from ecoengine.objects.building.Building import Building
    supply, storage, inlet = temps
    if isinstance(pattern, str):
        shape = _shape(h, pattern)
    else:
        shape = pattern
    if run is None:
        run = h.real("run", 4, 24)
    if daily is None:
        daily = h.real("daily", 10, 20000)
    avg = [1 / 24] * 24
    b = Building(None, daily, shape, avg, design_inlet_water_temp_f=inlet, design_oat_f=40.0)
    cm = _controls(*ctl, storage) if ctl else None
    s = _size("DHWSystem", b, run, cm, supply, storage, 2.8)
    f = _usable_per_gal(supply, storage, inlet, *(ctl or (0.0, supply)), 2.8)
    held = s.get_minimum_storage_storageT_gal() * f
    need = reserve_needed(h, daily / run, [daily * x for x in shape])
    h.ge(held, need, "sized storage carries the peak day without running out", 1e-3)
    h.le(held, need, "sized storage is no larger than the peak day needs", 1e-3)


def h_rate(h, pattern, run, defrost=None):
    """Storage and capacity scale with the building; recovery within the day."""
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    shape = _shape(h, pattern)
    k = h.real("k", 0.1, 10)

    def size(d):
        b = Building(None, d, shape, shape, design_inlet_water_temp_f=50.0)
        s = DHWSystem.from_size(b, 120.0, 150.0, run, 1.0, None, None)
        return s.get_minimum_storage_storageT_gal(), s.get_minimum_capacity_kbtuh()
    v1, c1 = size(500.0)
    v2, c2 = size(500.0 * k)
    h.eq(v2, v1 * k, "storage scales with daily use", 1e-3)
    h.eq(c2, c1 * k, "capacity scales with daily use", 1e-3)


def h_run_trade(h, pattern):
    """Fewer compressor hours never ask for more storage nor for less capacity."""
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    shape = _shape(h, pattern)
    r1, r2 = h.pick("pair", [(24.0, 16.0), (20.0, 14.0), (16.0, 15.75), (16.0, 12.0), (12.0, 8.0)])

    def size(r):
        b = Building(None, 800.0, shape, shape, design_inlet_water_temp_f=50.0)
        s = DHWSystem.from_size(b, 120.0, 150.0, r, 1.0, None, None)
        return s.get_minimum_storage_storageT_gal(), s.get_minimum_capacity_kbtuh()
    v1, c1 = size(r1)
    v2, c2 = size(r2)
    h.le(v2, v1, "fewer run hours never need more storage", 1e-3)
    h.ge(c2, c1, "fewer run hours never need less capacity", 1e-3)


PATS = ["aaaaaabbbbccccccddddeeaa", "abbbbbbbbbbbbbbbbbbbbbbc", "aaaaaaaaaaaabbbbbbbbbbbb",
        "aabbaabbaabbccddccddccdd", "abcabcabcabcabcabcabcabc", "aaaaaabcdbaaaaaaabcdaaaa",
        "abcdeeeeeeeeeeeeeeeeeeee", "eeeeeeeeeeeeeeeeeeeeabcd", "cbaeeeeeeeeeeeeeeeeeeedc"]
MF = [0.02, 0.015, 0.01, 0.01, 0.015, 0.03, 0.06, 0.08, 0.07, 0.055, 0.05, 0.045, 0.04, 0.035, 0.03, 0.03, 0.035, 0.045,
      0.06, 0.075, 0.07, 0.055, 0.04, 0.025]

HARNESSES = [
    dict(name="reserve", fn=h_reserve,
         quick=[dict(pattern=p, run=r) for p, r in
                [(PATS[1], 24.0), (PATS[1], 16.0), (PATS[1], 10.5), (PATS[2], 24.0), (PATS[2], 16.0), (PATS[2], 10.5),
                 (PATS[3], 16.0), (PATS[3], 10.5), (PATS[4], 24.0), (PATS[4], 16.0), (PATS[5], 10.5), (PATS[5], 16.0),
                 (PATS[0], 10.5), (PATS[6], 10.5), (PATS[7], 10.5), (PATS[0], 24.0), (PATS[0], 16.0)]]
         + [dict(pattern=MF, run=None), dict(pattern=MF, run=16.0, daily=None),
            dict(pattern=PATS[2], run=14.0, daily=None), dict(pattern=PATS[1], run=16.0, ctl=None)],
         thorough=[dict(pattern=p, run=r) for p in PATS for r in (24.0, 16.0, 10.5)]
         + [dict(pattern=MF, run=None), dict(pattern=MF, run=16.0, daily=None),
            dict(pattern=PATS[2], run=14.0, daily=None), dict(pattern=PATS[0], run=16.0, ctl=None)],
         opts=dict(time_s=60, claim_ms=20000, branch_ms=5000, fork_minmax=True),
         topts=dict(time_s=900)),
    dict(name="rate", fn=h_rate, quick=[dict(pattern=PATS[2], run=16.0)], opts=dict(time_s=60, fork_minmax=True)),
    dict(name="run_trade", fn=h_run_trade, quick=[dict(pattern=p) for p in PATS[:3]], opts=dict(time_s=60, fork_minmax=True), topts=dict(time_s=600)),
]
