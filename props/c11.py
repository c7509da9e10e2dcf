from .common import W_TO_KBTUH, raises

MODELS_Q = ["MODELS_AOSmithCAHP120_C_MP", "MODELS_SANCO2_119_C_SP", "MODELS_BWC2020_65_R_MP"]


def q3(c, x):
    return c[0] + c[1] * x + c[2] * x * x


def ref_hpwhsim(h, pm, nominal, design, n, oat, inlet):
    """(capacity kBTU/hr, power kW) of n units, from the documented definition. pm = [(T, copc, pwrc)]."""
    x = design if inlet is None else inlet
    if oat < pm[0][0]:
        if nominal is not None:
            tot = nominal
        else:
            tot = h.max(0, h.max(0, q3(pm[0][1], design)) * q3(pm[0][2], design) / 1000 * W_TO_KBTUH) * n
        return tot, tot / W_TO_KBTUH
    k = len(pm) - 2
    for i in range(1, len(pm)):
        if oat < pm[i][0]:
            k = i - 1
            break
    T1, T2 = pm[k][0], pm[k + 1][0]
    w = (oat - T1) / (T2 - T1)
    cop = q3(pm[k][1], x) * (1 - w) + q3(pm[k + 1][1], x) * w
    kw = (q3(pm[k][2], x) * (1 - w) + q3(pm[k + 1][2], x) * w) / 1000
    return cop * kw * W_TO_KBTUH * n, kw * n


def check_map(h, m, pm, nominal, design, n):
    oat = h.real("oat", -40, 130)
    out = h.real("out", 100, 185)
    inlet = h.real("inlet", 33, 150) if h.flag("with_inlet") else None
    cap = m.get_capacity_kbtuh(oat, out, inlet)
    kw = m.get_power_in_kw(oat, out, inlet)
    rc, rk = ref_hpwhsim(h, pm, nominal, design, n, oat, inlet)
    h.eq(cap, rc, "capacity interpolates the map between outdoor-temperature brackets", 1e-4)
    h.eq(kw, rk, "power interpolates the map between outdoor-temperature brackets", 1e-5)
    if oat < pm[0][0]:
        h.eq(cap, kw * W_TO_KBTUH, "below the map: resistance heat with COP 1", 1e-4)
        h.ok(not m.is_within_operating_bounds(oat), "below the map is out of bounds")
    else:
        h.ok(m.is_within_operating_bounds(oat), "in the map is within bounds")
    h.ok(isinstance(raises(lambda: m.get_capacity_kbtuh(None, 140.0)), ValueError), "missing outdoor temperature rejected")


def h_model(h, model, nominal):
    from ecoengine.objects.components.heating import PerformanceMap as PM
    n = h.pick("units", [1, 3])
    nom = h.real("nominal", 5, 500) if nominal else None
    m = PM.PerformanceMap.from_model_name(model, num_units=n, design_inlet_temp_f=52.0, nominal_capacity_kbtuh=nom)
    import json
    import os
    reg = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.dirname(PM.__file__)))),
                                      "data", "preformanceMaps", "maps.json")))
    pm = [(e["T_F"], e["COP_coeffs"], e["inputPower_coeffs"]) for e in reg[model]["perfmap"]]
    check_map(h, m, pm, nom, 52.0, n)


def h_synth(h, entries, nominal):
    """Arbitrary bracket temperatures; fixed, distinct coefficients."""
    from ecoengine.objects.components.heating.PerformanceMap import HPWHsimPerformanceMap
    pm, last = [], None
    for i in range(entries):
        T = h.real(f"T{i}", 10, 110)
        if last is not None:
            h.assume(T >= last + 1)
        last = T
        pm.append((T, [4.0 + i, -0.02 - 0.001 * i, 1e-5 * i], [1000.0 + 200 * i, 3.0 - i, 0.01]))
    n = h.pick("units", [1, 4])
    nom = h.real("nominal", 5, 500) if nominal else None
    m = HPWHsimPerformanceMap("X", [{"T_F": a, "COP_coeffs": b, "inputPower_coeffs": c} for a, b, c in pm], n, False,
                              nom, 55.0)
    check_map(h, m, pm, nom, 55.0, n)


def h_single(h, multipass):
    """Single-entry maps: full regression polynomial."""
    from ecoengine.objects.components.heating.PerformanceMap import HPWHsimPerformanceMap
    N = 6 if multipass else 11
    copc = [2.0 + 0.1 * i for i in range(N)]
    pwc = [1.0 + 0.3 * i * (-1) ** i for i in range(N)]
    m = HPWHsimPerformanceMap("X", [{"T_F": 20.0, "COP_coeffs": copc, "inputPower_coeffs": pwc}], 2, multipass, None,
                              55.0)
    o, t, x = h.real("oat", 20, 110), h.real("out", 100, 180), h.real("inlet", 33, 120)
    if multipass:
        mon = [1, o, x, o * o, x * x, o * x]
    else:
        mon = [1, o, t, x, o * o, t * t, x * x, o * t, o * x, t * x, o * t * x]
    kw = h.total(c * v for c, v in zip(pwc, mon))
    cop = h.total(c * v for c, v in zip(copc, mon))
    h.eq(m.get_power_in_kw(o, t, x), 2 * kw, "regression power", 1e-3)
    h.eq(m.get_capacity_kbtuh(o, t, x), 2 * cop * kw * W_TO_KBTUH, "regression capacity = COP x power", 1e-1)


def h_nominal(h):
    from ecoengine.objects.components.heating.PerformanceMap import NominalPerformanceMap, PerformanceMap
    c = h.real("cap", 0, 2000)
    m = NominalPerformanceMap(c)
    o, t, x = h.real("oat", -40, 130), h.real("out", 100, 185), h.real("inlet", 33, 150)
    h.eq(m.get_capacity_kbtuh(o, t, x), c, "nominal map is constant")
    h.eq(m.get_capacity_kbtuh(o, t), c, "nominal map is constant (default inlet)")
    h.ok(m.get_cop(o, t, x) is None, "no COP without power data")

    class Any(PerformanceMap):
        def get_capacity_kbtuh(self, *a):
            return C

        def get_power_in_kw(self, *a):
            return P

    C, P = h.real("C", 0, 500), h.real("P", -1, 200)
    m = Any(None)
    cop = m.get_cop(o, t, x)
    if P <= 0:
        h.ok(cop is None, "no COP when no power is drawn")
    else:
        h.ok(cop is not None, "COP available")
        h.eq(cop * P * W_TO_KBTUH, C, "COP is output over input in the same units", 1e-4)
    h.ok(isinstance(raises(lambda: PerformanceMap.from_model_name("no such model")), ValueError), "unknown model rejected")


class Interp:
    """Interpolator stand-in: an arbitrary value (or not-a-number) per distinct query point."""

    def __init__(self, h, tag):
        self.h, self.tag, self.calls, self.vals = h, tag, [], {}

    def __call__(self, arr):
        pt = tuple(arr[0])
        key = tuple(str(v.e) if hasattr(v, "e") else repr(float(v)) for v in pt)
        if key not in self.vals:
            i = len(self.vals)
            self.calls.append(pt)
            self.vals[key] = float("nan") if self.h.flag(f"{self.tag}nan{i}") else self.h.real(f"{self.tag}{i}", 0.1, 100)
        return [[self.vals[key]]]


def h_pkl(h, two, hx, nominal, region):
    from ecoengine.objects.components.heating.PerformanceMap import PklPerformanceMap
    oi, ii = Interp(h, "o"), Interp(h, "i")
    grid = [[(40.0, [120.0, 140.0, 160.0]), (60.0, [120.0, 150.0])], [(45.0, [120.0, 145.0]), (70.0, [130.0])],
            [(50.0, [125.0])]]
    oats = [5.0, 47.0, 95.0]
    n = h.pick("units", [1, 3])
    nom = h.real("nominal", 5, 500) if nominal else None
    m = PklPerformanceMap("X", oi, ii, oats, grid, 40.0, 80.0, 30.0, 7.0, 11.0, 9.0, n, two, hx, 6.0, nom, 52.0)
    oat = h.real("oat", -30, 120)
    if region == "high":
        h.assume(oat >= 95)
    elif region == "low":
        h.assume(oat < 5)
    else:
        h.assume(oat >= 5)
        h.assume(oat < 95)
    out = h.real("out", 100, 180)
    inlet = h.real("inlet", 33, 120) if h.flag("with_inlet") else None
    cap = m.get_capacity_kbtuh(oat, out, inlet)
    kw = m.get_power_in_kw(oat, out, inlet)
    x = (52.0 if inlet is None else inlet)
    y = out
    if hx:
        x, y = x + 6.0, y + 6.0
    x = h.min(x, 80.0)
    if region == "high":
        h.eq(cap, 30.0 * n * W_TO_KBTUH, "at or above the map's top: rated high-temperature output", 1e-4)
        h.eq(kw, 7.0 * n, "at or above the map's top: rated high-temperature input", 1e-4)
        return
    # first query goes to the actual (shifted, capped) conditions
    q = oi.calls[0]
    h.eq(q[0], x, "interpolated at the entering water temperature (exchanger shift, capped)")
    h.eq(q[-1], oat, "interpolated at the outdoor temperature")
    if not two:
        h.eq(q[1], y, "interpolated at the leaving water temperature")
    h.ok(len(q) == (2 if two else 3), "query dimension")
    vo, vi = list(oi.vals.values()), list(ii.vals.values())

    def nan(v):
        return isinstance(v, float) and v != v

    if not nan(vo[0]) and not nan(vi[0]):
        h.eq(cap, vo[0] * n * W_TO_KBTUH, "in range: interpolated output for all units", 1e-4)
        h.eq(kw, vi[0] * n, "in range: interpolated input for all units", 1e-4)
        return
    er = nom / W_TO_KBTUH if nom is not None else 11.0 * n
    if region == "low":
        h.eq(cap, er * W_TO_KBTUH, "below the map: resistance output", 1e-3)
        h.eq(kw, er, "below the map: resistance input (COP 1)", 1e-3)
        return
    # in range but no data: nearest data, else COP 1.5
    for i in range(1, len(vo)):
        if not nan(vo[i]) and i < len(vi) and not nan(vi[i]):
            q = oi.calls[i]
            h.ok(h.Or(*[q[-1] == o for o in oats]), "nearest data: an outdoor temperature of the map")
            h.ge(cap, vo[i] * n * W_TO_KBTUH, "nearest data: output of that point (raised for hotter delivery)", 1e-3)
            h.eq(cap / W_TO_KBTUH - vo[i] * n, kw - vi[i] * n, "nearest data: extra output is resistance heat", 1e-3)
            for o, row in zip(oats, grid):
                if q[-1] == o:
                    for o2 in oats:
                        h.le(abs(oat - o), abs(oat - o2), "nearest data: closest outdoor temperature", 1e-6)
                    near = row[-1]
                    for e in row[::-1]:
                        if x <= e[0]:
                            near = e
                    h.eq(q[0], near[0], "nearest data: the nearest mapped inlet at or above the entering water, else the warmest", 1e-6)
                    extra = 0
                    if i > 1 and not two:
                        so = q[1]
                        h.ok(h.Or(*[so == t for t in near[1]]), "nearest data: a mapped leaving temperature")
                        for t in near[1]:
                            h.le(abs(so - y), abs(t - y), "nearest data: closest leaving temperature", 1e-6)
                        if so < y:
                            extra = vo[i] * (y - so) / (y - near[0])
                    elif not two:
                        h.eq(q[1], y, "nearest data: at the leaving temperature where it is mapped", 1e-6)
                    h.eq(cap / W_TO_KBTUH, (vo[i] + extra) * n, "nearest data: output of that point, raised in proportion to the missing temperature rise", 1e-3)
            return
    h.eq(cap, er * W_TO_KBTUH, "no data: rated output", 1e-3)
    h.eq(kw * 1.5, er, "no data: COP 1.5", 1e-3)


HARNESSES = [
    dict(name="model", fn=h_model, quick=[{"model": m, "nominal": b} for m in MODELS_Q for b in (False, True)],
         opts=dict(time_s=60)),
    dict(name="synth", fn=h_synth, quick=[{"entries": e, "nominal": b} for e in (2, 3) for b in (False, True)],
         opts=dict(time_s=60)),
    dict(name="single", fn=h_single, quick=[{"multipass": False}, {"multipass": True}], opts=dict(time_s=60)),
    dict(name="nominal", fn=h_nominal, quick=[{}], opts=dict(time_s=60)),
    dict(name="pkl", fn=h_pkl, quick=[{"two": t, "hx": x, "nominal": n, "region": r} for t in (False, True)
                                      for x in (False, True) for n in (False, True) for r in ("high", "low", "mid")],
         opts=dict(time_s=60, fork_minmax=True)),
]
