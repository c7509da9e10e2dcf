MONTH_LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def _zone(h, n=8760):
    from ecoengine.objects.building.ClimateZone import ClimateZone
    oat = h.seq("oat", n, -40, 120)
    inlet = h.reals("inlet", 12, 33, 90)
    return ClimateZone(1, oat, inlet), oat, inlet


def h_oat(h, interval, via):
    """Outdoor temperature at an arbitrary step of an arbitrary year is the one of its hour."""
    cz, oat, inlet = _zone(h)
    obj = cz
    if via == "building":
        from ecoengine.objects.building.Building import Building
        obj = Building(cz, 100.0, [1 / 24] * 24, [1 / 24] * 24)
    per = 60 // interval
    y, hr, k = h.int("year", 0, 2), h.int("hour", 0, 8759), h.int("k", 0, per - 1)
    t = (y * 8760 + hr) * per + k
    h.eq(obj.get_oat_f(t, interval), oat[hr], "outdoor temperature is that of the current hour of the year")
    if interval == 1:
        h.eq(obj.get_oat_f(t), oat[hr], "default step is one minute")


def h_inlet(h, interval, via):
    """Inlet temperature at an arbitrary step is that of its calendar month."""
    cz, oat, inlet = _zone(h)
    obj = cz
    if via == "building":
        from ecoengine.objects.building.Building import Building
        obj = Building(cz, 100.0, [1 / 24] * 24, [1 / 24] * 24)
    m = h.pick("month", list(range(12)))
    d = h.int("dom", 0, MONTH_LEN[m] - 1)
    per = 1440 // interval
    y, k = h.int("year", 0, 2), h.int("k", 0, per - 1)
    t = (y * 365 + sum(MONTH_LEN[:m]) + d) * per + k
    h.eq(obj.get_inlet_water_temp_f(t, interval), inlet[m], "inlet temperature is that of the current calendar month")
    if interval == 1:
        h.eq(obj.get_inlet_water_temp_f(t), inlet[m], "default step is one minute")


def h_design(h, n):
    """Design conditions are the coldest of the data."""
    from ecoengine.objects.building.ClimateZone import ClimateZone
    from ecoengine.objects.building.Building import Building
    oat = h.reals("oat", n, -40, 120)
    inlet = h.reals("inlet", 12, 33, 90)
    cz = ClimateZone(1, list(oat), list(inlet))
    b = Building(cz, 100.0, [1 / 24] * 24, [1 / 24] * 24)
    for o, w in ((cz.get_design_oat_f(), cz.get_design_inlet_water_temp_f()),
                 (b.get_design_oat_f(), b.get_design_inlet_water_temp_f())):
        for x in oat:
            h.le(o, x, "design outdoor temperature is no warmer than any hour")
        h.ok(h.Or(*[o == x for x in oat]), "design outdoor temperature is one of the hours")
        for x in inlet:
            h.le(w, x, "design inlet temperature is no warmer than any month")
        h.ok(h.Or(*[w == x for x in inlet]), "design inlet temperature is one of the months")
    # querying must not disturb the data
    i = h.pick("i", [0, n // 2, n - 1])
    h.eq(cz.get_oat_f(i, 60), oat[i], "data in place after the design query")
    h.eq(cz.get_inlet_water_temp_f(40, 1440), inlet[1], "data in place after the design query")


def h_const(h, via):
    """Fixed design conditions hold at every step."""
    from ecoengine.objects.building.ClimateZone import ClimateZone
    from ecoengine.objects.building.Building import Building
    o, w = h.real("oat", -40, 120), h.real("inlet", 0, 90)
    if via == "zone":
        z = ClimateZone.from_design_conditions(o, w)
    elif via == "override":
        # fixed conditions given along with a year of data: every query returns the fixed ones
        z = ClimateZone(3, [20.0 + i % 50 for i in range(8760)], [40.0 + m for m in range(12)], o, w)
    else:
        z = Building(None, 100.0, [1 / 24] * 24, [1 / 24] * 24, design_oat_f=o, design_inlet_water_temp_f=w)
    t, iv = h.int("t", 0, 2000000), h.pick("iv", [1, 15, 60])
    h.eq(z.get_oat_f(t, iv), o, "fixed outdoor temperature at every step")
    h.eq(z.get_inlet_water_temp_f(t, iv), w, "fixed inlet temperature at every step")
    h.eq(z.get_design_oat_f(), o, "fixed outdoor temperature is the design condition")
    h.eq(z.get_design_inlet_water_temp_f(), w, "fixed inlet temperature is the design condition")


def h_buckets(h, days):
    """Every day is counted once, in the 5-degree bin holding its mean."""
    from ecoengine.objects.building.ClimateZone import ClimateZone
    oat = []
    for d in range(365):
        oat += [50.0 + (d % 7)] * 24       # means 50..56: bins 50 and 55
    n50 = sum(1 for d in range(365) if d % 7 < 5 and d not in days)
    n55 = sum(1 for d in range(365) if d % 7 >= 5 and d not in days)
    means = []
    for d in days:
        v = h.reals(f"d{d}_", 4, -15, 20)
        for j in range(24):
            oat[d * 24 + j] = v[j // 6]
        means.append(h.total([6 * x for x in v]) / 24)
    got = ClimateZone(1, oat, [50.0] * 12).get_oat_buckets()
    h.ok(sum(got.values()) == 365, "every day counted exactly once")
    want = {50.0: n50, 55.0: n55}
    for m in means:
        for b in (-15.0, -10.0, -5.0, 0.0, 5.0, 10.0, 15.0, 20.0):
            if h.And(m >= b, m < b + 5):
                want[b] = want.get(b, 0) + 1
    h.ok({float(k): int(v) for k, v in got.items()} == want, "days fall in the bin holding their mean")


def h_zone(h, lo, hi):
    """Every zone number reads its own column of the weather tables."""
    import csv
    from ecoengine.objects.building.ClimateZone import ClimateZone
    base = "/repo/src/ecoengine/data/climate_data/"
    zi = h.pick("zone", list(range(lo, hi + 1)))
    cz = ClimateZone.from_zone_id(zi)
    rows = {}
    for f, want in (("DryBulbTemperatures_ByClimateZone.csv", 8760), ("InletWaterTemperatures_ByClimateZone.csv", 12)):
        with open(base + f, newline="", encoding="utf-8-sig") as fh:
            r = csv.reader(fh)
            col = [x.strip() for x in next(r)].index(str(zi))
            rows[f] = [float(x[col]) for x in r]
    o, w = rows["DryBulbTemperatures_ByClimateZone.csv"], rows["InletWaterTemperatures_ByClimateZone.csv"]
    h.ok([cz.get_oat_f(i, 60) for i in range(8760)] == o[:8760], "a zone's hourly data is its own column")
    starts = [sum(MONTH_LEN[:m]) for m in range(12)]
    h.ok([cz.get_inlet_water_temp_f(s, 1440) for s in starts] == w[:12], "a zone's monthly data is its own column")


def h_no_zone(h, side):
    """A number that is no climate zone is refused rather than read from another zone's column."""
    from ecoengine.interfaces.EcosizerEngine import get_oat_buckets
    from ecoengine.objects.building.ClimateZone import ClimateZone
    zi = h.int("zone", -200, 0) if side == "low" else h.int("zone", 97, 9999)
    for f in (ClimateZone.from_zone_id, lambda z: get_oat_buckets(zone_id=z)):
        e = None
        try:
            f(zi)
        except (ValueError, IndexError) as x:
            e = x
        h.ok(e is not None, "a climate zone without data is refused")


IV = (1, 2, 3, 5, 10, 15, 30, 60)
HARNESSES = [
    dict(name="oat", fn=h_oat, quick=[dict(interval=i, via=v) for i in IV for v in ("zone", "building")]),
    dict(name="inlet", fn=h_inlet, quick=[dict(interval=i, via=v) for i in IV for v in ("zone", "building")]),
    dict(name="design", fn=h_design, quick=[dict(n=24)], thorough=[dict(n=24), dict(n=96)]),
    dict(name="const", fn=h_const, quick=[dict(via="zone"), dict(via="override"), dict(via="building")]),
    dict(name="buckets", fn=h_buckets, quick=[dict(days=[0]), dict(days=[364]), dict(days=[100, 101])],
         thorough=[dict(days=[d]) for d in (0, 1, 59, 180, 364)] + [dict(days=[0, 364]), dict(days=[100, 101])]),
    dict(name="zone", fn=h_zone, quick=[dict(lo=12 * i + 1, hi=12 * i + 12) for i in range(8)]),
    dict(name="no_zone", fn=h_no_zone, quick=[dict(side="low"), dict(side="high")]),
]
