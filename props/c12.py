RATES = {'mens_dorm': 23.6, 'womens_dorm': 19.6, 'motel': 21.4, 'nursing_home': 23.4, 'office_building': 2.1,
         'food_service_a': 11.032, 'food_service_b': 6.44, 'apartment': 54.6, 'elementary_school': 1.34,
         'junior_high': 3.75, 'senior_high': 3.26}


def _shape(h, name, n=24, hi=1):
    """n arbitrary non-negative hourly fractions"""
    return h.reals(name, n, 0, hi)


def h_step(h, interval, n):
    """Demand of one arbitrary step of one arbitrary day."""
    from ecoengine.objects.building.Building import Building
    daily = h.real("daily", 0, 20000)
    peak = h.seq("peak", n, 0, 1)
    avg = h.seq("avg", n, 0, 1)
    b = Building(None, daily, [1 / 24] * 24, [1 / 24] * 24)
    b.peak_load_shape, b.avg_load_shape = peak, avg
    lap = h.int("lap", 0, 400 if n == 24 else 2)
    hour = h.int("hour", 0, n - 1)
    per = 60 // interval
    k = h.int("k", 0, per - 1)
    t = (lap * n + hour) * per + k
    use_avg = h.flag("use_avg")
    got = b.get_dhw_load_supplyT_gal(t, interval, use_avg)
    want = daily * (avg if use_avg else peak)[hour] / per
    h.eq(got, want, "demand of a step is its hour's share of the daily use", 1e-6)
    h.ge(got, 0, "demand is never negative")
    if interval == 1:
        h.eq(b.get_dhw_load_supplyT_gal(t), daily * peak[hour] / 60, "default step is one minute, peak day", 1e-6)


def h_day(h, interval):
    """All steps of one arbitrary day add up to the daily use."""
    from ecoengine.objects.building.Building import Building
    daily = h.real("daily", 1, 20000)
    sh = _shape(h, "s")
    h.assume(h.total(sh) == 1) if h.symbolic else None
    if not h.symbolic:
        sh[-1] = max(0.0, 1 - sum(sh[:-1]))
    b = Building(None, daily, sh, sh)
    day = h.int("day", 0, 364)
    per = 1440 // interval
    tot = h.total([b.get_dhw_load_supplyT_gal(day * per + i, interval) for i in range(per)])
    h.eq(tot, daily, "steps of a day add up to the daily use", 1e-4)


def h_named(h, bt):
    """Named building types: daily use proportional to occupancy; the default shapes are normalised."""
    from ecoengine.objects.building.Building import Building
    m = h.real("magnitude", 0.5, 5000)
    kw = {}
    rate = RATES.get(bt)
    if bt == "multi_family":
        rate = h.real("gpdpp", 1, 100)
        kw["gpdpp"] = rate
    b = Building.from_building_type(bt, m, None, **kw)
    h.eq(b.daily_dhw_use_supplyT_gal, rate * m, "daily use is the per-occupant rate times the occupancy", 1e-5)
    for sh in (b.peak_load_shape, b.avg_load_shape):
        h.ok(len(sh) == 24, "default shape has 24 hours")
        h.eq(float(sum(sh)), 1.0, "default shape sums to one", 1e-3)
        h.ok(all(x >= 0 for x in sh), "default shape is non-negative")
    tot = h.total([b.get_dhw_load_supplyT_gal(i, 60) for i in range(24)])
    h.le(h.max(tot - rate * m, rate * m - tot), 1.1e-3 * rate * m, "a day of demand is the daily use")
    h.ok(b.building_type == bt, "type label kept")
    d = _data(bt)["loadshapes"]
    h.ok([float(x) for x in b.peak_load_shape] == d["Stream"] and [float(x) for x in b.avg_load_shape] == d.get("Stream_Avg", d["Stream"]), "the type's own peak and average profiles")


def h_bad_magnitude(h, bt):
    from ecoengine.objects.building.Building import Building
    from props.common import raises
    m = h.real("magnitude", -1000, 1000)
    ex = raises(lambda: Building.from_building_type(bt, m, None))
    if m <= 0:
        h.ok(isinstance(ex, ValueError), "non-positive occupancy rejected")
    else:
        h.ok(ex is None, "positive occupancy accepted")


def h_custom(h, which, bt="apartment"):
    """Custom shapes: accepted exactly when valid, and then used unchanged."""
    from ecoengine.objects.building.Building import Building
    from props.common import raises
    free = 4
    vals = h.reals("x", free, -0.5, 1.5)
    pos = [0, 7, 15, 23]
    base = [0.01] * 24
    for p, v in zip(pos, vals):
        base[p] = v
    tot = h.total(base)
    # stay off the acceptance edge, where the float sum decides
    d = tot - 1
    h.assume(h.Or(d > 0.0011, d < -0.0011, h.And(d < 0.0009, d > -0.0009)))
    box = []
    kw = {("custom_peak_load_shape" if which == "peak" else "custom_avg_load_shape"): base}
    ex = raises(lambda: box.append(Building.from_building_type(bt, 40.0, None, **kw)))
    ok = h.And(d < 0.0009, d > -0.0009, *[v >= 0 for v in vals])
    if ok:
        h.ok(ex is None, "a valid custom shape is accepted")
        sh = box[0].peak_load_shape if which == "peak" else box[0].avg_load_shape
        for p, v in zip(pos, vals):
            h.eq(sh[p], v, "a custom shape is used as given")
        h.eq(box[0].daily_dhw_use_supplyT_gal, RATES[bt] * 40, "a custom shape does not change the daily use", 1e-6)
    else:
        h.ok(isinstance(ex, ValueError), "an unnormalised or negative custom shape is rejected")


def h_length(h, which, n, bt):
    from ecoengine.objects.building.Building import Building
    from props.common import raises
    mag = 40.0 if bt else h.pick("mag", [None, 500.0])
    v = h.real("v", 0.1, 3)
    ones = [v / 24] * n
    good = [1 / 24] * 24
    kw = {"custom_peak_load_shape": ones if which == "peak" else good,
          "custom_avg_load_shape": ones if which == "avg" else good}
    ex = raises(lambda: Building.from_building_type(bt, mag, None, **kw))
    h.ok(isinstance(ex, ValueError), "a shape without 24 hours is rejected")


def h_untyped(h, mode):
    """No named type: daily use and shape come from the custom profile."""
    from ecoengine.objects.building.Building import Building
    from props.common import raises
    vals = h.reals("x", 5, -20, 60)
    base = [2.0] * 24
    for p, v in zip([0, 5, 11, 17, 23], vals):
        base[p] = v
    tot = h.total(base)
    h.assume(tot >= 3)
    mag = None if mode == "derive" else h.real("magnitude", 1, 9000)
    box = []
    ex = raises(lambda: box.append(Building.from_building_type(None, mag, None, custom_peak_load_shape=base)))
    if h.Or(*[v < 0 for v in vals]):
        h.ok(isinstance(ex, ValueError), "a custom profile with negative hours is rejected")
        return
    h.ok(ex is None, "a non-negative custom profile is accepted")
    b = box[0]
    daily = tot if mode == "derive" else mag
    h.eq(b.daily_dhw_use_supplyT_gal, daily, "daily use given, or the sum of the profile", 1e-6)
    got = h.total([b.get_dhw_load_supplyT_gal(i, 60) for i in range(24)])
    h.eq(got, daily, "a day of demand is the daily use", 1e-3)
    i = h.pick("hr", [0, 5, 11, 23])
    h.eq(b.get_dhw_load_supplyT_gal(i, 60) * tot, base[i] * daily, "hours keep the profile's proportions", 1e-1)
    h.eq(b.get_dhw_load_supplyT_gal(i, 60, True), b.get_dhw_load_supplyT_gal(i, 60), "average day defaults to the peak profile", 1e-6)


def h_multi(h, types):
    """A mixed-use building demands, every hour, the sum of what its parts demand alone."""
    from ecoengine.objects.building.Building import Building
    mags, peaks, avgs, subs = [], [], [], []
    plain = None not in types and h.flag("no_shapes")
    for j, bt in enumerate(types):
        m = h.real(f"m{j}", 1, 3000)
        mags.append(m)
        if bt is None:
            v = h.reals(f"p{j}_", 3, 0, 4)
            sh = [0.5] * 24
            sh[3], sh[12], sh[20] = v
            peaks.append(sh)
            a = [1.0] * 24
            a[6] = h.real(f"a{j}", 0, 4)
            avgs.append(a)
        else:
            peaks.append(None)
            avgs.append(None)
        subs.append(Building.from_building_type(bt, m, None, custom_peak_load_shape=peaks[-1],
                                                custom_avg_load_shape=avgs[-1]))
    b = Building.from_building_type(list(types), mags, None, custom_peak_load_shape=None if plain else peaks,
                                    custom_avg_load_shape=None if plain else avgs)
    h.eq(b.daily_dhw_use_supplyT_gal, h.total([s.daily_dhw_use_supplyT_gal for s in subs]),
         "mixed use: daily use is the sum of the parts", 1e-4)
    hr = h.pick("hr", [0, 3, 6, 12, 20, 23])
    for avg in (False, True):
        h.eq(b.get_dhw_load_supplyT_gal(hr, 60, avg),
             h.total([s.get_dhw_load_supplyT_gal(hr, 60, avg) for s in subs]),
             "mixed use: hourly demand is the sum of the parts", 1e-4)


def h_annual(h):
    """Switching to the annual profile and back restores the daily profiles."""
    from ecoengine.objects.building.Building import Building
    m = h.real("m", 1, 3000)
    g = h.real("g", 5, 60)
    b = Building.from_building_type("multi_family", m, None, gpdpp=g)
    p0, a0 = list(b.peak_load_shape), list(b.avg_load_shape)
    h.ok(not b.is_annual_load_shape(), "starts on the daily profile")
    b.set_to_annual_load_shape()
    h.ok(b.is_annual_load_shape(), "annual profile active")
    t = h.int("t", 0, 8759)
    d = _data("multi_family")["loadshapes"]["Annual_Normalized"]
    h.ok(len(d) == 8760, "a year of hours")
    for k in (0, 1, 23, 24, 4000, 8759):
        for a in (False, True):
            h.eq(b.get_dhw_load_supplyT_gal(k * 6 + 5, 10, a), g * m * d[k] / 6, "every hour of the year has its own demand", 1e-6)
    b.set_to_daily_load_shape()
    h.ok(not b.is_annual_load_shape(), "daily profile active again")
    h.ok(list(b.peak_load_shape) == p0 and list(b.avg_load_shape) == a0, "daily profiles restored")
    h.eq(b.daily_dhw_use_supplyT_gal, g * m, "daily use unaffected by the switch", 1e-5)
    c = Building.from_building_type("multi_family", m, None, gpdpp=g, annual=True)
    h.ok(c.is_annual_load_shape(), "annual=True starts on the annual profile")
    e = Building(None, g * m, d, d, building_type="multi_family")
    e.set_to_daily_load_shape()
    w = _data("multi_family")["loadshapes"]
    h.ok(list(e.peak_load_shape) == w["Stream"] and list(e.avg_load_shape) == w["Stream_Avg"], "a building given only the annual profile gets the standard daily profiles")


def _data(bt):
    import importlib.resources as r
    import json
    with (r.files("ecoengine.data.load_shapes") / f"{bt}.json").open("r") as f:
        return json.load(f)


def h_standard(h, key, n_br=None):
    """Multi-family daily use by a published rate instead of a given one."""
    from ecoengine.objects.building.Building import Building
    m, g = h.real("magnitude", 0.5, 5000), h.real("gpdpp", 1, 100)
    d = _data("multi_family")
    if key == "ca":
        tot = sorted(sum(n_br[i] * d["ca_gpdpp"][f"{i}br"][j] for i in range(6)) for j in range(365))
        k = 364 * 0.98
        lo = int(k)
        rate = (tot[lo] + (k - lo) * (tot[lo + 1] - tot[lo])) / sum(n_br)
        tol = 0.0501
    else:
        rate, tol = d["gpdpp"][key][0], 1e-9
    lists = h.flag("lists")
    b = Building.from_building_type(["multi_family"] if lists else "multi_family", [m] if lists else m, None, gpdpp=g, standard_gpd=key, n_br=n_br)
    h.le(h.max(b.daily_dhw_use_supplyT_gal - rate * m, rate * m - b.daily_dhw_use_supplyT_gal), (tol + 1e-9) * m, "daily use at the published rate (a design day exceeded on 2 % of days)")
    h.ok([float(x) for x in b.peak_load_shape] == d["loadshapes"]["Stream"] and [float(x) for x in b.avg_load_shape] == d["loadshapes"]["Stream_Avg"], "the type's own profiles")
    t = h.real("other", 1, 900)
    c = Building.from_building_type(["multi_family", "motel"], [m, t], None, gpdpp=g, standard_gpd=key, n_br=n_br)
    h.eq(c.daily_dhw_use_supplyT_gal, b.daily_dhw_use_supplyT_gal + 21.4 * t, "mixed use: daily use is the sum of the parts", 1e-4)


def h_refused(h, case):
    """Arguments that name no building are refused."""
    from ecoengine.objects.building.Building import Building
    from props.common import raises
    m = h.real("m", 1, 900)
    F = Building.from_building_type
    calls = dict(
        types=[lambda: F("castle", m, None), lambda: F(3, m, None), lambda: F(["motel", "castle"], [m, m], None)],
        mags=[lambda: F(["motel", "apartment"], m, None), lambda: F(["motel", "apartment"], [m], None), lambda: F(["motel", "apartment"], [m, m, m], None), lambda: F("motel", [m, m], None), lambda: F("motel", None, None),
              lambda: F(["motel", "apartment"], [m, 0], None), lambda: F(["motel", "apartment"], [m, -m], None)],
        shapes=[lambda: F(None, m, None), lambda: F(["motel", None], [m, m], None), lambda: F(["motel", "apartment"], [m, m], None, custom_peak_load_shape=[1 / 24] * 24),
                lambda: F(["motel", "apartment"], [m, m], None, custom_avg_load_shape=[[1 / 24] * 24]), lambda: F(["motel", "apartment"], [m, m], None, custom_peak_load_shape=[[1 / 24] * 24, [1 / 23] * 23])],
        standard=[lambda: F("multi_family", m, None, standard_gpd="mine"), lambda: F("multi_family", m, None, standard_gpd=3), lambda: F("multi_family", m, None, standard_gpd="ca"),
                  lambda: F("multi_family", m, None, standard_gpd="ca", n_br=[1, 2, 3]), lambda: F("multi_family", m, None, standard_gpd="ca", n_br=[0] * 6), lambda: F("multi_family", m, None, gpdpp="many")],
        annual=[lambda: F("motel", m, None, annual=True), lambda: F("motel", m, None).set_to_annual_load_shape(), lambda: F("motel", m, None).set_to_daily_load_shape()])[case]
    k = h.pick("case", list(range(len(calls))))
    h.ok(isinstance(raises(calls[k]), ValueError), "arguments that name no building are refused with a ValueError")


NT = list(RATES) + ["multi_family"]
HARNESSES = [
    dict(name="step", fn=h_step, quick=[dict(interval=i, n=n) for i in (1, 2, 5, 10, 15, 30, 60) for n in (24, 8760)],
         thorough=[dict(interval=i, n=n) for i in (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60) for n in (24, 8760)]),
    dict(name="day", fn=h_day, quick=[dict(interval=60), dict(interval=30)],
         thorough=[dict(interval=i) for i in (60, 30, 20, 15)]),
    dict(name="named", fn=h_named, quick=[dict(bt=b) for b in NT]),
    dict(name="bad_magnitude", fn=h_bad_magnitude, quick=[dict(bt="multi_family"), dict(bt="motel")]),
    dict(name="custom", fn=h_custom, quick=[dict(which="peak"), dict(which="avg"), dict(which="peak", bt="motel")]),
    dict(name="length", fn=h_length, quick=[dict(which=w, n=n, bt=b) for w in ("peak", "avg") for n in (23, 25, 12)
                                            for b in ("apartment", None)]),
    dict(name="untyped", fn=h_untyped, quick=[dict(mode="derive"), dict(mode="given")]),
    dict(name="multi", fn=h_multi, quick=[dict(types=t) for t in (["apartment", "office_building"], ["motel", None],
                                                                  [None, None], ["multi_family", "motel", None])]),
    dict(name="annual", fn=h_annual, quick=[{}]),
    dict(name="standard", fn=h_standard, quick=[dict(key=k) for k in ("ashLow", "ashMed", "ecoMark")] + [dict(key="ca", n_br=n) for n in ([10, 20, 5, 0, 0, 0], [0, 0, 0, 0, 0, 7], [1, 2, 3, 4, 5, 6], [0, 0, 40, 11, 0, 1])]),
    dict(name="refused", fn=h_refused, quick=[dict(case=c) for c in ("types", "mags", "shapes", "standard", "annual")]),
]
