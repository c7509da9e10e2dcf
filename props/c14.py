MH = [0, 744, 1416, 2160, 2880, 3624, 4344, 5088, 5832, 6552, 7296, 8016, 8760]


def _month(hr):
    return max(m for m in range(12) if hr >= MH[m])


def _in(hod, s, e):
    """hour-of-day inside [s, e), wrapping past midnight when e < s"""
    if e < s:
        return hod >= s or hod < e
    return s <= hod < e


def _hours(days):
    """all 24 hours of the first/last/some middle day of each month"""
    out = []
    for m in range(12):
        n = (MH[m + 1] - MH[m]) // 24
        for d in days:
            dd = {"first": 0, "last": n - 1, "mid": n // 2}[d]
            out += [MH[m] + 24 * dd + k for k in range(24)]
    return out


def h_flat(h, lo, hi, end):
    """One rate block, any whole-hour peak window."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    s = h.int("pk_start", lo, hi)
    e = h.int("pk_end", 0, 24)
    h.assume(e >= s)
    if end is not None:
        h.assume(e == end) if h.symbolic else None
    pe, oe = h.real("pk_energy", 0, 2), h.real("off_energy", 0, 2)
    pd, od = h.real("pk_demand", 0, 90), h.real("off_demand", 0, 90)
    base = h.real("base", 0, 900)
    u = U.from_params(base, s, e, pd, pe, od, oe)
    s, e = s.__index__(), e.__index__()
    _check(h, u, _hours(["first", "mid", "last"]),
           lambda m, hod: ("pk", pe, pd) if _in(hod, s, e) else ("off", oe, od))
    h.eq(u.get_yearly_base_charge(), 12 * base, "twelve monthly base charges a year", 1e-6)


def _check(h, u, hours, want, discount=False):
    per = {}
    for hr in hours:
        m = _month(hr)
        kind, er, dr = want(m, hr % 24)
        h.eq(u.get_energy_charge_at_step(hr, 60), er, f"{kind} hours pay the {kind} energy rate of their month")
        k = u.get_demand_period_at_step(hr, 60)
        per.setdefault((m, kind), set()).add(k)
        if len(per[(m, kind)]) == 1:
            h.eq(u.get_demand_charge_for_period(k, 2.5), 2.5 * dr, f"{kind} demand charged at the {kind} rate of its month", 1e-6)
            h.ok(bool(u.is_peak_map[k]) == (kind == "pk"), "peak periods flagged")
            h.ok(bool(u.is_discount_map[k]) == (kind == "dc"), "discount periods flagged")
    h.ok(all(len(v) == 1 for v in per.values()), "one demand period per month and kind")
    allk = [next(iter(v)) for v in per.values()]
    h.ok(len(set(allk)) == len(allk), "demand periods of different months or kinds are distinct")
    h.ok(set(allk) <= set(u.get_all_demand_period_keys()), "every demand period is listed")


def h_season(h, discount):
    """Seasonal blocks with their own windows and rates, optional discount window that may wrap midnight."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    cut = h.pick("cut", [1, 4, 6, 11])
    ps = [h.pick("ps0", [0, 15]), 16]
    pe_ = [h.pick("pe0", [16, 21, 24]), 20]
    en = {k: [h.real(f"{k}_e{i}", 0, 2) for i in range(2)] for k in ("pk", "off", "dc")}
    dm = {k: [h.real(f"{k}_d{i}", 0, 90) for i in range(2)] for k in ("pk", "off", "dc")}
    kw = {}
    ds = de = None
    if discount:
        ds = [h.pick("ds0", [22, 0]), 1]
        de = [h.pick("de0", [6, 3]), 9]
        kw = dict(include_discount=True, dscnt_start_hour=list(ds), dscnt_end_hour=list(de),
                  discnt_demand_charge=list(dm["dc"]), discnt_energy_charge=list(en["dc"]))
    u = U.from_params(10.0, list(ps), list(pe_), list(dm["pk"]), list(en["pk"]), list(dm["off"]), list(en["off"]),
                      start_month=[0, cut], end_month=[cut, 12], **kw)

    def want(m, hod):
        i = 0 if m < cut else 1
        if _in(hod, ps[i], pe_[i]):
            k = "pk"
        elif discount and _in(hod, ds[i], de[i]):
            k = "dc"
        else:
            k = "off"
        return k, en[k][i], dm[k][i]

    _check(h, u, _hours(["first", "last"]), want, discount)


def h_blocks(h, cuts, pk, dc, scalar=False):
    """Three seasons; a discount window anywhere (also across the peak), one for all seasons or one each."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    n = len(cuts) + 1
    en = {k: [h.real(f"{k}_e{i}", 0, 2) for i in range(n)] for k in ("pk", "off", "dc")}
    dm = {k: [h.real(f"{k}_d{i}", 0, 90) for i in range(n)] for k in ("pk", "off", "dc")}
    if scalar:
        for d in (en, dm):
            d["dc"] = [d["dc"][0]] * n
    one = (lambda v: v[0]) if scalar else list
    u = U.from_params(10.0, [p[0] for p in pk], [p[1] for p in pk], list(dm["pk"]), list(en["pk"]), list(dm["off"]), list(en["off"]),
                      start_month=[0] + cuts, end_month=cuts + [12], include_discount=True, dscnt_start_hour=one([d[0] for d in dc]),
                      dscnt_end_hour=one([d[1] for d in dc]), discnt_demand_charge=one(dm["dc"]), discnt_energy_charge=one(en["dc"]))

    def want(m, hod):
        i = sum(m >= c for c in cuts)
        k = "pk" if _in(hod, *pk[i]) else "dc" if _in(hod, *dc[i]) else "off"
        return k, en[k][i], dm[k][i]
    _check(h, u, _hours(["first", "mid", "last"]), want, True)


def h_lookup(h, interval, mode):
    """The hour whose rate applies to an arbitrary step."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    chart = h.seq("chart", 8760, 0, 35)
    rates = h.seq("rates", 8760, 0, 5)
    u = U([0] * 8760, {0: 1.0}, {0: 1.0}, {0: False}, {0: False}, 5.0)
    u.demand_period_chart = chart
    if mode == "hourly":
        u.energy_charge_by_hour = rates
    per = 60 // interval
    hr, k = h.int("hour", 0, 8759), h.int("k", 0, per - 1)
    t = hr * per + k
    if mode == "hourly":
        h.eq(u.get_energy_charge_at_step(t, interval), rates[hr], "energy rate is the one of the step's hour")
    h.eq(u.get_demand_period_at_step(t, interval), chart[hr], "demand period is the one of the step's hour")


def h_reject(h, what):
    """Malformed rate structures are rejected."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    from props.common import raises
    a = dict(monthly_base_charge=10.0, pk_start_hour=[16, 17], pk_end_hour=[21, 20], pk_demand_charge=[1.0, 2.0],
             pk_energy_charge=[0.2, 0.3], off_pk_demand_charge=[0.5, 0.4], off_pk_energy_charge=[0.1, 0.1],
             start_month=[0, 5], end_month=[5, 12])
    if what == "hours":
        s, e = h.int("s", -1, 24), h.int("e", 15, 26)
        h.assume(h.Or(s <= 1, s >= 22))
        a["pk_start_hour"] = [16, s]
        a["pk_end_hour"] = [21, e]
        good = h.And(s >= 0, s <= 23, e >= s, e <= 24)
    else:
        s0, e0, s1, e1 = h.int("s0", -1, 2), h.int("e0", 3, 7), h.int("s1", 3, 7), h.int("e1", 10, 13)
        a["start_month"], a["end_month"] = [s0, s1], [e0, e1]
        good = h.And(s0 == 0, e0 == s1, e1 == 12)
    ex = raises(lambda: U.from_params(**a))
    if good:
        h.ok(ex is None, "a well-formed rate structure is accepted")
    else:
        h.ok(isinstance(ex, ValueError), "a malformed rate structure is rejected")


def h_demand(h):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    from props.common import raises
    kw = h.real("kw", 0, 5000)
    r = h.real("rate", 0, 100)
    u = U.from_params(1.0, 16, 21, r, 0.2, 3.0, 0.1)
    k = u.get_demand_period_at_step(17, 60)
    h.eq(u.get_demand_charge_for_period(k, kw), r * kw, "demand charge is rate times peak power", 1e-5)
    ex = raises(lambda: u.get_demand_charge_for_period(9999, kw))
    h.ok(isinstance(ex, ValueError), "unknown demand period rejected")


HARNESSES = [
    dict(name="flat", fn=h_flat, quick=[dict(lo=a, hi=b, end=None) for a, b in ((0, 0), (5, 5), (14, 14), (17, 17), (20, 21), (22, 23))],
         thorough=[dict(lo=a, hi=a, end=None) for a in range(24)], opts=dict(time_s=150)),
    dict(name="season", fn=h_season, quick=[dict(discount=False), dict(discount=True)], opts=dict(time_s=150)),
    dict(name="blocks", fn=h_blocks, quick=[dict(cuts=[2, 7], pk=[(7, 10), (16, 21), (0, 3)], dc=[(12, 18), (18, 2), (23, 24)]),
                                            dict(cuts=[5, 6], pk=[(16.5, 20.5), (12, 24), (17, 17)], dc=[(21, 5), (21, 5), (21, 5)], scalar=True),
                                            dict(cuts=[10, 11], pk=[(0, 24), (5, 6), (22, 23)], dc=[(3, 9), (9, 3), (0, 24)])],
         thorough=[dict(cuts=[a, b], pk=[(7, 10), (16, 21), (0, 3)], dc=[(12, 18), (18, 2), (22, 23)]) for a in range(1, 11) for b in range(a + 1, 12)], opts=dict(time_s=150)),
    dict(name="lookup", fn=h_lookup, quick=[dict(interval=i, mode=m) for i in (1, 2, 5, 10, 15, 30, 60) for m in ("hourly", "period")]),
    dict(name="reject", fn=h_reject, quick=[dict(what="hours"), dict(what="months")], opts=dict(time_s=150)),
    dict(name="demand", fn=h_demand, quick=[{}]),
]
