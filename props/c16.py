MH = [0, 744, 1416, 2160, 2880, 3624, 4344, 5088, 5832, 6552, 7296, 8016, 8760]


def _same_bill(h, u, v, what):
    for hr in range(8760):
        h.eq(v.get_energy_charge_at_step(hr, 60), u.get_energy_charge_at_step(hr, 60), what + ": every hour keeps its energy rate", 1e-9)
    seen = set()
    for hr in range(8760):
        a, b = u.get_demand_period_at_step(hr, 60), v.get_demand_period_at_step(hr, 60)
        if (a, b) in seen:
            continue
        seen.add((a, b))
        h.eq(v.get_demand_charge_for_period(b, 1.0), u.get_demand_charge_for_period(a, 1.0), what + ": every hour keeps its demand rate", 1e-9)
    h.ok(len({a for a, _ in seen}) == len(seen) == len({b for _, b in seen}), what + ": hours stay grouped in the same demand periods")
    h.eq(v.get_yearly_base_charge(), u.get_yearly_base_charge(), what + ": base charge kept", 1e-6)


def h_export(h, kind, peak=(16, 21)):
    """Rate structure -> CSV -> rate structure."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    from symx import vcsv
    base = h.real("base", 0, 900)
    r = lambda n, hi: h.real(n, 0, hi)
    if kind == "flat":
        u = U.from_params(base, peak[0], peak[1], r("pd", 90), r("pe", 2), r("od", 90), r("oe", 2))
    elif kind == "season":
        u = U.from_params(base, [16, 17], [21, 20], [r("pd0", 90), r("pd1", 90)], [r("pe0", 2), r("pe1", 2)],
                          [r("od0", 90), r("od1", 90)], [r("oe0", 2), r("oe1", 2)], start_month=[0, 5], end_month=[5, 12])
    else:
        u = U.from_params(base, [16, 17], [21, 20], [r("pd0", 90), r("pd1", 90)], [r("pe0", 2), r("pe1", 2)],
                          [r("od0", 90), r("od1", 90)], [r("oe0", 2), r("oe1", 2)], start_month=[0, 8], end_month=[8, 12],
                          include_discount=True, dscnt_start_hour=[22, 1], dscnt_end_hour=[6, 7],
                          discnt_demand_charge=[r("dd0", 90), r("dd1", 90)], discnt_energy_charge=[r("de0", 2), r("de1", 2)])
    with vcsv.files(h) as f:
        u.to_csv(f("rates.csv"))
        v = U.from_csv(f("rates.csv"))
        _same_bill(h, u, v, "export and import")
        if kind != "discount":
            ks = {u.get_demand_period_at_step(hr, 60) for hr in range(8760)}
            h.ok(all(bool(v.is_peak_map[k]) == bool(u.is_peak_map[k]) for k in ks), "peak flags kept for two-period structures")
        v.to_csv(f("again.csv"))
        w = U.from_csv(f("again.csv"))
        _same_bill(h, v, w, "second export")
        rows = vcsv.rows_of(h, f("rates.csv"))
        h.ok(len(rows) == 8761, "one header and one row per hour")
        h.ok(rows[1 + 24 * 31][0].startswith("February 1,") and rows[8760][0].startswith("December 31, 23"), "rows dated by calendar")


def h_import(h, hours):
    """CSV with hour-specific energy rates -> rate structure -> CSV -> rate structure."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    from symx import vcsv
    import csv
    d = {p: (h.real(f"e{p}", 0, 2), h.real(f"d{p}", 0, 90)) for p in (3, 10)}
    base = h.real("base", 0, 900)
    own = {hr: h.real(f"own{hr}", 0, 2) for hr in hours}
    per = lambda hr: 3 if 8 <= hr % 24 < 20 else 10
    with vcsv.files(h) as f:
        path = f("in.csv")
        if h.symbolic:
            import sys
            fo = sys.modules[U.__module__].__dict__["open"](path, "w")
        else:
            fo = open(path, "w", newline="")
        with fo:
            w = csv.writer(fo)
            w.writerow(["Date", "Demand Period", "Energy Rate ($/kWh)", "Demand Rate ($/kW)", "Monthly Base Charge"])
            seen = set()
            for hr in range(8760):
                p = per(hr)
                first = p not in seen
                seen.add(p)
                w.writerow(["", p, own[hr] if hr in own else (d[p][0] if first else ""), d[p][1] if first else "",
                            base if hr == 0 else ""])
        u = U.from_csv(path)
        for hr in list(range(0, 48)) + [x + k for x in hours for k in (-1, 0, 1) if 0 <= x + k < 8760] + [8759]:
            h.eq(u.get_energy_charge_at_step(hr, 60), own.get(hr, d[per(hr)][0]), "hours read their own or their period's rate", 1e-9)
            h.ok(u.get_demand_period_at_step(hr, 60) == per(hr), "hours read their demand period")
        for p in d:
            h.eq(u.get_demand_charge_for_period(p, 1.0), d[p][1], "demand rate read from the period's first row", 1e-9)
            h.ok(bool(u.is_peak_map[p]) == (p % 2 == 1), "odd periods are peak")
        h.eq(u.get_yearly_base_charge(), 12 * base, "base charge read", 1e-6)
        u.to_csv(f("out.csv"))
        _same_bill(h, u, U.from_csv(f("out.csv")), "export and import")


def h_hourly(h, hours):
    """A structure with its own rate in some hours, a period's first hour among them -> CSV -> structure."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    from symx import vcsv
    e = {p: h.real(f"e{p}", 0, 2) for p in (0, 1)}
    chart = [1 if 8 <= hr % 24 < 20 else 0 for hr in range(8760)]
    rates = [e[p] for p in chart]
    for hr in hours:
        rates[hr] = h.real(f"own{hr}", 0, 2)
    u = U(chart, {p: h.real(f"d{p}", 0, 90) for p in (0, 1)}, dict(e), {0: False, 1: True}, {0: False, 1: False}, h.real("base", 0, 900), energy_charge_by_hour=rates)
    with vcsv.files(h) as f:
        u.to_csv(f("a.csv"))
        v = U.from_csv(f("a.csv"))
        _same_bill(h, u, v, "export and import")
        v.to_csv(f("b.csv"))
        _same_bill(h, u, U.from_csv(f("b.csv")), "second export")


COLS = ["Date", "Demand Period", "Energy Rate ($/kWh)", "Demand Rate ($/kW)", "Monthly Base Charge"]


def _open(h, U, path, mode):
    import sys
    return sys.modules[U.__module__].__dict__["open"](path, mode) if h.symbolic else open(path, mode, newline="")


def h_forms(h, order, trim):
    """Columns in any order, blank cells at the end of a row left out, by path or as an open file."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    from symx import vcsv
    import csv
    d = {p: (h.real(f"e{p}", 0, 2), h.real(f"d{p}", 0, 90)) for p in (1, 2, 13)}
    base = h.real("base", 0, 900)
    own = {hr: h.real(f"own{hr}", 0, 2) for hr in (40, 6001)}
    per = lambda hr: 13 if hr >= 6000 and hr % 24 < 8 else 1 if 8 <= hr % 24 < 20 else 2
    with vcsv.files(h) as f:
        path = f("in.csv")
        with _open(h, U, path, "w") as fo:
            w = csv.writer(fo)
            w.writerow([COLS[i] for i in order])
            seen = set()
            for hr in range(8760):
                p = per(hr)
                row = dict(zip(COLS, ["", p, own[hr] if hr in own and p in seen else d[p][0] if p not in seen else "", d[p][1] if p not in seen else "", base if hr == 0 else ""]))
                row = [row[COLS[i]] for i in order]
                while trim and row and isinstance(row[-1], str) and row[-1] == "":
                    row.pop()
                w.writerow(row)
                seen.add(p)
        if h.flag("as_file"):
            with _open(h, U, path, "r") as fo:
                u = U.from_csv(csv_file=fo)
        else:
            u = U.from_csv(path)
        for hr in [0, 7, 8, 19, 20, 39, 40, 41, 5999, 6000, 6001, 6002, 6008, 8759]:
            h.eq(u.get_energy_charge_at_step(hr, 60), own.get(hr, d[per(hr)][0]), "hours read their own or their period's rate", 1e-9)
            h.ok(u.get_demand_period_at_step(hr, 60) == per(hr), "hours read their demand period")
        for p in d:
            h.eq(u.get_demand_charge_for_period(p, 2.0), 2 * d[p][1], "demand rate read from the period's first row", 1e-9)
            h.ok(bool(u.is_peak_map[p]) == (p % 2 == 1) and not u.is_discount_map[p], "odd periods are peak")
        h.ok(sorted(u.get_all_demand_period_keys()) == sorted(d), "exactly the periods of the file")
        h.eq(u.get_yearly_base_charge(), 12 * base, "base charge read", 1e-6)


def h_refuse(h):
    """A file that does not state every hour's rates is refused as such."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    from symx import vcsv
    from props.common import raises
    import csv
    at = h.pick("row", [0, 1, 12, 4000, 8759])
    flaw = h.pick("flaw", ["none", "short", "long", "column", "period", "period blank", "energy", "energy text", "demand", "demand text", "base", "cut", "nothing"])
    col = h.pick("col", [1, 2, 3, 4]) if flaw == "column" else 0
    e, dm, base = h.real("e", 0, 2), h.real("d", 0, 90), h.real("base", 0, 900)
    new = flaw in ("energy", "demand", "demand text", "cut")
    rows = []
    for hr in range(8760):
        p = 7 if new and hr == at else 2
        first = hr == 0 or p == 7
        rows.append(["x", p, e if first else "", dm if first else "", base if hr == 0 else ""])
    head = list(COLS)
    if flaw == "short":
        rows.pop(at)
    elif flaw == "long":
        rows.insert(at + 1, ["x", 2, "", "", ""])
    elif flaw == "column":
        head[col] = "Other"
    elif flaw in ("period", "period blank"):
        rows[at][1] = "peak" if flaw == "period" else ""
    elif flaw.startswith("energy"):
        rows[at][2] = "" if flaw == "energy" else "cheap"
    elif flaw.startswith("demand"):
        rows[at][3] = "" if flaw == "demand" else "cheap"
    elif flaw == "base":
        rows[0][4] = "free"
    elif flaw == "cut":
        rows[at] = rows[at][:h.pick("cells", [1, 2, 3])]
    with vcsv.files(h) as f:
        with _open(h, U, f("in.csv"), "w") as fo:
            w = csv.writer(fo)
            w.writerow(head)
            for r in rows:
                w.writerow(r)
        ex = raises(lambda: U.from_csv(f("in.csv")) if flaw != "nothing" else U.from_csv())
    if flaw == "none":
        h.ok(ex is None, "a complete file is read")
    else:
        h.ok(isinstance(ex, ValueError), "an incomplete or unreadable file is refused with a ValueError")


HARNESSES = [
    dict(name="export", fn=h_export, quick=[dict(kind="flat"), dict(kind="flat", peak=(0, 24)), dict(kind="flat", peak=(0, 9)),
                                            dict(kind="season"), dict(kind="discount")], opts=dict(time_s=200)),
    dict(name="import", fn=h_import, quick=[dict(hours=[30, 31, 5000]), dict(hours=[8759]), dict(hours=[24, 100])], opts=dict(time_s=200)),
    dict(name="hourly", fn=h_hourly, quick=[dict(hours=[0]), dict(hours=[8]), dict(hours=[0, 30])], thorough=[dict(hours=[0, 8, 30]), dict(hours=[0, 8759])], opts=dict(time_s=200)),
    dict(name="forms", fn=h_forms, quick=[dict(order=[1, 0, 3, 2, 4], trim=True), dict(order=[4, 3, 2, 1, 0], trim=False), dict(order=[4, 1, 2, 3], trim=True), dict(order=[4, 1, 3, 2], trim=True)], opts=dict(time_s=100)),
    dict(name="refuse", fn=h_refuse, quick=[dict()], opts=dict(time_s=100)),
]
