MH = [0, 744, 1416, 2160, 2880, 3624, 4344, 5088, 5832, 6552, 7296, 8016, 8760]


def _run(h, ts, dur):
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    return SimulationRun(dur, ts)


def _rates(h, kind):
    """A rate structure (through the public constructors) with arbitrary prices, and an independent reading of it."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    base = h.real("base", 0, 500)
    if kind == "tou":
        p = {k: (h.real(f"e_{k}", 0, 1), h.real(f"d_{k}", 0, 50)) for k in ("pk", "off")}
        u = U.from_params(base, 16, 21, p["pk"][1], p["pk"][0], p["off"][1], p["off"][0])
        kof = lambda hr: "pk" if 16 <= hr % 24 < 21 else "off"
        pr = lambda hr: p[kof(hr)]
    elif kind == "seasonal3":
        p = {(k, s): (h.real(f"e_{k}{s}", 0, 1), h.real(f"d_{k}{s}", 0, 50)) for k in ("pk", "off", "dc") for s in (0, 1)}
        g = lambda k, j: [p[(k, 0)][j], p[(k, 1)][j]]
        u = U.from_params(base, [16, 17], [21, 20], g("pk", 1), g("pk", 0), g("off", 1), g("off", 0),
                          start_month=[0, 6], end_month=[6, 12], include_discount=True, dscnt_start_hour=[22, 0],
                          dscnt_end_hour=[5, 6], discnt_demand_charge=g("dc", 1), discnt_energy_charge=g("dc", 0))

        def kof(hr):
            s, hod = (0 if hr < MH[6] else 1), hr % 24
            if (16, 17)[s] <= hod < (21, 20)[s]:
                return "pk"
            if (hod >= 22 or hod < 5) if s == 0 else hod < 6:
                return "dc"
            return "off"

        pr = lambda hr: p[(kof(hr), 0 if hr < MH[6] else 1)]
    else:
        # labels as a CSV may carry them: not derived from the month
        lab = {"pk": 41, "off": 8}
        p = {k: (h.real(f"e_{k}", 0, 1), h.real(f"d_{k}", 0, 50)) for k in ("pk", "off")}
        kof = lambda hr: "pk" if 16 <= hr % 24 < 21 else "off"
        mon = lambda hr: max(m for m in range(12) if hr >= MH[m])
        chart = [lab[kof(i)] + 100 * mon(i) for i in range(8760)]
        u = U(chart, {lab[k] + 100 * m: p[k][1] for k in lab for m in range(12)},
              {lab[k] + 100 * m: p[k][0] for k in lab for m in range(12)},
              {lab[k] + 100 * m: k == "pk" for k in lab for m in range(12)},
              {lab[k] + 100 * m: False for k in lab for m in range(12)}, base)
        pr = lambda hr: p[kof(hr)]
    return u, base, kof, pr


def _month(hr):
    return max(m for m in range(12) if hr >= MH[m])


def h_cost(h, kind, hours, ts=60, tm=True, n=None):
    """Bill of a year with arbitrary power at some hours (elsewhere idle), arbitrary prices."""
    u, base, kof, pr = _rates(h, kind)
    sr = _run(h, ts, 525600)
    per = 60 // ts
    n = n or (max(hours) + 1) * per
    kw, tmk = {}, {}
    for j, hr in enumerate(hours):
        for q in range(min(per, 2)):
            i = hr * per + q * (per - 1)
            # a step whose primary heater reports no power (off, or without power data) while the TM heater runs
            kw[i] = h.real(f"kw{j}_{q}", 0 if j == 0 else 0.01, 300) if not (tm and j == 2) else None
            tmk[i] = h.real(f"tm{j}_{q}", 0 if j == 0 else 0.01, 60) if tm and j % 2 == 0 else None
    for i in range(n):
        sr.record_timestep(1.0, 5.0, 0.0, kw.get(i), 50.0, 50.0, [120.0] * 6, "normal", 120.0 if tm else None,
                           0.0 if tm else None, tmk.get(i) if tm else None)
    tot = {i: (kw[i] if kw[i] is not None else 0.0) + (tmk[i] if tmk[i] is not None else 0.0) for i in kw}
    hps = ts / 60.0
    en = [0.0] * 12
    enp = [0.0] * 12
    mx, seen = {}, set()
    for i in range(n):
        hr = i * ts // 60
        seen.add((_month(hr), kof(hr)))
    for k in seen:
        mx[k] = 0.0
    for i, v in tot.items():
        hr = i * ts // 60
        c = v * hps * pr(hr)[0]
        en[_month(hr)] = en[_month(hr)] + c
        if kof(hr) == "pk":
            enp[_month(hr)] = enp[_month(hr)] + c
        mx[(_month(hr), kof(hr))] = h.max(mx[(_month(hr), kof(hr))], v)
    hr_of = {}
    for i in range(n):
        hr = i * ts // 60
        hr_of.setdefault((_month(hr), kof(hr)), hr)
    dm, dmp = [0.0] * 12, [0.0] * 12
    for (m, k), v in mx.items():
        c = v * pr(hr_of[(m, k)])[1]
        dm[m] = dm[m] + c
        if k == "pk":
            dmp[m] = dmp[m] + c
    want = h.total(en) + h.total(dm) + 12 * base
    got = sr.get_annual_utility_cost(u)
    h.eq(got, want, "annual cost is energy at its hour's rate, plus peak demand per period, plus the base charges", 1e-4)
    b = sr.get_monthly_cost_breakdown(u)
    for m in range(12):
        h.eq(b["energy"][m], en[m], "monthly energy cost", 1e-4)
        h.eq(b["demand"][m], dm[m], "monthly demand cost", 1e-4)
    h.eq(b["base"], base, "monthly base charge", 1e-6)
    h.eq(h.total(b["energy"]) + h.total(b["demand"]) + 12 * b["base"], got, "months add up to the year", 1e-4)
    d = sr.get_monthly_cost_breakdown_detailed(u)
    for m in range(12):
        h.eq(d["energy_peak"][m], enp[m], "monthly peak energy cost", 1e-4)
        h.eq(d["energy_off_peak"][m], en[m] - enp[m], "monthly off-peak energy cost", 1e-4)
        h.eq(d["demand_peak"][m], dmp[m], "monthly peak demand cost", 1e-4)
        h.eq(d["demand_off_peak"][m], dm[m] - dmp[m], "monthly off-peak demand cost", 1e-4)
    h.eq(d["base"], base, "monthly base charge", 1e-6)


def h_energy(h, hours, ts=60, tm=True):
    """Energy and peak power of a recorded year."""
    sr = _run(h, ts, 525600)
    per = 60 // ts
    n = (max(hours) + 1) * per
    kw, tmk = {}, {}
    for j, hr in enumerate(hours):
        i = hr * per + (per - 1)
        kw[i] = h.real(f"kw{j}", 0, 300) if j != 1 else None
        tmk[i] = h.real(f"tm{j}", 0, 60) if tm and j != 2 else None
    for i in range(n):
        sr.record_timestep(1.0, 5.0, 0.0, kw.get(i), 50.0, 50.0, [120.0] * 6, "normal", 120.0 if tm else None,
                           0.0 if tm else None, tmk.get(i) if tm else None)
    tot = {i: (kw[i] if kw[i] is not None else 0.0) + (tmk[i] if tmk[i] is not None else 0.0) for i in kw}
    hps = ts / 60.0
    want = h.total([v * hps for v in tot.values()])
    got = sr.get_total_energy_kwh()
    h.eq(got, want, "total energy is power times time over primary and TM heaters", 1e-5)
    mon = sr.get_monthly_energy_kwh()
    wm = [0.0] * 12
    for i, v in tot.items():
        wm[_month(i * ts // 60)] = wm[_month(i * ts // 60)] + v * hps
    for m in range(12):
        h.eq(mon[m], wm[m], "monthly energy", 1e-5)
    h.eq(h.total(mon), got, "monthly energy adds up to the total", 1e-5)
    pk = sr.get_peak_demand_kw()
    for v in tot.values():
        h.ge(pk, v, "peak power covers every step")
    h.ok(h.Or(pk <= 0, *[pk <= v + 1e-6 for v in tot.values()]), "peak power is attained")
    s = sr.get_summary()
    h.eq(s["total_energy_kwh"], got, "summary energy", 1e-6)
    h.eq(s["peak_demand_kw"], pk, "summary peak", 1e-6)


B = [0, 17, 743, 744]
END = [8015, 8016, 8746, 8759]
HARNESSES = [
    dict(name="cost", fn=h_cost, quick=[dict(kind=k, hours=hs, tm=tm) for k in ("tou", "seasonal3", "labels")
                                        for hs, tm in ((B, True), ([16, 17, 20, 21], False), (END, True))] +
         [dict(kind="tou", hours=[0, 40], ts=10), dict(kind="tou", hours=[0, 743, 744], ts=10, tm=False),
          dict(kind="seasonal3", hours=[4343, 4344, 4361], ts=60)] +
         [dict(kind="tou", hours=[MH[m] - 1, MH[m], MH[m + 1] - 1, MH[m + 1]]) for m in (2, 4, 6, 8, 10)],
         thorough=[dict(kind=k, hours=hs, tm=tm, ts=ts) for k in ("tou", "seasonal3", "labels") for tm in (True, False)
                   for hs, ts in ((B, 60), ([16, 17, 20, 21, 22], 60), (END, 60), ([1415, 1416, 2159, 2160], 60),
                                  ([5, 21, 743, 744, 761], 10), ([0, 16, 17], 1), ([4343, 4344, 4361], 60))],
         opts=dict(time_s=200, fork_minmax=True)),
    dict(name="energy", fn=h_energy, quick=[dict(hours=B), dict(hours=B, tm=False), dict(hours=END), dict(hours=[1, 743, 744, 1416], ts=10)] +
         [dict(hours=[MH[m] - 1, MH[m], MH[m + 1] - 1, MH[m + 1]]) for m in (2, 4, 6, 8, 10)],
         opts=dict(time_s=120)),
]
