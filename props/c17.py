def _system(h, steps, default, supply, storage, on, kind="plain"):
    """A real system (tanks, heater, controls) whose single-step behaviour is given by tables."""
    from ecoengine.objects.components.heating.Controls import Controls
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    base = {"plain": DHWSystem, "tm": ParallelLoopSystem, "swing": SwingSystem}[kind]

    class Sys(base):
        calls = ()
        start = tm_start = heaters_on = None

        def simulate_step(self, building, timestep_interval, interval_min=1, mode="normal"):
            if self.start is None:
                self.calls = []
                self.heaters_on = [w.is_active() for w in self.water_heaters + [getattr(self, 'tm_water_heater', None)] if w is not None]
                t = self.storage_tank
                self.start = [t.get_temperature_at_fraction(f) for f in HEIGHTS]
                if kind != "plain":
                    self.tm_start = self.tm_storage_tank.get_temperature_at_fraction(0.5)
            self.calls.append((timestep_interval, interval_min))
            return dict(steps.get(timestep_interval, default))

    cm = {"normal": Controls(on, 110.0, 0.2, 140.0, 150.0)} if on is not None else None
    wh = [WaterHeater.from_nominal_capacity(100.0, ["normal"] * 24 if cm else None, cm)] if cm else []
    tank = StratifiedTank(300.0)
    if kind == "plain":
        return Sys(wh, tank, supply, storage)
    if kind == "tm":
        return Sys(wh, tank, supply, storage, 105.0, 3.0, 118.0, 128.0, tm_storage_tank=MixedStorageTank(80.0),
                   tm_water_heater=WaterHeater.from_nominal_capacity(20.0, None, None))
    x = Sys(wh, tank, supply, storage, 105.0, 3.0)
    x.tm_storage_tank = MixedStorageTank(80.0)
    x.tm_water_heater = WaterHeater.from_nominal_capacity(20.0, None, None)
    return x


HEIGHTS = (0.0, 0.1, 0.35, 0.5, 0.62, 0.8, 1.0)


def _step(d, u, o, p, oat, inlet, top, mode="normal", **kw):
    return dict(demand_supplyT_gal=d, usable_volume_supplyT_gal=u, heater_output_kbtuh=o, heater_power_in_kw=p,
                oat_f=oat, inlet_water_temp_f=inlet, tank_temps_f=[50.0, 60.0, 70.0, 80.0, 90.0, top], mode=mode, **kw)


def _bldg(t):
    from ecoengine.objects.building.Building import Building
    return Building(None, 500.0, [1 / 24] * 24, [1 / 24] * 24, design_inlet_water_temp_f=t, design_oat_f=40.0)


def h_simulate(h, dur, at, tm=False, swing=False, supply_thr=(120.0, 5.0)):
    """The simulation loop over a system with arbitrary behaviour at some steps."""
    from ecoengine.interfaces import Simulator as S
    supply, thr = supply_thr
    storage = h.real("storage", 130, 160)
    inlet = h.real("inlet", 35, 75)
    on = h.real("on", 0, 1)
    ts, n = (1, 4320) if dur == "3day" else (10, 52560)
    limit = h.int("limit", 0, 3) * ts
    steps, raw = {}, {}
    for j, i in enumerate(at):
        u = h.real(f"usable{j}", -5, 40)
        top = h.real(f"top{j}", 60, 160)
        d, o, p = h.real(f"dem{j}", 0, 20), h.real(f"out{j}", 0, 400), (h.real(f"kw{j}", 0.01, 90) if j % 2 else None)
        oat = h.real(f"oat{j}", -10, 100)
        kw = {}
        if tm:
            kw = dict(tm_tank_temp_f=h.real(f"tmt{j}", 100, 140), tm_heater_output_kbtuh=h.real(f"tmo{j}", 0, 50),
                      tm_heater_input_kw=(h.real(f"tmk{j}", 0.01, 20) if j % 2 == 0 else None))
        if swing:
            kw["delivery_temp_f"] = h.real(f"deliv{j}", 60, 160)
        raw[i] = (d, u, o, p, oat, top, kw)
        steps[i] = _step(d, u, o, p, oat, 50.0, top, "shed" if j % 2 else "normal", **kw)
    dk = dict(tm_tank_temp_f=120.0, tm_heater_output_kbtuh=0.0, tm_heater_input_kw=None) if tm else {}
    if swing:
        dk["delivery_temp_f"] = 150.0
    default = _step(1.0, 50.0, 0.0, None, 45.0, 50.0, 150.0, **dk)
    sys_ = _system(h, steps, default, supply, storage, on, "swing" if swing else "tm" if tm else "plain")
    for w in sys_.water_heaters + [getattr(sys_, "tm_water_heater", None)]:
        if w is not None:
            w.turn_on()             # as an earlier run may leave them
    r = S.simulate(sys_, _bldg(inlet), dur, outlet_deficit_threshold_f=thr, outlet_deficit_max_min=limit)
    # replay the stop rule independently
    consec, stop, outage = 0, None, 0
    for i in range(n):
        if i not in raw:
            consec = 0
            if i > max(at):
                break
            continue
        d, u, o, p, oat, top, kw = raw[i]
        if u <= 0.0:
            outage += ts
        dt = kw["delivery_temp_f"] if swing else top
        if dt < supply - thr:
            consec += ts
            if consec > limit:
                stop = i
                break
        else:
            consec = 0
    cnt = n if stop is None else stop + 1
    h.ok(bool(r.stopped_early) == (stop is not None), "halted exactly when the outlet stays too cold for too long")
    for nm in ("dhw_demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw", "oat_f",
               "inlet_water_temp_f", "heater_mode"):
        h.ok(len(getattr(r, nm)) == cnt, "every series has one entry per simulated step")
    h.ok(all(len(x) == cnt for x in r.tank_temps_f), "every tank node has one entry per simulated step")
    if tm:
        h.ok(len(r.tm_tank_temp_f) == cnt and len(r.tm_heater_output_kbtuh) == cnt and len(r.tm_heater_input_kw) == cnt,
             "TM series have one entry per simulated step")
    else:
        h.ok(not r.tm_tank_temp_f and not r.tm_heater_input_kw, "no TM series without a TM tank")
    h.ok(sys_.calls == [(i, ts) for i in range(cnt)], "steps simulated once each, in order")
    for j, i in enumerate(at):
        if i >= cnt:
            continue
        d, u, o, p, oat, top, kw = raw[i]
        h.same(r.dhw_demand_supplyT_gal[i], d, "demand recorded at its step")
        h.same(r.usable_volume_supplyT_gal[i], u, "usable volume recorded at its step")
        h.same(r.heater_output_kbtuh[i], o, "output recorded at its step")
        h.same(r.heater_power_in_kw[i], p, "power recorded at its step")
        h.same(r.oat_f[i], oat, "outdoor temperature recorded at its step")
        h.same(r.tank_temps_f[5][i], top, "tank top recorded at its step")
        h.ok(r.heater_mode[i] == ("shed" if j % 2 else "normal"), "mode recorded at its step")
        if tm:
            h.same(r.tm_tank_temp_f[i], kw["tm_tank_temp_f"], "TM temperature recorded at its step")
            h.same(r.tm_heater_output_kbtuh[i], kw["tm_heater_output_kbtuh"], "TM output recorded at its step")
            h.same(r.tm_heater_input_kw[i], kw["tm_heater_input_kw"], "TM power recorded at its step")
    h.eq(r.outage_minutes, outage, "outage minutes are the minutes without usable water", 1e-9)
    h.ok(bool(r.is_successful()) == (outage == 0), "successful exactly when there was no outage")
    k = h.int("allow", 0, 3) * ts
    h.ok(bool(r.is_successful(k)) == bool(outage <= k), "tolerance on outage minutes")
    s = r.get_summary()
    h.ok(s["num_steps_recorded"] == cnt and bool(s["stopped_early"]) == (stop is not None) and
         bool(s["successful"]) == (outage == 0), "summary reflects the run")
    h.eq(s["total_outage_min"], outage, "summary outage", 1e-9)
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    h.ok(not any(sys_.heaters_on), "every run starts with the heaters off")
    ref = StratifiedTank(300.0)
    ref.initialize(storage, inlet, 1 - on)
    for f, got in zip(HEIGHTS, sys_.start):
        h.eq(got, ref.get_temperature_at_fraction(f), "the run starts from a tank charged down to the ON sensor", 1e-4)
    if tm:
        h.eq(sys_.tm_start, supply + 8 if swing else 128.0, "TM tank starts at its off temperature", 1e-4)
    h.eq(r.supply_temp_f, supply, "supply temperature noted")


def h_bad(h):
    from ecoengine.interfaces import Simulator as S
    from props.common import raises
    for bad in ("1day", "", None, "Annual", 3):
        h.ok(isinstance(raises(lambda: S.simulate(_system(h, {}, _step(1., 1., 1., None, 1., 1., 150.), 120., 150., None), _bldg(50.), bad)), ValueError),
             "unknown duration rejected")


def h_deficit(h, n, ts):
    """Stop rule over arbitrary sequences of delivery temperatures."""
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    thr, sup = h.real("threshold", 0, 20), h.real("supply", 100, 140)
    lim = h.int("limit", 0, (n - 1) * ts)
    r = SimulationRun(4320, ts, thr, lim)
    consec, stopped = 0, False
    for i in range(n):
        t = h.real(f"t{i}", 60, 160)
        got = r.check_outlet_deficit(t, sup)
        if t < sup - thr:
            consec += ts
        else:
            consec = 0
        want = bool(consec > lim)
        stopped = stopped or want
        h.ok(bool(got) == want, "stop exactly when the consecutive deficit exceeds the allowance")
        h.ok(bool(r.stopped_early) == stopped, "early stop remembered")
        if want:
            return


def h_csv(h, n):
    """Exported rows are the recorded values, in order."""
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    from symx import vcsv
    ts = h.pick("ts", [1, 10])
    r = SimulationRun(4320, ts)
    rec = []
    for i in range(n):
        v = [h.real(f"v{i}_{k}", -10, 300) for k in range(6)]
        temps = [h.real(f"t{i}_{k}", 30, 180) for k in range(6)]
        p = v[3] if i != 1 else None
        r.record_timestep(v[0], v[1], v[2], p, v[4], v[5], temps)
        rec.append((v[:3] + [p] + v[4:], temps))
    with vcsv.files(h) as f:
        r.to_csv(f("run.csv"))
        rows = vcsv.rows_of(h, f("run.csv"))
    h.ok(len(rows) == n + 1, "one row per step")
    head = rows[0]
    cols = ["dhw_demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw", "oat_f",
            "inlet_water_temp_f"]
    tcols = [f"tank_temp_{k}pct" for k in (0, 20, 40, 60, 80, 100)]
    for i, (v, temps) in enumerate(rec):
        row = rows[i + 1]
        h.ok(vcsv.cell_num(row[head.index("timestep")]) == i and vcsv.cell_num(row[head.index("time_min")]) == i * ts, "rows carry their time")
        for c, x in list(zip(cols, v)) + list(zip(tcols, temps)):
            cell = row[head.index(c)]
            if x is None:
                h.ok(cell == "", "missing power left blank")
            else:
                h.eq(vcsv.cell_num(cell), x, "exported value is the recorded one", 1e-9)


def h_fail(h, n, tm=None):
    """Failure report: outage minutes, first failing day and average delivered temperature over the outage."""
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    from props.figures import numbers, plotting
    ts = 720
    r = SimulationRun(720 * n, ts)
    r.show_tm_panel = tm == "swing"         # what the simulation loop sets for swing systems
    bad, temps = [], []
    for i in range(n):
        u = h.real(f"u{i}", -5, 5)
        top, tmt = h.real(f"top{i}", 60, 160), h.real(f"tm{i}", 60, 160)
        r.record_timestep(1.0, u, 0.0, None, 50.0, 55.0, [60.0] * 5 + [top], "normal",
                          **(dict(tm_tank_temp_f=tmt, tm_heater_output_kbtuh=1.0, tm_heater_input_kw=0.3) if tm else {}))
        temps.append(tmt if tm == "swing" else top)
        if u <= 0:
            bad.append(i)
            r.record_outage(ts)
    with plotting() as printed:
        m = r.get_failure_message()
    if not bad:
        h.ok("succeeded" in m and not numbers(m, printed), "success reported")
        return
    h.ok("failed" in m, "failure reported")
    nums = numbers(m, printed)
    h.ok(len(nums) == 3, "failure report names minutes, day and temperature")
    h.eq(nums[0][0], len(bad) * ts, "failure report names the outage minutes", 1e-6)
    h.eq(nums[1][0], bad[0] * ts // 1440 + 1, "failure report names the first failing day", 1e-6)
    h.eq(nums[2][0], sum(temps[i] for i in bad) / len(bad), "failure report names the average delivered temperature over the outage",
         max(0.06, nums[2][1]) if not h.symbolic else 0.06)


HARNESSES = [
    dict(name="simulate", fn=h_simulate, quick=[dict(dur="3day", at=[0, 1, 2, 3], supply_thr=(125.0, 7.5)), dict(dur="3day", at=[10, 11, 13], tm=True),
                                                dict(dur="3day", at=[4317, 4318, 4319], tm=True, swing=True),
                                                dict(dur="annual", at=[5, 6], tm=True), dict(dur="annual", at=[52559])],
         thorough=[dict(dur="3day", at=[0, 1, 2, 3, 4]), dict(dur="3day", at=[10, 11, 13, 14, 15], tm=True),
                   dict(dur="3day", at=[4315, 4316, 4317, 4318, 4319], tm=True, swing=True),
                   dict(dur="annual", at=[5, 6, 7], tm=True), dict(dur="annual", at=[52558, 52559])],
         opts=dict(time_s=200)),
    dict(name="bad", fn=h_bad, quick=[{}]),
    dict(name="deficit", fn=h_deficit, quick=[dict(n=6, ts=1), dict(n=5, ts=10), dict(n=5, ts=4)], thorough=[dict(n=9, ts=1), dict(n=8, ts=10), dict(n=8, ts=4)],
         opts=dict(time_s=120)),
    dict(name="csv", fn=h_csv, quick=[dict(n=3)]),
    dict(name="fail", fn=h_fail, quick=[dict(n=5), dict(n=4, tm="swing"), dict(n=4, tm="loop")], thorough=[dict(n=7), dict(n=6, tm="swing"), dict(n=5, tm="loop")]),
]
