from .common import raises



def ArbTank(temps):
    """Storage whose sensor temperatures are arbitrary: one free value per probed height."""
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank

    class Arb(StratifiedTank):
        def get_temperature_at_fraction(self, fract, *a, **k):
            return temps[fract] if fract in temps else StratifiedTank.get_temperature_at_fraction(self, fract, *a, **k)
    t = Arb(100.0)
    t.initialize(140.0, 50.0, 1.0)
    return t


MODES = {"normal": (0.5, 0.2), "loadUp": (0.4, 0.1), "shed": (0.9, 0.7)}


def controls(h):
    from ecoengine.objects.components.heating.Controls import Controls
    cm, par = {}, {}
    for m, (on, off) in MODES.items():
        ont = h.real(m + "_on_t", 60, 180)
        offt = h.real(m + "_off_t", 60, 180)
        out = h.real(m + "_out", 100, 185)
        cm[m] = Controls(on, ont, off, offt, out)
        par[m] = (on, ont, off, offt, out)
    return cm, par


def h_state(h, steps, hours):
    """Arbitrary sequence of tank readings and hours against the ON/OFF rule."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    cm, par = controls(h)
    sched = ["normal"] * 24
    for i in (5, 6, 7):
        sched[i] = "loadUp"
    for i in (8, 17, 18, 23):
        sched[i] = "shed"
    cap = h.real("cap", 1, 1000)
    w = WaterHeater.from_nominal_capacity(cap, list(sched), cm)
    h.ok(not w.is_active(), "a heater starts off")
    on = False
    if h.flag("start_on"):
        w.turn_on()
        on = True
        h.ok(w.is_active(), "turn_on activates")
    for k in range(steps):
        hr = h.pick(f"hour{k}", hours)
        T = {}
        for f in (0.5, 0.2, 0.4, 0.1, 0.9, 0.7):
            T[f] = h.real(f"T{k}_{int(f * 10)}", 33, 190)
        tank = ArbTank(T)
        w.update_state(tank, hr)
        osf, ont, ofs, offt, out = par[sched[hr]]
        if on:
            on_next = not bool(T[ofs] >= offt)
        else:
            on_next = bool(T[osf] < ont)
        h.ok(bool(w.is_active()) == on_next, "heater state follows the active mode's ON/OFF rule")
        on = on_next
        h.eq(w.get_output_kbtuh(h.real("oat", -20, 110), out, 50.0), cap if on else 0, "output is capacity when on, else 0")
        h.eq(w.get_outlet_temp_f(hr), out, "outlet temperature of the scheduled mode")
    w.turn_off()
    h.ok(not w.is_active(), "turn_off deactivates")
    h.eq(w.get_output_kbtuh(60.0, 140.0), 0, "no output when off")


def h_sched(h):
    """Every hour of the day selects its own scheduled mode; a missing mode is an error, not a silent default."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    cm, par = controls(h)
    keys = ["normal", "loadUp", "shed"]
    hr = h.int("hour", 0, 23)
    a, b = h.int("a", 0, 24), h.int("b", 0, 24)
    i = hr.__index__()
    key = "loadUp" if i < a else ("shed" if i < b else "normal")
    # schedule entry at the probed hour is arbitrary, all other hours differ from it
    other = keys[(keys.index(key) + 1) % 3]
    sched = [other] * 24
    sched[i] = key
    w = WaterHeater.from_nominal_capacity(100.0, sched, cm)
    h.ok(w.get_controls_for_hour(i) is cm[key], "mode of the hour")
    h.eq(w.get_outlet_temp_f(i), par[key][4], "outlet temperature of the hour")
    h.ok(w.is_load_shifting(), "load shift modes present")
    del cm[key]
    h.ok(w.get_controls_for_hour(i) is None, "mode without setpoints gives none")
    h.ok(isinstance(raises(lambda: w.update_state(ArbTank({}), i)), ValueError), "mode without setpoints is rejected")
    h.ok(isinstance(raises(lambda: w.get_outlet_temp_f(i)), ValueError), "mode without setpoints is rejected (outlet)")
    n = WaterHeater.from_nominal_capacity(100.0, ["normal"] * 24, {"normal": 1})
    h.ok(not n.is_load_shifting(), "normal-only heater is not load shifting")
    n2 = WaterHeater.from_nominal_capacity(100.0, None, None)
    h.ok(not n2.is_load_shifting(), "heater without controls is not load shifting")
    h.ok(n2.get_controls_for_hour(i) is None, "heater without controls has no mode")
    for m in ("loadUp", "shed"):
        w3 = WaterHeater.from_nominal_capacity(100.0, ["normal"] * 24, {"normal": 1, m: 2})
        h.ok(w3.is_load_shifting(), "one load-shift mode is enough")


def h_rule(h, kind):
    """The ON/OFF rule evaluated on the real tank models."""
    from ecoengine.objects.components.heating.Controls import Controls
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    V = h.real("V", 20, 2000)
    cold = h.real("cold", 35, 70)
    sto = h.real("storage", 120, 180)
    p = h.real("p", 0, 1)
    t = StratifiedTank(V) if kind == "strat" else MixedStorageTank(V)
    t.initialize(sto, cold, p)
    onf, off = h.real("onf", 0, 1), h.real("offf", 0, 1)
    h.assume(off <= onf)
    ont, offt = h.real("ont", 60, 180), h.real("offt", 60, 180)
    c = Controls(onf, ont, off, offt, sto)
    h.ok(bool(c.should_turn_on(t)) == bool(t.get_temperature_at_fraction(onf) < ont), "turn-on rule")
    h.ok(bool(c.should_turn_off(t)) == bool(t.get_temperature_at_fraction(off) >= offt), "turn-off rule")


HARNESSES = [
    dict(name="state", fn=h_state, quick=[{"steps": 3, "hours": [0, 6, 18]}, {"steps": 2, "hours": [0, 4, 5, 7, 8, 9, 17, 23]},
                {"steps": 1, "hours": list(range(24))}],
         thorough=[{"steps": 4, "hours": [0, 6, 18]}, {"steps": 2, "hours": list(range(24))}], opts=dict(time_s=120)),
    dict(name="sched", fn=h_sched, quick=[{}], opts=dict(time_s=60)),
    dict(name="rule", fn=h_rule, quick=[{"kind": "strat"}, {"kind": "mixed"}], opts=dict(time_s=60)),
]
