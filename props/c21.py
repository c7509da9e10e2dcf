"""Temperature-maintenance sizing: parallel loop tank and heater, swing tank, swing sizing day, ER addition."""
from props.common import RHO_CP, W_TO_KBTUH, raises
from props.c19 import PEAK, content, sched, blocks, hot_fract

FLAT = [1 / 24] * 24
TABLE = [40, 50, 80, 100, 120, 160, 175, 240, 350, 400, 500, 600, 800, 1000, 1250]
TABLE_CA = [80, 96, 168, 288, 480]
TWO = [0.09 if i in (7, 18) else 0.11 if i in (8, 19) else 0.6 / 20 for i in range(24)]
LATE = [0.15 if i == 23 else 0.1 if i == 0 else 0.75 / 22 for i in range(24)]
SPIKE = [0.2 if i == 9 else 0.8 / 23 for i in range(24)]
H22 = [0.14 if i == 22 else 0.1 if i == 23 else 0.76 / 22 for i in range(24)]
H0 = [0.12 if i == 0 else 0.07 if i == 1 else 0.81 / 22 for i in range(24)]
THREE = [0.08 if i in (5, 6, 12, 13, 21) else 0.6 / 19 for i in range(24)]
ALT = [0.06 if i % 2 else 0.28 / 12 for i in range(24)]
RISE = [0.02, 0.03, 0.045, 0.06, 0.07, 0.075, 0.08, 0.07] + [0.55 / 16] * 16
ZERO = [0.0] * 6 + [0.14, 0.1, 0.06] + [0.0] * 3 + [0.05] * 5 + [0.11, 0.13] + [0.06] * 3 + [0.03, 0.0]
# a small morning peak, then a day of filling up before the evening's spike
QUIET = [0.012] * 24
QUIET[5], QUIET[18] = 0.06, 1 - 0.06 - 22 * 0.012
# an hour barely above the generation (which the swing tank's own heat covers) right before the last hour's spike
EDGE22 = [0.064 if i == 22 else 0.2 if i == 23 else 0.736 / 22 for i in range(24)]
EDGE21 = [0.064 if i == 21 else 0.2 if i == 22 else 0.736 / 22 for i in range(24)]
SHAPES = {"edge22": EDGE22, "edge21": EDGE21, "quiet": QUIET, "zero": ZERO, "h22": H22, "h0": H0, "three": THREE, "alt": ALT, "rise": RISE, "peak": PEAK, "two": TWO, "late": LATE, "spike": SPIKE, "flat": FLAT}
AVG = [x / 300 for x in ([(7 * i) % 24 + 1 for i in range(24)])]


def bldg(daily, inlet, shape, avg=None):
    from ecoengine.objects.building.Building import Building
    return Building(None, daily, shape, avg or shape, design_inlet_water_temp_f=inlet, design_oat_f=35.0)


def ctl(f=0.45, t=118.0):
    from ecoengine.objects.components.heating.Controls import Controls
    return {"normal": Controls(f, t, 0.25, 140.0, 150.0)}


def h_parallel(h, vary, num=1):
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    supply = h.real("supply", 110, 135) if "supply" in vary else 120.0
    ret = h.real("ret", 80, 109) if "ret" in vary else 108.0
    flow = h.real("flow", 0.2, 30) if "flow" in vary else 4.0
    on = h.real("on", 100, 140) if "on" in vary else 116.0
    off = h.real("off", 100, 150) if "off" in vary else 124.0
    t = h.real("off_time", -0.5, 1.5) if "off_time" in vary else 0.4
    sf = h.real("safety", 0.5, 4) if "safety" in vary else 1.3
    ex, s = None, None
    try:
        s = ParallelLoopSystem.from_size(bldg(800.0, 50.0, PEAK), supply, 150.0, ret, flow, on, off, tm_off_time_hr=t, tm_safety_factor=sf, num_tm_heaters=num,
                                         max_daily_run_hr=16.0, control_schedule=["normal"] * 24, control_map=ctl())
    except ValueError as e:
        ex = e
    fine = h.And(sf > 1, t > 0, t <= 1, off > on, t * 3 > (sf - 1))
    edge = h.Or(h.And(t * 3 - (sf - 1) < 1e-6, t * 3 - (sf - 1) > -1e-6), h.And(sf > 1, sf < 1 + 1e-9), h.And(sf <= 1, sf > 1 - 1e-9))
    if ex is not None:
        h.ok(h.Or(edge, h.Not(fine)), "only settings that cannot maintain temperature are refused")
        return
    h.ok(h.Or(edge, fine), "settings that cannot maintain temperature are refused")
    loss = flow * 60 * RHO_CP * (supply - ret) / 1000
    V, Q = s.get_minimum_tm_volume_gal(), s.get_minimum_tm_capacity_kbtuh()
    h.eq(V * RHO_CP * (off - on) / 1000, loss * t, "the loop tank coasts from OFF to ON temperature in the allowed off time", 1e-3)
    h.eq(Q, loss * sf, "the loop heater outpaces the loop loss by the safety factor", 1e-3)
    h.eq(s.tm_storage_tank.total_volume_gal, V, "the built loop tank has the sized volume", 1e-4)
    h.eq(s.tm_water_heater.performance_map.get_capacity_kbtuh(40.0, off, on) * num, Q, "the built loop heaters have the sized capacity together", 1e-3)
    c = s.tm_water_heater.get_controls_for_hour(h.pick("hr", [0, 13, 23]))
    h.eq(c.on_trigger_t_f, on, "loop heater turns on at the ON temperature")
    h.eq(c.off_trigger_t_f, off, "loop heater turns off at the OFF temperature")
    h.ok(s.num_tm_heaters == num, "number of loop heaters")


def h_swing_tank(h, vary, er=False):
    """Swing tank from the table, element from the loop loss (flat profile: the primary needs no storage)."""
    if er:
        from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem as S
    else:
        from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem as S
    ret = h.real("ret", 80, 119) if "ret" in vary else 110.0
    flow = h.real("flow", 0.01, 90) if "flow" in vary else 5.0
    daily = h.real("daily", 10, 2.2e6) if "daily" in vary else 500.0
    sf = h.real("safety", 0.8, 3) if "safety" in vary else 1.25
    s, ex = None, None
    try:
        s = S([], None, 120.0, 150.0, ret, flow, sf, max_daily_run_hr=16.0)
    except ValueError as e:
        ex = e
    if ex is not None:
        h.ok(sf <= 1, "only elements that cannot outpace the loop are refused")
        return
    h.ok(sf > 1, "an element that cannot outpace the loop is refused")
    try:
        s.size(bldg(daily, 50.0, FLAT), control_map=ctl())
    except ValueError as e:
        ex = e
    loss = flow * 60 * RHO_CP * (120.0 - ret)
    need = h.max(loss / (100 * W_TO_KBTUH), daily / 24 / 60)
    if ex is not None:
        h.ge(need, 1250 - 1e-6, "only plants beyond the largest swing tank are refused")
        return
    h.le(need, 1250 + 1e-6, "plants beyond the largest swing tank are refused")
    V, C = s.get_minimum_tm_volume_gal(), s.get_minimum_tm_ca_volume_gal()
    h.ge(V, need, "the swing tank covers loop loss and the peak minute", 1e-5)
    for a, b in zip(TABLE, TABLE[1:]):
        h.ok(h.Or(V <= a, need >= a - 1e-6), "no smaller listed swing tank would do")
    h.ok(h.Or(*[V == x for x in TABLE]), "the swing tank is a listed size")
    h.ok(h.Or(*[C == x for x in TABLE_CA]), "the California swing tank is a listed size")
    if V < 480:
        h.ge(C, need, "the California swing tank covers the same need", 1e-5)
        for a in TABLE_CA:
            h.ok(h.Or(C <= a, need >= a - 1e-6), "no smaller listed California swing tank would do")
    else:
        h.eq(C, 480, "the largest California swing tank otherwise")
    h.eq(s.get_minimum_tm_capacity_kbtuh(), sf * loss / 1000, "the element outpaces the loop loss by the safety factor", 1e-3)


def swing_day(draw, supply, storage, inlet, V, loss_btuh, elem_kbtuh):
    """Hot water the swing tank takes from the primary, minute by minute."""
    T, on = supply + 0.1, False
    out = [draw[0]]
    dT = elem_kbtuh * 1000 / 60 / (RHO_CP * V)
    for d in draw[1:]:
        q = d * (supply - inlet) / (T - inlet) if T > inlet else d
        out.append(q)
        T = (q * storage + (V - q) * T) / V - loss_btuh / 60 / (RHO_CP * V)
        if on:
            T += dT
            if T > supply + 8:
                T -= dT * min((T - supply - 8) / dT, 1.0)
                on = False
        elif T <= supply:
            T += dT * min((supply - T) / dT, 1.0)
            on = True
        if T < supply - 1e-9:
            return None
    return out


def h_swing_minutes(h, flow, n, supply=120.0, storage=150.0, inlet=50.0, ret=110.0, sf=1.2):
    """Minutes of the sizing day with arbitrary draws, from any starting temperature (where the code still has that helper)."""
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    b = bldg(600.0, inlet, FLAT)
    s = SwingSystem([], None, supply, storage, ret, flow, sf, max_daily_run_hr=16.0)
    s.size(b, control_map=ctl())
    loss = flow * 60 * RHO_CP * (supply - ret)
    V = tank_for(loss, 600.0 / 24 / 60)
    T0 = h.real("start", supply, storage)
    draw = [h.real(f"draw{i}", 0, V / 3) for i in range(n)]
    try:
        out = s._sim_just_swing(n, draw, b, T0)
    except ValueError:
        out = None
    except (AttributeError, TypeError):
        h.ok(True, "no such helper in this version")
        return
    dT = sf * loss / 60 / (RHO_CP * V)
    T, on = T0, False
    for i in range(1, n):
        q = draw[i] * (supply - inlet) / (T - inlet)
        if out is not None:
            h.eq(out[2][i] * (out[0][i - 1] - inlet), draw[i] * (supply - inlet), "the draw from the tank carries the heat of the draw at supply temperature", 1e-3)
        T = (q * storage + (V - q) * T) / V - loss / 60 / (RHO_CP * V)
        run, edge = 0.0, supply + 8 - dT if on else supply
        h.assume(h.Or(T <= edge - 1e-6, T >= edge + 1e-6))      # not a tie at the thermostat
        if on:
            T, run = T + dT, 1.0
            if T > supply + 8:
                x = h.min((T - supply - 8) / dT, 1.0)
                T, run, on = T - dT * x, 1.0 - x, False
        elif T <= supply:
            run = h.min((supply - T) / dT, 1.0)
            T, on = T + dT * run, True
        if T < supply:
            h.ok(h.Or(out is None, T > supply - 1e-6), "a minute that ends below supply temperature is refused")
            return
        if out is None:
            continue
        h.eq(out[0][i], T, "swing tank temperature minute by minute", 1e-4)
        h.eq(out[1][i], run, "share of the minute the element runs", 1e-3)
    if out is None:
        h.ok(T < supply + 1e-6, "only minutes that end below supply temperature are refused")


def tank_for(loss_btuh, peak_gpm):
    return min(v for v in TABLE if v >= max(loss_btuh / 100 / W_TO_KBTUH, peak_gpm))


def swing_need(h, shape, daily, run, supply, storage, inlet, V, loss, elem):
    """Running volume at storage temperature and the mix fraction that goes with it."""
    gen = [1 / run] * 24
    starts = []
    for i in range(24):                        # hours in which demand starts to outrun generation
        if shape[i] > gen[i] and not (shape[i - 1] > gen[i - 1]):
            starts.append(i)
    best, eff = 0, 1.0
    for i in sorted(set(starts + [i + 1 for i in starts if i + 1 < 24])):
        hrs = (list(shape) * 2)[i:i + 24]
        draw = [x * daily / 60 for x in hrs for _ in range(60)]
        out = swing_day(draw, supply, storage, inlet, V, loss, elem)
        if out is None:
            return None
        e = sum(out) / daily
        short = worst = 0
        for q in out:
            short = short + q - daily * e / run / 60
            if short > worst:
                worst = short
        if worst > best:
            best, eff = worst, e
    return best, eff


def h_swing_day(h, shape, daily, flow, run, vary, supply=120.0, storage=150.0, inlet=50.0, ret=110.0, sf=1.2):
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    run = h.real("run", *run) if isinstance(run, list) else run
    defrost = h.real("defrost", 0.5, 1) if "defrost" in vary else 0.95
    on = h.real("on", 0.3, 0.6) if "on" in vary else 0.45
    sh = SHAPES[shape]
    loss = flow * 60 * RHO_CP * (supply - ret)
    V = tank_for(loss, daily * max(sh) / 60)
    elem = sf * loss / 1000
    ref = swing_need(h, sh, daily, run, supply, storage, inlet, V, loss, elem)
    mkit = lambda: SwingSystem.from_size(bldg(daily, inlet, sh), supply, storage, ret, flow, sf, run, defrost, ["normal"] * 24, ctl(on), 2.8)
    if ref is None:
        h.ok(isinstance(raises(mkit), ValueError), "a swing tank that falls below supply temperature is refused")
        return
    s = mkit()
    need, eff = ref
    h.eq(s.get_minimum_tm_volume_gal(), V, "swing tank size")
    h.eq(s.get_minimum_capacity_kbtuh(), daily * eff / run * RHO_CP * (storage - inlet) / defrost / 1000,
         "capacity makes the swing tank's share of the day in the allowed hours", 1e-3)
    vol = need * (storage - inlet) / (supply - inlet) / content(h, supply, storage, inlet, on, 118.0, 2.8)
    h.eq(s.get_minimum_storage_storageT_gal(), vol, "storage covers the worst shortfall of what the swing tank takes", 1e-2)
    h.eq(s.storage_tank.total_volume_gal, vol, "built tank", 1e-2)
    h.eq(s.tm_storage_tank.total_volume_gal, V, "built swing tank")
    h.eq(s.tm_water_heater.performance_map.get_capacity_kbtuh(35.0, 128.0), elem, "built element", 1e-4)
    c = s.tm_water_heater.get_controls_for_hour(5)
    h.ok(c.on_trigger_t_f == supply and c.off_trigger_t_f == supply + 8 and c.on_sensor_fract == c.off_sensor_fract == 0.5, "element thermostat")


def h_swing_ls(h, key, shape, daily, flow, run, vary, supply=120.0, storage=150.0, inlet=50.0, ret=110.0, sf=1.2):
    """Load-shift sizing of a swing system."""
    from ecoengine.objects.components.heating.Controls import Controls
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    fract = h.real("fract", *vary["fract"]) if "fract" in vary else 0.85
    defrost = h.real("defrost", 0.5, 1) if "defrost" in vary else 0.95
    N, L, S = (0.45, 118.0, 0.25, 140.0), (0.3, 116.0, 0.15, 138.0), (vary.get("shed", 0.8), 119.0, 0.5, 140.0)
    cm = {"normal": Controls(*N, storage), "loadUp": Controls(*L, storage), "shed": Controls(*S, storage)}
    sc, sh, slope = sched(key), SHAPES[shape], 2.8
    s = SwingSystem.from_size(bldg(daily, inlet, sh, AVG), supply, storage, ret, flow, sf, run, defrost, sc, cm, slope, fract)
    hrs = min(run, 24.0 - sc.count("shed"))
    loss = flow * 60 * RHO_CP * (supply - ret)
    V = tank_for(loss, daily * max(sh) / 60)
    elem = sf * loss / 1000
    need, eff = swing_need(h, sh, daily, hrs, supply, storage, inlet, V, loss, elem)
    kb = RHO_CP * (storage - inlet) / defrost / 1000
    ratio = (storage - inlet) / (supply - inlet)
    day = lambda hh: swing_day([AVG[i] * daily / 60 for i in hh for _ in range(60)], supply, storage, inlet, V, loss, elem)
    shed_h, lu_h = blocks(sc)
    vs = sum(day(shed_h)) * fract
    gen = daily * eff / hrs
    if lu_h:
        fl, fn, fs = (hot_fract(h, supply, storage, c[0], c[1], slope) for c in (L, N, S))
        g2 = (vs * (fl - fn) / (fl - fs) + sum(day(lu_h))) / len(lu_h)
        if g2 > gen:
            gen = g2
    order = [(shed_h[-1] + 1 + k) % 24 for k in range(24)]
    out = day(order)
    short = worst = 0
    for k, q in enumerate(out):
        short = short + q - (0 if sc[order[k // 60]] == "shed" else gen / 60)
        if short > worst:
            worst = short
    band = content(h, supply, storage, inlet, L[2], L[3], slope) - content(h, supply, storage, inlet, S[0], S[1], slope)
    vol_n = need * ratio / content(h, supply, storage, inlet, N[0], N[1], slope)
    h.eq(s.get_minimum_capacity_kbtuh(), h.max(daily * eff / hrs, gen) * kb, "capacity is the larger of normal and load-shift needs", 1e-3)
    h.eq(s.get_minimum_storage_storageT_gal(), h.max(vol_n, (worst + vs) * ratio / band), "storage is the larger of normal and load-shift needs", 1e-2)


def er_deficit(shape, daily, run, supply, storage, inlet, V, loss, elem, cap, stor):
    """Largest one-minute temperature deficit of the swing tank over two days, primary starting empty or full."""
    gpm = cap * 1000 / (RHO_CP * (storage - inlet)) / 60
    starts = [i for i in range(24) if shape[i] > 1 / run and not shape[i - 1] > 1 / run]
    i0 = starts[0] if starts else 0
    draw = [x * daily / 60 for x in (list(shape) * 3)[i0:i0 + 48] for _ in range(60)]
    dT = elem * 1000 / 60 / (RHO_CP * V)
    worst = 0.0
    for level in (0.0, stor):
        T, on = supply, False
        for d in draw:
            q = d * (supply - inlet) / (T - inlet)
            avail = level + gpm
            feed = inlet if q <= 0 else storage if q <= avail else (avail * storage + (q - avail) * inlet) / q
            level = min(max(avail - q, 0.0), stor)
            T = (q * feed + (V - q) * T) / V - loss / 60 / (RHO_CP * V)
            if on:
                T += dT
                if T > supply + 8:
                    T, on = T - dT * min((T - supply - 8) / dT, 1.0), False
            elif T <= supply:
                T, on = T + dT * min((supply - T) / dT, 1.0), True
            if T < supply:
                worst = max(worst, supply - T)
                T = supply
    return worst


def h_er(h, shape, daily, flow, run, supply=120.0, storage=150.0, inlet=50.0, ret=110.0, sf=1.2, comp=None, defrost=1.0):
    """ER addition: covers the worst minute's deficit; coverage points; nothing left changed."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    ers = h.real("er_safety", 0.8, 3)
    sh = SHAPES[shape]
    loss = flow * 60 * RHO_CP * (supply - ret)
    b = bldg(daily, inlet, sh)
    if comp is None:
        V = tank_for(loss, daily * max(sh) / 60)
        base = SwingSystem.from_size(bldg(daily, inlet, sh), supply, storage, ret, flow, sf, run, defrost, ["normal"] * 24, ctl(), 2.8)
        s = SwingERTrdOffSystem.from_size(b, supply, storage, ret, flow, sf, ers, run, defrost, ["normal"] * 24, ctl(), 2.8)
        cap, stor, elem = base.get_minimum_capacity_kbtuh(), base.get_minimum_storage_storageT_gal(), sf * loss / 1000
        h.eq(s.get_minimum_capacity_kbtuh(), cap, "the primary is sized as for a swing system", 1e-6)
        h.eq(s.get_minimum_storage_storageT_gal(), stor, "the primary tank is sized as for a swing system", 1e-6)
    else:
        caps, stor, V, elem = comp
        whs = [WaterHeater.from_nominal_capacity(c, ["normal"] * 24, ctl()) for c in caps]
        s = SwingERTrdOffSystem.from_components(whs, StratifiedTank(stor), MixedStorageTank(V), elem, b, supply, storage, ret, flow, er_safety_factor=ers)
        cap, run = sum(caps), 24.0
        h.eq(s.get_minimum_capacity_kbtuh(), cap, "capacity of the given heaters together", 1e-6)
    worst = er_deficit(sh, daily, run, supply, storage, inlet, V, loss, elem, cap, stor)
    er = V * RHO_CP * 60 * worst / 1000
    h.eq(s.get_er_capacity_kbtuh(), er * ers, "the ER addition covers the worst minute's deficit", 1e-3)
    h.eq(s.get_er_capacity_kw() * W_TO_KBTUH, er * ers, "the same in kW", 1e-3)
    h.eq(s.get_minimum_tm_capacity_kbtuh(), elem + er * ers, "the element carries loop loss and ER addition", 1e-3)
    h.eq(s.tm_water_heater.performance_map.get_capacity_kbtuh(35.0, 128.0), elem + er * ers, "the built element is that large", 1e-3)
    h.eq(s.tm_storage_tank.total_volume_gal, V, "the swing tank keeps its size")
    add, ers = h.real("add", 0.8, 2), 1.3
    if comp is None:
        s = SwingERTrdOffSystem.from_size(b, supply, storage, ret, flow, sf, ers, run, defrost, ["normal"] * 24, ctl(), 2.8)
    else:
        s = SwingERTrdOffSystem.from_components(whs, StratifiedTank(stor), MixedStorageTank(V), elem, b, supply, storage, ret, flow, er_safety_factor=ers)
    if worst <= 0:
        h.ok(isinstance(raises(lambda: s.get_er_sized_points(b, add)), RuntimeError), "no coverage points without an ER addition")
        return
    kw, pct, i = s.get_er_sized_points(b, add)
    h.ok(len(kw) == len(pct) and pct == sorted(pct) and pct[-1] == 120.0 and pct[i] == 100.0, "coverage points rise to 120 %, marked at 100 %")
    pts = {}
    for p in range(120, 0, -10):
        w = worst if p == 100 else er_deficit(sh, daily * p / 100, run, supply, storage, inlet, V, loss, elem, cap, stor)
        pts[p] = (elem + V * RHO_CP * 60 * w / 1000 * (ers if p == 100 else add)) / W_TO_KBTUH
        if w <= 0:
            break
    h.ok(sorted(pts) == [round(p) for p in pct], "coverage points every 10 % down to the first that needs no ER")
    for k, p in zip(kw, pct):
        h.le(k, pts[round(p)] + 0.5 + 1e-6, "each point's element size in whole kW", 1e-6)
        h.ge(k, pts[round(p)] - 0.5 - 1e-6, "each point's element size in whole kW", 1e-6)
    h.eq(b.daily_dhw_use_supplyT_gal, daily, "the building keeps its daily use")
    h.eq(s.get_er_capacity_kbtuh(), er * ers, "the system keeps its ER addition", 1e-3)
    h.eq(s.get_minimum_tm_capacity_kbtuh(), elem + er * ers, "the system keeps its element", 1e-3)
    h.eq(s.er_safety_factor, ers, "the system keeps its ER safety factor")


def h_er_minute(h, flow, supply=120.0, storage=150.0, inlet=50.0, ret=110.0):
    """One minute of the ER day from any state (where the code still has that helper)."""
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
    s = SwingERTrdOffSystem([], None, supply, storage, ret, flow, 1.3, max_daily_run_hr=16.0)
    s.size(bldg(600.0, inlet, FLAT), control_map=ctl())
    loss = flow * 60 * RHO_CP * (supply - ret)
    V = tank_for(loss, 600.0 / 24 / 60)
    on, T0, q, feed, elem = h.flag("on"), h.real("T", supply, storage), h.real("q", 0, V - 0.1), h.real("feed", inlet, storage), h.real("elem", 1, 60)
    try:
        on2, T2, short = s._run_one_swing_step_er(on, T0, q, feed, elem)
    except (AttributeError, TypeError):
        h.ok(True, "no such helper in this version")
        return
    dT = elem * 1000 / 60 / (RHO_CP * V)
    T = (q * feed + (V - q) * T0) / V - loss / 60 / (RHO_CP * V)
    edge = supply + 8 - dT if on else supply
    h.assume(h.Or(T <= edge - 1e-6, T >= edge + 1e-6))
    if on:
        T = T + dT
        w = T <= supply + 8
        T = h.ite(w, T, h.max(supply + 8, T - dT))
    else:
        w = T <= supply
        T = h.ite(w, h.min(T + dT, supply), T)
    h.eq(T2, h.max(T, supply), "the ER addition keeps the tank at supply temperature", 1e-4)
    h.eq(short, h.max(supply - T, 0), "the deficit is what the tank would have fallen short", 1e-4)
    h.ok(w if on2 else h.Not(w), "the element goes off at the top of its band and on at supply temperature")


def h_er_fail(h):
    """A coverage point that cannot be sized leaves building and system as they were."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
    ers, add = h.real("er_safety", 0.8, 3), h.real("add", 0.8, 2)
    b = bldg(2000.0, 50.0, SPIKE)
    s = SwingERTrdOffSystem.from_components([WaterHeater.from_nominal_capacity(60.0, ["normal"] * 24, ctl())], StratifiedTank(100.0), MixedStorageTank(7.0),
                                            9.0, b, 120.0, 150.0, 112.0, 2.0, er_safety_factor=ers)
    er, tm = s.get_er_capacity_kbtuh(), s.get_minimum_tm_capacity_kbtuh()
    ex = raises(lambda: s.get_er_sized_points(b, add))
    h.ok(isinstance(ex, ValueError), "120 % of the peak minute exceeds the swing tank")
    h.eq(b.daily_dhw_use_supplyT_gal, 2000.0, "the building keeps its daily use")
    h.eq(s.get_er_capacity_kbtuh(), er, "the system keeps its ER addition")
    h.eq(s.get_minimum_tm_capacity_kbtuh(), tm, "the system keeps its element")
    h.eq(s.er_safety_factor, ers, "the system keeps its ER safety factor")


HARNESSES = [
    dict(name="parallel", fn=h_parallel,
         quick=[dict(vary=["flow", "ret"]), dict(vary=["on", "off"], num=2), dict(vary=["off_time", "safety"]), dict(vary=["supply", "flow"], num=3), dict(vary=["off_time", "flow"]), dict(vary=["safety", "ret"])],
         thorough=[dict(vary=["on", "off", "off_time", "safety"]), dict(vary=["flow", "ret", "supply", "off"])], opts=dict(time_s=60)),
    dict(name="swing_tank", fn=h_swing_tank, quick=[dict(vary=["flow"]), dict(vary=["daily"]), dict(vary=["flow", "daily"]), dict(vary=["ret", "safety"]), dict(vary=["flow", "safety"])], opts=dict(time_s=60, fork_minmax=True)),
    dict(name="swing_day", fn=h_swing_day,
         quick=[dict(shape="peak", daily=1200.0, flow=2.5, run=16.0, vary=["defrost", "on"]), dict(shape="two", daily=3000.0, flow=6.0, run=[15.9, 16.0], vary=["defrost"]),
                dict(shape="late", daily=800.0, flow=1.0, run=[12.0, 12.3], vary=[], inlet=60.0), dict(shape="spike", daily=2500.0, flow=9.0, run=18.0, vary=["defrost"], storage=165.0),
                dict(shape="two", daily=900.0, flow=4.0, run=[20.0, 20.03], vary=[], ret=105.0, supply=125.0), dict(shape="peak", daily=300.0, flow=8.0, run=14.0, vary=["defrost"], sf=2.0),
                dict(shape="flat", daily=700.0, flow=4.0, run=[14.0, 20.0], vary=["defrost"]), dict(shape="late", daily=200.0, flow=12.0, run=16.0, vary=["on"], sf=1.05),
                dict(shape="h22", daily=1500.0, flow=3.0, run=16.0, vary=["defrost"]), dict(shape="h0", daily=1500.0, flow=2.0, run=17.0, vary=["on"], inlet=45.0),
                dict(shape="three", daily=2200.0, flow=3.5, run=18.0, vary=["defrost"], storage=145.0, supply=122.0), dict(shape="alt", daily=5000.0, flow=5.0, run=20.0, vary=["on"], storage=155.0),
                dict(shape="rise", daily=1800.0, flow=2.0, run=19.0, vary=["defrost"], ret=100.0), dict(shape="rise", daily=4000.0, flow=14.0, run=14.0, vary=["on"], sf=1.6, storage=140.0),
                dict(shape="three", daily=12000.0, flow=30.0, run=21.0, vary=["defrost"], ret=113.0),
                dict(shape="edge22", daily=2000.0, flow=1.0, run=16.0, vary=["defrost"], storage=160.0), dict(shape="edge21", daily=2000.0, flow=1.0, run=16.0, vary=["defrost"], storage=160.0),
                dict(shape="two", daily=4000.0, flow=0.5, run=16.0, vary=["defrost"], storage=182.0, supply=112.0, ret=104.0)],
         opts=dict(time_s=60, fork_minmax=True)),
    dict(name="swing_minutes", fn=h_swing_minutes, quick=[dict(flow=2.5, n=3), dict(flow=8.0, n=3, supply=125.0, storage=145.0, inlet=60.0, sf=1.6), dict(flow=0.5, n=3, ret=100.0, storage=170.0)],
         thorough=[dict(flow=f, n=4, storage=st) for f in (1.0, 4.0, 12.0) for st in (140.0, 160.0)], opts=dict(time_s=60, fork_minmax=True), topts=dict(time_s=300)),
    dict(name="swing_ls", fn=h_swing_ls,
         quick=[dict(key="evening", shape="peak", daily=1200.0, flow=2.5, run=16.0, vary=dict(defrost=1)), dict(key="two", shape="two", daily=2000.0, flow=6.0, run=16.0, vary=dict(fract=[0.6, 0.62])),
                dict(key="nolu", shape="spike", daily=900.0, flow=1.0, run=20.0, vary=dict(fract=[0.7, 0.72])), dict(key="late", shape="two", daily=1500.0, flow=4.0, run=14.0, vary=dict(fract=[0.9, 0.95])),
                dict(key="long", shape="peak", daily=1500.0, flow=4.0, run=14.0, vary=dict(defrost=1)),
                dict(key="evening", shape="peak", daily=1200.0, flow=2.5, run=16.0, vary=dict(defrost=1, shed=0.47)), dict(key="late", shape="two", daily=1500.0, flow=4.0, run=14.0, vary=dict(defrost=1, shed=0.6))],
         opts=dict(time_s=60, fork_minmax=True)),
    dict(name="er", fn=h_er,
         quick=[dict(shape="peak", daily=1200.0, flow=2.5, run=16.0), dict(shape="two", daily=3000.0, flow=6.0, run=16.0), dict(shape="late", daily=900.0, flow=1.0, run=14.0),
                dict(shape="spike", daily=2500.0, flow=9.0, run=18.0, storage=160.0), dict(shape="two", daily=1500.0, flow=3.0, run=None, comp=[[40.0, 25.0], 150.0, 80.0, 17.0]),
                dict(shape="peak", daily=400.0, flow=3.0, run=None, comp=[[200.0], 600.0, 120.0, 25.0]),
                dict(shape="h22", daily=1100.0, flow=2.0, run=15.0, supply=125.0, inlet=42.0, defrost=0.8), dict(shape="zero", daily=1400.0, flow=4.0, run=14.0, storage=145.0, sf=1.5, ret=112.0),
                dict(shape="zero", daily=1400.0, flow=4.0, run=None, inlet=45.0, supply=122.0, comp=[[10.0, 5.0, 6.0], 40.0, 60.0, 30.0]), dict(shape="alt", daily=3000.0, flow=1.0, run=None, comp=[[30.0], 20.0, 350.0, 12.0]),
                dict(shape="three", daily=1700.0, flow=2.2, run=20.0, defrost=0.9, storage=135.0),
                dict(shape="quiet", daily=1000.0, flow=3.0, run=None, comp=[[80.0], 500.0, 80.0, 18.0])],
         opts=dict(time_s=60, fork_minmax=True)),
    dict(name="er_minute", fn=h_er_minute, quick=[dict(flow=2.5), dict(flow=8.0, supply=125.0, inlet=60.0, storage=145.0)], opts=dict(time_s=60, fork_minmax=True)),
    dict(name="er_fail", fn=h_er_fail, quick=[{}], opts=dict(time_s=30)),
]
