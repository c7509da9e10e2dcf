from .common import RHO_CP



def mk(V, T, cold):
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    t = MixedStorageTank(V)
    t.initialize(T, cold, 1.0)
    return t


def temp(h, t, msg):
    """Uniform temperature: the same at every height and in every drawn block."""
    f = h.real("f", 0, 1)
    T = t.get_temperature_at_fraction(f)
    h.eq(T, t.get_temperature_at_fraction(0.0), msg + ": uniform temperature")
    g = h.real("g", 0.1, 100)
    h.eq(T, t.get_average_draw_temp_f(g), msg + ": drawn water at tank temperature")
    return T


def h_op(h, op):
    V = h.real("V", 5, 2000)
    T0 = h.real("T", 40, 190)
    cold = h.real("cold", 33, 80)
    s = h.real("supply", 100, 150)
    t = mk(V, T0, cold)
    h.eq(temp(h, t, "init"), T0, "initialised at the storage temperature")
    u = t.get_usable_volume_supplyT_gal(s)
    h.eq(u, h.ite(T0 >= s, V, 0), "usable volume is the whole tank or nothing")
    if op == "draw":
        d = h.real("demand", -5, 3000)
        out = h.real("outlet", 100, 180)
        t.draw(d, cold, s, out)
        T1 = t.get_temperature_at_fraction(0.5)
        h.le(T1, T0, "draw never warms the tank")
        if T0 <= cold or d <= 0:
            h.eq(T1, T0, "no demand (or nothing to give): unchanged")
        else:
            h.ge(T1, cold, "draw never cools the tank below the incoming water")
            h.assume(T0 - cold >= 0.01)
            h.eq(T1, h.max(cold, T0 - d * (s - cold) / V), "draw removes exactly the demanded energy", 1e-4)
    elif op == "heat":
        k = h.real("kbtuh", -50, 500)
        m = h.real("minutes", 0, 60)
        out = h.real("outlet", 100, 180)
        t.heat(k, m, out)
        T1 = t.get_temperature_at_fraction(0.5)
        h.ge(T1, T0, "heating never cools")
        h.eq((T1 - T0) * V * RHO_CP, h.ite(k > 0, k * 1000 * m / 60, 0), "temperature rise equals heat added", 1e-2)
    elif op == "recirc":
        fl = h.real("flow", 0, 20)
        r = h.real("ret", 60, 140)
        m = h.real("minutes", 0, 60)
        t.add_recirc_return(fl, r, m)
        T1 = t.get_temperature_at_fraction(0.5)
        h.eq((T1 - T0) * V, fl * m * (r - T0), "recirculation exchanges flow x temperature difference", 1e-2)
    elif op == "loss":
        k = h.real("kbtuh", -50, 500)
        m = h.real("minutes", -5, 60)
        t.apply_fixed_heat_loss_kbtuh(k, m)
        T1 = t.get_temperature_at_fraction(0.5)
        h.le(T1, T0, "loss never warms")
        h.eq((T0 - T1) * V * RHO_CP, h.ite(h.And(k > 0, m > 0), k * 1000 * m / 60, 0),
             "temperature fall equals heat lost", 1e-2)
    elif op in ("mix", "physical"):
        g = h.real("gal", -5, 3000)
        x = h.real("x", 33, 190)
        if op == "mix":
            t.mix_primary_inflow(g, x)
        else:
            t.draw_physical_gal(g, x, s)
        T1 = t.get_temperature_at_fraction(0.5)
        gg = h.min(V, h.max(0, g))
        h.eq(T1 * V, gg * x + (V - gg) * T0, "inflow mixes with the remaining water by volume", 1e-2)
        h.le(h.min(T0, x), T1, "mixing stays between the two temperatures")
        h.le(T1, h.max(T0, x), "mixing stays between the two temperatures")
    if op != "init":
        T1 = t.get_temperature_at_fraction(0.25)
        h.eq(t.get_usable_volume_supplyT_gal(s), h.ite(T1 >= s, V, 0), "usable volume after " + op)
        h.eq(T1, t.get_average_draw_temp_f(V), "uniform after " + op)


HARNESSES = [
    dict(name="op", fn=h_op, quick=[{"op": o} for o in ("init", "draw", "heat", "recirc", "loss", "mix", "physical")],
         opts=dict(time_s=60, fork_minmax=True)),
]
