def h_valve(h):
    from ecoengine.objects.dhwsystems.utils import mixing_valve_behavior
    load = h.real("load", 0, 2000)
    flow = h.real("flow", 0, 2000)
    cold = h.real("cold", 33, 90)
    ret = h.real("ret", 60, 160)
    sup = h.real("supply", 90, 170)
    sto = h.real("storage", 90, 190)
    h.assume(ret >= cold + 1)
    h.assume(sup >= ret + 0.1)
    h.assume(sto >= sup + 0.1)
    r = mixing_valve_behavior(load, flow, cold, sup, ret, sto)
    d, inlet = r["storage_draw_gal"], r["inlet_temp_f"]
    h.ge(d, 0, "draw from storage not negative")
    h.le(d, load + flow, "storage supplies no more than the valve delivers")
    if load + flow < 0.001:
        return                      # practically nothing flows: the make-up's temperature is immaterial
    h.ge(inlet, cold, "make-up not colder than the incoming water", 1e-4)
    h.le(inlet, ret, "make-up not hotter than the returning water", 1e-4)
    h.eq(d * (sto - inlet), load * (sup - cold) + flow * (sup - ret), "energy balance across the valve", 1e-2)
    d2 = (load + flow) * (sup - ret) / (sto - ret)
    if d2 > load:
        h.eq(d, d2, "low demand: tempered with return water only", 1e-4)
        h.eq(inlet * d, load * cold + (d - load) * ret, "low demand: make-up is a blend of cold and return", 1e-2)
    else:
        h.eq(inlet, cold, "high demand: make-up is all cold water", 1e-3)
        h.ge(load, d, "high demand: storage draw within the demand", 1e-4)


def h_cool(h):
    """Storage at or below supply temperature: nothing is left to temper with."""
    from ecoengine.objects.dhwsystems.utils import mixing_valve_behavior
    load = h.real("load", 0, 2000)
    flow = h.real("flow", 0, 2000)
    cold = h.real("cold", 33, 90)
    ret = h.real("ret", 60, 160)
    sup = h.real("supply", 90, 170)
    sto = h.real("storage", 33, 170)
    h.assume(ret >= cold + 1)
    h.assume(sup >= ret)
    h.assume(sto <= sup)
    r = mixing_valve_behavior(load, flow, cold, sup, ret, sto)
    d, inlet = r["storage_draw_gal"], r["inlet_temp_f"]
    h.eq(d, load + flow, "cool storage: all that is delivered is drawn from storage", 1e-6)
    h.eq(inlet * d, load * cold + flow * ret, "cool storage: the make-up is the cold water and the whole return", 1e-2)


def h_idle(h):
    """Nothing to deliver, or no temperature lost in the loop and no demand."""
    from ecoengine.objects.dhwsystems.utils import mixing_valve_behavior
    flow = h.real("flow", 0, 2000)
    cold = h.real("cold", 33, 90)
    sup = h.real("supply", 91, 170)
    sto = h.real("storage", 33, 190)
    h.assume(sto >= sup + 0.1)
    r = mixing_valve_behavior(0.0, flow, cold, sup, sup, sto)
    h.eq(r["storage_draw_gal"], 0, "no demand and no loop loss: nothing leaves storage", 1e-6)


HARNESSES = [dict(name="valve", fn=h_valve, quick=[{}], opts=dict(time_s=120)),
             dict(name="cool", fn=h_cool, quick=[{}], opts=dict(time_s=60)),
             dict(name="idle", fn=h_idle, quick=[{}], opts=dict(time_s=60))]
