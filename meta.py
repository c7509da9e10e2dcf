"""Everything the reports need to know about each property: statement, anchors, and what its check covers."""

DW = "src/ecoengine/objects/dhwsystems/"
ST = "src/ecoengine/objects/components/storage/"
HT = "src/ecoengine/objects/components/heating/"
BL = "src/ecoengine/objects/building/"
SI = "src/ecoengine/objects/simulation/"
IF = "src/ecoengine/interfaces/"

P = {}


def prop(pid, title, statement, over, qtext, why, files, mech, what, bounds, assumptions=()):
    P[pid] = dict(id=pid, title=title, statement=" ".join(statement.split()), over=over, qtext=" ".join(qtext.split()),
                  why=" ".join(why.split()), files=files, mech=mech, what=" ".join(what.split()),
                  bounds=" ".join(bounds.split()), assumptions=list(assumptions))


prop("C01", "Sized storage is exactly what the peak day needs",
     """For any hourly peak-day profile, daily use and allowed compressor hours, the sized tank holds, when its heater is
     triggered, exactly the worst cumulative shortfall between demand and steady generation over the repeating design day:
     never less (it would run out) and never more (it would be oversized). Sized storage and capacity scale in
     proportion to the daily use, and allowing fewer run hours never asks for more storage or less capacity.""",
     ["inputs", "configurations"],
     "every 24-hour profile in the patterns explored (2-5 free levels each), run hours 4-24, daily use 10-20000 gal",
     """The tests compare sized volumes of a handful of named buildings with recorded numbers; a wrong wrap past midnight,
     a peak missed at the day boundary or a shortfall reset at the wrong hour needs a particular profile.""",
     [DW + "DHWSystem.py"],
     [("running volume over the design day", DW + "DHWSystem.py:_calc_running_volume_supplyT_gal"),
      ("storage volume", DW + "DHWSystem.py:_calc_storage_volume_storageT_gal"), ("sizing", DW + "DHWSystem.py:size")],
     """The storage-sizing entry point runs on a building whose hourly profile levels are free reals; the sized volume is
     compared, for every value, with a two-lap shortfall recursion and the closed-form content of the tank.""",
     """24-hour profiles built from 9 patterns of 2-5 free levels summing to one; run hours 10.5, 14, 16, 24 or free in
     [4, 24] for one fixed profile; one stratification slope (2.8); temperatures fixed (varied by C03). Profiles with more
     than five distinct levels are outside the claim.""")

prop("C02", "Sized heating capacity makes the design day's heat in the allowed hours",
     """For every schematic, sized capacity times allowed run hours times the defrost factor equals the heat of the design
     day: the hot water use at its temperature rise plus, for a return-to-primary loop, 24 hours of loop loss; tankless
     heaters instead meet the worst hour and deliver exactly each step's heat. The heaters and tanks that sizing builds
     have exactly the sized capacity and volume, and the loop loss reported is flow times temperature drop.
     Results cannot be read before sizing, and sizing without a design inlet temperature is refused.""",
     ["inputs", "configurations"],
     "every daily use, run hours, defrost factor, temperatures and loop flow in the ranges, five system types",
     """Tests pin capacities for one or two parameter sets per system; a term that is only wrong for another defrost
     factor, inlet temperature or flow goes unnoticed.""",
     [DW + "DHWSystem.py", DW + "InstantWHSystem.py", DW + "recirc_systems/SwingSystem.py", DW + "rtp_systems/RTPSystem.py"],
     [("capacity", DW + "DHWSystem.py:_calc_required_capacity"), ("capacity with loop loss", DW + "rtp_systems/RTPSystem.py:_calc_required_capacity"),
      ("tankless", DW + "InstantWHSystem.py:size"), ("swing capacity", DW + "recirc_systems/SwingSystem.py:_calc_required_capacity")],
     """from_size of each schematic runs with two to five symbolic design parameters at once; the reported capacity must
     satisfy the heat balance identically, and the built components must match it.""",
     """Uniform 24-hour profile for the capacity identity (a peaked one for the built-component claims); daily use
     10-20000, run 6-23 h, defrost 0.5-1, inlet 33-80, supply 100-140, storage 141-180, return 85-99, flow 0.5-20 gpm;
     multi-pass return-to-primary capacity is covered by C22.""")

prop("C03", "The sized tank really holds the running volume when its heater is triggered",
     """For any aquastat height and trigger temperature, stratification and storage, supply and inlet temperatures, a tank
     of the sized volume whose ON sensor just reads the trigger temperature can deliver exactly the running volume
     at supply temperature. Required storage never shrinks when the sensor is placed higher and never
     grows when the trigger or storage temperature is raised; without a normal mode the least favourable
     mode decides, and without controls a documented default applies.""",
     ["inputs", "configurations"], "every trigger height/temperature, storage, supply and inlet temperature in the ranges",
     "Tests check the factor at a few settings; the piecewise regions (trigger above/below supply, profile clipped at the top) are rarely hit.",
     [DW + "DHWSystem.py", ST + "StratifiedTank.py"],
     [("stratification factor", DW + "DHWSystem.py:_calc_stratification_factor"),
      ("factor for trigger parameters", DW + "DHWSystem.py:_strat_factor_for_on_params")],
     """Sizing runs with symbolic aquastat and temperatures; the resulting tank is then built and its own profile, shifted
     so that the sensor reads the trigger, must hold the running volume; a closed form is compared as well.""",
     "slopes 0.8, 1.7, 2.8 (0.5-5 thorough); one to two parameters symbolic at a time (up to five thorough)")

prop("C04", "A stratified tank's temperatures are physical and its usable volume is exact",
     """At every height the temperature of a stratified tank lies between incoming-water and storage temperature and
     never decreases with height. The reported usable volume is never negative, never exceeds the tank, and ends exactly
     where the water is at supply temperature; the average temperature of a drawn block lies between those of its bottom and top.""",
     ["inputs"], "every tank volume, temperatures, charge level, height and drawn volume in the ranges",
     "Tests probe a few heights of a few tanks; clipping at the top and bottom of the tank needs particular combinations.",
     [ST + "StratifiedTank.py"],
     [("profile", ST + "StratifiedTank.py:get_temperature_at_fraction"), ("usable volume", ST + "StratifiedTank.py:get_usable_volume_supplyT_gal"),
      ("average of a drawn block", ST + "StratifiedTank.py:get_average_draw_temp_f")],
     "All tank methods run on fully symbolic volume, temperatures, charge and probe heights.",
     "volume 1-5000 gal, temperatures 32-185 F, slopes 2.8 (0.8, 1.7 too); states reached from any charge by one or two (thorough: three) draws, heatings, loop returns or setpoint changes of any size; for averages 50/120/150 F and one such operation")

prop("C05", "Drawing from, heating and recirculating a stratified tank conserve energy",
     """Whatever the state, a draw removes from a stratified tank exactly the energy the demand needs (or all it holds),
     heating adds exactly the heater's energy up to a fully hot tank, a loop return removes exactly the loop loss (or all that is left), and a
     physical draw removes exactly the volume drawn. Drawing or loop loss never adds usable water or warms the tank, and heating never removes any.""",
     ["inputs", "histories"], "every pre-state reachable by initialisation and one heating step, every amount in the ranges",
     "Tests check single hand-picked draws; partly charged tanks whose transition layer touches the top or bottom are where the arithmetic differs.",
     [ST + "StratifiedTank.py"],
     [("draw", ST + "StratifiedTank.py:draw"), ("heat", ST + "StratifiedTank.py:heat"), ("loop return", ST + "StratifiedTank.py:add_recirc_return"),
      ("physical draw", ST + "StratifiedTank.py:draw_physical_gal")],
     "One operation from an arbitrary pre-state; before/after usable and hot volumes are compared with the energy moved.",
     """volume 10-2000 gal; for the draw's bisection either the search is cut to 4 halvings (arbitrary charge) or 8 (fixed charges) with the matching error
     or followed to its end from fixed charge levels; four temperature sets for draws; tanks with usable water, and tanks drained below it by a loop or draw and heated again""")

prop("C06", "A mixed tank stays uniform and balances energy in every operation",
     """A fully mixed tank has one temperature at every height; draws, heating, loop return, fixed losses and inflow change
     it by exactly the energy or volume exchanged, never past the physical limits (incoming water for draws, the two mixed
     temperatures for inflow). Its usable volume is the whole tank when at or above supply temperature and nothing otherwise.""",
     ["inputs"], "every volume, temperature, flow, duration in the ranges",
     "Tests use single values; zero, negative and larger-than-tank amounts are not sampled together with every operation.",
     [ST + "MixedStorageTank.py"],
     [("operations", ST + "MixedStorageTank.py:draw/heat/add_recirc_return/apply_fixed_heat_loss_kbtuh/mix_primary_inflow/draw_physical_gal")],
     "Each operation runs once from an arbitrary state (one step from any temperature covers histories of any length).",
     "volume 5-2000 gal, temperatures 33-190 F, flow 0-20 gpm, up to 60 minutes, heat up to 500 kBTU/h")

prop("C07", "An energy-tracking tank changes its stored energy by exactly the energy moved",
     """Drawing, heating, adding energy, loop return and physical draws change the stored energy by exactly the energy moved,
     never below zero and never above the fully hot tank. The temperatures, usable volume and drawn-water temperature it
     reports are those of one stratified profile that holds the stored energy.""",
     ["inputs", "histories"], "every volume, temperatures, charge and amount in the ranges",
     "Tests check few points; saturation at empty/full and the inverse from energy to profile need particular states.",
     [ST + "EnergyTank.py"],
     [("energy operations", ST + "EnergyTank.py:draw/heat/add_energy_btu/add_recirc_return/draw_physical_gal"),
      ("profile from energy", ST + "EnergyTank.py:_shift_pct_from_energy")],
     "One operation from an arbitrary state; energy before/after compared with the amount; reported profile checked against StratifiedTank's integral.",
     "volume 10-2000 gal; the inverse search is cut to 3-4 halvings (with the matching error) for reporting claims, at two temperature sets, from any charge, in single operations and pairs (heat or draw, then the other), or after heating up to a fully hot tank",
     ["on symbolic paths stored energy is read from the tank's energy attribute when it exists, tied to the reported profile by the 'inverse' harness; replays use only reported temperatures"])

prop("C08", "A multi-pass heating cycle keeps water and energy in balance",
     """While a multi-pass heater runs, the water below supply temperature forms one fully mixed zone that is no hotter than
     supply when it forms; all heater output goes into it, make-up water blends into it by volume, and it counts as usable
     exactly when it reaches supply temperature. Starting to heat does not change the usable volume, and over a whole heating
     cycle the energy stored changes by exactly heat added minus heat drawn.""",
     ["inputs", "histories"], "every charge, heater output, duration, draw and make-up temperature in the ranges over one on/heat/draw/off cycle",
     "Tests exercise one or two cycles; draws deeper than the hot zone or mixed zones hotter than supply need specific sequences.",
     [ST + "SlugOverlayTank.py", ST + "EnergyTank.py"],
     [("mixed zone", ST + "SlugOverlayTank.py:activate_slug/add_to_slug/heat_slug/deactivate_slug/draw_physical_gal")],
     "The cycle runs symbolically; blend temperatures, usable volume and energy before/after are compared.",
     "two tank geometries, slopes 0.8 and 2.8; arbitrary charge with the profile search cut to 2 halvings, and fixed charge with it complete; one cycle")

prop("C09", "The mixing valve balances energy and water",
     """For every demand, loop flow and temperature, the draw from storage times its temperature rise equals the heat of the
     hot water use plus the heat lost in the loop, make-up is between cold and return temperature, and storage never gives more
     than the valve delivers. When return water alone can temper the flow the make-up is the cold/return blend; otherwise it is all cold water. When storage
     has cooled to supply temperature or below, everything delivered is drawn from storage and the make-up is the cold water with the whole
     return; with no demand and no loop loss nothing leaves storage.""",
     ["inputs"], "every load, flow and temperature in the ranges with cold < return < supply, storage above, at or below supply",
     "Tests sample a few points of each regime; the switch between the regimes is one surface in a six-dimensional space.",
     [DW + "utils.py"], [("mixing valve", DW + "utils.py:mixing_valve_behavior")],
     "One call with six symbolic inputs.", "load and flow 0-2000 gal, temperatures 33-190 F; the make-up temperature is judged when at least 0.001 gal flows; storage within 0.1 F above supply is excluded")

prop("C10", "Heaters switch exactly by their aquastat and schedule",
     """Over any history of tank readings and hours, a heater turns on exactly when its ON sensor is below the trigger
     of the mode scheduled for that hour, turns off exactly when its OFF sensor is at or above that mode's OFF trigger, and
     otherwise keeps its state. Each hour uses the mode scheduled for it, a scheduled mode without settings is an error, and
     output and power are zero or absent when off.""",
     ["inputs", "histories", "configurations"], "every sequence of sensor readings, hours, trigger temperatures within the step bound",
     "Tests step a heater once or twice through one mode; hysteresis across mode changes is a property of sequences.",
     [HT + "WaterHeater.py", HT + "Controls.py"],
     [("state update", HT + "WaterHeater.py:update_state"), ("mode of the hour", HT + "WaterHeater.py:get_controls_for_hour"),
      ("triggers", HT + "Controls.py:should_turn_on/should_turn_off")],
     "Sequences of 2-4 updates on a tank whose sensor readings are free values, hours chosen from the schedule's distinct regions.",
     "2-4 steps, three modes with free triggers and outlet temperatures; sensor heights fixed per mode")

prop("C11", "Performance maps interpolate within data and fall back as documented outside",
     """For every condition, a heater model's output and power follow its map (interpolated or regressed between the mapped
     outdoor temperatures, at the exchanger-shifted and capped water temperatures, times the number of units); above the map
     the rated high-temperature point applies, below it resistance heat with COP 1, and where there is no data the nearest
     data: at the nearest mapped outdoor temperature and the nearest mapped inlet at or above the entering water (else the warmest), and, where
     the leaving temperature is not mapped either, at the nearest one, topped up with resistance heat for the missing temperature rise. A nominal heater's output is constant with the stated COP, and unknown models are refused.""",
     ["inputs", "configurations"], "every outdoor, inlet and outlet temperature in the ranges; a sample of shipped models and arbitrary synthetic maps",
     "Tests query a few points of a few models; region edges and fallback branches need particular temperatures.",
     [HT + "PerformanceMap.py"],
     [("pickled maps", HT + "PerformanceMap.py:PklPerformanceMap"), ("regression maps", HT + "PerformanceMap.py:HPWHsimPerformanceMap"),
      ("nominal", HT + "PerformanceMap.py:NominalPerformanceMap")],
     "Map queries run with symbolic conditions; interpolators are replaced by arbitrary values per query point so that only the selection logic is judged.",
     "outdoor -30..120 F, inlet 33-120 F, outlet 100-180 F; scipy interpolation itself is outside the claim",
     ["scipy interpolators are stood in for by arbitrary values (or not-a-number) per distinct query point"])

prop("C12", "Building demand adds up to the daily use and follows the profile",
     """The demand of any step is its hour's share of the daily use, so the steps of any day add up to it; daily use is occupancy
     times the documented or published rate (for California, by bedroom counts), or the sum of a custom profile. Custom profiles are used unchanged when they have 24
     non-negative normalised hours and refused otherwise; a mixed-use building demands every hour the sum of its parts; switching to
     the annual profile and back restores the daily one; arguments that name no building are refused with a ValueError.""",
     ["inputs", "configurations"], "every occupancy, profile value, hour, step length and day in the ranges",
     "Tests compare a few buildings and timesteps with recorded values.",
     [BL + "Building.py"],
     [("demand of a step", BL + "Building.py:get_dhw_load_supplyT_gal"), ("profiles", BL + "Building.py:_compute_single_gal_and_shapes"),
      ("mixed use", BL + "Building.py:_from_multi_use")],
     "Buildings with symbolic occupancy and profile values; the step index, hour and day are symbolic integers.",
     "step lengths 1-60 min dividing the hour; up to 5 free profile hours for validation claims, all 24 or 8760 for step claims; up to three mixed uses")

prop("C13", "Weather and inlet temperatures are those of the current hour and month",
     """At any step of any year the outdoor temperature is that of its hour of the year and the inlet water temperature that of
     its calendar month; fixed design conditions hold at every step. Design conditions are the coldest of the data, every day is counted
     once in the 5-degree bin holding its mean, and each climate zone uses its own data; a number that is no zone is refused.""",
     ["inputs", "configurations"], "every step of three years at eight step lengths, arbitrary weather data; all 96 shipped zones",
     "Tests look at a few steps; month boundaries and the year wrap are single steps out of half a million.",
     [BL + "ClimateZone.py", BL + "Building.py"],
     [("hourly data", BL + "ClimateZone.py:get_oat_f"), ("monthly data", BL + "ClimateZone.py:get_inlet_water_temp_f"), ("bins", BL + "ClimateZone.py:get_oat_buckets")],
     "Weather data is an uninterpreted array; the step index is a symbolic integer.", "three years, eight step lengths; two free days for the bins; fixed conditions alone and given along with a year of data")

prop("C14", "Every hour is billed at the rate of its period",
     """For any peak and discount windows (wrapping midnight or not), seasons and prices, every hour of the year is charged the energy
     and demand rate of the period it falls in; a step is charged at its hour's rate whatever the step length. Demand periods of different
     months or kinds are distinct, twelve base charges are billed per year, and malformed rate structures are refused.""",
     ["inputs", "configurations"], "every whole-hour window and price in the ranges, the hours of the first, middle and last days of each month",
     "Tests check some hours of some tariffs; boundaries of windows, months and seasons are single hours.",
     [BL + "UtilityCostTracker.py"],
     [("rate table", BL + "UtilityCostTracker.py:from_params"), ("lookup", BL + "UtilityCostTracker.py:get_energy_charge_at_step/get_demand_period_at_step")],
     "Tariffs are built from symbolic windows and prices and compared hour by hour with an independent reading of the parameters.",
     "first, middle and last day of each month; peak windows with whole hours; two seasons")

prop("C15", "Annual cost and energy totals are the sum of their parts",
     """The annual cost of a run is each step's energy at its rate, plus each demand period's peak power at its rate, plus base charges;
     the monthly breakdowns add up to it, with every charge in the month it belongs to. Total and monthly energy and peak demand
     account for every step's power, including the temperature-maintenance heater's.""",
     ["inputs", "histories"], "every power value and price in the ranges at steps placed at month, window and year boundaries",
     "Tests check constant-power runs; misplaced boundaries cancel out there.",
     [SI + "SimulationRun.py"],
     [("annual cost", SI + "SimulationRun.py:get_annual_utility_cost"), ("monthly", SI + "SimulationRun.py:get_monthly_cost_breakdown/get_monthly_cost_breakdown_detailed/get_monthly_energy_kwh"),
      ("totals", SI + "SimulationRun.py:get_total_energy_kwh/get_peak_demand_kw")],
     "A recorded year with symbolic power at chosen steps and symbolic prices; totals compared with an independent bill.",
     "a handful of free steps per run (with and without primary or temperature-maintenance power), the others idle; three tariff structures")

prop("C16", "A rate structure survives export to CSV and re-import",
     """Exporting any rate structure to CSV and reading it back yields the same energy rate for every hour, the same demand
     rate for every period and the same base charge, also after a second round trip. A CSV with hour-specific energy rates, its columns in any order and
     trailing blanks left out, is read with each hour's own rate or its period's; one that lacks an hour, a column, a readable period or a period's first rates is refused with a ValueError.""",
     ["inputs", "configurations"], "every price in the ranges, five window/season layouts, hour-specific rates at arbitrary values",
     "Tests round-trip one or two tariffs.",
     [BL + "UtilityCostTracker.py"], [("export", BL + "UtilityCostTracker.py:to_csv"), ("import", BL + "UtilityCostTracker.py:from_csv")],
     "to_csv and from_csv run on symbolic prices through an in-memory file that keeps the terms.",
     "prices are free; layouts and the hours with own rates are fixed per instance",
     ["number formatting is exact in the model: a printed price reads back as the same number"])

prop("C17", "A simulation records every step once, in order, and stops by its rule",
     """A simulation visits each step once, in order, and every recorded series has exactly one entry per simulated step holding what
     that step produced. Outage minutes are the minutes without usable water, the run stops exactly when the delivered temperature
     stays below the allowance for longer than allowed, and it starts from tanks charged down to the ON sensor at storage temperature.
     The exported CSV and failure report say the same.""",
     ["inputs", "histories"], "arbitrary system behaviour at chosen steps, any allowance, both durations",
     "Tests run fixed systems; alignment and the stop rule depend on rare sequences.",
     [IF + "Simulator.py", SI + "SimulationRun.py"],
     [("loop", IF + "Simulator.py:simulate"), ("recording", SI + "SimulationRun.py:record_timestep"), ("stop rule", SI + "SimulationRun.py:check_outlet_deficit")],
     "The simulation loop runs over a system whose behaviour at chosen steps is arbitrary.",
     "2-5 consecutive free steps at the start, middle or end of a run; other steps constant",
     ["the simulated system is a real system whose single-step function returns arbitrary values"])

prop("C18", "One simulated step moves heat and water as the schematic says",
     """In every simulated step of every schematic, each heater is switched by its own aquastat rule of the hour's mode, the
     tank receives the summed output of the heaters that are on, the building's demand of that interval is drawn, and loop
     losses go to the tank the schematic names: the primary tank (return to primary), the temperature-maintenance tank
     (parallel loop) or the swing tank, which is fed from the primary with exactly the water drawn. Reported demand, output,
     power, temperatures, usable volume, mode and weather are those of that step.""",
     ["inputs", "configurations", "histories"],
     "every capacity, thermostat setting, tank state, loop flow and weather in the ranges, for sequences of 1-6 steps placed at mode and day changes",
     """Tests look at annual totals and a few step results; a wrong order within the step, a unit missed by a multiplier, or a state
     that leaks between tanks shows only for certain temperatures and switch states.""",
     [DW + "DHWSystem.py", DW + "recirc_systems/ParallelLoopSystem.py", DW + "recirc_systems/SwingSystem.py", DW + "rtp_systems/SinglePassRTPSystem.py",
      DW + "rtp_systems/MultiPassRTPSystem.py"],
     [("primary step", DW + "DHWSystem.py:simulate_step"), ("parallel loop", DW + "recirc_systems/ParallelLoopSystem.py:simulate_step"),
      ("swing", DW + "recirc_systems/SwingSystem.py:simulate_step"), ("return to primary", DW + "rtp_systems/SinglePassRTPSystem.py:simulate_step"),
      ("multi-pass", DW + "rtp_systems/MultiPassRTPSystem.py:simulate_step")],
     """simulate_step of each real system runs beside a twin assembled from the real tanks (whose own behaviour C04-C09 decide) and an
     independent statement of the schematic; heater maps are linear in every argument so a swapped argument shows.""",
     """1-6 consecutive steps, at a day start, an hour change into load-up, midnight and a mid-year step, with 1 and 10 minute steps; one or two
     heaters, also with different schedules or without power data; supply 120, storage 150; multi-pass: inlet equal to the tank's cold temperature and tank top above supply temperature.""",
     ["performance maps are stand-ins linear in their arguments (the shipped ones are C11's subject)"])

prop("C19", "Load-shift sizing covers the shed block and never undercuts normal needs",
     """With a shed schedule, the allowed run hours are capped by the hours outside shed; sized storage is the larger of the
     normal requirement and what the first shed block draws (plus the worst shortfall after it) spread over the band between the load-up OFF and
     shed ON aquastats, and sized capacity is the larger of the normal one and the rate that refills that storage during the load-up hours before
     it. Covering a larger share of days never needs less. Without a shed mode load-shift settings change nothing.
     The covered share of days maps to demand through the published normal distribution.""",
     ["inputs", "configurations"],
     "every coverage fraction, daily use, aquastat height and temperature, defrost and shape levels in the ranges; eight shed/load-up schedules",
     "Tests pin a few load-shift sizings; schedules with several blocks, sheds at midnight or long sheds take other branches.",
     [DW + "DHWSystem.py", DW + "rtp_systems/RTPSystem.py", IF + "EcosizerEngine.py"],
     [("load-shift sizing", DW + "DHWSystem.py:size"), ("load-up rate", DW + "DHWSystem.py:_calc_ls_generation_rate_gph"),
      ("percent", IF + "EcosizerEngine.py")],
     "from_size runs with symbolic shapes and control settings for each schedule and is compared with an independent closed form of the requirement.",
     """eight 24-hour schedules; one to three design parameters free at a time; shapes have one free level for shed, one for load-up hours;
     swing systems only for the monotonicity claims; multi-pass is C22; coverage percentages from a list of six""")

prop("C20", "Every point of a sizing curve is a sizing, and the marked one is the system's",
     """Every point of the capacity-versus-storage curve is what sizing at that point's run hours gives; the curve runs from 24 hours down to the
     shortest feasible hours, fewer hours never needing less capacity or more storage, and the recommended point is the
     system's own size. Every point of the load-shift curve is what sizing at that coverage gives, one per percent from 25 to 100, growing with coverage.
     The engine hands out the same points. Computing a curve changes neither the system nor the building.""",
     ["inputs", "configurations"],
     "every daily use, defrost factor, inlet temperature and aquastat height in the ranges; several run hours, steps, profiles and schedules",
     "Tests check lengths and a few points of one system; per-point consistency with sizing, state restored by the sweep and other schematics are not.",
     [DW + "DHWSystem.py", DW + "recirc_systems/SwingSystem.py", IF + "EcosizerEngine.py"],
     [("run-hour curve", DW + "DHWSystem.py:get_sizing_curve"), ("load-shift curve", DW + "DHWSystem.py:get_ls_sizing_curve"),
      ("swing curve", DW + "recirc_systems/SwingSystem.py:get_sizing_curve"), ("engine points", IF + "EcosizerEngine.py:plot_sizing_curve")],
     "Curves of real systems are computed with symbolic design parameters and compared point by point with from_size of a fresh system.",
     """one design parameter free at a time (daily use, defrost, inlet or aquastat); three fixed peak profiles; recommended hours above the shortest
     feasible ones; growth claims not made for swing systems; multi-pass curves are C22's; drawing the figure itself is outside""")
prop("C21", "Temperature-maintenance equipment is sized for the loop and the swing tank's day",
     """A parallel loop tank holds exactly the heat the loop loses in the allowed off time between its ON and OFF temperatures and its heater outpaces the loop
     loss by the safety factor; settings that cannot maintain temperature are refused. A swing tank is the smallest listed one that covers loop loss and the
     peak minute and its element outpaces the loop. A swing system's primary is sized for the hot water the swing tank actually takes over its day (also with
     load shifting). With electric-resistance trade-off the element additionally covers the worst one-minute deficit; coverage points are such sizings,
     and computing them (even when it fails) leaves system and building as they were.""",
     ["inputs", "configurations"],
     "every loop flow, return temperature, off time, safety factor, daily use, run hours, defrost factor and aquastat height in the ranges, one or two free at a time",
     "Tests pin a handful of sized systems; the tank table's edges, the minute-by-minute swing day for other shapes and the state left behind are not.",
     [DW + "recirc_systems/ParallelLoopSystem.py", DW + "recirc_systems/SwingSystem.py", DW + "recirc_systems/SwingERTrdOffSystem.py"],
     [("parallel loop sizing", DW + "recirc_systems/ParallelLoopSystem.py:size"), ("swing tank and day", DW + "recirc_systems/SwingSystem.py:size"),
      ("swing day simulation", DW + "recirc_systems/SwingSystem.py:_sim_just_swing"), ("ER addition", DW + "recirc_systems/SwingERTrdOffSystem.py:_size_er_element"),
      ("coverage points", DW + "recirc_systems/SwingERTrdOffSystem.py:get_er_sized_points")],
     "Real from_size/size/from_components calls run with symbolic loop and design parameters against closed forms (parallel loop, tank table, element) and an independent minute-by-minute swing day.",
     """swing day at a fixed set of profiles and daily uses (its tank temperature stays concrete; run hours, defrost, aquastat, safety factors and shed fraction are symbolic in
     narrow ranges); supply, storage and inlet temperatures from a few fixed sets; figures are outside""")
prop("C22", "Multi-pass return-to-primary plants are sized for the growing slug",
     """A multi-pass return-to-primary plant gets capacity for the day's water plus the loop's day in the allowed hours, and storage for the largest slug of
     returned and inlet water that builds up over two design days before the heater brings it to storage temperature. Trial simulations then raise
     capacity by exactly the worst shortfall over the minutes the heater had, each trial starting at the ON trigger, until one shows no
     shortfall. Load-shift controls and sensors in the unusable zone are refused. Its curve consists of sizings at shorter hours, the
     recommended one being the system itself.""",
     ["inputs", "configurations", "histories"],
     "every defrost factor and run hours in narrow ranges around several designs; every trial-day history of a few free minutes; every sensor height and usable share; every curve of arbitrary sized points",
     "Tests size a few multi-pass plants; which minute sets the boost, how trials chain and which points a curve keeps are not tested.",
     [DW + "rtp_systems/MultiPassRTPSystem.py", DW + "rtp_systems/RTPSystem.py", DW + "utils.py"],
     [("sizing", DW + "rtp_systems/MultiPassRTPSystem.py:size"), ("slug volume", DW + "rtp_systems/MultiPassRTPSystem.py:_calc_running_volume_supplyT_gal"),
      ("boost and usable zone", DW + "rtp_systems/MultiPassRTPSystem.py:from_size"), ("curve", DW + "rtp_systems/MultiPassRTPSystem.py:get_sizing_curve")],
     """Real size/from_size run with symbolic run hours or defrost factor against an energy-balance slug recursion; the boost loop runs on arbitrary
     (symbolic) simulated steps through an overridden simulate_step; the curve runs on arbitrary sized points through a stand-in from_size.""",
     """five hourly profiles at fixed daily uses and loop flows; boost histories with two to four free minutes in one trial day and at most three trials; curves of at most three points;
     the simulated steps themselves are C18's; a slug that reaches storage temperature within 1e-7 F is left undecided""")
prop("C23", "The engine builds the plant it was asked for",
     """From its constructor arguments the engine builds exactly the plant they describe: the named schematic (any documented alias), as many heaters sharing the given
     capacity or catalogue model, the given volumes, temperatures, loop and temperature-maintenance parameters; run/shed hours become the schedule, with load-up in the hours before the
     first shed window, and every scheduled mode has its own sensor heights and temperatures, defaulting to the normal ones. Climate comes from the zone, zip code, station or design conditions named;
     daily use is people times gallons per person. Without given sizes the plant is what the schematic's sizing gives. Missing or unknown arguments are refused.""",
     ["inputs", "configurations"],
     "every capacity, volume, temperature, flow, factor and sensor height in the ranges; every run/shed pattern of three to six free hours; every presence of the optional arguments; all schematics and aliases",
     "Tests construct engines for a few argument sets; dropped, swapped or defaulted arguments of the other combinations go unnoticed.",
     [IF + "EcosizerEngine.py", BL + "ClimateZone.py", BL + "Building.py"],
     [("engine construction", IF + "EcosizerEngine.py:__init__"), ("schedule", IF + "EcosizerEngine.py:_build_dhw_system"), ("controls", IF + "EcosizerEngine.py:_build_control_map")],
     "The real engine is built from symbolic arguments; the plant it holds is inspected through the components' own queries and compared with the arguments or with the schematic's own sizing.",
     """schedules with three or four free hours (six thorough) over a fixed remainder; sized plants vary units or defrost factor only, at one profile and temperature set; multi-pass
     sizing is replaced by a recorder of its arguments (C22 checks the sizing); five catalogue models; nine climate keys""")
prop("C24", "Results depend on what was asked, not on what was done before",
     """Sizing and sizing curves work on the design day whether or not the building is currently set to its annual shape, and succeed or fail leave building,
     allowed hours and sizes as they were; switching a building to the annual shape and back restores its own daily shapes. A system sized again is sized as a new one. A simulation gives the same
     steps whatever runs, aborted or finished, preceded it on the same plant and whatever other plants do meanwhile; simulating leaves sizes alone, and reading results changes none. Engines built from the same arguments are alike
     and leave their arguments, and other engines, alone.""",
     ["histories", "inputs", "configurations"],
     "every daily use, run hours or factor in the ranges for the first of two operations, all schematics; earlier runs broken off after one to six steps",
     "Each test works on fresh objects; what an earlier run, failed sizing or curve leaves behind only shows in a sequence of operations.",
     [DW + "DHWSystem.py", DW + "recirc_systems/SwingSystem.py", DW + "rtp_systems/MultiPassRTPSystem.py", BL + "Building.py", IF + "Simulator.py", SI + "SimulationRun.py"],
     [("sizing state", DW + "DHWSystem.py:size"), ("curve state", DW + "DHWSystem.py:get_sizing_curve"), ("load shape switch", BL + "Building.py:set_to_daily_load_shape"),
      ("run start", IF + "Simulator.py:simulate")],
     "Pairs of operations run on the same real objects with a symbolic parameter in the first; what the second gives, and the objects' public state, is compared with fresh objects.",
     """sequences of two or three operations, second sizings also with another stratification slope; earlier runs of one to six steps, later ones compared over their first 5 to 24 steps; return-to-primary plants with a narrow range of daily use; multi-pass sizing
     without capacity boost""")

prop("C25", "Look-ups, wrappers and figures hand on exactly what was computed",
     """Look-ups of models, weather stations and temperature buckets return every entry that fits the question and no other; the output capacity look-up is the model's capacity times the number of heaters after
     defrost, in the unit asked for, and refuses impossible arguments. The engine's and the stand-alone simulate calls run the length and step asked for on the engine's own building and hand on settings, summary and monthly
     energy. Figures carry the recorded or computed numbers unchanged: the lines of a run at their minutes and in their stated units, shading exactly over the load-shift steps; sizing curves with one marker and slider step
     per point, the system's own size marked first; bars of the cost comparison by month, plant and kind of charge, adding up to the year's bill.""",
     ["inputs", "configurations"],
     "every recorded value, price, derate, daily use and mode sequence in the ranges, for the look-ups, wrappers and figures of the public interface",
     "No test draws a figure; a swapped series, reversed index or wrong unit is not an error anywhere and only shows when values are told apart for every input.",
     [IF + "EcosizerEngine.py", SI + "SimulationRun.py", DW + "DHWSystem.py", DW + "recirc_systems/SwingERTrdOffSystem.py", IF + "Simulator.py"],
     [("look-ups", IF + "EcosizerEngine.py:get_hpwh_output_capacity"), ("cost comparison", IF + "EcosizerEngine.py:get_annual_utility_comparison_graph"), ("run figure", SI + "SimulationRun.py:to_plotly"),
      ("curve figure", DW + "DHWSystem.py:plot_sizing_curve"), ("engine curve", IF + "EcosizerEngine.py:plot_sizing_curve")],
     "The real functions run on symbolic records, prices and sizes with a stand-in plotting library that records traces, shapes and sliders; what was drawn is compared with what went in.",
     """runs of four to six recorded steps (figures) or five steps with symbolic values (wrappers, costs); curves of four schematics with one free design parameter; the drawing library itself and the look of the figures
     are outside""",
     assumptions=["the stand-in for the plotting library records add_trace, add_vrect, update_layout, write_html and to_html as the real one takes them"])

prop("C26", "Unusable set-ups are refused and risky ones warned about",
     """Sizing refuses controls that leave no usable water to size from: an ON sensor that trips only when nothing at supply temperature is left, or a load-up that does not charge the tank past the shed ON sensor; every other
     set is sized to a positive tank. It warns about exactly those modes whose OFF sensor sits above the ON sensor or whose band the sized heater crosses in under ten minutes. Sized results cannot be read before
     sizing, nor after one that was refused for want of an inlet temperature or usable water; a load-shift curve without load shifting is refused. Rate plans with a missing or non-numeric entry, lists of unequal length, seasons that do not cover
     the year once, or peak hours outside the day are refused, as are unknown zip codes, stations and models, and weather-dependent equipment without an air temperature.""",
     ["inputs", "configurations"],
     "every sensor height, trigger, daily use, storage temperature and defrost factor in the ranges; every single flawed entry of a three-season rate plan; every integer season bound from -1 to 13 for up to three seasons",
     "Tests refuse one sample per rule; the line between accepted and refused, or silent and warned, is only met by a solver placing inputs on either side of it.",
     [DW + "DHWSystem.py", DW + "recirc_systems/SwingSystem.py", DW + "recirc_systems/ParallelLoopSystem.py", DW + "rtp_systems/SinglePassRTPSystem.py", BL + "UtilityCostTracker.py", BL + "ClimateZone.py", HT + "PerformanceMap.py"],
     [("usable water", DW + "DHWSystem.py:_calc_storage_volume_storageT_gal"), ("short cycling", DW + "DHWSystem.py:_warn_if_short_cycling"), ("rate plans", BL + "UtilityCostTracker.py:from_params"),
      ("places", BL + "ClimateZone.py:from_zip_code")],
     "The real sizing and constructors run on symbolic arguments; the solver decides for every path whether refusing, warning or accepting is what an independent statement of the rule says.",
     """warnings and refused bands for the systems without swing tank and multi-pass heating (those never warn); one or two free control settings at a time; unknown names by a few samples""")
