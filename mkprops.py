#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
CORE = "heat_load_calc/core/"
INI = "heat_load_calc/initializer/"
WEA = "heat_load_calc/weather/"
EXT = "heat_load_calc/external/"
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("C01", "A stage that returns normally left every output file complete",
     "Each pipeline stage (weather generation, house initialisation, load calculation with result files) either raises, or returns having written every file it promises, completely and with exactly the bytes of an undisturbed run. "
     "An input/output error on any open, read, write, flush, close or rename reaches the caller; it is never swallowed, and never leaves a truncated or missing output behind a normal return. "
     "Interrupted or short writes that the operating system allows the caller to retry do not change a byte.",
     ["fault_sequences", "crash_points", "inputs"],
     "every stage, every I/O operation it performs, every failure (ENOSPC, EIO, EMFILE, EACCES, EINTR, short write/read) at any position of any of them, any region/interval/house",
     "The tests run each stage on a healthy disk and look at returned values; none inspects the files or makes an I/O operation fail, and the space of (operation, fault, offset) cannot be listed by hand.",
     [WEA + "weather.py", INI + "initializer.py", CORE + "log.py", WEA + "weather_data.py", INI + "schedule_loader.py"],
     [("with-open/csv.writer blocks that let OSError propagate", INI + "initializer.py:make_house"),
      ("DataFrame.to_csv of weather.csv", WEA + "weather.py:make_weather"),
      ("result_detail.csv / result_digest.csv", CORE + "log.py:record")],
     observe=["files in output_data_dir", "exception or normal return of make_weather / make_house / make_house_for_test / core.calc"])

prop("C02", "Re-running after a crash converges to the clean result, whatever was left behind",
     "If a stage is killed at any point (leaving missing, empty, torn or stale files from this or another house) and the pipeline is re-run from that stage on a healthy disk in the same directory, every file and every returned number is identical to a run in a fresh directory. "
     "This holds whether the re-run happens in the same process after an error or in a new process, and for any number of successive crashes.",
     ["crash_points", "fault_sequences", "histories"],
     "every crash point in every stage, every combination of lost/torn un-synced files, repeated crashes, leftovers of other houses (more or fewer rooms/boundaries), same-process retry or restart",
     "No test kills a stage or starts from a dirty directory; the outcome depends on which byte of which file was durable at the crash.",
     [WEA + "weather.py", INI + "initializer.py", CORE + "core.py", CORE + "log.py", CORE + "pre_calc_parameters.py"],
     [("outputs opened in truncating mode and fully rewritten", INI + "initializer.py:make_house"),
      ("no state kept between stage calls", CORE + "core.py:calc")],
     observe=["files after the re-run", "returned data frames"])

prop("C03", "The load calculation refuses damaged hand-over files instead of computing on",
     "When any hand-over file is missing, holds torn JSON, has lost rows, has a blank field, has a ragged row, has the wrong number of columns or cannot be read, the load calculation raises and writes no result files; it never returns numbers computed from a partial, shifted or wrapped-around series. "
     "Series files that disagree in length with each other or with the weather file are refused.",
     ["fault_sequences", "crash_points", "inputs"],
     "every hand-over file, every truncation/tearing/deletion/duplication of whole rows, every read error, any house",
     "Tests only ever feed complete 35040-row files; negative step indices used during run-up wrap around silently on a short series, so a damaged file can produce plausible numbers.",
     [CORE + "pre_calc_parameters.py", CORE + "core.py", CORE + "infiltration.py"],
     [("loading of mid_data_*.csv, mid_data_house.json, weather.csv", CORE + "pre_calc_parameters.py:make_pre_calc_parameters")],
     observe=["exception of core.calc", "absence of result files"])

prop("C04", "Simulations running side by side in one process do not influence each other",
     "Any number of pipeline stages for different houses, run concurrently in threads or interleaved step by step in one process, each return exactly what they return when run alone, under every interleaving. "
     "Results do not depend on hash randomisation, on the wall clock, on the process's random state or on the working directory, and a stage touches no file outside the directories it was given and its own packaged data.",
     ["schedules", "configurations"],
     "every interleaving of two or more simulations/stages at source-line granularity, every hash seed, clock, random state and working directory",
     "Tests run one simulation after another in one thread with one hash seed; an interleaving that exposes a shared buffer or cache never occurs.",
     [CORE + "sequence.py", CORE + "next_condition.py", CORE + "ot_target_pmv.py", CORE + "pre_calc_parameters.py", CORE + "log.py", INI + "initializer.py", INI + "response_factor.py", WEA + "weather.py"],
     [("all simulation state lives in objects local to one call", CORE + "core.py:calc")],
     observe=["returned data frames", "written files", "file-system access trace"])

prop("C05", "Every public call is repeatable: history-free, argument-preserving, unaliased",
     "Any public function of the package (specification conversion, weather, house initialisation, response factors, load calculation) returns the same result for the same arguments whatever calls, successful or failed, happened before in the process. "
     "No call modifies the dictionaries, lists or arrays passed to it, and nothing a caller later does to a returned object or to its own arguments changes the result of a later call.",
     ["histories", "inputs"],
     "every sequence of public calls (including repeated, failing and re-entrant-argument calls), with arguments and results mutated by the caller in between",
     "Each test makes a single call on fresh arguments; a cache, a mutated argument or an aliased default only shows in sequences of calls.",
     [INI + "response_factor.py", INI + "initializer.py", INI + "schedule_loader.py", WEA + "weather.py", CORE + "core.py", "heat_load_calc/convert/convert_lv2_to_lv3.py", "heat_load_calc/convert/convert_lv3_to_lv4.py", "heat_load_calc/convert/ees_house.py", "heat_load_calc/convert/model_house.py"],
     [("functions build fresh containers", "heat_load_calc/convert/convert_lv3_to_lv4.py"),
      ("factory objects copying their layer lists", INI + "response_factor.py:ResponseFactorFactory")],
     observe=["return values", "arguments after the call"])

prop("C06", "The carried condition is the whole state: any tick can be replayed or resumed",
     "The condition object handed from one time step to the next is the complete state of the building: restoring a copy of it at any step and continuing, in the same or another process, gives bit-identical results to the uninterrupted run. "
     "Repeating a step from the same condition gives the same result, and a condition that has been handed on is never modified afterwards; the same holds for the ground condition during the ground run-up.",
     ["crash_points", "histories", "schedules"],
     "every step of every run as checkpoint/crash point, any number of restores and retries, any house and weather",
     "Tests only run uninterrupted; hidden state kept elsewhere or in-place modification of an old condition is invisible without restart and retry.",
     [CORE + "conditions.py", CORE + "sequence.py", CORE + "sequence_ground.py", CORE + "core.py"],
     [("run_tick returns a new Conditions built from fresh arrays", CORE + "sequence.py:run_tick"),
      ("ground hand-over", CORE + "conditions.py:update_conditions_by_ground_conditions")],
     state=[("Conditions", "room, furniture, wall and mode state at step n", CORE + "conditions.py"),
            ("GroundConditions", "ground wall state during ground run-up", CORE + "conditions.py")],
     observe=["conditions passed into and out of each step", "result frames"])

prop("C07", "Sensible heat is conserved in every room at every step",
     "At every recorded step the heat stored in a room's air equals heat from its surfaces by convection, ventilation (leakage, mechanical, local, open-window natural, and air drawn from neighbouring rooms), internal and human gains, furniture exchange and delivered conditioning; the furniture's stored heat equals its exchange with the air plus its solar share. "
     "Leakage follows the volume-weighted indoor-outdoor temperature difference with its pressure offset and is never negative, natural ventilation flows only while the windows are open, and human heat follows the room temperature of the previous step.",
     ["histories", "inputs", "configurations"],
     "every house, every weather/schedule/occupancy history, every equipment configuration and operating-mode sequence",
     "Tests compare a handful of final temperatures of two fixed houses; no test closes the balance, and the branches (leak clamp, windows open, negative gains, capacity switch) depend on the history.",
     [CORE + "sequence.py", CORE + "infiltration.py", CORE + "occupants.py", CORE + "pre_calc_parameters.py"],
     [("BRM/BRC room balance", CORE + "sequence.py:run_tick"), ("leakage", CORE + "infiltration.py"), ("human heat", CORE + "occupants.py")],
     observe=["detail result columns t_r, t_fun, qic_s, l_s_c, l_s_r, v_reak, v_ntrl, q_hum_s"])

prop("C08", "Water vapour is conserved; the coil only removes what it condenses",
     "At every recorded step the moisture stored in a room's air equals ventilation exchange (outdoor and between rooms), internal and human vapour, exchange with the furnishings and minus the water condensed on the cooling coil; the furnishings' stored moisture equals their exchange with the air. "
     "The coil removes moisture only while it delivers sensible cooling and only if its surface is below the dew point, the reported latent load is exactly that water times the heat of vaporisation and never positive, and humidity stays non-negative.",
     ["histories", "inputs", "configurations"],
     "every house, every humidity/cooling/occupancy history, all coil specifications",
     "One humidity value of one fixed house is asserted; the condensing branch, its threshold and multi-room exchange depend on the history of cooling load and humidity.",
     [CORE + "sequence.py", CORE + "heat_exchanger.py", CORE + "occupants.py", EXT + "psychrometrics.py"],
     [("brmx/brxc moisture balance", CORE + "sequence.py:run_tick"), ("coil by-pass model", CORE + "heat_exchanger.py:get_dehumid_coeff")],
     observe=["detail result columns x_r, x_fun, l_l_c, q_hum_l"])

prop("C09", "Every surface balances, radiation cancels, solar and panel heat arrive whole",
     "At every recorded step each interior surface's heat flux equals convection from its own room plus radiation exchanged with the other surfaces of that room plus absorbed transmitted sunlight plus its share of panel heat, and the radiation exchanged inside a room sums to zero. "
     "All sunlight transmitted into a room is absorbed by that room's absorbing surfaces and furniture, all panel heat is emitted in that room, and each surface uses the film coefficients and form factors belonging to its own room and area, whatever the order in which boundaries are listed.",
     ["histories", "inputs", "configurations"],
     "every house geometry and boundary order, every solar and panel-heating history",
     "No test looks at surface fluxes, and the fixed test houses list boundaries grouped by room, use one absorbing pattern and little panel heat.",
     [CORE + "shape_factor.py", CORE + "pre_calc_parameters.py", CORE + "sequence.py", CORE + "log.py"],
     [("form factors / h_r", CORE + "shape_factor.py:get_h_r_js"), ("solar distribution", CORE + "pre_calc_parameters.py"), ("surface solution", CORE + "sequence.py:run_tick")],
     observe=["detail result columns *_b*_{t_s,t_e,hir_s,qir_s,hic_s,qic_s,qisol_s,qiall_s}"])

prop("C10", "Walls remember exactly: conduction follows the response-factor recursion",
     "The surface temperature of every wall at every step equals the response of its layers to the complete history of its own surface flux and of its rear temperature, with steady-state resistance equal to the sum of its layer and outside resistances. "
     "The rear temperature is the weighted mix of outdoor equivalent temperature and of the linked interior surface's environment with the weights given for that wall, and what leaves one side of a partition is driven by the room on the other side.",
     ["histories", "inputs"],
     "every wall construction (layers, ground, steady, given factors), every flux/temperature history and link topology",
     "Unit tests check response factors of two walls in isolation, never the recursion over a history in a coupled building.",
     [CORE + "sequence.py", CORE + "pre_calc_parameters.py", INI + "response_factor.py"],
     [("term-wise recursion", CORE + "sequence.py:run_tick"), ("rear coupling matrices AX/FIA/CRX/FLB", CORE + "pre_calc_parameters.py"), ("response factors", INI + "response_factor.py")],
     state=[("theta_dsh_srf_a/t", "term-wise conduction memory", CORE + "conditions.py")],
     observe=["detail result columns *_b*_{t_s,t_b,t_e,qiall_s}"])

prop("C11", "Operating mode follows the comfort automaton with hysteresis and demand gating",
     "In every room at every step the operating mode is the documented function of the previous mode, the demand and the predicted comfort votes for heavy, middle and light clothing from the previous step's room state: heating, cooling, windows open, windows closed, with hysteresis. "
     "Without demand the room is always in the closed/off state; the reported comfort target, clothing and air speed always belong to the reported mode.",
     ["histories", "inputs", "schedules"],
     "every sequence of demands, temperatures, radiant temperatures and humidities driving every mode transition, in every room independently",
     "A handful of fixed runs visit few transitions; the direct heating-to-cooling, open/close and demand-drop transitions depend on the driving history.",
     [CORE + "ot_target_pmv.py", CORE + "ot_target.py", CORE + "operation_mode.py", CORE + "sequence.py"],
     [("mode automaton", CORE + "ot_target_pmv.py:get_operation_mode_i_n"), ("comfort vote", CORE + "ot_target_pmv.py:get_pmv_is_n")],
     state=[("operation_mode_is_n", "mode per room", CORE + "conditions.py")],
     observe=["detail result columns ac_operate, remarks, hc_hum, hr_hum"])

prop("C12", "Conditioning delivers the target, only in its mode, and respects panel capacity",
     "When a room is heated or cooled its operative temperature lands exactly on the demand-weighted mix of the comfort target and the temperature it would have without conditioning; when it would already satisfy the target, or conditioning is off, it receives none. "
     "Heating never extracts and cooling never supplies heat to an air-conditioned room, panel output never exceeds its rated capacity in either direction, and air conditioning makes up exactly the remainder only when the panel is at capacity.",
     ["histories", "inputs", "configurations"],
     "every equipment combination (convective/radiant per room), capacity, demand fraction, multi-room coupling and driving history",
     "Test houses have convective systems at full demand; capacity saturation, fractional demand and mixed multi-room systems arise only in particular histories.",
     [CORE + "next_condition.py", CORE + "sequence.py", CORE + "ot_target_pmv.py", CORE + "pre_calc_parameters.py"],
     [("two-pass load solution", CORE + "next_condition.py:calc_next_temp_and_load"), ("comfort target", CORE + "ot_target_pmv.py:get_theta_ot_target")],
     observe=["detail result columns ot, l_s_c, l_s_r, ac_operate, remarks"])

prop("C13", "Calendar and run-up: every run starts, warms up and records on the right steps",
     "The main period covers exactly the requested days from 1 January 00:00 at 15-minute steps, each recorded row being produced by that step's inputs; results for a shorter main period are a prefix of those for a longer one. "
     "Run-up of D days is equivalent to having simulated the last D days of the year immediately before, run-up steps are never recorded, a ground-only run-up hands its complete ground state over, driven by outdoor air and the annual mean, and a building run-up longer than the total run-up is refused before anything is written.",
     ["schedules", "configurations", "histories"],
     "every combination of main, run-up and building run-up lengths, every weather year and ground construction",
     "Tests use two fixed period settings and look at one instant; off-by-one steps, a skipped hand-over or a shifted warm-up year change numbers only slightly.",
     [CORE + "core.py", CORE + "period.py", CORE + "sequence_ground.py", CORE + "conditions.py", CORE + "log.py"],
     [("three-phase loop with negative step numbers", CORE + "core.py:calc"), ("step counts", CORE + "period.py"), ("ground hand-over", CORE + "conditions.py:update_conditions_by_ground_conditions")],
     observe=["result index", "result rows under shifted inputs"])

prop("C14", "No result looks into the future, and no room or series leaks into another",
     "Changing any input (weather, schedules, demand, solar gain) from some step on leaves every result before that step untouched. "
     "Changing an input of one room or wall leaves rooms that are not connected to it by air exchange or walls untouched, except through the house-wide leakage, and an input that is multiplied by zero weight has no effect.",
     ["histories", "inputs"],
     "every pair of histories sharing a prefix, every divergence step, every subset of rooms",
     "It is a relation between two runs that differ only after an arbitrary instant; the tests never run such pairs.",
     [CORE + "sequence.py", CORE + "pre_calc_parameters.py", CORE + "core.py"],
     [("step n reads column n of each series", CORE + "sequence.py:run_tick")],
     observe=["detail result rows before the divergence"])

prop("C15", "Reports tell what was simulated: digest, detail, files and inputs agree",
     "Every hourly digest value is the stated aggregate (mean, sum or value on the hour, stated rounding) of that hour's detail rows, the result files hold exactly the returned tables, and no file is written unless asked for. "
     "Detail columns that restate inputs (outdoor air, demand, gains, transmitted sunlight) equal the inputs of the same step, and derived columns (relative humidity, operative temperature, furniture exchange, surface fluxes) follow from the reported state of the same step and the right room and surface.",
     ["histories", "inputs", "configurations"],
     "every house (rooms, boundary counts and order), every recorded history, every combination of output switches",
     "Tests read two cells of the returned table; no test reads the files or relates digest and detail.",
     [CORE + "log.py", CORE + "sequence.py", CORE + "core.py"],
     [("logger arrays filled per step", CORE + "sequence.py:run_tick"), ("record/derived columns", CORE + "log.py")],
     observe=["returned tables", "result_detail.csv", "result_digest.csv"])

prop("C16", "When disturbances stop the house settles, and to the right steady state",
     "Once weather, gains and schedules become constant and conditioning is off, every room, furnishing and surface approaches, within a bounded number of steps, the unique steady state given by the wall resistances, ventilation and gains, independent of earlier history. "
     "In particular, an environment at one uniform temperature without gains brings every surface and room to that temperature, for every boundary kind and temperature-difference coefficient, both for given hand-over files and for a house taken through the whole pipeline.",
     ["histories", "fault_sequences", "inputs"],
     "every disturbance history before the quiet period, every house including ground contact, partitions and partial temperature-difference coefficients",
     "Tests of steady houses exist for four fixed single rooms; they say nothing about other constructions, about history-independence or about the pipeline's own hand-over coefficients.",
     [CORE + "sequence.py", CORE + "pre_calc_parameters.py", INI + "response_factor.py", INI + "boundary_simple.py", INI + "initializer.py", INI + "outside_eqv_temp.py"],
     [("DC gain of response factors", INI + "response_factor.py:calc_response_factor"), ("temperature-difference coefficients", INI + "initializer.py:_make_boundaries"), ("deep ground temperature", INI + "boundary_simple.py:get_boundary_simple")],
     observe=["last rows of the detail result"])

prop("C17", "Every event keeps its time on its way through the pipeline",
     "An event at a given hour of the raw weather or a given slot and day type of the schedules appears in the generated weather file, in the hand-over series and in the load calculation's step at exactly the corresponding 15-minute steps, with linear interpolation between hours, the year wrapping at midnight of 31 December, the sun standing at every step where it stands at that clock time at that place, and in the right room, boundary and quantity. "
     "Steps outside the event's interval are unchanged in every stage, weather files at different intervals agree at common instants, and household-size interpolation never leaves the range of its neighbouring schedules.",
     ["histories", "inputs", "configurations"],
     "every hour of the year, every weather element, schedule type, day type, slot, room, household size and interval",
     "Tests compare a few instants of the packaged data; shifting, swapping or misaligning one series by a step or a room keeps them passing.",
     [WEA + "weather_data.py", WEA + "weather.py", WEA + "calc_interval.py", INI + "schedule_loader.py", INI + "initializer.py", CORE + "pre_calc_parameters.py"],
     [("roll and interpolation", WEA + "weather_data.py:_interpolate"), ("calendar x slot expansion", INI + "schedule_loader.py:_get_schedule"), ("row/column orientation of hand-over CSVs", INI + "initializer.py:make_house")],
     observe=["weather.csv", "mid_data_*.csv", "detail result input columns"])

prop("C18", "Whole trajectories refine an independent executable model of the specification",
     "For any house and any history of weather, schedules and demand, including ground and building run-up, the complete trajectory of temperatures, humidities, modes, fluxes and loads equals that of a small independent model written directly from the balance equations (no matrix elimination), to rounding.",
     ["histories", "inputs", "configurations"],
     "every house, every driving history, every run-up setting",
     "The tests pin two numbers of one trajectory; equality over the whole state space of histories needs a reference model.",
     [CORE + "sequence.py", CORE + "sequence_ground.py", CORE + "pre_calc_parameters.py", CORE + "next_condition.py", CORE + "heat_exchanger.py", CORE + "ot_target_pmv.py", CORE + "shape_factor.py", INI + "response_factor.py"],
     [("whole step", CORE + "sequence.py:run_tick")],
     observe=["detail result, all columns"])

prop("C23", "The simulated house is the house that was specified",
     "For every accepted specification, whatever the number and order of its rooms, boundaries, partitions and air paths, the house file and the load calculation use exactly the specified volumes, ventilation between the right rooms, equipment and capacities, areas, layers, film coefficients, outdoor shares and partition partners, furnishings in proportion to each room's volume, and person and panel shares by each room's own floor areas; "
     "the complete trajectory obtained through house initialisation and load calculation equals that of an independent model built from the specification alone. "
     "A specification whose numbering, references or keywords do not resolve is refused; it is never simulated as some other house.",
     ["inputs", "configurations", "histories"],
     "every specification (rooms, equipment kinds, neighbour ventilation, boundary kinds and orders, partitions), every driving year, every single damaged reference or keyword",
     "The tests initialise a handful of fixed houses and compare their files with recorded ones; mapping mistakes show only for other orders, counts, equipment combinations or volumes, and most only after the load calculation has run for a while.",
     [INI + "initializer.py", INI + "boundary_simple.py", INI + "furniture.py", INI + "occupants_form_factor.py", INI + "a12_indoor_radiative_heat_transfer.py", INI + "a22_radiative_heating_spec.py", CORE + "pre_calc_parameters.py"],
     [("rooms to spaces", INI + "initializer.py:_make_spaces_dict"), ("boundaries and partition links", INI + "initializer.py:_make_boundaries"),
      ("reading of the house file", CORE + "pre_calc_parameters.py:make_pre_calc_parameters")],
     observe=["mid_data_house.json", "detail result", "exception of make_house or core.calc"])

prop("C24", "Order, copies and scale of a house mean nothing",
     "Listing the rooms, boundaries and series of a house in another order, or naming them otherwise, permutes its results and changes nothing else, both for hand-over files and for a specification taken through house initialisation. "
     "A house file holding two unconnected copies of a house gives each copy the results of the house alone. "
     "A house of which everything extensive (areas, volumes, flows, capacities, gains, people) is k times as large has the same temperatures, humidities and modes, and k times the loads, heat flows and air flows.",
     ["inputs", "configurations", "histories"],
     "every house, every driving history, every permutation, number of copies and factor",
     "The tests run each house in one order, once and at one size; whatever is special about the first room, the last boundary, the number of rooms or an absolute size is invisible to them.",
     [CORE + "pre_calc_parameters.py", CORE + "sequence.py", CORE + "next_condition.py", CORE + "shape_factor.py", CORE + "infiltration.py", CORE + "heat_exchanger.py", CORE + "log.py", INI + "initializer.py"],
     [("matrices from lists", CORE + "pre_calc_parameters.py:make_pre_calc_parameters"), ("boundaries and their links", INI + "initializer.py:_make_boundaries"),
      ("leakage", CORE + "infiltration.py")],
     observe=["detail result, all columns", "mid_data_*.csv"])

prop("C19", "UA/eta-A conversion and model-house geometry reproduce the given indices",
     "Converting performance indices to a part-by-part specification and evaluating that specification gives back the indices.",
     ["inputs"], "every index tuple", "A pure function of its arguments, sampled by the tests.",
     ["heat_load_calc/convert/convert_indices_to_lv2_info.py", "heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py"], [("conversion", "heat_load_calc/convert/")])
prop("C20", "Psychrometric and comfort formulas invert each other",
     "Humidity/vapour-pressure conversions are mutually inverse and the comfort target is the operative temperature whose predicted vote is the target vote.",
     ["inputs"], "every temperature and humidity", "A pure function of its arguments.",
     [EXT + "psychrometrics.py", EXT + "iso7730.py"], [("formulas", EXT + "psychrometrics.py")])
prop("C21", "The sun reaches every surface of the house by geometry",
     "At every step of the year, over any place and at any interval, the sun stands where it stands then; and whatever the sky does, each outer surface receives exactly what its own direction and tilt let it see of the beam, the sky and the ground: "
     "nothing of a beam from behind, its share of the sky, its share of night radiation, through its own outside resistance, absorption and emissivity. Each window passes beam and diffuse light by its own area, solar gain value, glass and sunshade into its own room. "
     "Turning the house and the sun together by the same angle changes nothing.",
     ["inputs", "configurations", "histories"],
     "every house (directions, skylights, sunshade geometry, glass), every sky and every position of the sun over a year of steps, every place",
     "The tests take a few houses through one recorded year and compare totals or recorded series; a mistake in one direction, at one hour angle, for one sunshade proportion or one kind of glass is not among them.",
     [WEA + "solar_position.py", INI + "inclined_surface_solar_radiation.py", INI + "solar_shading.py", INI + "oblique_incidence_charac.py", INI + "transmission_solar_radiation.py", INI + "outside_eqv_temp.py", INI + "external_boundaries_direction.py"],
     [("sun position", WEA + "solar_position.py:calc_solar_position"), ("irradiance on surfaces", INI + "inclined_surface_solar_radiation.py:get_i_is_j_ns"),
      ("sunlight through windows", INI + "transmission_solar_radiation.py"), ("outside equivalent temperature", INI + "outside_eqv_temp.py")],
     observe=["weather.csv sun columns", "mid_data_theta_o_sol.csv", "mid_data_q_trs_sol.csv"])
prop("C22", "Merging building parts preserves area, gains and links",
     "Integrating boundaries of equal character preserves total area, area-weighted properties and partition links.",
     ["inputs"], "every set of boundaries", "A pure function of its arguments (currently unused by the pipeline).",
     [INI + "building_part_summarize.py"], [("grouping", INI + "building_part_summarize.py:integrate")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
