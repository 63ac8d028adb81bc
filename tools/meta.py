"""Property metadata; ``python3 tools/meta.py`` rewrites properties.jsonl and
MANIFEST.json from it (the generated files are committed)."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/oemof/solph/"

P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, note=None,
         na=None):
    P.append(
        dict(
            id=pid,
            title=title,
            statement=statement,
            quantifier={"over": over, "text": text},
            why_tests_cant=why,
            anchors={
                "files": [SRC + f for f in files],
                "mechanism": [
                    {"name": n, "where": SRC + w} for n, w in mech
                ],
            },
        )
    )
    if na:
        NA.append({"property": pid, "reason": na})
    P[-1]["_note"] = note
    P[-1]["_na"] = na


LP = ("Existing tests compare a few fixed models with stored LP files or one "
      "optimum each; ")

prop(
    "S01", "Every balanced bus conserves energy in every time step",
    "In every accepted operation of an energy system, the sum of all flows "
    "into a bus equals the sum of all flows out of it in every time step, "
    "for every combination of connected components and every length of the "
    "time steps. A bus declared as unbalanced restricts nothing, and no bus "
    "restricts anything else.",
    ["inputs", "configurations"],
    "all flow values, time step lengths and bus topologies within the bounds",
    LP + "the balance has to hold for every topology and all flow values.",
    ["buses/_bus.py", "_models.py"],
    [("bus balance constraint", "buses/_bus.py")],
)
prop(
    "S02", "Flows with a given capacity stay within their limits",
    "In every accepted operation each flow with a given nominal capacity lies "
    "between minimum and maximum share times that capacity in every time "
    "step, a fixed flow equals its profile times the capacity, and flows "
    "without capacity are only restricted to be non-negative. Nothing that "
    "respects these limits is excluded, for scalar, list and time dependent "
    "data, single and multi-period as well as aggregated time axes.",
    ["inputs", "configurations"],
    "all capacities, profiles and flow values; up to 5 time steps",
    LP + "profiles and capacities are sampled with a handful of numbers.",
    ["flows/_flow.py", "flows/_simple_flow_block.py", "_models.py",
     "_plumbing.py"],
    [("variable bounds", "_models.py:_add_parent_block_variables"),
     ("bounds of the flow variable", "flows/_simple_flow_block.py")],
)
prop(
    "S03", "Full load time and gradient limits of flows are enforced",
    "The energy transported by a flow over the horizon (flow times length of "
    "the time step, weighted with how often a typical period occurs) never "
    "exceeds the maximum and never falls below the minimum full load time "
    "multiplied by the nominal capacity. The change of a flow between "
    "consecutive time steps never exceeds the positive or negative gradient "
    "limit multiplied by the nominal capacity, and nothing else is excluded.",
    ["inputs", "configurations"],
    "all limits, capacities, time step lengths and flow values; up to 4 steps",
    LP + "one limit value on one equidistant horizon is tested.",
    ["flows/_simple_flow_block.py", "flows/_shared.py"],
    [("full load time and gradient constraints",
      "flows/_simple_flow_block.py:_create_constraints"),
     ("gradients of on/off flows",
      "flows/_shared.py:shared_constraints_for_non_convex_flows")],
)
prop(
    "S04", "The objective charges exactly the operating costs",
    "For flows with given capacity the objective equals the sum over all "
    "flows and time steps of flow times variable costs times length of the "
    "time step times the weight of the typical period, plus yearly fixed "
    "costs for the periods or the lifetime in multi-period systems. Flows "
    "without costs contribute nothing.",
    ["inputs", "configurations"],
    "all cost profiles, flows, time step lengths, weights, ages and lifetimes",
    LP + "an objective is a number there, not an identity over all inputs.",
    ["flows/_simple_flow_block.py", "_models.py"],
    [("objective of flows",
      "flows/_simple_flow_block.py:_objective_expression"),
     ("objective", "_models.py:_add_objective")],
)
prop(
    "S05", "Optimised flow capacities bound investment and operation",
    "An invested capacity lies between minimum and maximum (or is zero, if "
    "the investment itself is optional and not made), and in every time step "
    "the flow lies between the minimum and maximum share of existing plus "
    "invested capacity, equals the fixed share of it, and respects full load "
    "time limits relative to it. The objective contains the specific costs "
    "times invested capacity plus the fixed part if the investment is made.",
    ["inputs", "configurations"],
    "all investment data, profiles and flows; single period, up to 3 steps",
    LP + "few combinations of existing capacity, offset, profile exist.",
    ["flows/_investment_flow_block.py", "_options.py"],
    [("investment constraints",
      "flows/_investment_flow_block.py:_create_constraints"),
     ("investment costs",
      "flows/_investment_flow_block.py:_objective_expression")],
)
prop(
    "S06", "Capacity follows commissioning and decommissioning over periods",
    "In multi-period systems the capacity of a flow in a period equals "
    "everything invested (or existing with an initial age) whose lifetime has "
    "not ended, each addition is retired exactly in the first period by which "
    "its lifetime has passed, and operation in a period is limited by the "
    "capacity of this period. Overall minimum and maximum capacities are "
    "kept.",
    ["inputs", "histories", "configurations"],
    "all lifetimes, ages, investments; up to 4 periods (concrete years)",
    LP + "lifetime, age and period pattern are tested in two or three "
    "combinations.",
    ["flows/_investment_flow_block.py"],
    [("old capacity rules",
      "flows/_investment_flow_block.py:_create_constraints")],
)
prop(
    "S07", "Multi-period investments cost annuities, fixed and residual parts",
    "In multi-period systems the objective charges each investment in flows "
    "and storages with its annuity for the lifetime falling into the horizon, "
    "discounted to the start year, adds the fixed part of optional "
    "investments if they are made, charges yearly fixed costs as long as "
    "capacity exists, and subtracts the remaining value when this option is "
    "chosen.",
    ["inputs", "configurations"],
    "all costs, capacities and discount data; 2 to 3 periods, concrete "
    "lifetimes and years",
    LP + "the cost formula is compared for single numeric data sets.",
    ["flows/_investment_flow_block.py",
     "components/_generic_storage.py", "_models.py"],
    [("flow investment costs",
      "flows/_investment_flow_block.py:_objective_expression"),
     ("storage investment costs",
      "components/_generic_storage.py:GenericInvestmentStorageBlock")],
)
prop(
    "S08", "On/off flows are either zero or within their operating range",
    "A flow with an on/off status is zero while off and between minimum and "
    "maximum share of its capacity while on, where the capacity is given or "
    "the sum of existing and optimised capacity. Everything within these "
    "limits is possible, and the investment costs of such a flow are its "
    "specific costs times the investment plus the fixed part if it is made.",
    ["inputs", "configurations"],
    "all capacities, profiles, flows and status patterns; up to 4 steps",
    LP + "status patterns and linearised products are not explored.",
    ["flows/_non_convex_flow_block.py",
     "flows/_invest_non_convex_flow_block.py", "flows/_shared.py"],
    [("linearised status times capacity",
      "flows/_invest_non_convex_flow_block.py:"
      "_linearised_investment_constraints"),
     ("minimum and maximum flow", "flows/_shared.py")],
)
prop(
    "S09", "Start-ups, shut-downs and status costs are counted correctly",
    "Every switch from off to on (on to off) relative to the previous time "
    "step or the initial status is counted as a start-up (shut-down), the "
    "number of these never exceeds the given maxima, and no other pattern is "
    "excluded. The objective charges start-ups, shut-downs, activity and "
    "inactivity with their costs in the respective time step, weighted with "
    "the occurrence of typical periods.",
    ["inputs", "histories", "configurations"],
    "all status patterns, costs and limits; up to 4 steps",
    LP + "a test follows one pattern of starts and stops.",
    ["flows/_shared.py", "flows/_non_convex_flow_block.py",
     "flows/_invest_non_convex_flow_block.py"],
    [("start-up and shut-down constraints", "flows/_shared.py"),
     ("status costs", "flows/_shared.py")],
)
prop(
    "S10", "Minimum up and down times are kept after every switch",
    "After every start-up (shut-down), including one right after the "
    "initial phase, a flow stays on (off) for its minimum up (down) time or "
    "until the end of the horizon, and at the beginning it keeps its initial "
    "status for the respective minimum time. Switching patterns respecting "
    "this are possible, except for switches the rest of the horizon is too "
    "short for.",
    ["inputs", "histories", "configurations"],
    "all status patterns, all minimum times from 0 to 4, up to 7 steps",
    LP + "status histories are not enumerated by any test.",
    ["flows/_shared.py", "_options.py", "flows/_non_convex_flow_block.py"],
    [("minimum up and down time constraints", "flows/_shared.py"),
     ("fixing of the initial status",
      "flows/_non_convex_flow_block.py:_create_variables")],
)
prop(
    "S11", "Converters keep all inputs and outputs in their fixed ratios",
    "For every pair of an input and an output of a converter, input times "
    "conversion factor of the output equals output times conversion factor of "
    "the input in every time step, a factor that is not given being one. "
    "Nothing else is restricted, for scalar and time dependent factors and "
    "all kinds of time axes.",
    ["inputs", "configurations"],
    "all factors and flows, up to 5 inputs and outputs, up to 4 steps",
    LP + "conversion is tested with a few numbers.",
    ["components/_converter.py", "_plumbing.py"],
    [("conversion constraint", "components/_converter.py:ConverterBlock")],
)
prop(
    "S12", "Links transport energy in the declared directions with losses",
    "For every declared pair of buses the flow leaving a link towards the "
    "second bus equals the conversion factor times the flow entering from the "
    "first one in every time step, and nothing else is restricted. Conversion "
    "factors between buses that are not connected are rejected.",
    ["inputs", "configurations"],
    "all factors, capacities and flows; up to 3 links, 4 steps",
    LP + "links are tested with constant factors in one topology.",
    ["components/_link.py"],
    [("link constraint", "components/_link.py:LinkBlock")],
)
prop(
    "S13", "Extraction turbines stay on their fuel line and operating range",
    "In every time step fuel use equals main output plus tapped output times "
    "the power loss index, divided by the condensing efficiency, and the main "
    "output is at least the tapped output times the ratio of the full "
    "extraction efficiencies. Hence pure condensation and full extraction "
    "meet the given efficiencies, and every point in between is possible.",
    ["inputs", "configurations"],
    "all efficiencies and flows, up to 2 turbines and 2 steps",
    LP + "one turbine with one set of efficiencies is solved.",
    ["components/_extraction_turbine_chp.py"],
    [("fuel and output relations",
      "components/_extraction_turbine_chp.py:ExtractionTurbineCHPBlock")],
)
prop(
    "S14", "Offset converters follow their part load line and can switch off",
    "While the reference flow of an offset converter is on, every other flow "
    "equals slope times reference flow plus normed offset times its nominal "
    "(given or invested) capacity; while off, all of them are zero. The "
    "helper functions return slope and offset for which the given "
    "efficiencies are met at minimum and maximum load, and ambiguous "
    "definitions are rejected.",
    ["inputs", "configurations"],
    "all slopes, offsets, loads, efficiencies and flows; up to 5 flows",
    LP + "part load data are sampled with maximum load one only.",
    ["components/_offset_converter.py"],
    [("part load constraint",
      "components/_offset_converter.py:OffsetConverterBlock"),
     ("slope and offset helpers",
      "components/_offset_converter.py:slope_offset_from_nonconvex_input")],
)

prop(
    "S15", "The generic CHP keeps the operation field of its plant type",
    "A generic combined heat and power unit only burns fuel while it is on, "
    "keeps fuel between the flue gas losses dependent bounds, follows the "
    "part load and power loss lines, and yields the heat the fuel, power and "
    "flue gas losses leave; back pressure and motoric variants fix the "
    "relation of power and heat.",
    ["inputs", "configurations"],
    "all plant parameters, flows and on/off decisions of the scenarios",
    LP + "only sampled parameter sets are compared with reference files.",
    ["components/_generic_chp.py"],
    [("field of operation", "components/_generic_chp.py:GenericCHPBlock"),
     ("alpha coefficients", "components/_generic_chp.py:GenericCHP")],
)

prop(
    "S16", "Storage content follows the energy balance within its limits",
    "The content of a storage after a step is what is left of the content "
    "before it, minus fixed losses, plus converted inflow and minus outflow "
    "divided by its factor, each times the length of the step. It stays "
    "within the level limits of every time point, starts at a given initial "
    "level, returns to it if balanced, charging is limited as the storage "
    "fills up if requested, and costs for the content are charged.",
    ["inputs", "configurations"],
    "all capacities, levels, losses, factors and step lengths; every flow "
    "and content trajectory of up to 6 steps, up to 2 storages",
    LP + "tests cover few parameter sets, mostly with hourly steps.",
    ["components/_generic_storage.py"],
    [("balance and losses",
      "components/_generic_storage.py:GenericStorageBlock"),
     ("input checks", "components/_generic_storage.py:GenericStorage")],
)
prop(
    "S17", "Invested storage capacity limits content and coupled flows",
    "Total capacity of an investment storage is existing plus invested "
    "capacity, the investment keeps its limits (or is zero if optional), "
    "content stays between the minimum and maximum share of that capacity, "
    "losses scale with it, initial level and balance hold, and inflow, "
    "outflow and storage capacities keep their given relations; costs are "
    "the specific costs plus the fixed part of a decided investment.",
    ["inputs", "configurations"],
    "all investment and storage data, capacities, flows and contents of the "
    "scenarios (up to 3 steps, up to 2 storages)",
    LP + "combinations of options are hardly tested.",
    ["components/_generic_storage.py"],
    [("investment storages",
      "components/_generic_storage.py:GenericInvestmentStorageBlock")],
)
prop(
    "S18", "Storage capacities of several periods live as long as they live",
    "In a multi-period system the capacity of a storage in a period is what "
    "was existing or invested and has not reached its lifetime; it limits "
    "content and losses of that period, stays within the overall limits, "
    "keeps relations to the flow capacities, and storages are empty at the "
    "start. Unsupported data and missing lifetimes are rejected.",
    ["inputs", "configurations"],
    "all lifetimes and ages (up to 12 years), investments and contents of "
    "systems of 2, 3 and 4 periods",
    LP + "lifetimes are sampled once.",
    ["components/_generic_storage.py"],
    [("capacity bookkeeping",
      "components/_generic_storage.py:GenericInvestmentStorageBlock")],
)
prop(
    "S19", "Storages bridge typical periods as in the original time series",
    "With aggregated time series the content of a storage is the one "
    "obtained by running through the typical periods in the order of the "
    "original ones (including self-discharge and segments of different "
    "length), and it keeps level limits, initial level and balance at every "
    "original time point.",
    ["inputs", "configurations"],
    "all data, step lengths, flows and contents; up to 5 original periods "
    "represented by up to 3 typical periods of 2 steps",
    LP + "tests cover one hourly example.",
    ["components/_generic_storage.py", "_models.py"],
    [("content within typical periods",
      "components/_generic_storage.py:GenericStorageBlock"),
     ("time step lookup", "_models.py:Model.get_timestep_from_tsam_timestep")],
)

prop(
    "S20", "Limits of emissions and other weighted energies hold",
    "A generic integral or emission limit bounds exactly the sum of flow "
    "times factor times step length (weighted with how often a typical "
    "period occurs) over the flows carrying the property, per period if "
    "given per period; several limits coexist, and the reported total is "
    "that sum.",
    ["inputs", "configurations"],
    "all factors, limits, step lengths and flows; one to three limits on up "
    "to 3 flows, single period, multi-period, typical periods",
    LP + "tests cover hourly examples, and a sum over wrong flows, steps or "
    "weights only shows with other data.",
    ["constraints/integral_limit.py"],
    [("limit", "constraints/integral_limit.py:generic_integral_limit"),
     ("periodical limit",
      "constraints/integral_limit.py:generic_periodical_integral_limit")],
)
prop(
    "S21", "Investment budgets count every investment",
    "A limit for investments bounds the whole (per period: the respective "
    "part of the) investment costs of all flows and storages with optimised "
    "capacity; an additional limit for a keyword bounds the weighted sum of "
    "the capacities carrying that keyword.",
    ["inputs", "configurations"],
    "all costs, offsets, interest rates, weights and budgets; flows, "
    "storages, optional investments and on/off investments, single and "
    "multi-period (lifetimes sampled)",
    LP + "tests contain one example with flows and storages.",
    ["constraints/investment_limit.py"],
    [("budget", "constraints/investment_limit.py:investment_limit"),
     ("budget per period",
      "constraints/investment_limit.py:investment_limit_per_period"),
     ("weighted", "constraints/investment_limit.py:"
      "additional_investment_flow_limit")],
)
prop(
    "S22", "Equated flows and counted flows",
    "Equating groups of flows (by list or keyword) or two variables holds at "
    "every time step with the given factor; limits of the number of active "
    "flows bound the number of flows switched on at every time step.",
    ["inputs", "configurations"],
    "all factors, limits, capacities and flows; up to 4 flows in "
    "overlapping groups, 3 steps, multi-period, typical periods",
    LP + "tests check single groups.",
    ["constraints/equate_flows.py", "constraints/equate_variables.py",
     "constraints/flow_count_limit.py"],
    [("equate flows", "constraints/equate_flows.py:equate_flows"),
     ("equate variables",
      "constraints/equate_variables.py:equate_variables"),
     ("count", "constraints/flow_count_limit.py:limit_active_flow_count")],
)
prop(
    "S23", "Shared limits and access to storages depending on their content",
    "A shared limit bounds the weighted sum of quantities of several "
    "components at every time step; with a storage level constraint, an "
    "input only works while the content is below its level, an output only "
    "while the content is above its level, and nothing else is excluded.",
    ["inputs", "configurations"],
    "all weights, limits, levels, capacities, losses and flows; up to 3 "
    "components, 2 inputs and 2 outputs, 3 steps, multi-period, typical "
    "periods",
    LP + "tests check one example each and none with typical periods.",
    ["constraints/shared_limit.py", "constraints/storage_level.py"],
    [("shared limit", "constraints/shared_limit.py:shared_limit"),
     ("levels",
      "constraints/storage_level.py:storage_level_constraint")],
)
prop(
    "S24", "Solving reports only what the solver found",
    "Model.solve passes the settings to the solver unchanged, returns the "
    "values found by the solver (and the objective they give) if it reports "
    "an optimal solution, raises otherwise unless told to tolerate this; "
    "relaxing a problem drops nothing but the integrality of its decisions. "
    "processing.meta_results shows exactly the figures reported by the "
    "solver, the objective value, and the relative gap between the bounds.",
    ["inputs", "fault_sequences"],
    "5 solver states x 10 termination conditions with all values of the "
    "solution; all data of relaxed models",
    "Tests run a real solver on solvable problems; failing solvers and "
    "arbitrary answers are not exercised.",
    ["_models.py", "_results.py"],
    [("solve", "_models.py:Model.solve"),
     ("relax", "_models.py:Model.relax_problem"),
     ("meta results", "processing.py:meta_results")],
    note="A stand-in for the solver interface returns symbolic solutions; "
    "the real solver is outside. Otherwise bounded as stated in the "
    "evidence file, decided over the reals.",
)

prop(
    "S25", "Results give every value of the solution at its place",
    "solph.Results returns, for every variable of the solved model, the "
    "value the solver found for each node, flow, period and time step under "
    "the documented name and label, in standard models, multi-period models "
    "and models with typical periods. The economic figures computed from it "
    "(costs of operation and of investments) add up from those values with "
    "the data of the flows: variable costs times flow times duration and "
    "weight, investment costs times capacity plus the fixed part if and only "
    "if there was an investment.",
    ["inputs", "configurations"],
    "all solutions and all cost data for the component mixes in the evidence "
    "file",
    "Tests look up a few values of one solution.",
    ["_results.py"],
    [("results", "_results.py:Results"),
     ("variable costs", "_results.py"),
     ("investment costs", "_results.py")],
    note="The solution is symbolic (all values of all variables). "
    "investment_costs is decided for single-period models only.",
)
prop(
    "S26", "Result processing is lossless and labels every value correctly",
    "processing.results returns for every flow and node exactly the values "
    "of the solution: time dependent ones in 'sequences' with the time index "
    "of the energy system, the others in 'scalars' (or per period in "
    "'period_scalars'); duals go to the bus they belong to. Nothing is "
    "dropped or attributed to another key, apart from the last time point "
    "if it was asked to be removed.",
    ["inputs", "configurations"],
    "all solutions of standard and multi-period models for the component "
    "mixes in the evidence file",
    "Tests look up a few values of one solution.",
    ["processing.py"],
    [("results", "processing.py:results"),
     ("data frame", "processing.py:create_dataframe")],
    note="The solution is symbolic (all values of all variables); sizes in "
    "the evidence file.",
)
prop(
    "S27", "Results of typical periods are given for the original time",
    "For models with typical periods, processing.results gives flows, "
    "storage contents and statuses for the original time series: each "
    "original period gets the values of the typical period it is represented "
    "by, storage contents combine the content carried between periods "
    "(including self-discharge) with the change within the period, and "
    "segments are expanded to their duration (content interpolated, flows "
    "kept).",
    ["inputs", "configurations", "histories"],
    "all solutions for several orders of typical periods, periods of several "
    "investment periods and segmentations",
    "Tests check one aggregated series with fixed data.",
    ["processing.py"],
    [("flows", "processing.py:_disaggregate_tsa_result"),
     ("content",
      "processing.py:_calculate_soc_from_inter_and_intra_soc"),
     ("segments", "processing.py:_disaggregate_segmentation")],
    note="The solution is symbolic (all values of all variables); sizes in "
    "the evidence file. Duals are not claimed.",
)
prop(
    "S28", "Views on results show the values of the results, completely",
    "views.node, node_weight_by_type, node_input_by_type, "
    "node_output_by_type, net_storage_flow, filter_nodes, "
    "convert_to_multiindex and convert_keys_to_strings select exactly the "
    "flows and nodes they are documented to select, and every value they "
    "show is the one of the results given to them, under the right key. The "
    "net flow of a storage is its output minus its input, also for models "
    "with typical periods.",
    ["inputs", "configurations"],
    "all solutions of standard, multi-period and typical period models with "
    "the components in the evidence file",
    "Tests look at single values of one solution.",
    ["views.py", "processing.py"],
    [("node", "views.py:node"), ("by type", "views.py:node_weight_by_type"),
     ("net flow", "views.py:net_storage_flow"),
     ("keys", "processing.py:convert_keys_to_strings")],
    note="The solution is symbolic (all values of all variables); sizes in "
    "the evidence file.",
)
prop(
    "S29", "Parameters of an energy system can be read back completely",
    "processing.parameter_as_dict gives, for every flow and node of an "
    "energy system or model, every parameter the user has set, with exactly "
    "the given value: numbers as scalars, series as sequences (also if "
    "series of a component have different lengths), parameters of investment "
    "options with prefix 'investment_', further (custom) properties of nodes "
    "and flows with prefix 'custom_properties_'. None values and excluded attributes "
    "are left out if asked for. It does not fail for any component.",
    ["inputs", "configurations"],
    "all values of the parameters of the components in the evidence file",
    "Tests compare the parameters of a fixed example.",
    ["processing.py"],
    [("reading", "processing.py:parameter_as_dict"),
     ("attributes", "processing.py:__separate_attrs")],
    note="The parameters are symbolic; components in the evidence file.",
)
prop(
    "S30", "A number acts like the series repeating it",
    "For every parameter that may be given as number or as series, giving a "
    "number leads to the same optimisation problem as giving the constant "
    "series, regardless of whether it is a list, tuple, numpy array or "
    "pandas series (with any index).",
    ["inputs", "configurations"],
    "all values of the parameters of the systems in the evidence file, in "
    "standard, multi-period and typical period models",
    "Tests use one form of the data.",
    ["_plumbing.py", "flows/", "components/"],
    [("sequences", "_plumbing.py:sequence")],
)
prop(
    "S31", "The model depends on the system described, not on how it is "
    "put together",
    "The optimisation problem is the same whatever the order in which nodes "
    "are added to the energy system, whether flows are declared at the "
    "component or at the bus, and whether an energy system is used for one "
    "or several models (and extended by nodes, or changed in its data, "
    "between them). It is also the same whether nodes are labelled by "
    "strings or tuples, whether they are added to the system or are parts "
    "(subnodes) of other nodes, and whether a model is constructed at once "
    "or later. Building a model (or several) does not change the data of "
    "the energy system.",
    ["histories", "programs"],
    "all values of the parameters, for the orders and histories in the "
    "evidence file",
    "Tests build each system once in one order.",
    ["_models.py", "_energy_system.py", "buses/", "components/"],
    [("model", "_models.py:Model"), ("system", "_energy_system.py")],
)
prop(
    "S32", "Numbers and iterables become time series with exactly their "
    "values",
    "sequence() keeps every value of an iterable at its position, turns a "
    "number into a series giving this number at every position (of the "
    "requested length, if any, and growing with the highest index used "
    "otherwise) whose minimum, maximum, length and values agree with that, "
    "leaves strings and None untouched, and valid_sequence() accepts exactly "
    "the series long enough.",
    ["inputs"],
    "all values; lengths up to the bounds in the evidence file",
    "Tests use a few values.",
    ["_plumbing.py"],
    [("sequence", "_plumbing.py:sequence"),
     ("repeated value", "_plumbing.py:_FakeSequence"),
     ("validation", "_plumbing.py:valid_sequence")],
    note="Values are symbolic; lengths in the evidence file.",
)

prop(
    "S33", "Contradictory or incomplete input is refused, other input is "
    "kept",
    "Flows refuse limits without a capacity, limits together with fixed "
    "values, gradients given twice, infinite capacities or limits; "
    "investments refuse options that cannot be considered together; storages "
    "refuse several flows on one side, initial contents outside of the "
    "limits, relations of capacities that are not optimised, overdetermined "
    "relations, and absolute losses or content dependent charging that "
    "cannot be met. This is true for whichever of the given values causes "
    "the contradiction (also late entries of series). Everything else is "
    "accepted and kept unchanged.",
    ["inputs", "configurations"],
    "all values and combinations of the options listed in the evidence file",
    "Tests try one example of each contradiction.",
    ["flows/_flow.py", "_options.py", "components/_generic_storage.py"],
    [("flows", "flows/_flow.py:Flow"),
     ("investments", "_options.py:Investment"),
     ("storages", "components/_generic_storage.py:GenericStorage")],
    note="Values are symbolic, options are symbolic choices; sizes in the "
    "evidence file.",
)
prop(
    "S34", "Piecewise linear converters follow their conversion function",
    "For a PiecewiseLinearConverter, the output is the linear interpolation "
    "of the conversion function between the breakpoints around the input, "
    "the input stays between the first and the last breakpoint, every such "
    "operation (within the limits of the flows) is possible, and every "
    "converter follows its own function - for any conversion function and "
    "each of the representations SOS2, CC, DCC, MC and INC. Breakpoints that "
    "do not cover the capacity, and several inputs or outputs, are refused.",
    ["inputs", "configurations"],
    "all quadratic functions, 2 to 4 breakpoints, up to 2 steps",
    "One test solves one growing function with one representation.",
    ["components/experimental/_piecewise_linear_converter.py"],
    [("block", "components/experimental/_piecewise_linear_converter.py:"
      "PiecewiseLinearConverterBlock")],
    note="Coefficients of the function are symbolic (positions of the "
    "breakpoints in the thorough tier); the translation by "
    "pyomo.environ.Piecewise is executed and part of what is decided.",
)
prop(
    "S35", "Time steps, periods and their lengths are those described",
    "The lengths of time steps are the differences of the given time points "
    "(or the given lengths) and all positive, otherwise the input is "
    "refused; giving both is refused; inferring the last interval adds "
    "exactly one; resetting lengths or weights in the model takes effect; "
    "every time step belongs to the period it is listed in; distances, "
    "durations and the end of periods follow from their years; typical "
    "periods are weighted with their occurrence and segments keep their "
    "length; every (typical) period and time step is indexed exactly once.",
    ["inputs", "configurations"],
    "all time points, lengths and years; orders and sizes in the evidence "
    "file",
    "Tests use a few date ranges.",
    ["_energy_system.py", "_models.py"],
    [("time axis", "_energy_system.py:EnergySystem"),
     ("sets", "_models.py:Model._add_parent_block_sets")],
    note="Time points are symbolic numbers; date ranges cannot be symbolic, "
    "thus only the listed frequencies are covered.",
)

prop(
    "S36", "Deprecated spellings mean the same as their replacements",
    "Flows described with `nominal_value`, `min`, `max`, `custom_attributes` "
    "or `bidirectional=True` (meaning `minimum=-1`), storages with "
    "`nominal_storage_capacity`, integral limits with `limit`, investments "
    "and on/off options with `custom_attributes` and energy systems with "
    "only a `timeincrement` give the same optimisation problem as with the "
    "current spelling. Offset converters described by `coefficients` "
    "(offset, slope) with one input and one output and a minimum between "
    "zero and the maximum obey output = slope * input + offset * nominal "
    "capacity while operating. Giving the old and the new spelling of an "
    "option together is refused.",
    ["inputs", "configurations"],
    "all values of the parameters, for the scenarios in the evidence file",
    "Tests check that a warning is given.",
    ["flows/_flow.py", "_options.py", "components/_generic_storage.py",
     "components/_offset_converter.py", "constraints/integral_limit.py",
     "_energy_system.py"],
    [("flow", "flows/_flow.py:Flow"),
     ("offset converter", "components/_offset_converter.py:OffsetConverter."
      "normed_offset_and_conversion_factors_from_coefficients")],
)
prop(
    "S37", "Compressed air energy storages keep their energy and heat "
    "balances",
    "The compression and expansion power of a GenericCAES are the electrical "
    "input and output, are zero when not operating, otherwise between the "
    "minimum and the linear function of the content of the cavern at the "
    "start of the step. Heat of compression, heat needed for expansion and "
    "the energy flows of the cavern are the given linear functions (slope "
    "for the power, offset while operating). Heat is split between the heat "
    "storage and waste (or fuel) according to the given shares. The contents "
    "of cavern and heat storage follow from these flows and the length of "
    "the step, start empty and stay within their sizes.",
    ["inputs", "schedules"],
    "all values of all parameters, all operation schedules of 2 to 3 steps "
    "of arbitrary length",
    "One test solves one example and compares some sums.",
    ["components/experimental/_generic_caes.py"],
    [("block", "components/experimental/_generic_caes.py:"
      "GenericCAESBlock")],
)

prop(
    "S38", "Options of flows keep their meaning in any combination",
    "Whatever other options a flow has, every option means what its "
    "documentation says: bounds by capacity and minimum/maximum/fixed "
    "profile, full load time limits, gradient limits, integer values, "
    "variable costs, investment capacity bounds, offset and costs, status "
    "variables, start-up/shutdown/activity/inactivity costs and limits, "
    "minimum up and down times, initial status. The options of one flow do "
    "not change what another flow does. This holds for single period models, "
    "multi-period models and models with typical periods.",
    ["inputs", "configurations"],
    "covering arrays over the values of 22 options (every pair of option "
    "values occurs in some scenario), data symbolic, 3 steps of arbitrary "
    "length; 2 periods; typical periods; next to a flow of definite data",
    "Tests use each option alone or in few fixed combinations.",
    ["flows/_flow.py", "flows/_simple_flow_block.py",
     "flows/_investment_flow_block.py", "flows/_non_convex_flow_block.py",
     "flows/_invest_non_convex_flow_block.py", "flows/_shared.py",
     "_options.py"],
    [("blocks", "flows/_simple_flow_block.py:SimpleFlowBlock, "
      "flows/_investment_flow_block.py:InvestmentFlowBlock, "
      "flows/_non_convex_flow_block.py:NonConvexFlowBlock, "
      "flows/_invest_non_convex_flow_block.py:InvestNonConvexFlowBlock")],
)

prop(
    "S39", "Options of storages keep their meaning in any combination",
    "Whatever other options a storage has, every option means what its "
    "documentation says: capacity or investment, minimum and maximum level, "
    "initial level, balance, losses (relative, fixed relative, fixed "
    "absolute), efficiencies, storage costs, relations between invested "
    "powers and content, and the limits of its in- and outflow. The options "
    "of one storage do not change what another storage does.",
    ["inputs", "configurations"],
    "covering arrays over the values of 15 options and kinds of in- and "
    "outflow (every pair occurs in some scenario), data symbolic, 2 to 3 "
    "steps of arbitrary length, next to a storage of definite data",
    "Tests use each option alone or in few fixed combinations.",
    ["components/_generic_storage.py", "flows/_flow.py", "_options.py"],
    [("blocks", "components/_generic_storage.py:GenericStorageBlock, "
      "GenericInvestmentStorageBlock")],
)

prop(
    "S40", "Components keep their equations whatever options their flows "
    "have",
    "Buses stay balanced and converters, links, extraction turbines and "
    "offset converters keep their conversion equations at every time step "
    "whatever kind of flows they are connected with (fixed profile, "
    "investment, on/off status, both, integer, gradients, full load time "
    "limits, lifetime), and the flows keep the limits they were given.",
    ["inputs", "configurations"],
    "11 kinds of flow at each connection of each component, data symbolic, "
    "2 to 3 steps of arbitrary length",
    "Tests combine components and kinds of flow in few fixed examples.",
    ["components/_converter.py", "components/_link.py",
     "components/_extraction_turbine_chp.py",
     "components/_offset_converter.py", "buses/_bus.py"],
    [("blocks", "components/_converter.py:ConverterBlock, "
      "components/_link.py:LinkBlock, "
      "components/_extraction_turbine_chp.py:ExtractionTurbineCHPBlock, "
      "components/_offset_converter.py:OffsetConverterBlock, "
      "buses/_bus.py:BusBlock")],
)

prop(
    "S41", "Components, constraints and groups of users are part of the "
    "model like the library's own",
    "A component class defined by a user, with a constraint_group naming a "
    "block of its own, gets one block which holds all its components, and "
    "the constraints and costs of this block are part of the model, no "
    "matter where in the node hierarchy or when (before or after an earlier "
    "model of the same system) the components were added. The same holds "
    "for own groups of flows (EnergySystem groupings with Model "
    "constraint_groups). Flows of such components keep their limits and "
    "costs and count in the balance of buses. Subclasses of the library's "
    "components, flows and options give the same model as the classes they "
    "derive from.",
    ["inputs", "programs"],
    "1 to 3 components of own classes, data symbolic, 2 steps of arbitrary "
    "length",
    "Tests use one own component with one set of data.",
    ["_groupings.py", "_models.py", "_energy_system.py"],
    [("groups", "_groupings.py:constraint_grouping, _models.py:BaseModel")],
)

prop(
    "S42", "create_time_index: number, distance and start of the time points",
    "create_time_index returns one time point more than the given number of "
    "intervals, subsequent time points are one interval (1 h by default) "
    "apart, and the first one is the given start or the start of the given "
    "year. Without a number, the intervals cover the given year, leap years "
    "(Gregorian calendar) included: the end is the multiple of the interval "
    "closest to the end of the year. Giving both year and start raises "
    "ValueError.",
    ["inputs"],
    "years 1900 to 2200, intervals in quarters of an hour up to 25000 h, up "
    "to 10000 intervals (all symbolic), four starts; pandas.date_range is a "
    "stand-in that records its arguments",
    "Tests use three years and intervals; leap years depend on divisibility "
    "by 4, 100, 400 and the number of intervals on their length.",
    ["_helpers.py"],
    [("index", "_helpers.py:create_time_index")],
)


TECH = ("symbolic execution of the real model building code, "
        "SMT (z3) equivalence queries, replay of counterexamples")
NOTE = ("Bounded: for the listed scenarios (sizes in the evidence file) the "
        "solver decides both directions (every accepted operation fulfils "
        "the specification, every specified operation is accepted) for all "
        "numeric data over the reals; floating point rounding, larger sizes "
        "and other scenario shapes are outside. Trusted: the proxies and the "
        "translation of pyomo expressions, z3.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items()
                                if not k.startswith("_")}) + "\n")
    checks = []
    for p in P:
        if p["_na"]:
            continue
        i = p["id"]
        checks.append(dict(
            property=i,
            quick_cmd=f"./check {i}",
            thorough_cmd=f"./check {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique=TECH,
            level="other",
            level_note=p["_note"] or NOTE,
        ))
    man = dict(version=1, setup_cmd="true", checks=checks, not_applicable=NA,
               notes="All checks: /verif/check <property>; see DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
