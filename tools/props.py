#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "prodsys/simulation/"


def P(id, title, statement, over, text, why, mech, observe, note, files=None, state=None):
    mechanism = [{"name": n, "where": w} for n, w in mech]
    files = files or sorted({w.split(":")[0] for _, w in mech})
    a = {"files": files, "mechanism": mechanism, "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {
        "prop": {
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a,
        },
        "note": note,
    }


TESTS = "the tests run a few fixed-seed examples and compare KPI bands; "
LOG = ["event log of the simulation run (Runner.event_logger / post processor data frame)"]
PP = "prodsys/util/post_processing.py"
OPT = "prodsys/optimization/"
KPI = ["key performance indicators and data frames of PostProcessor"]
KT = "the tests compare KPI bands of fixed-seed runs; a figure that is off by a few percent or wrong in a corner case stays inside"
PROPS = [
    P("S01", "Products run exactly their prescribed processes in an admissible order",
      "Every created product executes each process of its process model exactly once, one after the other, in the listed sequence or, for precedence graphs and edge lists, only after all its predecessors have ended. It is finished exactly once, after its last process, at a sink of its own product type.",
      ["inputs", "schedules", "configurations"],
      "for all arrival times, process times and tie orders, all random choices, and all acyclic precedence graphs within the size bound",
      TESTS + "no test looks at the order of processes of a product under other timings or graphs",
      [("process model marking", SIM + "proces_models.py: get_next_possible_processes/update_marking_from_transition"), ("product life cycle", SIM + "product.py: process_product"), ("process model creation", "prodsys/factories/product_factory.py: create_process_model")],
      LOG, "real simulation executed symbolically; 1-3 products, up to 4 processes; every acyclic graph over 3 (quick) / 4 (thorough) processes"),
    P("S02", "Interrupted work resumes and every operation gets exactly its drawn time",
      "A production or transport operation that is interrupted by a breakdown continues where it stopped, so that the working time it receives over all its uninterrupted segments equals exactly the process time drawn for it. Work is neither lost, repeated nor shortened by any number of interruptions.",
      ["inputs", "fault_sequences", "schedules"],
      "for all process times, breakdown instants and repair times, including interruptions that coincide with starts and ends",
      TESTS + "the breakdown examples only check aggregate numbers for one random seed",
      [("preempt-resume of a production state", SIM + "state.py: ProductionState.process_state/interrupt_process"), ("transport state", SIM + "state.py: TransportState.process_state"), ("breakdown interruption", SIM + "state.py: BreakDownState.process_state")],
      LOG, "real simulation; one or two machines (also batches of 2), capacity 1-2, loading and unloading, up to 3 breakdowns with arbitrary times"),
    P("S03", "Nothing works while it is broken down, and everything resumes afterwards",
      "While a machine, transporter or single process is broken down none of its operations progresses or starts. Each breakdown starts one drawn time between failures after the previous repair, lasts exactly its drawn repair time, and interrupted work resumes once no covering breakdown is active.",
      ["inputs", "fault_sequences", "schedules"],
      "for all failure and repair times of one or two overlapping breakdown states and all work schedules",
      TESTS + "overlapping breakdowns, or breakdowns at the instant of other events, are not sampled",
      [("breakdown state", SIM + "state.py: BreakDownState, ProcessBreakDownState"), ("resource activation", SIM + "resources.py: active, interrupt_states, activate")],
      LOG, "real simulation; up to two overlapping breakdown states on one machine or transporter"),
    P("S04", "Resource and process capacities are never exceeded",
      "At any instant a machine or transporter executes at most as many operations as its capacity, and at most as many operations of one process as the capacity declared for that process. Every waiting request is nevertheless served in the end.",
      ["inputs", "schedules", "configurations"],
      "for all arrival, process and transport times, including simultaneous arrivals and completions",
      TESTS + "simultaneous requests on multi-capacity resources do not occur in them",
      [("simpy resource and controller", SIM + "control.py: control_loop, start_process"), ("free process selection", SIM + "resources.py: get_free_process, full")],
      LOG, "real simulation; capacities 1-2, up to 3-4 products"),
    P("S05", "Finite queues are never overfilled and block what feeds them",
      "The number of products in a queue never exceeds its capacity. A machine or source that has nowhere to put a product, or a transport whose target has no space, waits until there is space; nothing is dropped, and feed-forward lines always finish. When a place is free at a machine that can do the next process, a waiting product is fetched at once.",
      ["inputs", "schedules", "configurations"],
      "for all arrival, process and transport times and finite input and output queue capacities within the bounds",
      TESTS + "queues in the examples are large or infinite, so blocking at exact ties is not reached",
      [("queue with pending puts", SIM + "store.py: Queue.put, reserve, full"), ("reservation before routing", SIM + "router.py and resources.py: reserve_internal_input_queues"), ("source output", SIM + "source.py: create_product_loop")],
      LOG + ["queue contents"], "real simulation; lines of 2 machines with capacity-1/2 queues, external stores of finite capacity, machines and sources with two queues on a side, either of two machines; up to 6 products"),
    P("S06", "Products are conserved: each is in exactly one place until finished",
      "After every event each created and unfinished product is in exactly one place: one queue or store, on one machine, or on one transporter. Products never vanish, are never duplicated, and the finished ones are exactly those delivered to a sink.",
      ["inputs", "schedules", "fault_sequences"],
      "for all timings and for every intermediate simulation state, with stores, finite queues and breakdowns",
      TESTS + "no test inspects queue contents during a run",
      [("queue get and put", SIM + "store.py"), ("product retrieval", SIM + "control.py: get_next_product_for_process, put_product_to_input_queue"), ("finished products", "prodsys/factories/product_factory.py: remove_product, register_finished_product")],
      ["queue and store contents after every event", "finished products"], "real simulation; invariants checked after every event on every path"),
    P("S07", "Waiting work starts as soon as it can and takes its declared time",
      "Whenever a resource has a free slot and a request for it is waiting, an operation starts at that very instant; each operation takes exactly its process or transport time. The loaded trip follows the empty trip at once, a product is finished when it reaches its sink, and every product is finished.",
      ["inputs", "schedules"],
      "for all arrival, process and transport times, against the equations of a work-conserving server",
      TESTS + "a lost wake-up only shows for particular coincidences of times",
      [("controller wake-up", SIM + "control.py: control_loop, request"), ("router wake-up", SIM + "router.py: got_free handling"), ("product loop", SIM + "product.py: process_product")],
      LOG, "real simulation; capacities 1-2, 2-4 products; one recorded open finding (capacity 2, simultaneous arrivals)"),
    P("S08", "Waiting requests are served in the order of the control policy",
      "Among the requests waiting at a resource when it chooses, FIFO serves the one that waits longest, LIFO the latest, SPT the one with the shortest process or transport time. The nearest-origin policies serve the request whose pick-up point is nearest, ties decided by the declared queue length criterion.",
      ["inputs", "schedules"],
      "for all arrival and process times and all positions of up to four competing requests",
      TESTS + "ordering under competition is never asserted",
      [("policies", SIM + "control.py: FIFO/LIFO/SPT/nearest_origin control policies"), ("policy application", SIM + "control.py: control_loop")],
      LOG, "real simulation; 3-4 competing requests, 4 competing batches of 2 (FIFO, SPT). Not covered: LIFO on batch machines, where a defect was seen by hand and is not repaired (the policy moves only the last request to the front, so a batch of 2 chosen from A4..A7 is A7 and A4)"),
    P("S09", "Routing heuristics choose the resource they promise",
      "When several resources can perform the next process, the shortest-queue heuristic picks one with the fewest waiting products, FIFO picks one that is available, and the random heuristic may pick any available one but nothing else. A product never waits for routing while a capable resource is free.",
      ["inputs", "schedules"],
      "for all arrival and process times and all random choices with two or more alternative resources",
      TESTS + "the choice between alternatives is only seen through throughput bands",
      [("heuristics", SIM + "router.py: FIFO, random and shortest queue routing heuristics"), ("candidate search", SIM + "router.py: get_possible_resources")],
      LOG, "real simulation; two alternative machines or transporters"),
    P("S10", "Setups happen exactly when the process changes and take their time",
      "A machine that changes from one process to another for which a setup is declared performs exactly that setup, for exactly its drawn time, before the first operation of the new process and while nothing else runs. No setup happens at the first operation, between equal processes or for undeclared pairs, and work starts right after the setup.",
      ["inputs", "schedules"],
      "for all arrival, process and setup times and two or three process types",
      TESTS + "setup counts per sequence of products are not asserted",
      [("setup on demand", SIM + "resources.py: setup"), ("setup state", SIM + "state.py: SetupState")],
      LOG, "real simulation; machines of capacity 1, one of capacity 2 (one recorded open finding: simultaneous work) and one batch machine"),
    P("S11", "Transports fetch the product, follow declared links and take the travel time",
      "A transporter that is not where its product waits first makes an empty trip there, then carries the product to the chosen machine or sink. Each trip takes distance over speed plus reaction and handling times; link transports only use declared links, along a shortest path; their first drive leads from where they start to the nearest place of their links. A product is only moved by its own transport process.",
      ["inputs", "configurations"],
      "for all positions of sources, machines, nodes and sinks, all handling times, and several link graphs",
      TESTS + "distances and paths of single trips are never asserted",
      [("transport legs", SIM + "control.py: TransportController.run_process/run_transport"), ("travel time", SIM + "time_model.py: distance-based time model"), ("link routes", SIM + "route_finder.py: find_route, RouteFinder"), ("process matching", SIM + "process.py: matches_request")],
      LOG, "real simulation; up to 2 products, 6 locations, one transporter of capacity 1; arbitrary positions on a line or in the plane"),
    P("S12", "Failed operations are reworked exactly once, at the right point",
      "An operation of a process with a failure rate may fail; each failure is repaired by exactly one rework operation of a rework process declared for it, before the product is finished. Blocking rework comes before the next prescribed process, non-blocking rework after all of them. Without a failure nothing is reworked.",
      ["inputs", "schedules"],
      "for all outcomes of all failure draws and all process times",
      TESTS + "one example with a fixed seed runs rework and only checks aggregate numbers",
      [("failure draw", SIM + "control.py: handle_rework_required"), ("rework selection", SIM + "product.py: process_product, add_needed_rework, register_rework; router.py: get_rework_processes")],
      LOG, "real simulation; 1-2 products, up to 3 processes and 2 rework processes"),
    P("S13", "Batch machines only work on full batches",
      "A machine with a batch size works on exactly that many products of the same process at a time: all members start together, end together and take one drawn process time. A product of an incomplete batch waits, no product is worked on twice, and every complete batch is finished.",
      ["inputs", "schedules"],
      "for all arrival and process times, simultaneous arrivals, finite queues, and one or two product types",
      TESTS + "the batch example checks throughput bands for one seed",
      [("batch controller", SIM + "control.py: BatchController"), ("batch routing", SIM + "router.py")],
      LOG, "real simulation; batch size 2-3, up to 6 products of one or two types, up to two batches at once"),
    P("S14", "Products get the auxiliaries they need, one product per auxiliary",
      "A product that requires an auxiliary (a carrier or tool) gets one of the declared kind before it is transported or worked on. An auxiliary serves at most one product at a time, travels with it, and is available to the next waiting product once its user is finished. Nobody waits for a free auxiliary.",
      ["inputs", "schedules"],
      "for all arrival and process times, with fewer auxiliaries than products and one or two storages",
      TESTS + "auxiliary assignment over time is never asserted",
      [("auxiliary life cycle", SIM + "auxiliary.py: Auxiliary, release"), ("auxiliary routing", SIM + "router.py: route_auxiliary_to_product"), ("product requests", SIM + "product.py: process_product")],
      LOG, "real simulation; 2-3 products, 1-2 auxiliaries of one or two kinds (also similarly named), breakdowns, two operations, full storages"),
    P("S15", "Battery powered resources charge when they must, and never while working",
      "A resource with a battery that has worked for more than nine tenths of its battery time charges before its next operation. It charges for exactly the charging time, only when that much was used, and starts no operation while charging. The used time is what it worked since it was charged last.",
      ["inputs", "schedules"],
      "for all arrival, operation, battery and charging times, machines and transporters of capacity 1 and 2",
      TESTS + "the charging test checks throughput bands for one seed",
      [("charging need", SIM + "state.py: ChargingState"), ("charging in the control loop", SIM + "control.py: ProductionController, TransportController"), ("charging", SIM + "resources.py: charge, requires_charging")],
      LOG, "real simulation; 2-3 products; one recorded open finding (transporter that is driving while it charges)"),
    P("S16", "The event log is a consistent history of the run",
      "Rows are in order of time and each names a configured resource, one of its states and that state's type. The rows of an operation, failure or auxiliary usage alternate properly (start, interruption, continuation, end); an operation ends at the time its last row announced, an interruption is caused by a failure of its resource and the remaining time is announced anew. Work rows concern products between their one creation and their one finish. The event list returned by the runner has the same rows.",
      ["inputs", "schedules", "fault_sequences"],
      "for all arrival, operation, repair, setup and charging times and stopping points",
      TESTS + "no test reads the order of the rows",
      [("rows", SIM + "logger.py: EventLogger, post_monitor_*"), ("row contents", SIM + "state.py: StateInfo, process_state"), ("product rows", SIM + "product.py: ProductInfo"), ("auxiliary rows", SIM + "auxiliary.py: AuxiliaryInfo"), ("event list", "prodsys/util/runner.py: get_event_data_of_simulation")],
      LOG, "real simulation and real log; 1-3 products, up to 2 failures, setups, batteries, batches, auxiliaries, rework, transport legs"),
    P("S17", "Sources create their products at the declared times",
      "A source with a schedule creates one product of its type per entry at the declared time, for absolute and relative and for cyclic schedules, and also when entries coincide or sources share a schedule. A source with a time model creates its next product exactly one drawn time after the previous one. A source whose queue is full waits and goes on when there is room. Every product has its own ID.",
      ["inputs", "schedules"],
      "for all schedules of the stated length and all drawn times",
      TESTS + "fixed schedules or distributions without gaps of zero, one source per schedule",
      [("creation loop", SIM + "source.py: create_product_loop"), ("schedules", SIM + "time_model.py: ScheduledTimeModel"), ("time models of sources", "prodsys/factories/source_factory.py")],
      LOG, "real simulation; schedules of up to 4 entries, up to 2 sources"),
    P("S18", "Time models yield times of their declared distribution",
      "A time model draws from the declared distribution with the declared parameters, and every drawn number is used once and in order. Samples come from the given data, schedules give the gaps between their entries in order, and distance models give distance over speed plus the reaction time in the declared metric. No drawn time is negative: a negative draw counts as 0.1.",
      ["inputs"],
      "for all parameters, positions and random numbers",
      TESTS + "only a few fixed parameters and bands",
      [("time models", SIM + "time_model.py"), ("distributions", "prodsys/util/statistical_functions.py"), ("creation of time models", "prodsys/factories/time_model_factory.py")],
      ["FunctionTimeModel/SampleTimeModel/ScheduledTimeModel/DistanceTimeModel.get_next_time", "arguments of the random generators"], "real time models; buffers of up to 3 draws"),
    P("S19", "A run depends only on its configuration and seed",
      "Two runs of the same configuration and seed give the same events, whatever was simulated before, whatever the state of the global random generators and the hash order of strings, and also when a run is made in parts or a production system is run again. A run leaves the global random generators and the configuration as they were, also when it fails. The random numbers of a run come only from generators that are seeded with the seed of the configuration.",
      ["inputs", "histories"],
      "for all values of the random streams and all orders of sets, all stopping points",
      "one test compares two runs of one example with one seed in one process",
      [("seeding", "prodsys/util/runner.py: temp_seed, initialize_simulation, run"), ("seeding in the environment", SIM + "sim.py: temp_seed, run"), ("process graphs", SIM + "proces_models.py: get_adjacency_matrix_from_edges")],
      ["Runner.event_logger.event_data of two runs", "random.getstate, numpy.random.get_state (stand-ins)"], "real simulation; 1-2 products on small systems with sampled times, failures and routing by chance"),
    P("K01", "Throughput times are the times between creation and completion",
      "The throughput time of a product is its completion time minus its creation time, listed once for every finished product and no other, under its own product type. The throughput time of a product type is the mean over its finished products. The dynamic figures list the same products. With a warm-up cut-off the figures are those of the products kept.",
      ["inputs", "schedules"],
      "for all logs of real runs with arbitrary arrival, process and transport times, stopped at any event",
      KT,
      [("throughput data frame", PP + ": df_throughput, df_aggregated_throughput_time"), ("throughput figures", PP + ": dynamic_thoughput_time_KPIs, aggregated_throughput_time_KPIs")],
      KPI, "real simulation and real post processor; 1-3 products of one or two types, 7 with a warm-up cut-off"),
    P("K02", "Output and throughput count the finished products over the observed time",
      "The output of a product type is the number of its finished products. Its throughput is that number divided by the time between the first creation and the last completion of a finished product. Unfinished products are not counted. With a warm-up cut-off the figures are those of the products kept.",
      ["inputs", "schedules"],
      "for all logs of real runs with arbitrary arrival, process and transport times, stopped at any event",
      KT,
      [("output and throughput", PP + ": df_aggregated_output_and_throughput, throughput_and_output_KPIs")],
      KPI, "real simulation and real post processor; 1-3 products of one or two types, 7 with a warm-up cut-off"),
    P("K03", "Resource states are the shares of the time the resource spent in them",
      "Every resource is at each moment in exactly one state: unscheduled downtime while it is broken down, else productive while an operation runs, else setup or charging, else standby. The reported time per state is the time spent in it until the last event and the percentages add up to 100. With a warm-up cut-off only the time from the cut-off on counts.",
      ["inputs", "schedules"],
      "for all logs of real runs with arbitrary arrival, process, setup, charging, failure and repair times, stopped at any event",
      KT,
      [("resource states", PP + ": df_resource_states, df_aggregated_resource_states"), ("state figures", PP + ": machine_state_KPIs")],
      KPI, "real simulation and real post processor; capacity 1-2 (3 in one scenario with a recorded open finding), up to 3 products, 7 with a warm-up cut-off"),
    P("K04", "Work in progress figures count the products in the system",
      "The work in progress at an instant is the number of products created and not yet finished, in total and per product type. The dynamic figures give exactly this number at every change, it is never negative, and the averages lie between its smallest and largest value.",
      ["inputs", "schedules"],
      "for all logs of real runs with arbitrary arrival, process and transport times, stopped at any event",
      KT,
      [("work in progress", PP + ": df_WIP, df_WIP_per_product, df_aggregated_WIP"), ("figures", PP + ": dynamic_WIP_KPIs, WIP_KPIs, dynamic_system_WIP_KPIs")],
      KPI, "real simulation and real post processor; 1-4 products of one or two types"),
    P("K05", "The time of products splits into production, transport and waiting",
      "For every product type the production flow ratio gives the shares of production, transport and waiting in the time its finished products spend in the system. The production and transport shares are those of the logged operations, and the three add up to 100 percent. With a warm-up cut-off the figures are those of the products kept.",
      ["inputs", "schedules"],
      "for all logs of real runs with arbitrary arrival, process and transport times",
      KT,
      [("flow ratio", PP + ": df_production_flow_ratio")],
      KPI, "real simulation and real post processor; 1-3 products of one or two types, 7 with a warm-up cut-off"),
    P("K06", "The system's availability is the part of the time not lost to downtimes",
      "The availability of the production system is 100 percent minus the mean share of unscheduled downtime over all resources that were active; without breakdowns it is 100 percent. The overall equipment effectiveness is the product of availability, performance and quality. With a warm-up cut-off only the time from the cut-off on counts.",
      ["inputs", "schedules"],
      "for all logs of real runs with arbitrary arrival, process, failure and repair times",
      KT,
      [("equipment effectiveness", PP + ": df_oee_production_system")],
      KPI, "real simulation and real post processor; 1-2 machines with breakdowns, 2-3 products, 7 with a warm-up cut-off; rounding to two decimals allowed"),
    P("K07", "A warm-up cut-off drops the earliest products and nothing else",
      "With a warm-up cut-off, the products created before the cut-off time and only those are left out; the cut-off time is the creation time of the first product kept, and every product type keeps products. Throughput, output and throughput times are those of the products kept. The static ratio method drops the first 15 percent.",
      ["inputs"],
      "for all creation and completion times, with the static ratio, threshold and (for short runs) MSER-5 method",
      KT,
      [("cut-off methods", "prodsys/util/warm_up_post_processing.py: mser5, threshold_stabilization, static_ratio"), ("cut-off", PP + ": df_throughput_with_warum_up_cutoff, warm_up_cutoff_time")],
      KPI, "real post processor on constructed event logs; 3-14 products of one or two types; MSER-5 with fewer than five products only"),
    P("K08", "Station and auxiliary figures count what is there",
      "For every station the work in progress after each event is the number of products brought to it minus the number taken from it. For the auxiliaries it is the number in use, in total and per type, whatever the types are called. Neither is ever negative, the mean figures lie between the smallest and largest value, and auxiliaries never count as products.",
      ["inputs", "schedules"],
      "for all logs of real runs with arbitrary arrival, process, transport and failure times, stopped at any event",
      KT,
      [("stations", PP + ": df_WIP_per_resource, df_mean_wip_per_station"), ("auxiliaries", PP + ": df_auxiliary_WIP, df_auxiliary_WIP_per_auxiliary_type, auxiliary_WIP_KPIs")],
      KPI, "real simulation and real post processor; 1-2 machines, up to 3 products, 1-2 types of auxiliaries"),
    P("O01", "The optimisers' moves turn consistent configurations into consistent ones",
      "Every mutation and crossover turns consistent configurations into consistent ones: references exist, IDs and queues are unique, capacities and states fit the processes, nothing is shared between parents and children, and what is written can be read back. It makes one change of the kind the scenario allows, with the positions, policies and limits the scenario offers, and changes nothing else. An operation that reports that it changed nothing has changed nothing.",
      ["configurations", "inputs"],
      "for all random choices of the operation and all machine positions",
      "tests run whole optimisers on one example for a few steps and look only at whether they end",
      [("operations", OPT + "adapter_manipulation.py"), ("resource clean up", OPT + "util.py: adjust_process_capacities, clean_out_breakdown_states_of_resources, add_setup_states_to_machine"), ("reading configurations", "prodsys/models/resource_data.py")],
      ["adapter_manipulation.crossover, mutation, add_*, remove_*, move_*, change_*", "ProductionSystemAdapter.model_dump_json"], "real operations on configurations of up to 3 machines, 2 transporters, 3 processes, 2 auxiliaries"),
    P("O02", "A configuration is valid iff it keeps the limits, and it costs what was added",
      "A configuration is accepted exactly when it has no more machines, transporters (and at least one) and modules per machine than the scenario allows, its machines stand at offered positions and share no place with another object, every process and auxiliary the products need is there, and its reconfiguration cost keeps the limit. The reconfiguration cost is the cost of all machines, transporters, process modules and auxiliaries added to the baseline; what is removed gives nothing back. Judging a configuration changes nothing but the cost written down in it.",
      ["configurations", "inputs"],
      "for all costs, limits, quantities and machine positions, and all small fleets and process kinds",
      "tests run optimisers on one example whose configurations are never judged one by one",
      [("costs and limits", OPT + "optimization.py: get_reconfiguration_cost, check_valid_configuration, valid_*"), ("modules and auxiliaries", OPT + "util.py: get_num_of_process_modules, get_required_auxiliaries"), ("places and processes", "prodsys/adapters/adapter.py: assert_no_redudant_locations, assert_required_processes_in_resources_available")],
      ["optimization.check_valid_configuration", "optimization.get_reconfiguration_cost", "ProductionSystemAdapter.reconfiguration_cost"], "real functions on configurations of up to 3 machines, 2 transporters, 2 auxiliaries, a store, one product"),
    P("O03", "The optimisers judge configurations by simulation and prefer better ones",
      "The fitness of a valid configuration is, per objective and in their order, the mean of the figure over one run per seed; an invalid one is worse than any other in every objective. A value found before is only used again for configurations that behave alike. Weights count for objectives in their direction. Annealing and tabu search prefer states that are better, move only to valid neighbours and leave the current state as it is; tabu search ends with the best state it met. Points marked as Pareto efficient are those no other point dominates.",
      ["inputs", "configurations", "histories"],
      "for all drawn times, values, weights and points, and all pairs of small differences between configurations",
      "tests run whole optimisers for a few steps and look only at whether they end",
      [("evaluation", OPT + "optimization.py: evaluate, KPI_function_dict"), ("weights and known configurations", OPT + "util.py: get_weights, document_individual"), ("searches", OPT + "simulated_annealing.py, tabu_search.py"), ("Pareto analysis", OPT + "optimization_analysis.py: is_pareto_efficient")],
      ["optimization.evaluate", "util.get_weights", "TabuSearch.run", "ProductionSystemOptimization.energy, move", "optimization_analysis.is_pareto_efficient"], "real functions and real simulations with up to two seeds; searches of up to 4 steps; up to 4 points"),
    P("M01", "Configurations have the same hash exactly if they are built alike",
      "Two configurations have the same hash exactly if they consist of the same parts: the same times, speeds, capacities, places, costs of time, capabilities and policies in the same relations, as the hash of each entity documents it. Names, descriptions, the order of lists and the seed do not count; processes are told apart by their times, failure rates and capabilities, ends of links by their names. Computing a hash changes nothing, and every configuration of simple processes has one.",
      ["configurations", "inputs"],
      "for all values of every number of a configuration, and for every reference turned to every other part",
      "tests pin the hashes of eight examples, which says nothing about others",
      [("hash of the configuration", "prodsys/adapters/adapter.py: ProductionSystemAdapter.hash"), ("hashes of entities", "prodsys/models/*_data.py: hash"), ("use", OPT + "util.py: document_individual")],
      ["ProductionSystemAdapter.hash()"], "real hash functions with symbolic numbers; one configuration with every kind of entity; one or two numbers, references or parts differ",
      files=["prodsys/adapters/adapter.py", "prodsys/models/resource_data.py", "prodsys/models/processes_data.py", "prodsys/models/state_data.py", "prodsys/models/time_model_data.py", "prodsys/models/product_data.py", "prodsys/models/auxiliary_data.py"]),
    P("M02", "Data is accepted exactly if it is complete, and refused with the reason",
      "A production system is accepted exactly if everything it refers to is there: time models, states, processes, queues, products, storages, ends of links; otherwise it is refused with an error that names what is missing. Queues that are given are kept, missing ones are made without limit. Process capacities are one per process and at most the capacity. A configuration is found valid exactly if every process its products need is provided by a resource, its links join places that exist, and no two things share a place, and the parts of its compound processes are there. Judging changes nothing.",
      ["inputs", "configurations"],
      "for every string in the place of every reference, all capacities and all places",
      "tests load a few correct configurations; none offers faulty data",
      [("validation of a system", "prodsys/adapters/adapter.py: check_*"), ("queues", "prodsys/adapters/adapter.py: add_default_queues_to_adapter"), ("validation of configurations", "prodsys/adapters/adapter.py: validate_configuration, assert_*"), ("capacities", "prodsys/models/resource_data.py: check_process_capacity")],
      ["ProductionSystemAdapter(...)", "ProductionSystemAdapter.validate_configuration"], "real validators on one system with every kind of entity; one (quick) or two references symbolic strings; 7 forms of products",
      files=["prodsys/adapters/adapter.py", "prodsys/models/resource_data.py"]),
    P("M03", "A system is the same however it is given: data, express API, or file",
      "An express system and the data it stands for describe the same production system: every value, reference, queue, state and time model arrives, under the right name, and is not listed twice. Writing a system to a file and reading it gives the same system with the same hash; what a file lacks has its default, nothing of a previous system stays. Simulated, both give the same events.",
      ["inputs", "configurations"],
      "for all numbers in a system and every kind of process, state, time model, queue, storage, auxiliary, scenario and each missing part",
      "tests load example files and compare a few aggregate numbers; none compares the forms of a system",
      [("express API", "prodsys/express/*.py: to_model; production_system.py: to_model"), ("files", "prodsys/adapters/json_adapter.py: read_data, write_data"), ("identity", "prodsys/adapters/adapter.py: hash")],
      ["prodsys.express.*.to_model", "JsonProductionSystemAdapter.read_data / write_data", "event log"], "real express objects, adapters and files; one system with every kind of entity, all combinations of the optional parts in turn",
      files=["prodsys/express/production_system.py", "prodsys/adapters/json_adapter.py"]),
    P("M04", "Work goes to exactly those resources that can do it",
      "A product's process is done by a machine that offers this very process or, for capabilities, one with an equal capability; never by another. Transports likewise, and only by those whose links join both places. Every such resource gets work when the others are busy. If no resource can do it the run is refused. A finished product goes to a sink for its type that it can be brought to.",
      ["inputs", "configurations"],
      "for every string as a capability and every distribution of processes over two or three resources",
      "the examples have one fitting resource per process, or several alike",
      [("matching", SIM + "process.py: matches_request; " + SIM + "request.py"), ("offered resources", SIM + "router.py: get_possible_production_requests, get_possible_transport_requests, get_sink; " + SIM + "resources.py: get_processes"), ("links", SIM + "route_finder.py: find_route")],
      LOG + ["ValueError"], "real simulation; 2-3 resources, 1-4 products; work takes longer than the observed time",
      files=["prodsys/simulation/process.py", "prodsys/simulation/router.py"]),
]

NA = {}

# seconds of wall time of the quick check alone on the 8 cores
COST = {"S01": 22, "S02": 62, "S03": 62, "S04": 24, "S05": 55, "S06": 34, "S07": 36, "S08": 58, "S09": 30, "S10": 40, "S11": 12, "S12": 4, "S13": 50, "S14": 58, "S15": 47, "S16": 31, "S17": 8, "S18": 3, "S19": 12, "K01": 13, "K02": 16, "K03": 45, "K04": 17, "K05": 12, "K06": 10, "K07": 12, "K08": 23, "O01": 12, "O02": 18, "O03": 17, "M01": 30, "M02": 16, "M03": 6, "M04": 20}


def main():
    have = lambda p: os.path.exists(os.path.join(V, "harness", p.lower() + ".py"))
    use = [p for p in PROPS if have(p["prop"]["id"]) or p["prop"]["id"] in NA]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in use:
            f.write(json.dumps(p["prop"]) + "\n")
    checks = []
    for p in use:
        i = p["prop"]["id"]
        if i in NA:
            continue
        checks.append({
            "property": i,
            "quick_cmd": f"checks/run.py {i} --tier quick",
            "thorough_cmd": f"checks/run.py {i} --tier thorough",
            "technique": "bounded symbolic execution of the real Python code, decided by z3",
            "level": "model_checking",
            "level_note": p["note"],
        })
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python tools/setup.py",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    }
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
