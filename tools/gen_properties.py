#!/usr/bin/env python3
"""writes properties.jsonl (run by hand, after editing)"""
import json, os
H, M, S, A, P, U = ("hyperpack/heuristics.py", "hyperpack/mixins.py", "hyperpack/structures.py", "hyperpack/abstract.py",
                    "hyperpack/processes.py", "hyperpack/utils.py")
out = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    out.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text},
                "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                            "observe_at": list(observe), "hook_needed": None}})


SOL = [("solution", "container id -> item id -> [x, y, w, l]", H)]
p("C01", "Packed items lie inside their container and never overlap",
  "After solve(), for every container (or strip) every item of the solution [x, y, w, l] lies inside it: x, y >= 0, x + w <= W and "
  "y + l <= L (the strip's container_height). No two items placed in the same container share any area. This holds for all item and "
  "container dimensions, with rotation on or off, for one or several containers and for every potential points strategy.",
  ["inputs", "configurations"], "every set of items, containers, rotation setting and potential points strategy",
  "The tests solve a few dozen fixed instances; the placement depends on long chains of comparisons between dimensions that fixed "
  "instances hardly reach (an overlap that needs one exact last-row coincidence existed).",
  [M], [("PointGenerationMixin._check_fitting", M), ("PointGenerationMixin._generate_points", M),
        ("PointGenerationMixin._construct_solution", M)], ["HyperPack.solve", "solution"], SOL)
p("C02", "Solutions conserve the items: known ids, once each, with their own dimensions",
  "The solution and obj_val_per_container have exactly the problem's containers, in order. Every placed id is one of the problem's items, is "
  "placed at most once over all the containers and with its own dimensions, with w and l exchanged only if rotation is on. Solving changes "
  "neither the items' dimensions nor their order.",
  ["inputs", "configurations"], "every set of items and containers, rotation on or off, every strategy",
  "Tests compare a few solutions literally; loss, duplication or turning of an item depends on which item first fails where.",
  [M], [("PointGenerationMixin._construct_solution", M), ("PointGenerationMixin._solve", M)], ["HyperPack.solve", "solution"], SOL)
p("C03", "Bin packing utilization is the packed area over the container's area",
  "After solve() of a bin packing problem, obj_val_per_container of every container is the sum of w*l of the items placed in it divided by "
  "W*L; it is 0 for an empty container and always in [0, 1].",
  ["inputs", "configurations"], "every set of items and containers, rotation on or off",
  "The value accumulates along the placements; tests check it for a few instances.",
  [M], [("default_objective_value_calculator", M), ("PointGenerationMixin._construct_solution", M)], ["obj_val_per_container"])
p("C04", "solve() places items as the documented point generation heuristic does",
  "For every instance solve() gives the placements (and the order of insertion) of the documented heuristic: containers are filled one after "
  "another; the items are tried in sequence at the potential points in the strategy's order; an item is placed at the first point where it "
  "fits, turned (with rotation on) only when it does not fit as given; and the placed item generates the documented potential points.",
  ["inputs", "configurations"], "every set of items and containers, rotation on or off, every order of the potential points",
  "The exact placements of all instances up to a size are compared with an independent model; tests pin a few of them.",
  [M], [("PointGenerationMixin._generate_points", M), ("PointGenerationMixin._get_current_point", M),
        ("PointGenerationMixin._construct_solution", M)], ["HyperPack.solve", "solution"], SOL)
p("C05", "solve() is a function of the problem and the sequence only",
  "Solving the same problem with the same sequence and strategy again gives the same solution and utilization, whatever was solved before by "
  "this or another instance and whatever the caller did to the earlier results. solve() changes neither the items, nor the containers, nor the "
  "sequence it is given, and solve() is solve(sequence=list(items)).",
  ["histories", "inputs"], "every problem; solves of other sequences and instances and changes of earlier results in between",
  "Leaks of state between calls need particular dimensions and call orders.",
  [M, H], [("PointGenerationMixin._solve", M), ("PointGenPack.solve", H)], ["HyperPack.solve"])
p("C06", "Strip utilization is the packed area over width times the stack's height",
  "After solve() of a strip packing problem the items lie inside the strip's width and container_height. The utilization is the packed area "
  "divided by the strip's width times the height of the items' stack (the highest top edge of a placed item), in (0, 1], and 0 with no item "
  "placed; solve() does not change container_height.",
  ["inputs", "configurations"], "every set of items, strip width and container_height, rotation on or off",
  "The height of the stack depends on which item ends highest, not on the last or the tallest one placed.",
  [M], [("PointGenerationMixin._construct_solution", M), ("default_objective_value_calculator", M)],
  ["obj_val_per_container", "solution"])
p("C07", "Strip search only accepts complete, lower solutions and shrinks the strip",
  "In strip packing without container_min_height, local_search and hypersearch never replace a solution by one that misses items, and among "
  "the complete solutions evaluated they keep the lowest one of every local search that began complete. container_height never grows during "
  "the search, after an improvement the search goes on in a strip of the height of the accepted solution, and it is never below the retained "
  "stack. With container_min_height set the strip never gets below it, and the best utilization evaluated is retained.",
  ["histories", "inputs"], "every outcome (height, completeness) of every evaluated sequence and every initial container_height / container_min_height",
  "Tests search a few fixed strips; the acceptance depends on the order in which complete and incomplete solutions of different heights appear.",
  [M, A, H], [("LocalSearchMixin.compare_node", M), ("LocalSearchMixin.extra_node_operations", M), ("HyperPack._check_solution", H)],
  ["local_search", "hypersearch", "container_height", "solution"])
p("C08", "local_search retains the best evaluated solution and ends in a local optimum",
  "After local_search the solution and utilization are those of the best sequence evaluated, which is never worse than solve()'s for the items' "
  "own sequence (the first one evaluated). Unless the time is over, the neighbours are throttled or full utilization is reached, every "
  "sequence that differs from the retained one by a swap of two items has been evaluated, none of them being better.",
  ["inputs", "histories"], "every assignment of utilizations to sequences, every duration of the evaluations",
  "The search's path depends on the objective values of all sequences; tests follow a few.",
  [A, M], [("AbstractLocalSearch.local_search", A), ("LocalSearchMixin.get_solution", M)], ["local_search"])
p("C09", "max_time_in_seconds bounds every search",
  "A local_search evaluates at most one further sequence after max_time_in_seconds have passed since it started. A hypersearch (in one process, or in "
  "every one of its worker processes) begins no further strategy after max_time_in_seconds passed, and only finishes the evaluation it is in. "
  "The best solution evaluated until then is retained.",
  ["schedules", "histories"], "every duration of every evaluation, every limit, every utilization",
  "Tests use real clocks and instances that end early or are patched to.",
  [A, H, P], [("AbstractLocalSearch.local_search", A), ("HyperPack._single_process_hypersearch", H), ("HyperSearchProcess.run", P)],
  ["local_search", "hypersearch"])
p("C10", "Single process hypersearch keeps the best solution over all strategies",
  "After hypersearch in one process the solution and utilization are those of the best (sequence, strategy) evaluated, the initial solution "
  "included, and best_strategy is the strategy of that solution. Every strategy is tried by a complete local search, starting from the items' own sequence, unless the "
  "time is over or full utilization is reached.",
  ["inputs", "histories"], "every assignment of utilizations to (sequence, strategy), any initial strategy, any durations",
  "The tests' instances mostly end with the initial or an arbitrary winning strategy.",
  [H, A], [("HyperPack._single_process_hypersearch", H), ("HyperPack.hypersearch", H)], ["hypersearch", "best_strategy"])
p("C11", "Multi process hypersearch returns the global best under every interleaving",
  "After hypersearch with workers_num > 1 the solution and utilization are those of the best solution that the main process or any surviving "
  "worker evaluated, and best_strategy is the strategy that gave it (unset or the initial one when the initial solution remains). This holds "
  "for every interleaving of the workers' accesses to the shared values, and the caller's items, containers and settings are unchanged.",
  ["schedules", "inputs"], "every interleaving of the workers and every assignment of utilizations to (sequence, strategy)",
  "Tests run real processes in the one schedule the machine gives them.",
  [H, P], [("HyperPack._multi_process_hypersearch", H), ("HyperSearchProcess.run", P)], ["hypersearch", "best_strategy"])
p("C12", "Multi process hypersearch survives failing workers and splits the strategies",
  "hypersearch with workers_num > 1 always ends: with the best result of the surviving workers when some worker raises or is killed at any point, "
  "and with MultiProcessError exactly when all of them failed; large outputs do not block it. The workers (at most workers_num) partition "
  "the strategies: each is tried by exactly one worker, which has the problem's sorted and oriented items, containers, settings, "
  "container_height and container_min_height.",
  ["fault_sequences", "schedules", "configurations"], "every set of failing workers and failure points, every number of workers and strategies",
  "Tests have no faulty or killed worker with a large output and use the real partition of one workers_num.",
  [H, P], [("HyperPack._multi_process_hypersearch", H), ("HyperPack._get_process_output", H), ("HyperSearchProcess", P)], ["hypersearch"])
p("C13", "get_strategies gives every order of the free points exactly once",
  "get_strategies() returns, without duplicates, tuples that are permutations of all ten potential points; every order of the six points that are "
  "permutated is in exactly one of them, followed by the constant suffix. Every strategy returned is accepted as potential_points_strategy.",
  ["configurations"], "every order of the six points, bin and strip packing",
  "Tests check the count and some of the tuples.",
  [H, "hyperpack/constants.py"], [("HyperPack.get_strategies", H)], ["get_strategies"])
p("C14", "Items and containers only ever hold valid data",
  "Whatever is given to the constructor or done to items and containers (assignment, setting, update, |=, setdefault, deletion, pop, popitem, clear, on a "
  "whole entry or on one dimension), they stay non-empty mappings of string ids to exactly the two positive integer dimensions. An operation "
  "that would break this raises ItemsError, ContainersError or DimensionsError and leaves the items and containers as they were (of several entries updated at once, those before the invalid one may be "
  "taken over); a valid one is accepted and has exactly the effect it has on a dictionary. The "
  "structures hold copies: later changes of the caller's dictionary have no effect.",
  ["inputs", "histories"], "every sequence of operations with any integers and other kinds of values",
  "Tests try a list of wrong values for a part of the operations; dictionary methods were left unvalidated.",
  [S, H], [("Structure", S), ("Dimensions", S), ("AbstractStructureSet", S), ("PointGenPack.items", H), ("PointGenPack.containers", H)],
  ["items", "containers"])
p("C15", "Changing items or containers resets the solution; reading never does",
  "After any operation that changes the items or the containers, solution and obj_val_per_container are empty, so that no solution of another problem is ever "
  "seen, and the objective value's weights follow the new containers. Reading (iteration, copy, deepcopy, str, get, log_solution), settings and "
  "strategy assignment keep the solution.",
  ["histories"], "every operation on every entry, for bin and strip packing",
  "Tests cover some of the operations, one at a time.",
  [S, H, M], [("reset_instance_attrs", S), ("items / containers setters", H)], ["solution", "obj_val_per_container", "calculate_obj_value"])
p("C16", "The strip's container is locked and its heights stay consistent",
  "A strip packing problem is accepted exactly for a positive integer strip_pack_width and no containers; it has one container of that width, which no operation "
  "can change, add to or remove. container_height starts at ten times the width; container_height and container_min_height only take "
  "positive integers with min <= height under any sequence of assignments, cannot be deleted, and reset_container_height restores both. In bin "
  "packing there is no container_height and a container's height is its length.",
  ["histories", "inputs"], "every sequence of operations on the container and the heights with any integer and other values",
  "Tests try single assignments of chosen values.",
  [S, H], [("Containers", S), ("PointGenPack.container_height", H), ("PointGenPack.container_min_height", H)],
  ["containers", "container_height", "container_min_height"])
p("C17", "General settings are validated and take effect exactly as given",
  "settings are accepted exactly when they are a dictionary whose max_time_in_seconds is a positive integer, workers_num a positive integer or None and "
  "rotation a boolean or None; otherwise SettingsError is raised. The accepted values (or the defaults: 60 seconds, one worker, rotation on) are the effective "
  "ones, when given to the constructor, assigned, or changed in place and validated with validate_settings; assigning settings keeps the solution.",
  ["inputs", "configurations"], "any integers and other kinds of values, any platform and number of processors",
  "Tests sample wrong and right values.",
  [H], [("HyperPack._validate_settings", H), ("PointGenPack._validate_settings", H)], ["settings", "validate_settings"])
p("C18", "Figure settings are accepted exactly when valid and the libraries fit",
  "Figure settings are accepted exactly when show is a boolean and export has a type of html or image, an existing directory as path, for images one of "
  "the supported formats, a file_name of 1 to 45 letters, digits, _ and -, and positive integer width and height; otherwise SettingsError. They need "
  "plotly with 5.14.0 <= version < 6.0.0, and for images kaleido with 0.2.1 <= version < 0.3.0, the versions' parts being compared as numbers.",
  ["inputs", "configurations"], "every combination of the keys, every file name, every version number, any state of the path",
  "Tests sample values, names and versions.",
  [M], [("SolutionFigureMixin._validate_figure_settings", M), ("SolutionFigureMixin._check_plotly_kaleido_versions", M)], ["settings"])
p("C19", "potential_points_strategy only takes tuples of distinct potential points",
  "A problem starts with the default strategy. Assigning potential_points_strategy is accepted exactly for tuples of distinct potential points; otherwise "
  "PotentialPointsError is raised and the old strategy remains; it cannot be deleted.",
  ["inputs"], "every tuple of up to two (thorough: three) elements, valid or not",
  "Tests sample a few tuples.", [H], [("PointGenPack.potential_points_strategy", H)], ["potential_points_strategy"])
p("C20", "sort_items sorts by the criterion and loses nothing",
  "sort_items orders the items by area, perimeter or longest side ratio, descending or ascending as asked, keeps exactly the items with their dimensions and resets "
  "the solution. With None nothing changes, and an unknown criterion raises NotImplementedError and changes nothing. hypersearch sorts the items as asked (by area, descending, by "
  "default) before it solves for them in that order.",
  ["inputs"], "any dimensions, criteria, directions", "Tests sort one fixed set of items.",
  [M], [("ItemsManipulationMixin.sort_items", M)], ["sort_items", "items"])
p("C21", "orient_items turns exactly the items that need it",
  "With rotation on, orient_items makes every item wide (w >= l) or long (l >= w) as asked by exchanging its dimensions if needed, keeping ids and order; turning an item resets the "
  "solution. With rotation off, None or an unknown orientation no item changes. hypersearch orients the items as asked (wide by default) before it starts.",
  ["inputs", "configurations"], "any dimensions, orientations, rotation settings", "Tests orient fixed sets of items.",
  [M], [("ItemsManipulationMixin.orient_items", M)], ["orient_items", "items"])
p("C22", "log_solution reports the solution truthfully",
  "The log's percentage of stored items, each container's dimensions (for a strip: the stack's height, at least container_min_height), utilization, "
  "the strip's max height and the list of remaining items are those of the solution, whichever items are stored, none included. Without a solution nothing is logged.",
  ["inputs"], "every solution of up to two (thorough: three) items and two containers", "Tests compare the log of two solutions.",
  [M, S], [("SolutionLoggingMixin.log_solution", M), ("Containers._get_height", S)], ["log_solution"])
p("C23", "create_figure draws and exports exactly the solution",
  "create_figure makes one figure per container with its frame and every one of its items drawn once, at its position, with its dimensions, label and a valid color, for any number of items, and axes that show the whole container. Figures are "
  "shown exactly when the figure setting show (or, without it, the show argument) says so and exported exactly as the export settings say (path, name, format, size); a "
  "failing export raises FigureExportError and without a solution nothing is drawn.",
  ["inputs", "configurations", "fault_sequences"], "every solution of two items, coordinates up to 10**6, and seven settings; up to 2003 items; failing exports",
  "Tests draw small fixed solutions.", [M], [("SolutionFigureMixin.create_figure", M), ("SolutionFigureMixin.colorgen", M)], ["create_figure"])
p("C24", "generate_problem_data gives valid problems of the asked size",
  "generate_problem_data returns the asked number of containers and items per container with positive dimensions around the asked means (widths by the width, "
  "lengths by the length parameter), and the result is accepted by HyperPack.",
  ["inputs"], "every random number drawn, every mean dimension up to 100", "Random numbers: tests see a few draws.",
  [U], [("generate_problem_data", U)], ["generate_problem_data"])
p("C25", "Searches leave the problem as it was",
  "local_search, and hypersearch without sorting and orientation, leave the items (their order and dimensions), the containers and the settings as they were; local_search leaves "
  "the strategy too; and the final solution has the problem's containers.",
  ["inputs", "histories"], "every assignment of utilizations to sequences and strategies", "Tests rarely compare the inputs after a search.",
  [A, M, H], [("AbstractLocalSearch.local_search", A), ("HyperPack.hypersearch", H)], ["items", "containers", "settings"])
p("C26", "Searches stop at full utilization",
  "As soon as a search evaluates a solution that fully utilizes all the containers, it is retained and no other strategy (nor, from a node, further neighbour) is tried; hypersearch does nothing more when "
  "the initial solution is full. In multi process search a worker that sees another worker's full utilization begins no further strategy.",
  ["schedules", "inputs"], "every utilization of every sequence and strategy, every interleaving of the workers",
  "Needs instances reaching full utilization at chosen moments.",
  [A, H, P], [("AbstractLocalSearch.global_check", A), ("LocalSearchMixin.get_optimum_objective_val", M), ("HyperSearchProcess.run", P)],
  ["local_search", "hypersearch"])
p("C27", "The objective is the utilization sum with the last container at 0.7",
  "calculate_obj_value is the sum of the containers' utilizations, the last one weighted 0.7 (1 with a single container), for the current containers however they were changed. "
  "The optimum is that of full containers, reached exactly by them; in bin packing a node is accepted exactly when its objective value is strictly greater.",
  ["inputs", "histories"], "every utilization, one to three containers, every change of the containers", "Tests use one or two fixed sets.",
  [M], [("LocalSearchMixin.calculate_obj_value", M), ("LocalSearchMixin.get_optimum_objective_val", M)],
  ["calculate_obj_value", "get_optimum_objective_val", "compare_node"])
p("C28", "Throttling bounds the neighbours per node, and only throttling",
  "With throttle=True at most MAX_NEIGHBORS_THROTTLE (2500) neighbours of a node are evaluated, and all of them when there are fewer. With throttle=False no "
  "neighbour is left out; the argument of hypersearch reaches every worker.",
  ["inputs", "configurations"], "any utilizations; limits 1, 2, 4 in whole searches; 1..120 items for the number",
  "2500 neighbours need 72 items; tests have few.",
  [A, M, P], [("get_max_neighbors_num", M), ("AbstractLocalSearch.local_search", A)], ["local_search", "hypersearch", "get_max_neighbors_num"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as h:
    for d in out:
        assert len(d["title"]) <= 80, d["id"]
        h.write(json.dumps(d) + "\n")
print(len(out))
