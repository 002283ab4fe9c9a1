"""Which contracts decide which property, and what stays outside."""

M = "PointGenerationMixin."
S = "PointGenerationSolver."
P = "BasePackingProblem."
L = "LocalSearchMixin."
H = "HyperPack."
D = "DeepcopyMixin."


def both(*names):
    """the contract for strip packing and the one for bin packing"""
    return [x for n in names for x in (n, n + " (bin packing)")]


CORE = [M + "_check_fitting", M + "_generate_points", M + "_get_current_point", M + "_construct_solution"]
START = both(M + "_get_initial_container_length")
COPIES = [D + "_copy_objective_val_per_container", D + "_copy_objective_val_per_container (given values)",
          D + "_deepcopy_solution", D + "_deepcopy_solution (strip packing)", D + "_deepcopy_solution (given solution)",
          L + "get_solution"]
COMPARE = both(L + "compare_node", H + "_check_solution")
HEIGHTS = ["Containers._get_height", "Containers._get_height (no solution)", "Containers._get_height (bin packing)"]
SETH = ["Containers._set_height", "Containers._set_height (no solution)"] + both(L + "extra_node_operations")
SS = "AbstractStructureSet."
INHERITED = [n + x for n in (SS + "pop", SS + "popitem", SS + "setdefault", SS + "update", SS + "__ior__", "Dimensions.update",
                             "Dimensions.__ior__") for x in ("", " (containers)")] \
    + ["Dimensions." + n for n in ("pop", "popitem", "clear")]
STRUCT = [n + s for n in ("Dimensions.__init__", "AbstractStructureSet.__init__", "AbstractStructureSet.__setitem__",
                          "AbstractStructureSet.__delitem__", "Dimensions.__setitem__") for s in ("", " (containers)")] \
    + ["Dimensions.__delitem__"] + INHERITED + [P + "items (setter)", P + "containers (setter)", P + "items (deleter)",
       P + "containers (deleter)", P + "__init__"]

SOLVE = ["AbstractStructureSet.deepcopy" + x for x in ("", " (sequence)", " (containers)")] \
    + [n + x for n in (M + "_solve", S + "solve")
       for x in ("", " (sequence)", " (strip packing)", " (strip packing, sequence)")]

SOLVE += ["PointGenPack (inherited methods)"]
LOCAL = [L + "local_search" + x for x in ("", " (strip packing)", " (in hypersearch)", " (strip packing, in hypersearch)")]

HYPER = [H + n + x for n in ("_single_process_hypersearch", "hypersearch") for x in ("", " (strip packing)")]
STRATEGIES = [H + "get_strategies", H + "get_strategies (strip packing)"]
SORT = ["ItemsManipulationMixin.sort_items"]
ORIENT = ["ItemsManipulationMixin.orient_items"]
W = "HyperSearchProcess."
WORKER = [W + n + x for n in ("run", "__init__") for x in ("", " (strip packing)")]
MULTI = [H + "_multi_process_hypersearch" + x for x in ("", " (strip packing)")] \
    + [H + "hypersearch (several workers" + x for x in (")", ", strip packing)")]

NEW = [H + "__init__" + x for x in ("", " (defaults)", " (strip packing, defaults)")] + [c + ".__init__" for c in ("PointGenPack", "PointGenerationSolver")]

VERSIONS = ["SolutionFigureMixin._check_plotly_kaleido_versions"]

# property -> (level, contracts, functions of the property that only the bounded check covers)
PLAN = {
    "C01": ("proof", CORE + START + SOLVE + LOCAL + HYPER + WORKER + MULTI, []),
    "C02": ("proof", CORE + SOLVE + LOCAL + HYPER + WORKER + MULTI, []),
    "C03": ("proof", CORE + SOLVE + LOCAL + HYPER + WORKER + MULTI, []),
    "C04": ("proof", CORE + START + SOLVE + LOCAL + HYPER + WORKER + MULTI + [L + "calculate_obj_value"], []),
    "C05": ("proof", CORE + START + SOLVE, []),
    "C06": ("proof", CORE + START + SOLVE + LOCAL + COPIES + COMPARE + HEIGHTS + SETH
            + HYPER + MULTI + WORKER[2:] + SORT + ORIENT + [L + "calculate_obj_value"], []),
    "C07": ("proof", CORE + SOLVE + LOCAL + HYPER + WORKER + MULTI + NEW, []),
    "C08": ("proof", COPIES + COMPARE + SOLVE + LOCAL + [L + "calculate_obj_value"], []),
    "C09": ("proof", LOCAL + HYPER + WORKER + MULTI + NEW[:1], []),
    "C10": ("proof", COMPARE + SETH + LOCAL + HYPER + WORKER + MULTI, []),
    "C11": ("proof", COPIES + COMPARE + LOCAL + HYPER + WORKER + MULTI, []),
    "C12": ("proof", WORKER + [W + "get_metrics"] + MULTI + STRATEGIES, []),
    "C13": ("proof", SOLVE[-1:] + STRUCT + ORIENT + NEW, []),
    "C14": ("proof", SOLVE[-1:] + STRUCT + ORIENT + SORT + NEW + [L + "calculate_obj_value"], []),
    "C15": ("proof", [S + "settings (setter)", S + "settings (setter, PointGenPack)",
                      S + "settings (setter, PointGenerationSolver)", S + "settings (deleter)"] + VERSIONS + NEW, []),
    "C16": ("proof", [S + "potential_points_strategy (setter)", S + "potential_points_strategy (deleter)"] + SOLVE[-1:] + CORE[1:] + STRATEGIES + NEW, []),
    "C17": ("proof", SOLVE[-1:] + [x for x in STRUCT if "containers" in x or x.endswith(("items (setter)", "__init__"))]
            + [P + "container_height (deleter)", P + "container_min_height (deleter)", P + "container_height (setter)",
               P + "container_min_height (setter)"] + both(P + "reset_container_height") + SETH + NEW, []),
    "C18": ("proof", ORIENT, []),
    "C19": ("proof", SORT, []),
    "C20": ("proof", HEIGHTS + SOLVE[-1:] + [H + "log_solution" + x for x in ("", " (strip packing)", " (no solution)")], []),
    "C21": ("proof", HEIGHTS + SOLVE[-1:] + VERSIONS + [H + "create_figure" + x for x in ("", " (strip packing)", " (no solution)")], []),
    "C22": ("proof", ["generate_problem_data"], []),
}
