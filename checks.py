"""Per-property work plan: (build variant, workers, cases per worker)."""
FLOW = ["flow problems have no self-connections, finite fluxes and non-negative pore volumes",
        "recirculating components whose amplification (norm of (I-M)^-1 times size) exceeds 2e5 are discarded, as are fill times within 1e-11 of the 200-year cap",
        "deviations up to the rigorous propagation of the solver's published stopping tolerances (1e-9 concentration, 200y/1e12 time) times two are accepted"]

GRAPH = ["graphs have at least one vertex and a valid CSR structure (start pointers from zero, targets in range)"]
CSR = ["source and target ids are non-negative; accumulated weights are multiples of 2^-10 so that their sums are exact in any order",
       "weight iteration is exercised only on weighted (or empty) graphs, as the interface requires"]
CURVE = ["total travel times are positive and below 1e12, pore volumes non-negative, at least one cell contributes (otherwise the curve is undefined)",
         "which of the cells with exactly equal total travel time comes first is left open, as long as it does not depend on their numbering"]


def plan(rel, san, ndebug=None, tfac=40):
    ndebug = rel if ndebug is None else ndebug
    q = [("rel", 3, rel), ("ndebug", 1, ndebug), ("san", 4, san)]
    t = [("rel", 3, rel * tfac), ("ndebug", 1, ndebug * tfac), ("san", 4, san * tfac)]
    return dict(quick=q, thorough=t)


CHECKS = {
    "C01": dict(plan(40000, 8000), assumptions=FLOW, fuzz=600),
    "C02": dict(plan(30000, 7500), assumptions=FLOW, fuzz=600),
    "C04": dict(plan(32000, 8000), assumptions=FLOW, fuzz=600),
    "C05": dict(plan(40000, 10000), assumptions=FLOW, fuzz=600),
    "C06": dict(plan(32000, 8000), assumptions=FLOW, fuzz=600),
    "C07": dict(plan(32000, 8000), assumptions=FLOW, fuzz=600),
    "C08": dict(plan(48000, 12000), assumptions=FLOW, fuzz=600),
    "C09": dict(plan(360000, 96000), assumptions=FLOW, fuzz=600),
    "C10": dict(plan(60000, 16000), assumptions=GRAPH, fuzz=600),
    "C11": dict(plan(120000, 32000), assumptions=GRAPH, fuzz=600),
    "C12": dict(plan(360000, 96000), assumptions=GRAPH, fuzz=600),
    "C13": dict(plan(150000, 30000), assumptions=GRAPH, level="fault_enumeration"),
    "C14": dict(plan(300000, 75000), assumptions=CSR, fuzz=600),
    "C15": dict(plan(400000, 100000), assumptions=CSR, fuzz=600),
    "C16": dict(plan(240000, 60000), assumptions=CSR, fuzz=600),
    "C17": dict(plan(300000, 75000), assumptions=CURVE, fuzz=600),
    "C18": dict(plan(960000, 200000), assumptions=CURVE, fuzz=600),
    "C19": dict(plan(1500000, 200000), assumptions=CURVE, fuzz=600),
    "C20": dict(plan(900000, 225000), assumptions=["cell-set ids are arbitrary byte strings, cell indices arbitrary ints"], fuzz=600),
    "C21": dict(plan(90000, 18000), assumptions=["moved-from solutions are only destroyed"], fuzz=600),
    "C22": dict(quick=[("rel", 2, 2500), ("san", 2, 400), ("tsan", 4, 400)], thorough=[("rel", 2, 60000), ("san", 2, 15000), ("tsan", 4, 15000)],
                assumptions=FLOW + ["thread schedules are those the operating system produces; ThreadSanitizer detects races by happens-before, not only observed misbehaviour"], schedules=True),
    "C23": dict(plan(600, 150), assumptions=FLOW + ["allocation failure is injected in the C allocation functions called by the library and in the C++ allocation operators"], level="fault_enumeration"),
    "C24": dict(plan(50000, 6000), assumptions=["statistical alarms only beyond 9 standard deviations; normal deviations are positive"], fuzz=600),
    "C25": dict(plan(30000, 7500), assumptions=FLOW + ["start sets are subsets of the source cells with non-negative values"], fuzz=600),
    "C26": dict(plan(3000, 500), assumptions=FLOW + ["products of flux ratios along any path stay within double range", "curves are evaluated only if every cell has positive total travel time"], fuzz=600),
    "C27": dict(plan(32000, 8000), assumptions=FLOW + ["monotonicity in pore volume is required only where neither problem has a cell at the 200-year cap"], fuzz=600),
    "C28": dict(plan(48000, 12000), assumptions=FLOW + ["volume balances are evaluated only if no reached cell is at the 200-year cap"], fuzz=600),
    "C29": dict(plan(16000, 4000), assumptions=FLOW + ["series refinement is applied to cells with inflow whose fill time is below the 200-year cap"], fuzz=600),
    "C30": dict(quick=[("rel", 4, 50), ("ndebug", 4, 50)], thorough=[("rel", 4, 2000), ("ndebug", 4, 2000)],
                assumptions=["CPU time is measured per thread; bounds are more than ten times the time of the linear algorithms in this sandbox", "flow problems are acyclic or recirculate only weakly between pairs of cells"]),
    "C03": dict(plan(30000, 7500), assumptions=FLOW, fuzz=600),
}
