"""
C06: the matplotlib figure matches the solved primitives
"""

from .. import common, figs, gen

PROP = "C06"
RUNS = {"quick": 3200, "thorough": 16000}
RULE = ("One run = 1-3 actors performing 5-16 subplots / update_subplots / user edits / draws / closes on generated "
        "primitive geometries, with failing matplotlib calls, interrupts at package lines and a seeded schedule; "
        "every successful operation is read back from matplotlib in inches. Non-trivial: a fault fired, two actors "
        "interleaved, or more than one figure state was checked. Distinct: event-log hash.")


def make(rng, index, prop, fault_p, bad_p, line_p):
    n = rng.choice([1, 1, 1, 1, 2, 3])
    structs = []
    for _ in range(rng.choice([1, 1, 2])):
        default = rng.random() < .5
        st = figs.gen_structure(rng, default)
        st["default"] = default
        st["states"] = figs.gen_states(rng, st, rng.choice([1, 2, 3, 4]))
        structs.append(st)
    faults = []
    size = rng.choice([5, 8, 12, 16])
    actors = [{"ops": figs.gen_actor(rng, a, structs, faults, size if n == 1 else max(4, size // 2),
                                     fault_p, bad_p, line_p)} for a in range(n)]
    scn = {"prop": prop, "structs": structs, "actors": actors, "faults": faults, "rc": figs.gen_rc(rng),
           "figs": rng.choice([0, 0, 1, 2, 3])}
    if n > 1:
        scn["sched"] = gen.sched_policy(rng, hot=["matplotlibutils.py", "seam"], horizon=3000,
                                        fns=["update_subplots", "subplots", "find_axis_position", "rect_from_box"])
    return scn


def generate(seed, index, tier):
    rng = gen.rng_for(PROP, seed, index)
    return make(rng, index, PROP, .2, .08, .25)


@common.guarded
def execute(scn, holder):
    return figs.execute(scn, holder, True, False)
