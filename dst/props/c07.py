"""
C07: failed figure operations leave nothing behind
"""

from .. import common, figs, gen
from .c06 import make

PROP = "C07"
RUNS = {"quick": 2600, "thorough": 16000}
RULE = ("One run = 1-3 actors performing 5-16 figure operations of which about half fail (missing primitive, bad size, "
        "a matplotlib call raising); pyplot's registry and current figure, process state, other figures and axes, "
        "and the primitives are compared around every operation. Non-trivial: a fault fired or two actors "
        "interleaved. Distinct: event-log hash.")


def generate(seed, index, tier):
    rng = gen.rng_for(PROP, seed, index)
    return make(rng, index, PROP, .5, .25, 0.0)


@common.guarded
def execute(scn, holder):
    return figs.execute(scn, holder, False, True)
