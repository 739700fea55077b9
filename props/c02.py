"""Halo update of vectors: every value ends where the geometry of the cube says, under every schedule."""
from . import common, exchange

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 30000}
QUICK_SECONDS = 45.0
UNIVERSES = 24
RULE = (
    "each run: a random layout (6 to 294 ranks, sometimes with a smaller cube formed by some of them), cells per rank, 1-3 quantities with random "
    "dimension order, staggering, dtype, memory layout, halo width and padding, 1-4 exchanges, "
    "and a random send mode, latency and scheduling policy; non-trivial: at least one exchange "
    "completed and was compared in full on all ranks; distinct: different event-log checksum"
)
REAL = common.REAL_COMM
SIMULATED = common.SIM_COMM
ASSUMPTIONS = [
    "the simulated MPI keeps what the MPI standard guarantees and varies what it leaves open",
    "halo width no larger than the cells per rank; square layouts up to 7x7 (all the package supports "
    "is square)",
]


FIXED = (exchange.huge("vector"), exchange.big("vector"), exchange.big("vector"))


def generate(rng, tier):
    return exchange.gen_blocking(rng, ["vector"])


execute = exchange.run_blocking
simplify = exchange.simplify


def nontrivial(stats):
    return stats.get("exchanges", 0) > 0
