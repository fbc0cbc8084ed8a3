from .trainer_judge import t02 as check  # noqa: F401
from .trainer_sim import gen

RULE = ("the real Trainer with recording collaborators over random schedules, step/epoch limits, overflows, stop "
        "requests, early stopping and asynchronous saves; distinct inputs with at least one configured schedule")


def cases(rng, tier):
    return gen(rng, tier)


def nontrivial(inp):
    return any(v for k, v in inp["cfg"].items() if "every" in k)
