from .ckpt_sim import gen_world, judge_world

RULE = ("real checkpoint managers, one thread per process of a random topology, saving blocking or asynchronously on a "
        "scratch directory, with random delays and a crash at a random file operation; distinct (topology, script, crash)")
check = judge_world("C02")


def cases(rng, tier):
    while True:
        yield gen_world(rng)
