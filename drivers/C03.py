from .ckpt_sim import gen_world, judge_world

RULE = ("real checkpoint managers, one thread per process of a random topology: everything saved is loaded again by "
        "every process and compared with what its position saved; distinct (topology, script)")
check = judge_world("C03")


def cases(rng, tier):
    while True:
        x = gen_world(rng)
        x["crash"] = None
        yield x
