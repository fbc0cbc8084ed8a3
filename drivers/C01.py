import os
import random

from .ckpt_sim import World, cleanup, make, scratch

RULE = ("real manager over random committed checkpoints, score files and retention settings against a direct oracle, and "
        "the real Trainer._delete_stale_checkpoints on top; distinct inputs with at least two checkpoints and a setting")


def cases(rng, tier):
    while True:
        n = rng.choice([0, 1, 2, 3, 5, 8])
        steps = rng.sample(range(0, rng.choice([12, 40, 2000])), n)
        scores = {str(s): rng.choice([0.0, 1.0, -1.0, 0.5, rng.random(), 1e-9, float("inf")]) for s in steps
                  if rng.random() < rng.choice([1.0, 0.6, 0.0])}
        extra = {str(s): 9.0 for s in rng.sample(range(3000, 3010), rng.randint(0, 1))}  # scores of deleted ones
        opt = lambda: rng.choice([None, None, 1, 1, 2, 3, 5, 100, 0, -1] if rng.random() < 0.3 else [None, 1, 2, 3, 5])
        yield {"steps": steps, "scores": {**scores, **extra}, "last": opt(), "best": opt(), "every": opt(),
               "through": rng.random() < 0.3}


def nontrivial(i):
    return len(i["steps"]) > 1 and (i["last"] or i["best"] or i["every"])


def oracle(i):
    steps = sorted(i["steps"])
    o = [i["last"], i["best"], i["every"]]
    if all(x is None for x in o) or not steps:
        return []
    if any(x is not None and x <= 0 for x in o):
        return "rejected"
    keep = {steps[-1]}
    if i["last"] is not None:
        keep.update(steps[-i["last"]:])
    if i["best"] is not None:
        ranked = sorted([(i["scores"][str(s)], s) for s in steps if str(s) in i["scores"]], reverse=True)
        keep.update(s for _, s in ranked[:i["best"]])
    if i["every"] is not None:
        keep.update(s for s in steps if s % i["every"] == 0)
    return [s for s in steps if s not in keep]


def check(i):
    base = scratch()
    try:
        m, g, fs = make(base, World(1), (1, 1, 1, 1), 0)
        c = os.path.join(base, "checkpoints")
        os.makedirs(os.path.join(c, "scores"))
        fs.shuffle = random.Random(1)
        for s in i["steps"]:
            os.makedirs(os.path.join(c, f"step_{s}", "trainer"))
        for s, v in i["scores"].items():
            m.save_score(int(s), v)
        want = oracle(i)
        try:
            got = m.get_stale_step_numbers(i["last"], i["best"], i["every"])
        except ValueError:
            got = "rejected"
        except Exception as e:
            return ("stale", f"{type(e).__name__}: {e}")
        if got != want:
            return ("stale", f"reported stale: {got}, must be {want}")
        if i["through"] and want != "rejected":
            from fairseq2.trainer import Trainer

            t = object.__new__(Trainer)
            t._checkpoint_manager = m
            t._keep_last_n_checkpoints, t._keep_best_n_checkpoints = i["last"], i["best"]
            t._keep_checkpoint_every_n_steps = i["every"]
            t._delete_stale_checkpoints()
            left = sorted(int(x[5:]) for x in os.listdir(c) if x.startswith("step_"))
            if left != sorted(set(i["steps"]) - set(want)):
                return ("trainer", f"left after retention: {left}, stale were {want} of {sorted(i['steps'])}")
        return None
    finally:
        cleanup(base)
