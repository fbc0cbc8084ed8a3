import os
import random

from .ckpt_sim import World, cleanup, make, scratch

RULE = ("real manager over random directory content: committed, model-only and temporary checkpoints, plain files and "
        "foreign names in any listing order; distinct inputs with at least two committed checkpoints")
FOREIGN = ["step_", "step_x", "step_1x", "step_01", "step_1_0", "step_ 3", "step_+4", "step_٣", "step_5.tmp",
           "step_7.bak", "steps_3", "scores", "step_0x10", "step_1e3", "Step_9", "step_12.tmp", "xstep_3"]


def cases(rng, tier):
    while True:
        steps = rng.sample(range(0, rng.choice([6, 30, 3000])), rng.randint(0, 6))
        yield {"full": [s for s in steps if rng.random() < 0.6], "model": [s for s in steps if rng.random() < 0.4],
               "foreign": rng.sample(FOREIGN, rng.randint(0, 8)),
               "files": [f"step_{x}" for x in rng.sample(range(5000, 5010), rng.randint(0, 2))],
               "tmp": rng.sample(range(0, 40), rng.randint(0, 3)), "order": rng.randrange(1000)}


def nontrivial(i):
    return len(set(i["full"]) | set(i["model"])) > 1


def check(i):
    base = scratch()
    try:
        c = os.path.join(base, "checkpoints")
        os.makedirs(c)
        full = set(i["full"])
        model = set(i["model"]) - full
        for s in full:
            os.makedirs(os.path.join(c, f"step_{s}", "trainer"))
        for s in model:
            os.makedirs(os.path.join(c, f"step_{s}", "model"))
        for n in i["foreign"]:
            os.makedirs(os.path.join(c, n, "trainer"), exist_ok=True)
        for n in i["files"]:
            open(os.path.join(c, n), "w").close()
        for s in i["tmp"]:
            os.makedirs(os.path.join(c, f"step_{s}.tmp", "trainer"), exist_ok=True)
        m, g, fs = make(base, World(1), (1, 1, 1, 1), 0)
        fs.shuffle = random.Random(i["order"])
        for only_full in (False, True):
            want = sorted(full if only_full else full | model)
            try:
                got = m.get_step_numbers(exclude_model_only=only_full)
                last = m.maybe_get_last_step_number(exclude_model_only=only_full)
                has = m.has_checkpoint(exclude_model_only=only_full)
            except Exception as e:
                return ("listing", f"{type(e).__name__}: {e}")
            if got != want:
                return ("listing", f"listed {got}, committed {want} (exclude_model_only={only_full})")
            if last != (want[-1] if want else None) or has != bool(want):
                return ("listing", f"last {last}, any {has} for {want}")
        return None
    finally:
        cleanup(base)
