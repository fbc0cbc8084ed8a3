import os

from .ckpt_sim import Escape, World, cleanup, make, run_threads, scratch, snapshot

RULE = ("real managers deleting one of several checkpoints with random content (model, hg, hook, other files and "
        "directories, temporary directories, scores), compared file by file; distinct inputs with an existing target")
NAMES = ["model", "hg", "hook", "trainer", "optimizer", "data_reader", "note.txt", "model.bin", "hg.json", "extra", "hooks",
         "model_2"]


def cases(rng, tier):
    while True:
        steps = rng.sample([0, 1, 2, 5, 10, 12, 50, 100, 1000], rng.randint(1, 4))
        yield {"steps": {str(s): {n: rng.choice(["f", "d", "dd"] if "." not in n else ["f"])
                                  for n in rng.sample(NAMES, rng.randint(0, 6))} for s in steps},
               "tmp": [s for s in steps if rng.random() < 0.4], "scores": [s for s in steps if rng.random() < 0.6],
               "target": rng.choice(steps + [7]), "keep": rng.random() < 0.5, "size": rng.choice([1, 1, 2, 3])}


def nontrivial(i):
    return str(i["target"]) in i["steps"]


def build(base, i):
    c = os.path.join(base, "checkpoints")
    os.makedirs(os.path.join(c, "scores"))
    for s, es in i["steps"].items():
        d = os.path.join(c, f"step_{s}")
        os.makedirs(d)
        for n, k in es.items():
            p = os.path.join(d, n)
            if k == "f":
                open(p, "w").write(n + s)
            else:
                os.makedirs(p if k == "d" else os.path.join(p, "inner"))
                open(os.path.join(p, "x.pt"), "w").write(n + s)
    for s in i["tmp"]:
        os.makedirs(os.path.join(c, f"step_{s}.tmp", "trainer"))
    for s in i["scores"]:
        open(os.path.join(c, "scores", f"step_{s}.txt"), "w").write("1.0\n")


def expected(before, i):
    t, keep, out = i["target"], i["keep"], {}
    for p, v in before.items():
        parts = p.rstrip("/").split("/")
        if parts[:2] == ["checkpoints", f"step_{t}.tmp"]:
            continue
        if parts[:2] == ["checkpoints", f"step_{t}"]:
            if not keep or len(parts) > 2 and os.path.splitext(parts[2])[0] not in ("model", "hg", "hook"):
                continue
        if parts == ["checkpoints", "scores", f"step_{t}.txt"] and not keep:
            continue
        out[p] = v
    return out


def check(i):
    base = scratch()
    try:
        build(base, i)
        before = snapshot(base)
        w = World(i["size"])
        left = {}

        def go(r):
            m, g, fs = make(base, w, (1, i["size"], 1, 1), r)
            m.delete_checkpoint(i["target"], keep_model=i["keep"])
            left[r] = snapshot(base)

        errs = run_threads(i["size"], go)
        if errs:
            return ("delete", f"{errs}")
        by = {e[0] for e in w.log if e[1] in ("remove", "rmdir", "move")}
        if by - {0}:
            return ("delete", f"processes {by} modified the file system")
        after, want = snapshot(base), expected(before, i)
        if after != want:
            gone = sorted(set(want) - set(after))
            rest = sorted(set(after) - set(want))
            return ("delete", f"wrongly removed: {gone}; wrongly left: {rest}")
        for r, s in left.items():
            if s != want:
                return ("delete", f"process {r} returned before the deletion was done")
        return None
    finally:
        cleanup(base)
