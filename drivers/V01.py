import torch

import fairseq2.recipe  # noqa: F401
import fairseq2.validator as vm
from fairseq2.error import InternalError
from fairseq2.evaluator import EvalUnit
from fairseq2.gang import create_fake_gangs
from fairseq2.metrics import Mean
from fairseq2.metrics.recorders import MetricDescriptor
from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
from fairseq2.utils.stopwatch import Stopwatch

from .trainer_sim import Null

RULE = ("random sequences of validation runs of the real StandardValidator (1-3 units, both metric directions, with and "
        "without recorded scores), best score and step compared with an independent running best; non-trivial: >= 2 runs")
GRID = [-2.0, -1.0, 0.0, 0.5, 1.0, 1.5]


class Unit(EvalUnit):
    def __init__(self, i, w):
        self.i, self.w = i, w

    def prepare_metric_bag(self, bag):
        bag.add("total_seen", Mean())
        bag.add("acc", Mean())

    def set_train_step_nr(self, n):
        self.step = n

    def process_batch(self, batch, bag):
        bag.get("acc", Mean).update(torch.tensor(batch.value))

    def finalize(self, bag):
        pass

    def process_metric_values(self, values):
        if self.w["scored"][self.i]:
            values["score"] = float(values["acc"])

    @property
    def name(self):
        return "u%d" % self.i

    @property
    def model(self):
        return None


class Batch:
    def __init__(self, value):
        self.value = value

    def to(self, device, *, non_blocking=False):
        return None


class Reader:
    def __init__(self, i, w):
        self.i, self.w, self.pos = i, w, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos:
            raise StopIteration
        self.pos = 1
        x = self.w["runs"][self.w["nr"]][self.i]
        return [Batch(x - 1.0), Batch(x + 1.0)]  # mean: x

    def reset(self):
        self.pos = 0


class Log:
    def __init__(self):
        self.lines = []

    def is_enabled_for_info(self):
        return True

    def info(self, *a, **k):
        self.lines.append(a)

    def __getattr__(self, n):
        return lambda *a, **k: None


def cases(rng, tier):
    while True:
        n = rng.choice([1, 1, 2, 3])
        scored = [rng.random() < 0.85 for _ in range(n)]
        rec = sorted({s: rng.choice(GRID) for s in rng.sample(range(1, 9), rng.choice([0, 0, 1, 3]))}.items())
        yield {"scored": scored, "higher": rng.random() < 0.5, "runs": [[rng.choice(GRID) for _ in range(n)]
               for _ in range(rng.randint(1, 5))], "recorded": [[v, s] for s, v in rec], "start": rng.choice([0, 0, 10])}


def nontrivial(inp):
    return len(inp["runs"]) > 1


def check(inp):
    w = dict(inp, nr=0)
    cpu = torch.device("cpu")
    best, best_step = -float("inf"), 0
    rec = sorted(map(tuple, inp["recorded"]), reverse=True)
    step0 = max([s for _, s in rec], default=0) + inp["start"] if rec else inp["start"]
    if rec:
        best, best_step = rec[0]
    mgr = Null()
    mgr.__dict__["load_scores"] = lambda: [(float(v), int(s)) for v, s in rec]
    saved, vm.log = vm.log, Log()
    try:
        units = [Unit(i, w) for i in range(len(inp["scored"]))]
        v = vm.StandardValidator(
            units=units, data_readers=[Reader(i, w) for i in range(len(units))], gangs=create_fake_gangs(cpu), amp=False,
            amp_dtype=torch.float32, score_metric_descriptor=MetricDescriptor("score", "Score", 1, lambda x: f"{float(x)}",
                                                                              higher_better=inp["higher"]),
            checkpoint_manager=mgr, hg_exporter=Null(), metric_recorder=Null(), profiler=Null(), device_stat_tracker=Null(),
            wall_watch=Stopwatch(), progress_reporter=NOOP_PROGRESS_REPORTER, seed=3)
        for r, vals in enumerate(inp["runs"]):
            w["nr"] = r
            step = step0 + 1 + r
            vals = [x for x, s in zip(vals, inp["scored"]) if s]
            try:
                got = v.run(step)
            except InternalError as e:
                if vals:
                    return f"run {r}: {e}"
                return None
            if not vals:
                return f"run {r}: no unit has a score, but {got} is returned"
            want = sum(vals) if inp["higher"] else -sum(vals)
            if got is None or abs(got - want) > 1e-6:
                return f"run {r}: score {got}, units give {want}"
            if want > best:
                best, best_step = want, step
            line = [a for a in vm.log.lines if a and str(a[0]).startswith("Score")][-1:]
            if line and len(line[0]) == 6:
                _, _, a, s, b, bs = line[0]
                sg = 1 if inp["higher"] else -1
                if (float(a), s, float(b), bs) != (sg * want, step, sg * best, best_step):
                    return f"run {r}: reports {(float(a), s, float(b), bs)}, must be {(sg * want, step, sg * best, best_step)}"
            v.reset()
        return None
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    finally:
        vm.log = saved
