"""Runs the real Trainer with recording collaborators; T01..T07 judge the trace.

Input: {"cfg": {...}, "epochs": [[n micro-batches per step, ...], ...] (last entry repeats),
        "overflow": [attempt indices], "explode": attempt or None, "stop": [kind, nth] or None,
        "scores": [..], "stopper": [bool, ...] or None, "validator": bool, "delay": polls until an
        async save completes, "targets": None or [counts], "rank": 0|1, "accum_nosync": bool}
"""
import types

import torch

from . import boot  # noqa: F401
import fairseq2.recipe  # noqa: F401,E402
import fairseq2.trainer as tm
from fairseq2.checkpoint import NOOP_HG_EXPORTER
from fairseq2.early_stopper import NOOP_EARLY_STOPPER
from fairseq2.gang import FakeGang, Gangs
from fairseq2.metrics import Mean, Sum
from fairseq2.optim.fp16_loss_scaler import NOOP_FP16_LOSS_SCALER, Float16LossScaleResult
from fairseq2.task import TaskStopException
from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
from fairseq2.utils.stopwatch import Stopwatch
from fairseq2.validator import NOOP_VALIDATOR

CPU = torch.device("cpu")
MAX_EVENTS = 4000


class Runaway(Exception):
    """The run does not end (a harness bound, reported as a failure of T02)."""


class World:
    def __init__(self, inp, ckpt=None):
        self.inp = inp
        self.trace = []
        self.trainer = None
        self.counts = {}
        self.stop_fired = False
        self.ckpt = ckpt
        self.pending = None
        self.pending_polls = 0
        self.visible = []
        self.saved_states = {}
        self.attempt = 0
        self.params = {}

    def ev(self, kind, *data):
        self.trace.append((kind, *data))
        if len(self.trace) > MAX_EVENTS:
            raise Runaway()
        n = self.counts[kind] = self.counts.get(kind, 0) + 1
        s = self.inp.get("stop")
        if s and s[0] == kind and s[1] == n:
            self.stop_fired = True
            self.trace.append(("STOP", kind))
            self.trainer.request_stop()


class Batch:
    def __init__(self, uid, targets):
        self.uid, self.targets = uid, targets

    def to(self, device, *, non_blocking=False):
        return None


class Reader:
    def __init__(self, w):
        self.w, self.epoch, self.pos, self.uid = w, 0, 0, 0

    def __iter__(self):
        return self

    def __next__(self):
        eps = self.w.inp["epochs"]
        ep = eps[min(self.epoch, len(eps) - 1)]
        self.w.ev("read")
        if self.pos >= len(ep):
            raise StopIteration
        n = ep[self.pos]
        self.pos += 1
        out = []
        for _ in range(n):
            t = self.w.inp.get("targets")
            out.append(Batch(self.uid, None if t is None else t[self.uid % len(t)]))
            self.uid += 1
        self.w.trace.append(("batches", [b.uid for b in out]))
        return out

    def reset(self):
        self.epoch += 1
        self.pos = 0
        self.w.ev("reset")

    def state_dict(self):
        return {"epoch": self.epoch, "pos": self.pos, "uid": self.uid}

    def load_state_dict(self, s):
        self.epoch, self.pos, self.uid = s["epoch"], s["pos"], s["uid"]


class Model(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(()))


class Unit(tm.TrainUnit):
    def __init__(self, w, model):
        self.w, self._m = w, model

    def prepare_metric_bag(self, bag):
        bag.add("total_seen", Sum())
        bag.add("seen", Sum())

    def set_step_nr(self, n):
        self.w.trace.append(("set_step", n))

    def set_data_epoch_nr(self, n):
        self.w.trace.append(("set_epoch", n))

    def process_batch(self, batch, bag):
        bag.get("total_seen", Sum).update(1)
        bag.get("seen", Sum).update(1)
        self.w.ev("process", batch.uid, self.w.nosync)
        return self._m.w * float(2 ** (batch.uid % 5)), batch.targets

    def process_metric_values(self, values):
        self.w.trace.append(("metric_values", float(values["total_seen"]), float(values["seen"])))


class Optimizer:
    def __init__(self, w, model):
        self.w, self.m = w, model
        self.param_groups = [{"lr": 0.1}]

    def step(self, closure=None):
        self.w.ev("update", None if self.m.w.grad is None else float(self.m.w.grad))

    def zero_grad(self, set_to_none=True):
        self.m.w.grad = None
        self.w.trace.append(("zero_grad",))

    def state_dict(self):
        return {"opt": 1}

    def load_state_dict(self, s):
        pass


class Scaler:
    scale_window = 3

    def __init__(self, w):
        self.w, self.state = w, 7

    def backward(self, loss):
        self.w.trace.append(("backward", self.w.nosync))
        loss.backward()

    def unscale_grads_(self, opt):
        self.w.trace.append(("unscale",))

    def run_optimizer_step(self, opt, closure=None):
        i = self.w.attempt
        self.w.attempt += 1
        if i == self.w.inp.get("explode"):
            self.w.ev("overflow")
            return Float16LossScaleResult(2.0, 1.0, overflowed=True, exploded=True)
        if i in self.w.inp.get("overflow", []):
            self.w.ev("overflow")
            return Float16LossScaleResult(2.0, 1.0, overflowed=True)
        opt.step()
        return Float16LossScaleResult(2.0, 2.0)

    def state_dict(self):
        return {"s": self.state}

    def load_state_dict(self, s):
        self.state = s["s"]


class Sched:
    def __init__(self, w):
        self.w, self.n = w, 0

    def get_last_lr(self):
        return [0.1]

    def step(self):
        self.n += 1
        self.w.trace.append(("lr",))

    def state_dict(self):
        return {"n": self.n}

    def load_state_dict(self, s):
        self.n = s["n"]


class ValidatorF:
    def __init__(self, w):
        self.w, self.n = w, 0

    def run(self, step_nr):
        self.w.trace.append(("validating", step_nr, self.w.model.training))
        self.w.ev("validate", step_nr)
        sc = self.w.inp.get("scores") or [None]
        s = sc[self.n % len(sc)]
        self.n += 1
        self.w.trace.append(("scored", step_nr, s))
        return s

    def reset(self):
        pass

    @property
    def best_step_nr(self):
        return -1


class StopperF:
    def __init__(self, w):
        self.w, self.n = w, 0

    def should_stop(self, step_nr, score):
        a = self.w.inp["stopper"]
        r = bool(a[self.n % len(a)])
        self.n += 1
        self.w.trace.append(("stopper", step_nr, score, r))
        return r


class Mgr:
    def __init__(self, w):
        self.w = w
        self.steps = {}

    @property
    def is_saving(self):
        return self.w.pending is not None

    def _finish(self):
        step, cb = self.w.pending
        self.w.pending = None
        self.steps[step] = True
        self.w.trace.append(("visible", step))
        if cb is not None:
            cb(step, False)

    def maybe_complete_save_operation(self, *, blocking=False):
        if self.w.pending is None:
            return None
        self.w.pending_polls -= 1
        if not blocking and self.w.pending_polls > 0:
            return False
        self._finish()
        return True

    def _save(self, step, state, ready, saved, blocking, full):
        self.maybe_complete_save_operation(blocking=True)
        self.w.trace.append(("SAVE", step, bool(blocking), full, self.w.trainer._data_epoch_nr))
        self.w.saved_states[step] = state
        self.w.ev("save", step)
        if ready is not None:
            ready(step, blocking)
        if blocking:
            self.steps[step] = True
            self.w.trace.append(("visible", step))
            if saved is not None:
                saved(step, True)
        else:
            self.w.pending = (step, saved)
            self.w.pending_polls = self.w.inp.get("delay", 1)

    def save_checkpoint(self, step_nr, trainer, model, optimizer, data_reader, *, ready_callback=None,
                        saved_callback=None, blocking=False):
        st = {"trainer": trainer.state_dict(), "reader": data_reader.state_dict(), "at": len(self.w.trace)}
        self._save(step_nr, st, ready_callback, saved_callback, blocking, True)

    def save_model_only(self, step_nr, model, *, ready_callback=None, saved_callback=None, blocking=False):
        self._save(step_nr, None, ready_callback, saved_callback, blocking, False)

    def save_score(self, step_nr, score):
        self.w.trace.append(("score", step_nr, score))

    def get_stale_step_numbers(self, *a):
        return []

    def get_step_numbers(self, *, exclude_model_only=False):
        return sorted(self.steps)

    def delete_checkpoint(self, step_nr, **kw):
        self.w.trace.append(("delete", step_nr, kw))

    def maybe_get_last_step_number(self, *, exclude_model_only=False):
        return None if self.w.ckpt is None else self.w.ckpt[0]

    def load_trainer_state(self, step_nr, trainer):
        trainer.load_state_dict(self.w.ckpt[1]["trainer"])

    def load_model_state(self, step_nr, m):
        pass

    def load_optimizer_state(self, step_nr, m):
        pass

    def load_data_reader_state(self, step_nr, r):
        r.load_state_dict(self.w.ckpt[1]["reader"])

    def close(self):
        pass


class Null:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: {} if name == "get_stats" else None


class Recorder:
    def __init__(self, w):
        self.w = w

    def record_metric_values(self, category, values, step_nr=None):
        self.w.ev("publish", step_nr)

    def close(self):
        pass


class Facade:
    def __init__(self, w, module):
        self.w, self.module = w, module

    def no_sync(self):
        w = self.w

        class CM:
            def __enter__(s):
                w.nosync = True

            def __exit__(s, *a):
                w.nosync = False

        return CM()

    def clip_grad_norm(self, max_norm):
        self.w.trace.append(("clip",))
        return torch.tensor(1.0)

    def summon_full_parameters(self):
        return Null()

    def state_dict(self):
        return {}

    def load_state_dict(self, s):
        pass


class Watch(Stopwatch):
    """Wall clock of one run: a fixed reading."""

    def get_elapsed_time(self):
        return 2.5


def build(inp, ckpt=None, bcast=None):
    w = World(inp, ckpt)
    w.nosync = False
    rank, size = inp.get("rank", 0), 2 if inp.get("rank", 0) else 1
    root = FakeGang(CPU, rank=rank, size=max(size, 1))
    one = FakeGang(CPU)
    gangs = Gangs(root=root, dp=root if size == 1 else one, rdp=one, sdp=one, tp=one, pp=one) if size > 1 else None
    if gangs is None:
        from fairseq2.gang import create_fake_gangs

        gangs = create_fake_gangs(CPU)
    w.model = Model()
    w.manager = Mgr(w)
    w.reader = Reader(w)
    w.sched = Sched(w)
    fp16 = inp.get("fp16", True)
    w.scaler = Scaler(w) if fp16 else NOOP_FP16_LOSS_SCALER
    cfg = {k: v for k, v in inp["cfg"].items()}
    tm.get_data_parallel_facade = lambda m: Facade(w, m)
    if bcast is not None:
        tm.broadcast_flag = bcast
    w.trainer = tm.Trainer(
        model=w.model, unit=Unit(w, w.model), data_reader=w.reader, gangs=gangs, amp=False,
        amp_dtype=torch.float32, optimizer=Optimizer(w, w.model), lr_scheduler=w.sched,
        fp16_loss_scaler=w.scaler,
        validator=ValidatorF(w) if inp.get("validator", True) else NOOP_VALIDATOR,
        early_stopper=NOOP_EARLY_STOPPER if inp.get("stopper") is None else StopperF(w),
        checkpoint_manager=w.manager, hg_exporter=NOOP_HG_EXPORTER, metric_recorder=Recorder(w),
        garbage_collector=Null(), profiler=Null(), device_stat_tracker=Null(), wall_watch=Watch(),
        progress_reporter=NOOP_PROGRESS_REPORTER, seed=1,
        no_sync_grad_accumulation=bool(inp.get("accum_nosync")), **cfg)
    return w


_bflag = tm.broadcast_flag


def simulate(inp, ckpt=None, bcast=None):
    """-> (World, outcome)   outcome: 'ok' | 'stop' | 'runaway' | exception"""
    tm.broadcast_flag = _bflag
    w = build(inp, ckpt, bcast)
    try:
        w.trainer.run()
        out = "ok"
    except TaskStopException:
        out = "stop"
    except Runaway:
        out = "runaway"
    except Exception as ex:  # noqa: BLE001
        out = ex
    return w, out


def gen(rng, tier="quick"):
    """Random small configurations with interacting schedules."""
    while True:
        pe = rng.choice([None, 1, 1, 2, 3])
        mult = lambda base: None if rng.random() < 0.35 else (base or 1) * rng.choice([1, 1, 2, 3])
        ve = mult(pe)
        ce = mult(pe)
        ppe = rng.choice([None, None, 1, 2])
        cfg = {
            "max_num_steps": rng.choice([None, 1, 2, 3, 5, 7]),
            "max_num_data_epochs": rng.choice([None, 1, 2, 3]),
            "publish_metrics_every_n_steps": pe, "publish_metrics_every_n_data_epochs": ppe,
            "validate_every_n_steps": ve, "validate_every_n_data_epochs": mult(ppe),
            "checkpoint_every_n_steps": ce, "checkpoint_every_n_data_epochs": mult(ppe),
            "publish_metrics_after_n_steps": rng.choice([0, 0, 0, 2]),
            "validate_after_n_steps": rng.choice([0, 0, 1, 2, 3]),
            "checkpoint_after_n_steps": rng.choice([0, 0, 1, 2, 3]),
            "publish_metrics_after_n_data_epochs": rng.choice([0, 0, 1]),
            "validate_after_n_data_epochs": rng.choice([0, 0, 1]),
            "checkpoint_after_n_data_epochs": rng.choice([0, 0, 1]),
            "validate_at_start": rng.random() < 0.2,
        }
        if rng.random() < 0.15:
            cfg["save_model_only"] = rng.choice([True, "all", "all_but_last"])
        eps = [[rng.choice([1, 1, 2, 3]) for _ in range(rng.choice([0, 1, 2, 3, 4]) if i else rng.choice([0, 1, 2, 3, 4, 4]))]
               for i in range(rng.choice([1, 2, 3]))]
        if not eps[-1]:
            eps[-1] = [1]
        inp = {"cfg": cfg, "epochs": eps, "fp16": rng.random() < 0.6, "delay": rng.choice([1, 2, 4, 100]),
               "validator": rng.random() < 0.8, "accum_nosync": rng.random() < 0.5}
        if inp["fp16"]:
            inp["overflow"] = sorted(rng.sample(range(8), rng.choice([0, 0, 1, 2, 3])))
            if rng.random() < 0.08:
                inp["explode"] = rng.randrange(6)
        inp["stop"] = None
        if rng.random() < 0.4 or (cfg["max_num_steps"] is None and cfg["max_num_data_epochs"] is None):
            inp["stop"] = [rng.choice(["read", "process", "update", "overflow", "validate", "publish", "save", "reset"]),
                           rng.choice([1, 1, 2, 3, 4])]
        if cfg["max_num_steps"] is None and cfg["max_num_data_epochs"] is None:
            inp["stop"] = ["read", rng.choice([1, 2, 3, 5, 8])]
        inp["scores"] = [rng.choice([None, 0.5, 0.25, 1.0]) for _ in range(3)]
        inp["stopper"] = None if rng.random() < 0.6 else [rng.random() < 0.35 for _ in range(4)]
        inp["targets"] = None if rng.random() < 0.5 else [rng.choice([0, 1, 2, 3]) for _ in range(5)]
        try:
            build(inp)
        except ValueError:
            continue
        yield inp


def due(cfg, kind, n, unit):
    e, a = cfg.get(f"{kind}_every_n_{unit}"), cfg.get(f"{kind}_after_n_{unit}", 0)
    return e is not None and n > a and n % e == 0
