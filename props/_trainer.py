"""Environment of the Trainer: contracts of its collaborators (their own properties are separate).

The Trainer under proof is built by its real ``__init__``; what is modelled here is everything it
talks to.  Every model method is the *contract* of the corresponding collaborator."""
from __future__ import annotations

from typing import Any

import z3

from pyvc.api import *
from pyvc.extlib import NullCM

T = "fairseq2.trainer"


class CMSink(Sink):
    """Accepts every call, and is a context manager without effect on the modelled state."""

    def enter(self, ctx: Any) -> Any:
        return None

    def exit(self, ctx: Any, *a: Any) -> Any:
        return None


class Ghost(Model):
    """Specification-only state."""


class GangM(Model):
    def __init__(self, ctx: Any, rank: Any, size: Any) -> None:
        super().__init__(ctx, None, rank=rank, size=size)

    def m_barrier(self, ctx: Any) -> None:
        return None

    def m_close(self, ctx: Any) -> None:
        return None


class MetricM(Model):
    def m_update(self, ctx: Any, *a: Any, **k: Any) -> None:
        return None

    def m_reset(self, ctx: Any) -> None:
        return None


class MetricBagM(Model):
    def m_add(self, ctx: Any, name: Any, metric: Any) -> None:
        return None

    def m_get(self, ctx: Any, name: Any, kls: Any) -> Any:
        return MetricM(ctx)

    def m_begin_updates(self, ctx: Any) -> None:
        return None

    m_commit_updates = m_begin_updates
    m_rollback_updates = m_begin_updates

    def getattr(self, ctx: Any, name: str) -> Any:
        if name == "metrics":
            return PyDict(ctx, {})
        return NotImplemented


class Manager(Model):
    """CheckpointManager: at most one save in flight; a save is visible once completed.

    ghost fields: pending (bool), pending_step, visible (last visible step, -1 none)."""

    def __init__(self, ctx: Any, env: "Env") -> None:
        super().__init__(ctx, None, pending=False, pending_step=z3.IntVal(-1), cb=None)
        self.env = env

    def getattr(self, ctx: Any, name: str) -> Any:
        if name == "is_saving":
            return self.fields["pending"]
        return NotImplemented

    def _complete(self, ctx: Any) -> None:
        self.setf(ctx, "pending", False)
        self.env.on_visible(self.fields["pending_step"])
        cb = self.fields["cb"]
        if cb is not None:
            self.env.it.call(cb, [self.fields["pending_step"], False], {})

    def m_maybe_complete_save_operation(self, ctx: Any, *, blocking: Any = False) -> Any:
        if not ctx.branch(zbool(self.fields["pending"])):
            return None
        if blocking is not True and not ctx.branch(ctx.bool("save_done")):
            return False
        self._complete(ctx)
        return True

    def _save(self, ctx: Any, step_nr: Any, ready: Any, saved: Any, blocking: Any, full: bool) -> None:
        env = self.env
        self.m_maybe_complete_save_operation(ctx, blocking=True)
        env.on_save(step_nr, full)
        if ready is not None:
            env.it.call(ready, [step_nr, blocking], {})
        if env.it.ctx.branch(env.it.truth(blocking)):
            env.on_visible(step_nr)
            if saved is not None:
                env.it.call(saved, [step_nr, blocking], {})
        else:
            self.setf(ctx, "pending", True)
            self.setf(ctx, "pending_step", zint(step_nr))

    def m_save_checkpoint(self, ctx: Any, step_nr: Any, trainer: Any, model: Any, optimizer: Any,
                          data_reader: Any, *, ready_callback: Any = None, saved_callback: Any = None,
                          blocking: Any = False) -> None:
        self.env.on_save_state(trainer)
        self._save(ctx, step_nr, ready_callback, saved_callback, blocking, True)

    def m_save_model_only(self, ctx: Any, step_nr: Any, model: Any, *, ready_callback: Any = None,
                          saved_callback: Any = None, blocking: Any = False) -> None:
        self._save(ctx, step_nr, ready_callback, saved_callback, blocking, False)

    def m_save_score(self, ctx: Any, step_nr: Any, score: Any) -> None:
        self.env.on_save_score(step_nr, score)

    def m_get_stale_step_numbers(self, ctx: Any, *a: Any) -> Any:
        return PyList(ctx, [])

    def m_get_step_numbers(self, ctx: Any, *, exclude_model_only: Any = False) -> Any:
        return PyList(ctx, [])

    def m_delete_checkpoint(self, ctx: Any, *a: Any, **k: Any) -> None:
        return None

    def m_maybe_get_last_step_number(self, ctx: Any, *, exclude_model_only: Any = False) -> Any:
        return self.env.restore_step(ctx)

    def m_load_trainer_state(self, ctx: Any, step_nr: Any, trainer: Any) -> None:
        self.env.restore(ctx, step_nr, trainer)

    def m_load_model_state(self, ctx: Any, step_nr: Any, x: Any) -> None:
        return None

    m_load_optimizer_state = m_load_model_state
    m_load_data_reader_state = m_load_model_state

    def m_close(self, ctx: Any) -> None:
        return None


class Reader(Model):
    def __init__(self, ctx: Any, env: "Env") -> None:
        super().__init__(ctx, None)
        self.env = env

    def m___next__(self, ctx: Any) -> Any:
        self.env.on_read()
        if ctx.branch(ctx.bool("data_left")):
            return self.env.batches(ctx)
        raise self.env.it.exc(StopIteration)

    def m_reset(self, ctx: Any) -> None:
        self.env.on_epoch_end()


class Validator(Model):
    def __init__(self, ctx: Any, env: "Env") -> None:
        super().__init__(ctx, None)
        self.env = env

    def m_run(self, ctx: Any, step_nr: Any) -> Any:
        self.env.on_validate(step_nr)
        if ctx.branch(ctx.bool("has_score")):
            return ctx.real("score")
        return None

    def m_reset(self, ctx: Any) -> None:
        return None


class Stopper(Model):
    def __init__(self, ctx: Any, env: "Env") -> None:
        super().__init__(ctx, None)
        self.env = env

    def m_should_stop(self, ctx: Any, step_nr: Any, score: Any) -> Any:
        self.env.on_stopper(step_nr, score)
        b = ctx.bool("early_stop_says")
        self.env.stopper_answer = b
        return b


class Recorder(Model):
    def __init__(self, ctx: Any, env: "Env") -> None:
        super().__init__(ctx, None)
        self.env = env

    def m_record_metric_values(self, ctx: Any, category: Any, values: Any, step_nr: Any = None) -> None:
        self.env.on_publish(step_nr)

    def m_close(self, ctx: Any) -> None:
        return None


class Facade(Model):
    def m_summon_full_parameters(self, ctx: Any) -> Any:
        return NullCM(ctx)

    def m_no_sync(self, ctx: Any) -> Any:
        return NullCM(ctx)

    def m_clip_grad_norm(self, ctx: Any, max_norm: Any) -> Any:
        return Model(ctx)


class ModelM(Model):
    """The module being trained; ghost: training mode."""

    def __init__(self, ctx: Any) -> None:
        super().__init__(ctx, None, mode="?")

    def m_train(self, ctx: Any, mode: Any = True) -> Any:
        self.setf(ctx, "mode", "train" if mode is True else "eval")
        return self

    def m_eval(self, ctx: Any) -> Any:
        self.setf(ctx, "mode", "eval")
        return self


class TrainUnitM(Sink):
    pass


class OptimizerM(Model):
    def __init__(self, ctx: Any) -> None:
        super().__init__(ctx, None, param_groups=PyList(ctx, [PyDict(ctx, {})]))

    def m_zero_grad(self, ctx: Any, *a: Any, **k: Any) -> None:
        return None


class Env:
    """Hooks are overridden by the units that specify them."""

    rank0 = True

    def __init__(self, ctx: Any, it: Interp, **over: Any) -> None:
        self.ctx, self.it = ctx, it
        ctx.merge_calls.append(f"{T}:Trainer._should_*")
        ctx.memo["uf-mod"] = True  # the schedule is proved for any remainder function
        self.stopper_answer: Any = None
        self.cfg = {n: opt_int(ctx, n, lo=1) for n in (
            "max_num_steps", "max_num_data_epochs", "validate_every_n_steps",
            "validate_every_n_data_epochs", "checkpoint_every_n_steps",
            "checkpoint_every_n_data_epochs", "publish_metrics_every_n_steps",
            "publish_metrics_every_n_data_epochs", "keep_last_n_checkpoints",
            "keep_best_n_checkpoints", "keep_checkpoint_every_n_steps")}
        for n in ("validate_after_n_steps", "validate_after_n_data_epochs", "checkpoint_after_n_steps",
                  "checkpoint_after_n_data_epochs", "publish_metrics_after_n_steps",
                  "publish_metrics_after_n_data_epochs"):
            self.cfg[n] = ctx.int(n, lo=0, inp=True)
        c = self.cfg
        rank = 0 if self.rank0 else ctx.int("rank", lo=1)
        size = ctx.int("world", lo=1)
        self.root = GangM(ctx, rank, size)
        self.tp = GangM(ctx, 0, 1)
        self.dp = GangM(ctx, rank, size)
        self.gangs = Model(ctx, None, root=self.root, tp=self.tp, dp=self.dp,
                           device=Model(ctx, None, type="cpu"))
        self.gangs.m_close = lambda ctx: None
        self.model = ModelM(ctx)
        self.facade = Facade(ctx)
        self.manager = Manager(ctx, self)
        self.reader = Reader(ctx, self)
        self.recorder = Recorder(ctx, self)
        self.unit = TrainUnitM(ctx)
        self.optimizer = OptimizerM(ctx)
        self.ghost = Ghost(ctx)
        self.bag = MetricBagM(ctx)
        self.noop_validator = it.global_name(it.world._mod(T), "NOOP_VALIDATOR")
        self.noop_stopper = it.global_name(it.world._mod(T), "NOOP_EARLY_STOPPER")
        self.noop_hg = it.global_name(it.world._mod(T), "NOOP_HG_EXPORTER")
        self.noop_scaler = it.global_name(it.world._mod(T), "NOOP_FP16_LOSS_SCALER")
        self.validator: Any = Validator(ctx, self)
        self.stopper: Any = Stopper(ctx, self)
        ct = ctx.contracts
        ct["fairseq2.nn.data_parallel.base:get_data_parallel_facade"] = lambda it, b: self.facade
        ct["fairseq2.nn.data_parallel.main:get_data_parallel_facade"] = lambda it, b: self.facade
        ct["fairseq2.nn.data_parallel:get_data_parallel_facade"] = lambda it, b: self.facade
        ct["fairseq2.utils.rng:RngBag.from_device_defaults"] = lambda it, b: CMSinkRng(it.ctx)
        ct["fairseq2.metrics.bag:sync_and_compute_metrics"] = lambda it, b: PyDict(it.ctx, {})
        ct["fairseq2.metrics.common:extend_batch_metric_values"] = lambda it, b: None
        ct["fairseq2.gang:broadcast_flag"] = self._broadcast
        cm = ctx.class_models
        cm["fairseq2.metrics.bag:MetricBag"] = lambda it, a, k: self.bag
        cm["fairseq2.metrics.aggregation:Mean"] = lambda it, a, k: MetricM(it.ctx)
        cm["fairseq2.metrics:Mean"] = lambda it, a, k: MetricM(it.ctx)
        cm["fairseq2.utils.stopwatch:Stopwatch"] = lambda it, a, k: Watch(it.ctx)
        self.lr = over.pop("lr_scheduler", None) or Sink(ctx)
        self.scaler = over.pop("fp16_loss_scaler", self.noop_scaler)
        params = dict(
            model=self.model, unit=self.unit, data_reader=self.reader, gangs=self.gangs,
            amp=False, amp_dtype=Ext("torch.float32"), optimizer=self.optimizer, lr_scheduler=self.lr,
            fp16_loss_scaler=self.scaler, validator=self.validator,
            early_stopper=self.stopper, checkpoint_manager=self.manager, hg_exporter=self.noop_hg,
            metric_recorder=self.recorder, garbage_collector=CMSink(ctx), profiler=CMSink(ctx),
            device_stat_tracker=Stats(ctx), wall_watch=Watch(ctx), progress_reporter=Progress(ctx),
            seed=1)
        for n, v in c.items():
            params[n] = v
        params.update(over)
        ctx.memo["opt-probe"] = True
        self.trainer = it.instantiate(it.cls(f"{T}:Trainer"), [], params)
        ctx.memo.pop("opt-probe")
        ctx.roots += [self.trainer, self.manager, self.ghost, self.model]

    def _broadcast(self, it: Any, b: dict) -> Any:
        """Contract: returns the flag of the source rank (rank 0 by default) on every rank."""
        flag = b["flag"]
        if self.rank0:
            return flag
        return it.ctx.bool("flag_of_rank0")

    # -- hooks
    def on_save(self, step_nr: Any, full: bool) -> None: ...
    def on_save_state(self, trainer: Any) -> None: ...
    def on_visible(self, step_nr: Any) -> None: ...
    def on_save_score(self, step_nr: Any, score: Any) -> None: ...
    def on_read(self) -> None: ...
    def on_epoch_end(self) -> None: ...
    def on_validate(self, step_nr: Any) -> None: ...
    def on_stopper(self, step_nr: Any, score: Any) -> None: ...
    def on_publish(self, step_nr: Any) -> None: ...

    def batches(self, ctx: Any) -> Any:
        return PyList(ctx, [Sink(ctx)])

    def restore_step(self, ctx: Any) -> Any:
        return None

    def restore(self, ctx: Any, step_nr: Any, trainer: Any) -> None: ...

    # -- specification vocabulary
    def step_due(self, kind: str, step: Any) -> Any:
        """The step schedule of `kind` (publish_metrics / validate / checkpoint) names this step."""
        e, a = self.cfg[f"{kind}_every_n_steps"], self.cfg[f"{kind}_after_n_steps"]
        return z_and(z_not(e.isnone), zint(step) > a, self.it.b.uf_mod(self.ctx, step, e.val) == 0)

    def epoch_due(self, kind: str, epoch: Any) -> Any:
        e, a = self.cfg[f"{kind}_every_n_data_epochs"], self.cfg[f"{kind}_after_n_data_epochs"]
        return z_and(z_not(e.isnone), zint(epoch) > a, self.it.b.uf_mod(self.ctx, epoch, e.val) == 0)

    def step_nr(self) -> Any:
        return zint(self.it.getattr(self.trainer, "step_nr"))


class CMSinkRng(Sink):
    def find_method(self, name: str) -> Any:
        if name == "temporary_manual_seed":
            return lambda ctx, *a, **k: NullCM(ctx)
        return super().find_method(name)


class Stats(Sink):
    def find_method(self, name: str) -> Any:
        if name == "get_stats":
            return lambda ctx: PyDict(ctx, {})
        return super().find_method(name)


class Watch(CMSink):
    def find_method(self, name: str) -> Any:
        if name == "get_elapsed_time":
            return lambda ctx: ctx.real("elapsed")
        return super().find_method(name)


class Progress(CMSink):
    def find_method(self, name: str) -> Any:
        if name == "create_task":
            return lambda ctx, *a, **k: CMSink(ctx)
        return super().find_method(name)


def state(it: Interp, name: str) -> Any:
    return it.enum(f"{T}:_TrainerState", name)


def enum_candidates(preds: Any) -> Any:
    """Loop-invariant candidates  location == M  =>  pred  for every trainer-state location."""

    def gen(view: Any) -> dict:
        out = {}
        ps = preds(view)
        for name, cur in view.cur.items():
            if isinstance(cur, EnumMember) and cur.cls.name == "_TrainerState":
                for m in view.it.enum_members(cur.cls.qualname):
                    for pn, p in ps.items():
                        out[f"{name}=={m.name}=>{pn}"] = zbool(p) if cur is m else TRUE
        return out

    return gen
