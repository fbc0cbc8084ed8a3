"""One training step (`_do_run_step`) with its collaborators by contract; used by T04 and T06."""
from __future__ import annotations

from props._trainer import *


class Batches:
    """Batches of the step: entity i is the i-th one in reading order."""

    name = "batch"

    def getattr(self, it, e, name):
        if name == "to":
            return Native(lambda i, a, k: None, "to")
        raise Unsupported(f"attribute {name} of a batch")


BATCHES = Batches()


class Loss(Model):
    """The loss of one micro-batch; ``factor`` is what it has been divided by so far."""

    def __init__(self, ctx, env, idx, value):
        super().__init__(ctx, None)
        self.env, self.idx, self.value = env, idx, value

    def binop(self, it, op, other, swapped):
        if swapped and op == "Mult":
            return Loss(it.ctx, self.env, self.idx, zreal(other) * self.value)
        if swapped:
            return NotImplemented
        if op == "Div":
            return Loss(it.ctx, self.env, self.idx, self.value / zreal(other))
        if op == "Mult":
            return Loss(it.ctx, self.env, self.idx, self.value * zreal(other))
        return NotImplemented

    def m_backward(self, ctx):
        self.env.on_backward(self)

    def getattr(self, ctx, name):
        return NotImplemented


class Scaler(Model):
    """Float16LossScaler (property F01): its result is arbitrary but consistent."""

    def __init__(self, ctx, env):
        super().__init__(ctx, None)
        self.env = env

    def getattr(self, ctx, name):
        return ctx.int("scale_window") if name == "scale_window" else NotImplemented

    def m_backward(self, ctx, loss):
        self.env.on_backward(loss)

    def m_unscale_grads_(self, ctx, optimizer):
        self.env.event("unscale")

    def m_run_optimizer_step(self, ctx, optimizer, closure=None):
        env = self.env
        env.event("optimizer")
        old, new = ctx.real("old_scale"), ctx.real("new_scale")
        env.overflowed, env.exploded = ctx.bool("overflowed", inp=True), ctx.bool("exploded", inp=True)
        scaled = ctx.bool("scaled")
        ctx.assume(z_implies(env.exploded, env.overflowed))
        ctx.assume(z_implies(env.overflowed, z_not(scaled)))
        return env.it.instantiate(env.it.cls("fairseq2.optim.fp16_loss_scaler:Float16LossScaleResult"), [], dict(
            old_scale=old, new_scale=new, scaled=scaled, overflowed=env.overflowed, exploded=env.exploded))


class Optim(OptimizerM):
    def __init__(self, ctx, env):
        super().__init__(ctx)
        self.env = env

    def m_step(self, ctx, closure=None):
        self.env.event("optimizer")
        return None

    def m_zero_grad(self, ctx, *a, **k):
        self.env.event("zero_grad")


class Bag(MetricBagM):
    """MetricBag (property M01): a transaction log."""

    def __init__(self, ctx, env):
        super().__init__(ctx)
        self.env = env

    def m_begin_updates(self, ctx):
        self.env.tx("begin")

    def m_commit_updates(self, ctx):
        self.env.tx("commit")

    def m_rollback_updates(self, ctx):
        self.env.tx("rollback")

    def m_get(self, ctx, name, kls):
        m = MetricM(ctx)
        m.m_update = lambda ctx, *a, **k: self.env.on_metric()
        return m


class Lr(Sink):
    def __init__(self, ctx, env):
        super().__init__(ctx)
        self.env = env

    def find_method(self, name):
        if name == "step":
            return lambda ctx, *a: self.env.event("lr")
        if name == "get_last_lr":
            return lambda ctx: PyList(ctx, [ctx.real("lr")])
        return super().find_method(name)


class SyncCM(Model):
    def __init__(self, ctx, env):
        super().__init__(ctx, None)
        self.env = env

    def enter(self, ctx):
        self.env.ghost.setf(ctx, "nosync", True)

    def exit(self, ctx, *a):
        self.env.ghost.setf(ctx, "nosync", False)


class FacadeS(Facade):
    def __init__(self, ctx, env):
        super().__init__(ctx)
        self.env = env

    def m_no_sync(self, ctx):
        return SyncCM(ctx, self.env)

    def m_clip_grad_norm(self, ctx, max_norm):
        self.env.event("clip")
        return Model(ctx)


class UnitM(TrainUnitM):
    def __init__(self, ctx, env):
        super().__init__(ctx)
        self.env = env

    def find_method(self, name):
        if name == "process_batch":
            return self.env.on_process
        if name == "set_step_nr":
            return lambda ctx, n: self.env.on_set_step(n)
        return super().find_method(name)


class Step(Env):
    def __init__(self, ctx, it, fp16, reports, nosync=False):
        self.log = []  # events after the loop, in order
        self.fp16, self.reports = fp16, reports
        self.overflowed = self.exploded = FALSE
        super().__init__(ctx, it, lr_scheduler=Lr(ctx, self), no_sync_grad_accumulation=nosync,
                         **({"fp16_loss_scaler": Scaler(ctx, self)} if fp16 else {}))
        t = self.trainer
        self.bag = Bag(ctx, self)
        self.facade = FacadeS(ctx, self)
        self.unit = UnitM(ctx, self)
        opt = Optim(ctx, self)
        for f, v in (("_metric_bag", self.bag), ("_model_dp_facade", self.facade), ("_unit", self.unit),
                     ("_optimizer", opt)):
            if f not in t.fields:
                raise Unsupported(f"Trainer has no field {f}")
            t.fields[f] = v
        self.n = ctx.int("num_batches", lo=1, inp=True)
        self.model_b = BATCHES
        t.fields["_batches"] = PyList(ctx, SymSeq(self.n, lambda i: Entity(self.model_b, zint(i)),
                                                  ("ent", self.model_b)))
        self.step = ctx.int("step_nr", lo=1, inp=True)
        t.fields["_step_nr"] = self.step
        t.fields["_state"] = state(it, "STEP")
        self.loss_of = ctx.func("loss_of", z3.IntSort(), z3.RealSort())
        self.tgt_of = ctx.func("targets_of", z3.IntSort(), z3.IntSort())
        self.ghost.fields.update(processed=z3.IntVal(0), backward=z3.IntVal(0), total=z3.IntVal(0), nosync=False,
                                 tx=False, dirty=False, leaked=False)
        ctx.contracts["fairseq2.nn.utils.grad:normalize_grads"] = self._normalize
        ctx.contracts["fairseq2.nn.utils.grad:check_grad_norms"] = lambda it, b: None
        ctx.loop_cands.append(self.cands)
        self.normalized = []
        self.flag = nosync

    # -- ghosts
    def g(self, n):
        return self.ghost.fields[n]

    def cands(self, view):
        p, b = self.g("processed"), self.g("backward")
        out = {"processed==iteration": p == zint(view.k), "backward==processed": b == p,
               "not in a no-sync context": z_not(zbool(self.g("nosync")))}
        for name, cur in view.cur.items():
            if isinstance(cur, SymSeq) and cur.kind == ("ent", self.model_b):
                j = z3.Int("j?b")
                out[f"{name} holds the rest, reversed"] = z3.And(
                    zint(cur.length) == self.n - p,
                    z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < cur.length), cur.get(j).id == self.n - 1 - j)))
                out[f"{name} holds the rest"] = z3.And(
                    zint(cur.length) == self.n - p,
                    z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < cur.length), cur.get(j).id == p + j)))
        return out

    def event(self, name):
        self.log.append(name)
        self.on_event(name)

    def tx(self, what):
        ctx = self.ctx
        open_ = zbool(self.g("tx"))
        if what == "begin":
            ctx.ensure("a metric transaction is begun only outside one", z_not(open_))
            self.ghost.setf(ctx, "tx", True)
            self.ghost.setf(ctx, "dirty", False)
        else:
            ctx.ensure(f"{what} only inside a metric transaction", open_)
            self.ghost.setf(ctx, "tx", False)
            if what == "rollback":
                self.ghost.setf(ctx, "dirty", False)

    def on_metric(self):
        # dirty: metric updates of this step that are in effect
        if self.g("tx") is not True:
            self.ghost.setf(self.ctx, "leaked", z_or(zbool(self.g("leaked")), z_not(zbool(self.g("tx")))))
        self.ghost.setf(self.ctx, "dirty", True)

    def on_set_step(self, n): ...

    def on_event(self, name): ...

    def on_process(self, ctx, batch, bag=None, **k):
        if not isinstance(batch, Entity):
            raise Unsupported("process_batch of something that is no batch of this step")
        i = zint(batch.id)
        self.check_process(i)
        self.on_metric()
        self.ghost.setf(ctx, "processed", self.g("processed") + 1)
        v = self.loss_of(i)
        loss = Loss(ctx, self, i, v)
        if self.reports:
            t = self.tgt_of(i)
            ctx.assume(t >= 0)
            self.ghost.setf(ctx, "total", self.g("total") + t)
            return (loss, t)
        return (loss, None)

    def on_backward(self, loss):
        if not isinstance(loss, Loss):
            raise Unsupported("backward of something that is no loss")
        self.check_backward(loss)
        self.ghost.setf(self.ctx, "backward", self.g("backward") + 1)

    def check_process(self, i): ...

    def check_backward(self, loss): ...

    def _normalize(self, it, b):
        vals = list(b.values())
        cnt = b.get("num_targets", vals[2] if len(vals) > 2 else None)
        self.normalized.append(cnt)
        self.event("normalize")
        return None

    def run(self):
        return self.it.outcome(lambda: self.it.call_method(self.trainer, "_do_run_step", CMSink(self.ctx)))
