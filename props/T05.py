from props._trainer import *


class E(Env):
    """Ghost: `saved`: a checkpoint was asked for at the step the training ended with."""

    def __init__(self, ctx, it, **over):
        super().__init__(ctx, it, **over)
        ctx.merge_calls.clear()
        ctx.memo["no-pair-cands"] = True
        ct = ctx.contracts
        ct[f"{T}:Trainer._publish_metrics"] = lambda it, b: self.maybe_request()
        ct[f"{T}:Trainer._validate"] = self.leaf_validate
        ct[f"{T}:Trainer._do_run_step"] = self.do_step
        ct[f"{T}:Trainer._should_do"] = lambda it, b: it.ctx.bool("due")

    def maybe_request(self):
        t = self.trainer
        t.setf(self.ctx, "_stop_requested", z_or(zbool(t.fields["_stop_requested"]), self.ctx.bool("stop")))
        return None

    def leaf_validate(self, it, b):
        self.maybe_request()
        return it.ctx.real("score") if it.ctx.branch(it.ctx.bool("has_score")) else None

    def do_step(self, it, b):
        self.maybe_request()
        return state(it, "GRAD_OVERFLOW" if it.ctx.branch(it.ctx.bool("overflow")) else "POST_STEP")

    def batches(self, ctx):
        return Ext("batches")

    def preds(self, view):
        t = self.trainer.fields
        p, s = zbool(self.manager.fields["pending"]), zint(t["_step_nr"])
        return {"nothing pending": z_not(p), "step>=1": s >= 1, "step>=0": s >= 0,
                "nothing pending at step 0": z3.Implies(s == 0, z_not(p)),
                "not saving before the first step": z3.Implies(s <= 0, z_not(p)),
                "not saving up to the first step": z3.Implies(s <= 1, z_not(p))}


def contract_save(env):
    """Contract of _save_checkpoint (unit "save")."""

    def f(it, b):
        m = env.manager
        m.setf(it.ctx, "pending", z_and(z_not(zbool(it.truth(b["blocking"]))), it.ctx.bool("in_flight")))
        return None

    env.ctx.contracts[f"{T}:Trainer._save_checkpoint"] = f


def whole_run(ctx, it, resumed):
    env = E(ctx, it, **({} if resumed else {"validate_at_start": ctx.bool("validate_at_start")}))
    contract_save(env)
    ctx.loop_cands.append(enum_candidates(env.preds))
    if resumed:
        s, e = ctx.int("restored_step", lo=1), ctx.int("restored_epoch", lo=1)
        env.restore_step = lambda ctx: s

        def restore(ctx, step_nr, trainer):
            env.trainer.setf(ctx, "_step_nr", s)
            env.trainer.setf(ctx, "_data_epoch_nr", e)

        env.restore = restore
    it.outcome(lambda: it.call_method(env.trainer, "run"))
    ctx.ensure("no save is pending when the run returns", z_not(zbool(env.manager.fields["pending"])))
    ctx.cover("end")


A = ["CheckpointManager by contract (C02): at most one save in flight, completing makes it visible"]


@unit("fresh run", about="whatever the way training ends, no save is pending when run() returns", max_secs=400, assumes=A)
def fresh(ctx, it):
    whole_run(ctx, it, False)


@unit("resumed run", about="the same after restoring a checkpoint", max_secs=400, assumes=A)
def resumed(ctx, it):
    whole_run(ctx, it, True)


@unit("save", about="_save_checkpoint: a blocking save is visible on return, whatever was pending before")
def save(ctx, it):
    env = E(ctx, it, save_model_only=ctx.alt("save_model_only", [False, True, "all", "all_but_last"]))
    st = ctx.alt("state", ["POST_STEP", "END_OF_TRAINING"])
    t = env.trainer
    s = ctx.int("step_nr", lo=1, inp=True)
    t.fields.update(_step_nr=s, _state=state(it, st))
    env.manager.fields.update(pending=ctx.bool("pending", inp=True), pending_step=ctx.int("pending_step", lo=1))
    was, was_step = zbool(env.manager.fields["pending"]), env.manager.fields["pending_step"]
    vis, saved = [], []
    env.on_visible = lambda n: vis.append(zint(n))
    env.on_save = lambda n, full: saved.append(zint(n))
    blocking = ctx.alt("blocking", [True, False])
    out = it.outcome(lambda: it.call_method(t, "_save_checkpoint", blocking))
    ctx.ensure("no failure", out[0] == "ok")
    ctx.ensure("one checkpoint is saved, of this step", len(saved) == 1 and ctx.is_valid(saved[0] == s))
    ctx.ensure("the save pending before is completed", z_implies(was, z_or(*[v == was_step for v in vis])))
    if blocking:
        ctx.ensure("nothing is pending after a blocking save", z_not(zbool(env.manager.fields["pending"])))
        ctx.ensure("the checkpoint is visible", z_or(*[v == s for v in vis]))
    else:
        ctx.ensure("at most the new save is pending", z_implies(zbool(env.manager.fields["pending"]),
                                                                env.manager.fields["pending_step"] == s))
    ctx.cover("end")


@unit("final step", about="a checkpoint due at the final step is visible once _stop/_early_stop returns")
def final(ctx, it):
    st = ctx.alt("state", ["END_OF_TRAINING", "STOP_REQUESTED", "END_OF_DATA", "EARLY_STOP"])
    env = E(ctx, it)
    ctx.contracts.pop(f"{T}:Trainer._should_do")
    t = env.trainer
    s = ctx.int("step_nr", lo=1, inp=True)
    t.fields.update(_step_nr=s, _data_epoch_nr=ctx.int("epoch", lo=1), _state=state(it, st))
    env.manager.fields.update(pending=ctx.bool("pending", inp=True), pending_step=ctx.int("pending_step", lo=1))
    was, was_step = zbool(env.manager.fields["pending"]), env.manager.fields["pending_step"]
    vis = []
    env.on_visible = lambda n: vis.append(zint(n))
    out = it.outcome(lambda: it.call_method(t, "_early_stop" if st == "EARLY_STOP" else "_stop"))
    ctx.ensure("no failure", out[0] == "ok")
    due = env.step_due("checkpoint", s)
    due = z_not(due) if st in ("END_OF_DATA", "EARLY_STOP") else True
    ctx.ensure(f"{st}: a due checkpoint is visible", z_implies(due, z_or(*[v == s for v in vis])))
    ctx.ensure(f"{st}: a pending save is completed", z_implies(was, z_or(*[v == was_step for v in vis])))
    ctx.ensure(f"{st}: nothing is left pending", z_not(zbool(env.manager.fields["pending"])))
    ctx.cover("end")
