from props._trainer import *

SM = ("_state", "_step_nr", "_data_epoch_nr", "_stop_requested")


class E(Env):
    """Ghost: updates = successful optimizer updates of the training so far, resets = epochs read
    to their end in this run, allowed = number of batches that may still be read (-1: no stop
    requested), early = early stopping decided."""

    def __init__(self, ctx, it, **over):
        super().__init__(ctx, it, **over)
        ctx.merge_calls.clear()
        ctx.memo["no-pair-cands"] = True
        self.ghost.fields.update(updates=z3.IntVal(0), resets=z3.IntVal(0), allowed=z3.IntVal(-1), early=False)
        self.epoch0 = z3.IntVal(1)

    def g(self, n):
        return self.ghost.fields[n]

    def maybe_request(self, when, allowed):
        """Somebody may call the public request_stop() here."""
        ctx, t = self.ctx, self.trainer
        req = ctx.bool(f"stop_requested_{when}")
        old = dict(t.fields)
        w0 = len(ctx.writes)
        self.it.call_method(t, "request_stop")
        for obj, key in ctx.writes[w0:]:
            if obj is t and key != "_stop_requested":
                raise Unsupported("request_stop writes more than its flag")
        t.setf(ctx, "_stop_requested", merge(req, t.fields["_stop_requested"], old["_stop_requested"]))
        a = self.g("allowed")
        self.ghost.setf(ctx, "allowed", z3.If(z_and(req, a == -1), z3.IntVal(allowed), a))

    def on_read(self):
        ctx = self.ctx
        a, m, e = self.g("allowed"), self.cfg["max_num_steps"], self.cfg["max_num_data_epochs"]
        ctx.ensure("no batch is read after a stop request was served", a != 0)
        ctx.ensure("no batch is read past the step limit", z3.Or(m.isnone, self.g("updates") < m.val))
        ctx.ensure("no batch is read past the data epoch limit",
                   z3.Or(e.isnone, self.epoch0 + self.g("resets") <= e.val))
        ctx.ensure("the data epoch number counts the epochs read",
                   zint(self.trainer.fields["_data_epoch_nr"]) == self.epoch0 + self.g("resets"))
        ctx.ensure("step number counts updates while reading", self.step_nr() == self.g("updates"))
        self.ghost.setf(ctx, "allowed", z3.If(a > 0, a - 1, a))
        self.maybe_request("reading", 0)

    def batches(self, ctx):
        return Ext("batches")  # handed to _do_run_step only

    def on_epoch_end(self):
        self.ghost.setf(self.ctx, "resets", self.g("resets") + 1)

    # contracts of the leaf actions, proved by the unit "leaf actions"
    def leaf(self, it, b):
        self.maybe_request("in_action", 1)
        return None

    def leaf_validate(self, it, b):
        self.maybe_request("in_validation", 1)
        if it.ctx.branch(it.ctx.bool("has_score")):
            return it.ctx.real("score")
        return None

    def do_step(self, it, b):
        """Contract of _do_run_step (T04): an update, or an overflow undone."""
        ctx = self.ctx
        m = self.cfg["max_num_steps"]
        ctx.ensure("step runs under the number of the next update", self.step_nr() == self.g("updates") + 1)
        ctx.ensure("no update past the step limit", z3.Or(m.isnone, self.g("updates") < m.val))
        self.maybe_request("in_step", 0)
        if ctx.branch(ctx.bool("overflow")):
            return state(it, "GRAD_OVERFLOW")
        self.ghost.setf(ctx, "updates", self.g("updates") + 1)
        return state(it, "POST_STEP")

    def _broadcast(self, it, b):
        r = super()._broadcast(it, b)
        self.ghost.setf(it.ctx, "early", z_or(self.g("early"), zbool(r)))
        return r

    def install(self):
        ct = self.ctx.contracts
        for n in ("_save_checkpoint", "_publish_metrics"):
            ct[f"{T}:Trainer.{n}"] = self.leaf
        ct[f"{T}:Trainer._validate"] = self.leaf_validate
        ct[f"{T}:Trainer._do_run_step"] = self.do_step
        # T01 "schedule decision": decides without side effects in every state asked here
        ct[f"{T}:Trainer._should_do"] = lambda it, b: it.ctx.bool("due")

    def preds(self, view):
        t, f = self.trainer.fields, self
        m, e = self.cfg["max_num_steps"], self.cfg["max_num_data_epochs"]
        st, ep, u, r, a = zint(t["_step_nr"]), zint(t["_data_epoch_nr"]), f.g("updates"), f.g("resets"), f.g("allowed")
        sr = zbool(t["_stop_requested"])
        return {
            "step==updates": st == u, "step==updates+1": st == u + 1, "step>=1": st >= 1, "step>=0": st >= 0,
            "step<max": z3.Or(m.isnone, st < m.val), "step<=max": z3.Or(m.isnone, st <= m.val),
            "epoch==resets": ep == self.epoch0 + r, "epoch==resets-1": ep == self.epoch0 + r - 1,
            "epoch<=max": z3.Or(e.isnone, ep <= e.val), "epoch<max": z3.Or(e.isnone, ep < e.val),
            "allowed!=0": a != 0, "allowed>=-1": a >= -1, "allowed<=1": a <= 1, "allowed<=0": a <= 0,
            "asked=>flag": z3.Implies(a >= 0, sr), "flag=>asked": z3.Implies(sr, z_or(a >= 0, self.g("early"))),
            "early=>flag": z_implies(self.g("early"), sr), "not early": z_not(self.g("early")),
            "early": zbool(self.g("early")),
        }


def start(ctx, it, **over):
    env = E(ctx, it, **over)
    env.install()
    ctx.loop_cands.append(enum_candidates(env.preds))
    return env


def finish(ctx, it, env, out):
    t = env.trainer
    ctx.ensure("the loop is left in the stopped state", t.fields["_state"] is state(it, "STOPPED"))
    ctx.ensure("step number counts updates at the end", env.step_nr() == env.g("updates"))
    asked = z_or(env.g("allowed") >= 0, env.g("early"))
    if out[0] == "ok":
        ctx.ensure("a requested or early stop is reported", z_not(asked))
        ctx.cover("ends normally")
    else:
        stop = it.subclass(out[1].obj.cls, it.cls("fairseq2.task:TaskStopException"))
        ctx.ensure("training only fails to report a stop", bool(stop))
        ctx.ensure("a stop is reported only if asked for", asked)
        ctx.cover("ends by a stop request")


@unit("fresh run", about="run() from scratch: limits, step count, stop requests", max_secs=600,
      assumes=["_do_run_step, _save_checkpoint, _publish_metrics, _validate by contract (T02/T04 units)"])
def fresh(ctx, it):
    env = start(ctx, it, validate_at_start=ctx.bool("validate_at_start"))
    out = it.outcome(lambda: it.call_method(env.trainer, "run"))
    finish(ctx, it, env, out)


@unit("resumed run", about="run() after restoring a checkpoint", max_secs=600)
def resumed(ctx, it):
    env = start(ctx, it)
    s, e = ctx.int("restored_step", lo=1, inp=True), ctx.int("restored_epoch", lo=1, inp=True)
    env.restore_step = lambda ctx: s

    def restore(ctx, step_nr, trainer):
        env.trainer.setf(ctx, "_step_nr", s)
        env.trainer.setf(ctx, "_data_epoch_nr", e)

    env.restore = restore
    env.epoch0 = e
    env.ghost.fields["updates"] = s
    out = it.outcome(lambda: it.call_method(env.trainer, "run"))
    finish(ctx, it, env, out)


@unit("second run", about="a trainer cannot be run twice")
def second(ctx, it):
    env = E(ctx, it)
    members = [m.name for m in it.enum_members(f"{T}:_TrainerState") if m.name != "NOT_STARTED"]
    env.trainer.fields["_state"] = state(it, ctx.alt("state", members))
    env.on_read = lambda: ctx.fail("no read", "")
    out = it.outcome(lambda: it.call_method(env.trainer, "run"))
    ctx.ensure("a second run is rejected", out[0] == "exc")
    ctx.cover("end")


@unit("leaf actions", about="saving, publishing and validating leave the state machine's variables alone")
def leaves(ctx, it):
    st = ctx.alt("state", ["POST_STEP", "END_OF_DATA_EPOCH", "END_OF_TRAINING", "END_OF_DATA", "STOP_REQUESTED",
                           "EARLY_STOP"])
    which = ctx.alt("action", ["_save_checkpoint", "_publish_metrics", "_validate"])
    env = Env(ctx, it)
    t = env.trainer
    t.fields.update(_step_nr=ctx.int("step_nr", lo=1), _data_epoch_nr=ctx.int("data_epoch_nr", lo=1),
                    _state=state(it, st), _stop_requested=ctx.bool("stop_requested"))
    env.manager.fields.update(pending=ctx.bool("pending"), pending_step=ctx.int("pending_step", lo=1))
    before = {n: t.fields[n] for n in SM}
    args = [ctx.bool("blocking")] if which == "_save_checkpoint" else []
    out = it.outcome(lambda: it.call_method(t, which, *args))
    ctx.ensure("no failure", out[0] == "ok")
    for n in SM:
        ctx.ensure(f"{which} keeps {n}", py_eq(before[n], t.fields[n]))
    ctx.cover(which)
