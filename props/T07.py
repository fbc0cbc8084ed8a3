from props._trainer import *


class E(Env):
    def __init__(self, ctx, it, rank0=True, **over):
        self.rank0 = rank0
        self.asked, self.runs, self.scores, self.bcast = [], [], [], []
        self.answer = None
        super().__init__(ctx, it, **over)
        t = self.trainer
        self.step = ctx.int("step_nr", lo=0, inp=True)
        self.epoch = ctx.int("data_epoch_nr", lo=1, inp=True)
        t.fields.update(_step_nr=self.step, _data_epoch_nr=self.epoch)
        self.model.fields["mode"] = ctx.alt("mode before", ["train", "eval"])

    def on_stopper(self, step_nr, score):
        self.asked.append((step_nr, score))

    def on_validate(self, step_nr):
        self.runs.append((self.model.fields["mode"], step_nr))

    def on_save_score(self, step_nr, score):
        self.scores.append((step_nr, score))

    def _broadcast(self, it, b):
        r = super()._broadcast(it, b)
        self.bcast.append((b.get("gang"), b.get("flag"), r))
        return r


@unit("validation", about="_validate: evaluation mode inside, training mode after, score recorded iff a checkpoint is due")
def validation(ctx, it):
    st = ctx.alt("state", ["PRE_VALIDATION", "POST_STEP", "END_OF_DATA_EPOCH", "END_OF_DATA", "END_OF_TRAINING",
                           "STOP_REQUESTED"])
    env = E(ctx, it, ctx.alt("rank", [True, False]))
    env.trainer.fields["_state"] = state(it, st)
    if st == "PRE_VALIDATION":
        ctx.assume(env.step == 0)
    else:
        ctx.assume(env.step >= 1)
    out = it.outcome(lambda: it.call_method(env.trainer, "_validate"))
    ctx.ensure("no failure", out[0] == "ok")
    if out[0] != "ok":
        return
    ctx.ensure("the validator runs exactly once", len(env.runs) == 1)
    for mode, n in env.runs:
        ctx.ensure("the model is in evaluation mode while it is validated", mode == "eval")
        ctx.ensure("validation of the current step", zint(n) == env.step)
    ctx.ensure("the model is back in training mode", env.model.fields["mode"] == "train")
    sd, ed = env.step_due("checkpoint", env.step), env.epoch_due("checkpoint", env.epoch)
    due = {"PRE_VALIDATION": False, "POST_STEP": sd, "END_OF_TRAINING": True, "STOP_REQUESTED": True,
           "END_OF_DATA": z_not(sd), "END_OF_DATA_EPOCH": z_and(ed, z_not(sd))}[st]
    score = out[1]
    if score is None:
        ctx.ensure("no score, nothing recorded", len(env.scores) == 0)
    else:
        ctx.ensure(f"{st}: the score is recorded iff a checkpoint is due", zbool(len(env.scores) > 0) == zbool(due))
        ctx.ensure("a score is recorded at most once", len(env.scores) <= 1)
        for n, v in env.scores:
            ctx.ensure("it is recorded for this step", zint(n) == env.step)
            ctx.ensure("it is the score of this validation", zreal(v) == zreal(score))
        ctx.cover(f"scored in {st}")
    ctx.require_cover("scored in POST_STEP", "scored in END_OF_DATA")


@unit("early stop decision", about="post-step: only the first process asks the policy, all follow the broadcast answer")
def early(ctx, it):
    st = ctx.alt("state", ["POST_STEP", "END_OF_DATA_EPOCH"])
    rank0 = ctx.alt("first process", [True, False])
    stopper = ctx.alt("policy", ["configured", "none"])
    env = E(ctx, it, rank0, **({} if stopper == "configured" else
                               {"early_stopper": it.global_name(it.world._mod(T), "NOOP_EARLY_STOPPER")}))
    got = []

    def val(it, b):
        r = it.ctx.real("score", inp=True) if it.ctx.branch(it.ctx.bool("has_score")) else None
        got.append(r)
        return r

    ctx.contracts[f"{T}:Trainer._validate"] = val
    m = env.cfg["max_num_steps"]
    ctx.assume(z3.Or(m.isnone, env.step < m.val))
    ctx.assume(env.step >= 1)
    env.trainer.fields["_state"] = state(it, st)
    out = it.outcome(lambda: it.call_method(env.trainer, "_run_post_step"))
    ctx.ensure("no failure", out[0] == "ok")
    if out[0] != "ok":
        return
    scores = [g for g in got if g is not None]
    asks = stopper == "configured" and len(scores) > 0
    if not rank0:
        ctx.ensure("only the first process consults the policy", len(env.asked) == 0)
    elif asks:
        ctx.ensure("the policy is asked exactly once per score", len(env.asked) == len(scores) == 1)
        for n, v in env.asked:
            ctx.ensure("about the current step", zint(n) == env.step)
            ctx.ensure("with the score of this validation", zreal(v) == zreal(scores[0]))
    else:
        ctx.ensure("without a score the policy is not asked", len(env.asked) == 0)
    ctx.ensure("every process takes part in the decision exactly when there is one", len(env.bcast) == int(asks))
    for g, flag, r in env.bcast:
        ctx.ensure("the decision is shared by all processes", g is env.root)
        if rank0:
            ctx.ensure("the first process shares the policy's answer", zbool(flag) == zbool(env.stopper_answer))
    dec = zbool(env.bcast[0][2]) if env.bcast else FALSE
    if ctx.branch(dec):
        ctx.ensure("an early stop follows the shared decision", out[1] is state(it, "EARLY_STOP"))
        ctx.cover(f"early stop, first={rank0}")
    else:
        ctx.ensure("no early stop otherwise", out[1] is state(it, "DATA_LOAD"))
    ctx.require_cover("early stop, first=True", "early stop, first=False")


@unit("pre-validation", about="pre-validation leaves the model in training mode and records no score")
def pre(ctx, it):
    env = E(ctx, it)
    ctx.assume(env.step == 0)
    env.trainer.fields["_state"] = state(it, "PRE_VALIDATION")
    st = it.call_method(env.trainer, "_pre_validate")
    ctx.ensure("training starts next", st is state(it, "DATA_LOAD"))
    ctx.ensure("training mode", env.model.fields["mode"] == "train")
    ctx.ensure("evaluation mode during validation", all(m == "eval" for m, _ in env.runs) and len(env.runs) == 1)
    ctx.ensure("no score recorded", not env.scores)
    ctx.ensure("the policy is not asked", not env.asked)
    ctx.cover("end")


@unit("training mode", about="the training loop itself starts with the model in training mode")
def mode(ctx, it):
    env = E(ctx, it)
    env.trainer.fields["_state"] = state(it, "STOPPED")
    it.call_method(env.trainer, "_do_run")
    ctx.ensure("training mode", env.model.fields["mode"] == "train")
    ctx.cover("end")
