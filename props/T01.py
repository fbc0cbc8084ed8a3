from props._trainer import *

KINDS = ("publish_metrics", "validate", "checkpoint")


class E(Env):
    """Ghost: last step/epoch pair each action ran at."""

    def __init__(self, ctx, it, **over):
        super().__init__(ctx, it, **over)
        for k in KINDS:
            self.ghost.fields[k] = z3.IntVal(-1)

    def act(self, kind, step):
        self.ctx.ensure(f"{kind} carries the current step number", zint(step) == self.step_nr())
        self.ghost.setf(self.ctx, kind, self.step_nr())

    def on_save(self, step, full):
        self.act("checkpoint", step)

    def on_publish(self, step):
        self.act("publish_metrics", step)

    def on_validate(self, step):
        self.act("validate", step)

    def did(self, kind):
        return z_not(py_eq(self.ghost.fields[kind], z3.IntVal(-1)))


def setup(ctx, it, st, **over):
    env = E(ctx, it, **over)
    env.step = ctx.int("step_nr", lo=1, inp=True)
    env.epoch = ctx.int("data_epoch_nr", lo=1, inp=True)
    t = env.trainer
    for f in ("_step_nr", "_data_epoch_nr", "_state", "_stop_requested"):
        if f not in t.fields:
            raise Unsupported(f"Trainer has no field {f}")
    t.fields["_step_nr"] = env.step
    t.fields["_data_epoch_nr"] = env.epoch
    t.fields["_state"] = state(it, st)
    return env


def check_actions(env, expect, label, skip=()):
    ctx = env.ctx
    for k in KINDS:
        if k in skip:
            continue
        ctx.ensure(f"{label}: {k} fires iff due", env.did(k) == zbool(expect(k)))


@unit("ordinary step", about="post-step handler: publish / validate / checkpoint fire iff the step schedule names this step")
def ordinary(ctx, it):
    env = setup(ctx, it, "POST_STEP")
    m = env.cfg["max_num_steps"]
    ctx.assume(z3.Or(m.isnone, env.step < m.val))
    out = it.call_method(env.trainer, "_run_post_step")
    check_actions(env, lambda k: env.step_due(k, env.step), "end of step")
    ctx.cover("a step at which everything is due") if ctx.is_valid(z_and(*[env.did(k) for k in KINDS])) else None
    ctx.require_cover("a step at which everything is due")


@unit("without validator", about="a trainer without a validator never validates")
def no_validator(ctx, it):
    st = ctx.alt("state", ["POST_STEP", "END_OF_DATA_EPOCH", "END_OF_DATA", "END_OF_TRAINING"])
    noop = it.global_name(it.world._mod(T), "NOOP_VALIDATOR")
    env = setup(ctx, it, st, validator=noop)
    if st in ("POST_STEP", "END_OF_DATA_EPOCH"):
        m = env.cfg["max_num_steps"]
        ctx.assume(z3.Or(m.isnone, env.step < m.val))
        it.call_method(env.trainer, "_run_post_step")
    else:
        it.call_method(env.trainer, "_stop")
    ctx.ensure("no validation", z_not(env.did("validate")))
    ctx.cover("end")


@unit("epoch boundary", about="at a data epoch boundary the epoch schedule decides, without repeating what the step schedule did")
def boundary(ctx, it):
    env = setup(ctx, it, "END_OF_DATA_EPOCH")
    m, e = env.cfg["max_num_steps"], env.cfg["max_num_data_epochs"]
    ctx.assume(z3.Or(m.isnone, env.step < m.val))
    ctx.assume(z3.Or(e.isnone, env.epoch < e.val))
    it.call_method(env.trainer, "_handle_end_of_data_epoch")
    check_actions(env, lambda k: z_and(env.epoch_due(k, env.epoch), z_not(env.step_due(k, env.step))),
                  "end of data epoch")
    ctx.cover("end")


@unit("unconditional end", about="step limit reached or stop requested: every action happens")
def final(ctx, it):
    st = ctx.alt("state", ["END_OF_TRAINING", "STOP_REQUESTED"])
    env = setup(ctx, it, st)
    it.call_method(env.trainer, "_stop")
    check_actions(env, lambda k: True, "end of training")
    ctx.cover("end")


@unit("end of data", about="data ran out: every action happens unless the step schedule already made it happen")
def end_of_data(ctx, it):
    env = setup(ctx, it, "END_OF_DATA")
    it.call_method(env.trainer, "_stop")
    check_actions(env, lambda k: z_not(env.step_due(k, env.step)), "end of data")
    ctx.cover("end")


@unit("early stop", about="early stop: a checkpoint is saved unless the step schedule already did")
def early(ctx, it):
    env = setup(ctx, it, "EARLY_STOP")
    it.call_method(env.trainer, "_early_stop")
    check_actions(env, lambda k: z_not(env.step_due(k, env.step)), "early stop", skip=("publish_metrics", "validate"))
    ctx.cover("end")


@unit("pre-validation", about="nothing but the validation itself happens before training")
def pre(ctx, it):
    env = setup(ctx, it, "PRE_VALIDATION")
    env.trainer.fields["_step_nr"] = 0
    scored = []
    env.on_save_score = lambda s, v: scored.append(1)
    it.call_method(env.trainer, "_pre_validate")
    ctx.ensure("no publish", z_not(env.did("publish_metrics")))
    ctx.ensure("no checkpoint", z_not(env.did("checkpoint")))
    ctx.ensure("no score recorded", not scored)
    ctx.cover("end")


@unit("schedule decision", about="_should_do against the schedule in every state")
def decision(ctx, it):
    members = [m.name for m in it.enum_members(f"{T}:_TrainerState")]
    st = ctx.alt("state", members)
    env = setup(ctx, it, st)
    kind = ctx.alt("kind", list(KINDS))
    fn = {"publish_metrics": "_should_publish_metrics", "validate": "_should_validate",
          "checkpoint": "_should_save_checkpoint"}[kind]
    out = it.outcome(lambda: it.call_method(env.trainer, fn))
    sd, ed = env.step_due(kind, env.step), env.epoch_due(kind, env.epoch)
    spec = {"PRE_VALIDATION": False, "POST_STEP": sd, "END_OF_TRAINING": True, "STOP_REQUESTED": True,
            "END_OF_DATA": z_not(sd), "EARLY_STOP": z_not(sd),
            "END_OF_DATA_EPOCH": z_and(ed, z_not(sd))}
    if st in spec:
        ctx.ensure(f"decision in {st}", out[0] == "ok" and zbool(out[1]) == zbool(spec[st]) if out[0] == "ok" else False)
        ctx.cover(f"decided in {st}")
    else:
        ctx.ensure(f"{st} is not a decision point", out[0] == "exc")
