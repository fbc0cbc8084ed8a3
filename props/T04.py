from props._step import *


class E(Step):
    def check_process(self, i):
        self.ctx.ensure("micro-batches are processed in reading order, each once", i == self.g("processed"))
        self.ctx.ensure("no micro-batch is processed before the previous one went through backward",
                        self.g("backward") == self.g("processed"))

    def check_backward(self, loss):
        self.ctx.ensure("backward runs once, for the micro-batch just processed",
                        z_and(loss.idx == self.g("backward"), self.g("processed") == self.g("backward") + 1))

    def on_event(self, name):
        ctx = self.ctx
        ctx.ensure(f"{name} comes after every micro-batch", z_and(self.g("processed") == self.n,
                                                                  self.g("backward") == self.n))

    def on_set_step(self, n):
        self.ctx.ensure("the step runs under its own number", zint(n) == self.step)


def common(ctx, it, env):
    log = env.log
    ctx.ensure("the optimizer runs exactly once", log.count("optimizer") == 1)
    ctx.ensure("gradients are zeroed exactly once, after the optimizer ran",
               log.count("zero_grad") == 1 and "optimizer" in log and log.index("zero_grad") > log.index("optimizer"))
    ctx.ensure("the step number is left to the state machine",
               zint(env.trainer.fields["_step_nr"]) == env.step)


@unit("step", about="one training step for any number of micro-batches and any scaler verdict")
def step(ctx, it):
    fp16 = ctx.alt("loss scaling", [True, False])
    env = E(ctx, it, fp16, ctx.alt("targets", [True, False]), ctx.bool("no_sync"))
    out = env.run()
    if out[0] == "exc":
        ctx.ensure("a step fails only when the loss exploded", env.exploded)
        c = out[1].obj.cls
        ctx.ensure("the failure names the step",
                   getattr(c, "name", "") == "MinimumLossScaleReachedError"
                   and ctx.is_valid(zint(out[1].obj.fields.get("step_nr", -1)) == env.step))
        ctx.cover("exploded")
        ctx.require_cover("exploded")
        return
    ctx.ensure("an exploded loss fails the run", z_not(env.exploded))
    common(ctx, it, env)
    lrs = env.log.count("lr")
    st = out[1]
    if ctx.branch(zbool(env.overflowed)):
        ctx.ensure("an overflowed step reports the overflow", st is state(it, "GRAD_OVERFLOW"))
        ctx.ensure("an overflowed step leaves the scheduler alone", lrs == 0)
        ctx.ensure("metric updates of an overflowed step are rolled back",
                   z_and(z_not(zbool(env.g("dirty"))), z_not(zbool(env.g("leaked"))), z_not(zbool(env.g("tx")))))
        ctx.cover("overflow")
        ctx.require_cover("overflow")
    else:
        ctx.ensure("a successful step goes on to its post-step actions", st is state(it, "POST_STEP"))
        ctx.ensure("the scheduler advances exactly once", lrs == 1)
        ctx.ensure("the scheduler advances after the update",
                   "lr" in env.log and env.log.index("lr") > env.log.index("optimizer"))
        ctx.ensure("metric updates of the step are kept",
                   z_and(zbool(env.g("dirty")), z_not(zbool(env.g("tx")))))
        ctx.cover("success")
        ctx.require_cover("success")


@unit("retry", about="an overflowed step is retried under the same number")
def retry(ctx, it):
    env = Env(ctx, it)
    t = env.trainer
    s = ctx.int("step_nr", lo=1, inp=True)
    req = ctx.bool("stop_requested", inp=True)
    t.fields.update(_step_nr=s, _state=state(it, "GRAD_OVERFLOW"), _stop_requested=req)
    st = it.call_method(t, "_repeat_step", CMSink(ctx))
    ctx.ensure("the step number is given back", zint(t.fields["_step_nr"]) == s - 1)
    if ctx.branch(req):
        ctx.ensure("a requested stop ends the retries", st is state(it, "STOP_REQUESTED"))
    else:
        ctx.ensure("the next batches are read for the retry", st is state(it, "DATA_LOAD"))
    seen = []
    ctx.contracts[f"{T}:Trainer._do_run_step"] = lambda it, b: seen.append(t.fields["_step_nr"]) or state(it, "POST_STEP")
    it.call_method(t, "_run_step", CMSink(ctx))
    ctx.ensure("the retry runs once, under the same number", len(seen) == 1 and ctx.is_valid(zint(seen[0]) == s))
    ctx.cover("end")
