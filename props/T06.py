from props._step import *


class E(Step):
    def want_nosync(self):
        return z_and(zbool(self.flag), self.g("processed") < self.n - 1)

    def check_process(self, i):
        self.ctx.ensure("forward: synchronised exactly when it should be",
                        zbool(self.g("nosync")) == self.want_nosync())

    def check_backward(self, loss):
        last = loss.idx == self.n - 1
        self.ctx.ensure("backward: gradients are synchronised in the last micro-batch only, or in every one",
                        zbool(self.g("nosync")) == z_and(zbool(self.flag), z_not(last)))
        want = self.loss_of(loss.idx) if self.reports else self.loss_of(loss.idx) / zreal(self.n)
        self.ctx.ensure("the loss is scaled as documented", loss.value == want)

    def on_event(self, name):
        if name in ("unscale", "clip", "optimizer", "normalize"):
            self.ctx.ensure(f"{name} comes after every backward", self.g("backward") == self.n)
        if name == "normalize":
            self.ctx.ensure("gradients are normalised before they are clipped and used",
                            "optimizer" not in self.log and "clip" not in self.log and "zero_grad" not in self.log)


@unit("accumulation", about="any number of micro-batches, both accumulation modes, with and without target counts")
def accumulation(ctx, it):
    fp16 = ctx.alt("loss scaling", [False, True])
    reports = ctx.alt("unit", ["reports targets", "mean loss"]) == "reports targets"
    env = E(ctx, it, fp16, reports, ctx.bool("no_sync_grad_accumulation", inp=True))
    out = env.run()
    if out[0] == "exc":
        ctx.ensure("only an exploding loss fails the step", env.exploded)
        return
    ctx.ensure("every micro-batch went through backward", env.g("backward") == env.n)
    ctx.ensure("the optimizer runs", env.log.count("optimizer") == 1)
    if reports:
        if ctx.branch(env.g("total") > 0):
            ctx.ensure("gradients are normalised once", len(env.normalized) == 1)
            if env.normalized:
                ctx.ensure("by the total of the counts of all micro-batches",
                           zreal(env.normalized[0]) == z3.ToReal(env.g("total")))
            ctx.cover("normalised")
            ctx.require_cover("normalised")
        else:
            ctx.ensure("nothing to normalise by", len(env.normalized) == 0)
    else:
        ctx.ensure("no normalisation of mean losses", len(env.normalized) == 0)
        ctx.cover("mean")
        ctx.require_cover("mean")
