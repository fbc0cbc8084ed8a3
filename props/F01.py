from pyvc.api import *
from props._trainer import GangM

M = "fairseq2.optim.fp16_loss_scaler"
STD, NOOP = f"{M}:StandardFloat16LossScaler", f"{M}:_NoopFloat16LossScaler"


class Grads(Model):
    """torch.amp.GradScaler: step() runs the optimizer unless a gradient is inf/NaN; update() multiplies the scale by
    the backoff factor after such a step, by the growth factor after `growth_interval` steps without, and keeps it
    otherwise; update(x) sets it to x."""

    def __init__(self, ctx, it, k):
        super().__init__(ctx, None)
        self.it, self.k = it, k
        self.scale0 = self.scale = zreal(k["init_scale"])
        self.log = []
        self.event = "none"

    def m_step(self, ctx, optimizer, *a, **k):
        self.log.append(("step", optimizer, a, k))
        if self.event == "overflow":
            return None
        return self.it.call_method(optimizer, "step", *a, **k)

    def m_update(self, ctx, new_scale=None):
        if new_scale is not None:
            self.scale = zreal(new_scale)
            self.log.append(("set", self.scale))
            return
        self.log.append(("update",))
        if self.event == "overflow":
            self.scale = self.scale * zreal(self.k["backoff_factor"])
        elif self.event == "grow":
            self.scale = self.scale * zreal(self.k["growth_factor"])

    def m_get_scale(self, ctx):
        return self.scale

    def m_unscale_(self, ctx, optimizer):
        self.log.append(("unscale", optimizer))

    def m_scale(self, ctx, loss):
        return Loss(ctx, self, scaled=True)


class Loss(Model):
    def __init__(self, ctx, rec, scaled=False):
        super().__init__(ctx, None)
        self.rec, self.scaled = rec, scaled

    def m_backward(self, ctx, *a, **k):
        self.rec.log.append(("backward", self.scaled))


class Opt(Model):
    def __init__(self, ctx, ret):
        super().__init__(ctx, None)
        self.ret, self.steps = ret, []
        self.fields["_step_supports_amp_scaling"] = ctx.alt("implicit scaling", [False, True])

    def m_step(self, ctx, closure=None):
        self.steps.append(closure)
        return self.ret


def build(ctx, it):
    made = []

    def make(it, a, k):
        g = Grads(it.ctx, it, dict(zip(("device",), a), **k))
        made.append(g)
        return g

    ctx.class_models[f"{M}:_InternalGradScaler"] = make
    it.b.EXT_CALLS["torch.distributed.fsdp.sharded_grad_scaler.ShardedGradScaler"] = make
    it.b.EXT_CALLS["warnings.filterwarnings"] = lambda it, a, k: None
    root, rdp = ctx.int("root_size", lo=1), ctx.int("rdp_size", lo=1)
    ctx.assume(rdp <= root)
    rg = GangM(ctx, 0, root)
    rg.m_as_process_group = lambda ctx: Sink(ctx)
    gangs = Model(ctx, None, root=rg, rdp=GangM(ctx, 0, rdp))
    init, f = ctx.real("init_scale", inp=True), ctx.real("scale_factor", inp=True)
    low, win = ctx.real("min_scale", inp=True), ctx.int("window", lo=1)
    ctx.assume(z3.And(init > 0, f >= z3.Q(1001, 1000), low > 0))
    s = it.instantiate(it.cls(STD), [gangs], dict(init_scale=init, scale_factor=f, scale_window=win, min_scale=low))
    if len(made) != 1:
        raise Unsupported(f"{len(made)} gradient scalers")
    g = made[0]
    # any reachable scale
    cur = ctx.real("scale", inp=True)
    ctx.assume(cur > 0)
    g.scale0, g.scale = g.scale, cur
    return s, g, init, f, low, win, cur


@unit("classification", about="run_optimizer_step: overflow iff the scale was reduced, growth iff raised, explosion iff a "
      "reduction would fall below the minimum, which is then enforced; any scale, factor and minimum",
      assumes=["contract of torch.amp.GradScaler (audited against the real one)", "scale factor >= 1.001"])
def classification(ctx, it):
    s, g, init, f, low, win, cur = build(ctx, it)
    ctx.ensure("the initial scale is the configured one", g.scale0 == init)
    ctx.ensure("the growth interval is the configured window", zint(g.k["growth_interval"]) == win)
    g.event = ctx.alt("event", ["none", "grow", "overflow"])
    closure = ctx.alt("closure", [False, True])
    loss = ctx.real("loss")
    opt = Opt(ctx, loss if closure else None)
    fn = Native(lambda i, a, k: loss, "closure") if closure else None
    out = it.outcome(lambda: it.call_method(s, "run_optimizer_step", opt, *([fn] if closure else [])))
    if out[0] != "ok":
        ctx.ensure("fails only if a closure gives no loss", closure and g.event == "overflow")
        r = None
    elif closure:
        if not isinstance(out[1], tuple) or len(out[1]) != 2:
            ctx.fail("loss and result", repr(out[1]))
            return
        ctx.ensure("the loss is handed on", out[1][0] is loss)
        r = out[1][1]
    else:
        r = out[1]
    ctx.ensure("the optimizer runs at most once, and not on overflow",
               len(opt.steps) == (0 if g.event == "overflow" else 1) and all(c is fn for c in opt.steps))
    new = {"none": cur, "grow": cur * f, "overflow": cur / f}[g.event]
    boom = z3.And(g.event == "overflow", new < low)
    end = z3.If(boom, low, new)
    ctx.ensure("the scale is adapted exactly once", sum(1 for e in g.log if e[0] == "update") == 1)
    ctx.ensure("the scale is put at the minimum exactly on an explosion", zreal(g.scale) == end)
    if r is None:
        return
    flag = lambda n: zbool(it.truth(it.getattr(r, n)))
    ctx.ensure("overflow iff the scale was reduced", flag("overflowed") == (g.event == "overflow"))
    ctx.ensure("growth iff the scale was raised", flag("scaled") == (g.event == "grow"))
    ctx.ensure("explosion iff the minimum was reached", flag("exploded") == boom)
    ctx.ensure("the old scale is reported", zreal(it.getattr(r, "old_scale")) == cur)
    ctx.ensure("the new scale is reported", zreal(it.getattr(r, "new_scale")) == end)
    ctx.ensure("the reported window is the configured one", zint(it.getattr(s, "scale_window")) == win)
    ctx.cover(g.event)
    if g.event == "overflow":
        if ctx.branch(boom):
            ctx.cover("exploded")
        else:
            ctx.cover("reduced")
    ctx.require_cover("none", "grow", "exploded", "reduced")


@unit("gradients", about="losses are scaled before, gradients unscaled after the backward pass")
def gradients(ctx, it):
    s, g, init, f, low, win, cur = build(ctx, it)
    opt = Opt(ctx, None)
    what = ctx.alt("what", ["backward", "unscale"])
    if what == "backward":
        it.call_method(s, "backward", Loss(ctx, g))
        ctx.ensure("the scaled loss is differentiated once", g.log == [("backward", True)])
    else:
        out = it.outcome(lambda: it.call_method(s, "unscale_grads_", opt))
        if out[0] == "ok":
            ctx.ensure("the gradients of the optimizer are unscaled once", g.log == [("unscale", opt)])
    ctx.ensure("the scale is kept", g.scale is cur)
    ctx.cover(what)
    ctx.require_cover("backward", "unscale")


@unit("disabled", about="with reduced precision disabled the optimizer runs unscaled and every step is normal")
def disabled(ctx, it):
    n = it.instantiate(it.cls(NOOP), [], {})
    closure = ctx.alt("closure", [False, True])
    loss = ctx.real("loss")
    opt = Opt(ctx, loss if closure else None)
    fn = Native(lambda i, a, k: loss, "closure") if closure else None
    r = it.call_method(n, "run_optimizer_step", opt, *([fn] if closure else []))
    if closure:
        ctx.ensure("the loss is handed on", isinstance(r, tuple) and r[0] is loss)
        r = r[1]
    ctx.ensure("the optimizer runs exactly once", len(opt.steps) == 1 and opt.steps[0] is fn)
    for f in ("overflowed", "scaled", "exploded"):
        ctx.ensure(f"not {f}", z_not(it.truth(it.getattr(r, f))))
    ctx.ensure("scales are equal", zreal(it.getattr(r, "old_scale")) == zreal(it.getattr(r, "new_scale")))
    rec = Model(ctx)
    rec.log = []
    it.call_method(n, "backward", Loss(ctx, rec))
    it.call_method(n, "unscale_grads_", opt)
    ctx.ensure("the loss itself is differentiated", rec.log == [("backward", False)])
    ctx.cover("ran")
    ctx.require_cover("ran")
