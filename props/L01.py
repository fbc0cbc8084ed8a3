from pyvc.api import *
from pyvc.builtins_ import POW
from pyvc.extlib import COS, EXP, LOG, PI

M = "fairseq2.optim.lr_schedulers."
I, RS = z3.IntSort(), z3.RealSort()
CONTRACT = ("torch's LRScheduler keeps the base rate of every group in base_lrs and the step number in last_epoch, and takes "
            "the rates from get_lr()")




class S:
    """A scheduler over any number of parameter groups, and the rates in the group with index i."""

    def __init__(self, ctx, it, cls, args, lists=(), **kw):
        self.ctx, self.it = ctx, it
        self.n = ctx.int("groups", lo=1)
        groups = Model(ctx, None)
        groups.fields["param_groups"] = PyList(ctx, SymSeq(self.n, lambda i: PyDict(ctx, {}), None))
        self.base_f = ctx.func("base", I, RS)
        self.f = {}
        for name, form in lists:
            if form == "scalar":
                v = ctx.real(name, inp=True)
                kw[name], self.f[name] = v, (lambda i, v=v: v)
            else:
                f = ctx.func(name, I, RS)
                kw[name], self.f[name] = PyList(ctx, SymSeq(self.n, lambda i, f=f: f(zint(i)), ("real",))), f
        self.i = ctx.int("i", lo=0)
        ctx.assume(self.i < self.n)
        self.kw, self.args, self.cls, self.opt = kw, args, it.cls(M + cls), groups

    def make(self):
        ctx = self.ctx
        self.o = self.it.instantiate(self.cls, [self.opt] + list(self.args), dict(self.kw))
        f = self.base_f
        self.o.setf(ctx, "base_lrs", PyList(ctx, SymSeq(self.n, lambda i: f(zint(i)), ("real",))))
        self.o.setf(ctx, "_get_lr_called_within_step", True)
        return self.o

    def at(self, step):
        self.o.setf(self.ctx, "last_epoch", step)
        return self.it.outcome(lambda: self.it.call_method(self.o, "get_lr"))

    def rate(self, what, step):
        """The rate of group i at the step; what: prefix of the obligations."""
        ctx, it = self.ctx, self.it
        out = self.at(step)
        ctx.ensure(f"{what}: a rate is computed", out[0] == "ok")
        if out[0] != "ok":
            return None
        seq = it.seq_of(out[1])
        ctx.ensure(f"{what}: one rate for every group", zint(seq.length) == self.n)
        return zreal(seq.get(self.i))


def forms(ctx, *names):
    f = ctx.alt("rates", ["scalar", "list"])
    return [(n, f) for n in names]


def between(v, a, b):
    return z3.Or(z3.And(v >= a, v <= b), z3.And(v >= b, v <= a))


def warmup(ctx, s, v, t, w, start, base):
    """Linear from the start rate to the base rate."""
    ctx.ensure("warm-up is linear from the start rate to the base rate", (v - start) * w == (base - start) * t)
    ctx.ensure("warm-up stays between the start and the base rate", between(v, start, base))
    if ctx.branch(t == 0):
        ctx.ensure("the rate at step zero is the start rate", v == start)


def steps(ctx):
    t = ctx.int("step", lo=0, inp=True)
    w = ctx.int("warmup", lo=0, inp=True)
    return t, w


@unit("polynomial", about="PolynomialDecayLR: warm-up, decay by the power, and the final rate afterwards", assumes=[CONTRACT])
def polynomial(ctx, it):
    t, w = steps(ctx)
    total = ctx.int("total", lo=1, inp=True)
    p = ctx.real("power", inp=True)
    ctx.assume(p > 0)
    s = S(ctx, it, "polynomial_decay:PolynomialDecayLR", [total, w], forms(ctx, "start_lr", "final_lr"), power=p)
    if ctx.branch(w >= total):
        out = it.outcome(s.make)
        ctx.ensure("a warm-up that is not shorter than the whole is rejected",
                   out[0] == "exc" and it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
        return
    s.make()
    v = s.rate("polynomial", t)
    if v is None:
        return
    base, start, final = s.base_f(s.i), s.f["start_lr"](s.i), s.f["final_lr"](s.i)
    if ctx.branch(t >= total):
        ctx.cover("after the last step")
        ctx.ensure("the final rate is kept after the last step", v == final)
    elif ctx.branch(t < w):
        ctx.cover("warm-up")
        warmup(ctx, s, v, t, w, start, base)
    else:
        ctx.cover("decay")
        r = z3.ToReal(total - t) / z3.ToReal(total - w)
        pw = POW(r, p)
        ctx.fact(z3.And(pw > 0, pw <= 1, z3.Implies(t == w, pw == 1), z3.Implies(p == 1, pw == r)))
        ctx.ensure("the decay follows the power of the remaining fraction", v == final + (base - final) * pw)
        ctx.ensure("the decay stays between the base and the final rate", between(v, base, final))
        if ctx.branch(t == w):
            ctx.ensure("the rate is the base rate when warm-up ends", v == base)


@unit("myle", about="MyleLR: warm-up, then the inverse square root", assumes=[CONTRACT])
def myle(ctx, it):
    t, w = steps(ctx)
    s = S(ctx, it, "myle:MyleLR", [w], forms(ctx, "start_lr"))
    if ctx.branch(w == 0):
        out = it.outcome(s.make)
        ctx.ensure("a schedule without warm-up is rejected",
                   out[0] == "exc" and it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
        return
    s.make()
    v = s.rate("myle", t)
    if v is None:
        return
    base, start = s.base_f(s.i), s.f["start_lr"](s.i)
    if ctx.branch(t < w):
        ctx.cover("warm-up")
        warmup(ctx, s, v, t, w, start, base)
    else:
        ctx.cover("decay")
        inverse_root(ctx, "myle", v, base, z3.ToReal(t) / z3.ToReal(w))
        if ctx.branch(t == w):
            ctx.ensure("the rate is the base rate when warm-up ends", v == base)


def inverse_root(ctx, what, v, base, q):
    """v = base / sqrt(q), for q >= 1."""
    ctx.ensure(f"{what}: the decay follows the inverse square root", v * v * q == base * base)
    ctx.ensure(f"{what}: the decayed rate keeps the sign of the base rate", v * base >= 0)
    ctx.ensure(f"{what}: the decay never passes the base rate", z3.Or(z3.And(v >= 0, v <= base), z3.And(v <= 0, v >= base)))


@unit("noam", about="NoamLR: linear warm-up to 1/sqrt(warm-up), then the inverse square root", assumes=[CONTRACT])
def noam(ctx, it):
    t, w = steps(ctx)
    s = S(ctx, it, "noam:NoamLR", [w])
    s.make()
    v = s.rate("noam", t)
    if v is None:
        return
    base = s.base_f(s.i)
    if ctx.branch(t < w):
        ctx.cover("warm-up")
        peak = z3.Real("peak")  # base / sqrt(warm-up)
        ctx.fact(z3.And(peak * peak * z3.ToReal(w) == base * base, peak * base >= 0))
        ctx.ensure("warm-up is linear up to the base rate over the square root of its length", v * z3.ToReal(w) == peak * z3.ToReal(t))
        if ctx.branch(t == 0):
            ctx.ensure("the rate at step zero is zero", v == 0)
    elif ctx.branch(t == 0):
        ctx.cover("no warm-up")
        ctx.ensure("without warm-up the schedule starts at the base rate", v == base)
    else:
        ctx.cover("decay")
        inverse_root(ctx, "noam", v, base, z3.ToReal(t))


@unit("tri-stage", about="TriStageLR: warm-up, hold and exponential decay, in the rounded-down shares of the steps", assumes=[CONTRACT])
def tri_stage(ctx, it):
    t = ctx.int("step", lo=0, inp=True)
    total = ctx.int("total", lo=1, inp=True)
    rs = tuple(ctx.real(f"ratio{k}", inp=True) for k in range(3))
    for r in rs:
        ctx.assume(r >= 0)
    form = forms(ctx, "start_lr_scale", "final_lr_scale")
    s = S(ctx, it, "tri_stage:TriStageLR", [total, rs], form)
    f = s.f["final_lr_scale"]
    k = z3.Int("k")
    if form[0][1] == "list":
        ctx.fact(z3.ForAll([k], f(k) > 0, patterns=[f(k)]))
    else:
        ctx.assume(f(0) > 0)
    total_ratio = rs[0] + rs[1] + rs[2]
    off = z3.If(total_ratio >= 1, total_ratio - 1, 1 - total_ratio)
    if ctx.branch(off > z3.Q(1, 1000)):
        out = it.outcome(s.make)
        ctx.ensure("shares that do not add up to one are rejected",
                   out[0] == "exc" and it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
        return
    ctx.assume(total_ratio == 1)
    s.make()
    first = s.rate("tri-stage at its start", 0)
    if first is None:
        return
    before = dict(s.o.fields)
    v = s.rate("tri-stage", t)
    if v is None:
        return
    before["last_epoch"] = None
    ctx.ensure("computing a rate leaves the schedule unchanged",
               all(n in before and (n == "last_epoch" or x is before[n] or not isinstance(x, (PyList, Obj, Model))) for n, x in s.o.fields.items()))
    base = s.base_f(s.i)
    start, fs = s.f["start_lr_scale"](s.i) * base, f(s.i)
    a, b, c = [z3.ToInt(r * z3.ToReal(total)) for r in rs]
    if ctx.branch(t < a):
        ctx.cover("warm-up")
        warmup(ctx, s, v, t, a, start, base)
    elif ctx.branch(t < a + b):
        ctx.cover("hold")
        ctx.ensure("the base rate is held in the second stage", v == base)
    elif ctx.branch(t < a + b + c):
        ctx.cover("decay")
        q = z3.ToReal(t - a - b) / z3.ToReal(c)
        lg, e = LOG(fs), EXP(LOG(fs) * q)
        ctx.fact(z3.And(EXP(lg) == fs, POW(fs, q) == e))
        ctx.fact(z3.And(z3.Implies(fs < 1, z3.And(e <= 1, e >= fs)), z3.Implies(fs > 1, z3.And(e >= 1, e <= fs)),
                        z3.Implies(fs == 1, e == 1), z3.Implies(q == 0, e == 1)))
        ctx.ensure("the third stage decays exponentially to the final rate", v == base * e)
        ctx.ensure("the decay stays between the base and the final rate", between(v, base, base * fs))
    else:
        ctx.cover("after the last step")
        ctx.ensure("the final rate is kept after the last step", v == base * fs)


@unit("cosine", about="CosineAnnealingLR with cycles of equal length", assumes=[CONTRACT])
def cosine(ctx, it):
    t, w = steps(ctx)
    n = ctx.int("cycle_len", lo=1, inp=True)
    mul = ctx.real("lr_mul", inp=True)
    ctx.assume(mul > 0)
    s = S(ctx, it, "cosine_annealing:CosineAnnealingLR", [n, w], forms(ctx, "start_lr", "final_lr"), lr_mul=mul)
    s.make()
    v = s.rate("cosine", t)
    if v is None:
        return
    base, start, final = s.base_f(s.i), s.f["start_lr"](s.i), s.f["final_lr"](s.i)
    if ctx.branch(t < w):
        ctx.cover("warm-up")
        warmup(ctx, s, v, t, w, start, base)
        return
    ctx.cover("cycles")
    cycle = (t - w) / n
    pos = (t - w) % n
    annealed(ctx, v, base, final, POW(mul, z3.ToReal(cycle)), z3.ToReal(pos), z3.ToReal(n), mul, cycle)


def annealed(ctx, v, base, final, scale, pos, length, mul, cycle):
    angle = angle_of(ctx)
    ctx.fact(z3.And(scale > 0, z3.Implies(cycle == 0, scale == 1), z3.Implies(mul == 1, scale == 1)))
    ctx.ensure("the angle is the position in the cycle over the length of the cycle", angle * length == PI * pos)
    c = COS(angle)
    ctx.fact(z3.And(c >= -1, c <= 1, z3.Implies(angle == 0, c == 1)))
    ctx.ensure("the rate follows the cosine between the base and the final rate of the cycle",
               v == scale * (final + (base - final) * (1 + c) / 2))
    ctx.ensure("the rate stays between the base and the final rate of the cycle", between(v, scale * base, scale * final))
    if ctx.branch(pos == 0):
        ctx.ensure("every cycle starts at its base rate", v == scale * base)


def angle_of(ctx):
    angles = ctx.memo.get("angles", [])
    if len(angles) != 1:
        raise Unsupported("the rate is not computed from one cosine")
    return angles[0]


@unit("cosine-growing", about="CosineAnnealingLR with cycles that grow by a constant factor", assumes=[CONTRACT])
def cosine_growing(ctx, it):
    t, w = steps(ctx)
    n = ctx.int("cycle_len", lo=1, inp=True)
    mul, g = ctx.real("lr_mul", inp=True), ctx.real("cycle_mul", inp=True)
    ctx.assume(z3.And(mul > 0, g > 1, t >= w))
    s = S(ctx, it, "cosine_annealing:CosineAnnealingLR", [n, w], [("start_lr", "list"), ("final_lr", "list")], lr_mul=mul,
          cycle_mul=g)
    s.make()
    v = s.rate("cosine", t)
    if v is None:
        return
    base, final = s.base_f(s.i), s.f["final_lr"](s.i)
    # the cycle that holds the step: starts(k) <= step < starts(k + 1), with starts(k) = n (g^k - 1) / (g - 1)
    k = ctx.int("cycle", lo=0)
    gk, gk1 = POW(g, z3.ToReal(k)), POW(g, z3.ToReal(k) + 1)
    d = z3.ToReal(t - w)
    x = 1 + d / z3.ToReal(n) * (g - 1)
    ctx.fact(z3.And(gk1 == gk * g, gk >= 1, z3.Implies(k == 0, gk == 1)))
    ctx.assume(z3.And(gk <= x, x < gk1))
    unique_power(ctx, g, x, k)
    begin, length = z3.ToInt(z3.ToReal(n) * (gk - 1) / (g - 1)), z3.ToInt(gk * z3.ToReal(n))
    # intermediate lemmas, each one proved: the whole numbers the code computes are these
    for m in ctx.memo.get("floors", []):
        lemma(ctx, m == k)
        lemma(ctx, POW(g, z3.ToReal(m)) == gk)
    for q in [q for key, (_, q) in [e for e in ctx.memo.items() if isinstance(e[0], tuple) and e[0][0] == "trunc"]]:
        for y in (k, begin, length):
            if lemma(ctx, q == y):
                break
    ctx.cover("cycles")
    annealed(ctx, v, base, final, POW(mul, z3.ToReal(k)), z3.ToReal(t - w - begin), z3.ToReal(length), mul, k)


def lemma(ctx, c):
    ok = ctx.is_valid(c)
    if ok:
        ctx.fact(c)
    return ok


def unique_power(ctx, g, x, k):
    """Powers of a number above one increase: only one k has g^k <= x < g^(k+1)."""
    for m in ctx.memo.get("floors", []):
        a, b = POW(g, z3.ToReal(m)), POW(g, z3.ToReal(k))
        ctx.fact(z3.And(z3.Implies(m < k, a * g <= b), z3.Implies(k < m, b * g <= a), z3.Implies(k == m, a == b)))


@unit("per-group", about="rates given per group must be as many as there are groups")
def per_group_unit(ctx, it):
    g, m = ctx.int("groups", lo=1), ctx.int("rates", lo=0)
    groups = Model(ctx, None)
    groups.fields["param_groups"] = PyList(ctx, SymSeq(g, lambda i: PyDict(ctx, {}), None))
    f = ctx.func("value", I, RS)
    v = PyList(ctx, SymSeq(m, lambda i: f(zint(i)), ("real",)))
    out = it.outcome(lambda: it.call_func(M + "lr_scheduler:get_per_param_group", groups, "start_lr", v))
    if ctx.branch(m == g):
        ctx.ensure("as many rates as groups are accepted", out[0] == "ok")
        if out[0] == "ok":
            i = ctx.int("i", lo=0)
            ctx.assume(i < g)
            seq = it.seq_of(out[1])
            ctx.ensure("every group keeps its rate", z3.And(zint(seq.length) == g, zreal(seq.get(i)) == f(i)))
    else:
        ctx.ensure("another number of rates is rejected",
                   out[0] == "exc" and it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))


@unit("effective", about="the effective rate is the first of the last computed rates; a passthrough keeps the base rates")
def effective(ctx, it):
    s = S(ctx, it, "lr_scheduler:PassthroughLR", [])
    s.make()
    v = s.rate("passthrough", ctx.int("step", lo=0))
    if v is not None:
        ctx.ensure("passthrough keeps the base rates", v == s.base_f(s.i))
    f = ctx.func("last", I, RS)
    n = ctx.int("n", lo=1)

    class Sched(Model):
        def m_get_last_lr(self, ctx):
            return PyList(ctx, SymSeq(n, lambda i: f(zint(i)), ("real",)))

    r = it.call_func(M + "lr_scheduler:get_effective_lr", Sched(ctx, None))
    ctx.ensure("the effective rate is the first group's", zreal(r) == f(0))
