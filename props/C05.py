from props._ckpt import *


def collected(flt, d):
    """Loop-invariant candidates: a local list holds the numbers of the entries admitted so far, in listing order."""
    def gen(view):
        out = {}
        for name, cur in view.cur.items():
            if isinstance(cur, list) and not cur:
                cur = SymSeq(0, None, None)
            if isinstance(cur, SymSeq) and cur.kind in (None, ("int",)):
                at = int_at(cur) if cur.kind else (lambda i: z3.IntVal(0))
                for k, v in flt.inv(view.k, cur.length, at, d.num).items():
                    out[f"{name}: {k}"] = v
        return out
    return gen


def setup(ctx, it):
    env = Env(ctx, it, local=ctx.bool("local"))
    d = env.dir
    full = ctx.alt("exclude_model_only", [False, True])
    ok = lambda i: z_and(d.is_dir(i), d.canon(i), d.has_trainer(i) if full else TRUE)
    ctx.loop_cands.append(collected(Filtered(ctx, "admitted", d.n, ok), d))
    return env, d, full, ok


def listing(ctx, it, env, full):
    out = it.outcome(lambda: it.call_method(env.man, "get_step_numbers", exclude_model_only=full))
    ctx.ensure("listing does not fail", out[0] == "ok")
    if out[0] != "ok" or not isinstance(out[1], PyList):
        raise Unsupported("get_step_numbers() returns no list")
    for ev in env.log:
        if ev[0] == "glob":
            ctx.ensure("the checkpoint directory is listed", same(ctx, ev[1], env.base))
    ctx.ensure("the directory is only read", all(ev[0] in ("glob",) for ev in env.log))
    return it.seq_of(out[1])


@unit("listing", about="exactly the numbers of the committed checkpoint directories, ascending, for any directory content",
      timeout_ms=30000)
def listing_unit(ctx, it):
    env, d, full, ok = setup(ctx, it)
    s = listing(ctx, it, env, full)
    n, at = zint(s.length), int_at(s)
    x, y = ctx.int("x", lo=0), ctx.int("y", lo=0)
    i = z3.Int("wi")
    if ctx.branch(z_and(x < n)):
        ctx.ensure("only committed checkpoints are listed",
                   z3.Exists([i], z3.And(i >= 0, i < d.n, ok(i), d.num(i) == at(x))))
        if ctx.branch(z_and(x < y, y < n)):
            ctx.ensure("ascending without duplicates", at(x) < at(y))
            ctx.cover("two checkpoints")
    e = ctx.int("entry", lo=0, inp=True)
    if ctx.branch(z_and(e < d.n, ok(e))):
        ctx.ensure("every committed checkpoint is listed",
                   z3.Exists([i], z3.And(i >= 0, i < n, at(i) == d.num(e))))
        ctx.cover("a committed checkpoint")
    ctx.require_cover("two checkpoints", "a committed checkpoint")


@unit("latest", about="the last step number is the largest of the list, or none")
def latest(ctx, it):
    env = Env(ctx, it)
    full = ctx.alt("exclude_model_only", [False, True])
    f = ctx.func("step", z3.IntSort(), z3.IntSort())
    n = ctx.int("n", lo=0, inp=True)
    i, j = z3.Ints("li lj")
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), f(i) < f(j)),
                         patterns=[z3.MultiPattern(f(i), f(j))]))
    asked = []

    def contract(it, b):
        asked.append(b.get("exclude_model_only"))
        return PyList(it.ctx, SymSeq(n, lambda i: f(zint(i)), ("int",)))

    ctx.contracts[f"{CLS}.get_step_numbers"] = contract
    which = ctx.alt("query", ["maybe_get_last_step_number", "has_checkpoint"])
    r = it.call_method(env.man, which, exclude_model_only=full)
    ctx.ensure("the same kind of checkpoints is asked for", len(asked) >= 1 and all(a is full for a in asked))
    if which == "has_checkpoint":
        ctx.ensure("a checkpoint exists iff the list is not empty", zbool(r) == (n > 0))
        return
    if r is None:
        ctx.ensure("none only without checkpoints", n == 0)
        ctx.cover("none")
    else:
        ctx.ensure("a number only with checkpoints", n > 0)
        k = ctx.int("k", lo=0)
        ctx.assume(k < n)
        ctx.ensure("no listed number is larger", f(k) <= zint(r))
        ctx.ensure("it is listed", z3.Exists([i], z3.And(i >= 0, i < n, f(i) == zint(r))))
        ctx.cover("some")
    ctx.require_cover("none", "some")
