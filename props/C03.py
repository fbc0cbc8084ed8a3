from props._ckpt import *

POS = {"trainer": ("root",), "model": ("pp", "tp", "sdp"), "optimizer": ("pp", "tp", "sdp"), "data_reader": ("dp",)}
WRITER = {"trainer": None, "model": "rdp", "optimizer": "rdp", "data_reader": "tp"}


def ranks(ctx, tag):
    return {n: ctx.int(f"{tag}.{n}", lo=0, inp=True) for n in ("root", "dp", "rdp", "sdp", "tp", "pp")}


def no_delete(ctx):
    ctx.contracts[f"{CLS}.delete_checkpoint"] = lambda it, b: None


def saved_by(ctx, it, env, n, only=None):
    """What one process writes: kind of component -> (path, data)."""
    if only == "model_only":
        out = it.outcome(lambda: it.call_method(env.man, "save_model_only", n, env.parts["model"], blocking=True))
    else:
        out = it.outcome(lambda: it.call_method(env.man, "save_checkpoint", n, *[env.parts[k] for k in KINDS],
                                                blocking=True))
    ctx.ensure("the save does not fail", out[0] == "ok")
    if out[0] != "ok":
        raise Unsupported("save failed")
    res = {k: [] for k in KINDS}
    for e in env.log:
        if e[0] == "dump":
            owner = [k for k in KINDS if env.parts[k].sd is e[2]]
            ctx.ensure("a file holds the state of one component", len(owner) == 1)
            for k in owner:
                res[k].append(e[1])
    return res


def visible(ctx, env, n, p, local):
    """The path of a file after the commit."""
    ctx.ensure("written below the step's directory", within(ctx, p, env.step(n, tmp=local)))
    return PathVal(p.base, env.step(n).comps + p.comps[1:])


def same_pos(kind, a, b):
    return z_and(*[a[x] == b[x] for x in POS[kind]])


def differ(ctx, a, b):
    r = py_eq(a, b)
    return z_not(zbool(r))


def pair(kind):
    @unit(f"{kind} files", about=f"{kind}: the file loaded at a position is the one written there; other writers use other files")
    def u(ctx, it):
        no_delete(ctx)
        local = ctx.alt("local", [True, False])
        n = ctx.int("step_nr", lo=0, inp=True)
        rp, rq = ranks(ctx, "writer"), ranks(ctx, "other")
        p, q = Env(ctx, it, ranks=rp, local=local), Env(ctx, it, ranks=rq, local=local)
        q.fs.fields, q.size = p.fs.fields, p.size
        fp = saved_by(ctx, it, p, n)[kind]
        w = WRITER[kind]
        if not fp:
            ctx.ensure("the first of each position's group writes the file", FALSE if w is None else rp[w] != 0)
            return
        ctx.ensure("one file per component", len(fp) == 1)
        ctx.ensure("only the first of each position's group writes", True if w is None else rp[w] == 0)
        vp = visible(ctx, p, n, fp[0], local)
        ctx.ensure("in a directory of its own kind", len(vp.comps) >= 3 and vp.comps[1] == kind)
        out = it.outcome(lambda: it.call_method(q.man, f"load_{kind}_state", n, q.parts[kind]))
        ctx.ensure("loading does not fail", out[0] == "ok")
        loads = [e for e in q.log if e[0] == "load"]
        ctx.ensure("one file is loaded", len(loads) == 1)
        got = q.parts[kind].loaded
        ctx.ensure("into the component", len(got) == 1)
        for e in loads:
            if ctx.branch(same_pos(kind, rp, rq)):
                ctx.ensure("the file written at the same position is loaded", zbool(py_eq(vp, e[1])))
                ctx.cover("same position")
            else:
                ctx.ensure("a file of another position is not loaded", differ(ctx, vp, e[1]))
                ctx.cover("other position")
            for sd in got:
                c = sd.content if isinstance(sd, PyDict) else {}
                ctx.ensure("the component gets what was loaded", c.get("loaded") is e[1])
        ctx.require_cover("same position", "other position")

    @unit(f"{kind} writers", about=f"{kind}: processes at different positions write different files, in every step")
    def v(ctx, it):
        no_delete(ctx)
        local = ctx.alt("local", [True, False])
        n, m = ctx.int("step_nr", lo=0, inp=True), ctx.int("other_step", lo=0, inp=True)
        rp, rq = ranks(ctx, "writer"), ranks(ctx, "other")
        for x, y in ((rp, rq), (rq, rp)):  # only paths on which both write are of interest
            if WRITER[kind]:
                ctx.assume(x[WRITER[kind]] == 0)
            for g in ("root", "dp", "sdp", "tp", "rdp"):
                if g not in POS[kind] and g != WRITER[kind] and kind != "trainer":
                    ctx.assume(x[g] >= 0)
        p, q = Env(ctx, it, ranks=rp, local=local), Env(ctx, it, ranks=rq, local=local)
        only = "model_only" if kind == "model" else None
        fp, fq = saved_by(ctx, it, p, n, only)[kind], saved_by(ctx, it, q, m, only)[kind]
        ctx.ensure("both write", bool(fp) and bool(fq))
        for a in fp:
            for b in fq:
                if ctx.branch(z_and(same_pos(kind, rp, rq), n == m)):
                    ctx.ensure("same position, same file", zbool(py_eq(a, b)))
                    ctx.cover("same")
                else:
                    ctx.ensure("different positions or steps, different files", differ(ctx, a, b))
                    ctx.cover("different")
        ctx.require_cover("same", "different")


for _k in KINDS:
    pair(_k)
