from props._ckpt import *

MUTATE = ("mkdir", "dump", "move", "rm", "rmdir")
COLL = ("barrier", "all_sum")


def is_at(ctx, p, d):
    return isinstance(p, PathVal) and len(p.comps) == len(d.comps) and same(ctx, p, d)


class Case:
    def __init__(self, ctx, it, rank0, kind, blocking, early, local=True):
        self.env = env = Env(ctx, it, rank0=rank0, early=early, local=local)
        self.ctx, self.it, self.kind, self.blocking, self.rank0 = ctx, it, kind, blocking, rank0
        ctx.contracts[f"{CLS}.delete_checkpoint"] = self.delete

    def delete(self, it, b):
        """Contract (proved as C04): only paths of that step are removed, by the first process, then a barrier."""
        self.env.emit("delete", b["step_nr"])
        self.env.emit("barrier", "root")

    def save(self, n):
        env, it = self.env, self.it
        cb = lambda tag: Native(lambda i, a, k: env.emit(tag, (list(a) + list(k.values()))[0]), tag)
        kw = dict(ready_callback=cb("ready"), saved_callback=cb("saved"), blocking=self.blocking)
        if self.kind == "full":
            return it.outcome(lambda: it.call_method(env.man, "save_checkpoint", n, *[env.parts[k] for k in KINDS], **kw))
        return it.outcome(lambda: it.call_method(env.man, "save_model_only", n, env.parts["model"], **kw))


def judge(ctx, env, log, n, rank0, label=""):
    """Event log of one process from the start of a save to the end of its commit."""
    tmp, final = env.step(n, tmp=True), env.step(n)
    dumps = [k for k, e in enumerate(log) if e[0] == "dump"]
    moves = [k for k, e in enumerate(log) if e[0] == "move"]
    bars = [k for k, e in enumerate(log) if e[0] == "barrier" and e[1] == "root"]
    saved = [k for k, e in enumerate(log) if e[0] == "saved"]
    for k in dumps:
        ctx.ensure(f"{label}every file is written under the temporary name", within(ctx, log[k][1], tmp))
    for e in log:
        if e[0] == "mkdir":
            ctx.ensure(f"{label}directories are made under the temporary name", within(ctx, e[1], tmp))
    last_dump = max(dumps, default=-1)
    ctx.ensure(f"{label}the saved callback runs once", len(saved) == 1)
    if rank0:
        ctx.ensure(f"{label}one rename makes it visible", len(moves) == 1)
        for k in moves:
            ctx.ensure(f"{label}temporary to final name", is_at(ctx, log[k][1], tmp) and is_at(ctx, log[k][2], final))
            ctx.ensure(f"{label}a barrier between the last write and the rename", any(last_dump < b < k for b in bars))
            ctx.ensure(f"{label}a barrier after the rename", any(b > k for b in bars))
            ctx.ensure(f"{label}the callback comes after the barrier behind the rename",
                       all(any(k < b < s for b in bars) for s in saved))
            ctx.ensure(f"{label}nothing is written after the rename",
                       not [e for e in log[k + 1:] if e[0] in MUTATE])
            ctx.cover("committed")
    else:
        ctx.ensure(f"{label}only the first process renames", not moves)
    after = [b for b in bars if b > last_dump]
    ctx.ensure(f"{label}two barriers behind the last write, before the callback",
               all(len([b for b in after if b < s]) >= 2 for s in saved))


def agree(ctx, log, key):
    """All processes (whatever their ranks and timing) go through the same collective operations."""
    table = ctx.ex.__dict__.setdefault("collectives", {})
    seq = collectives(log)
    ctx.ensure("every process takes part in the same collective operations", table.setdefault(key, seq) == seq)


def collectives(log):
    return [(e[0], e[1] if e[0] == "barrier" else "") for e in log if e[0] in COLL]


@unit("save and commit", about="event order of one save on every process: write, barrier, rename, barrier, callback",
      max_secs=300)
def save_commit(ctx, it):
    kind = ctx.alt("kind", ["full", "model"])
    blocking = ctx.alt("blocking", [True, False])
    early = ctx.alt("thread", [True, False]) if not blocking else False
    wait = ctx.alt("wait", [True, False]) if not blocking else True
    n = ctx.int("step_nr", lo=0, inp=True)
    rank0 = ctx.alt("rank", [True, False])
    if True:
        c = Case(ctx, it, rank0, kind, blocking, early)
        env = c.env
        out = c.save(n)
        ctx.ensure("the save does not fail", out[0] == "ok")
        if out[0] != "ok":
            return
        sv = it.getattr(env.man, "is_saving")
        if not blocking:
            ctx.ensure("an asynchronous save is pending", zbool(sv))
            ctx.ensure("an asynchronous save is not visible before it is completed",
                       not [e for e in env.log if e[0] in ("move", "saved")])
            mark = len(env.log)
            out = it.outcome(lambda: it.call_method(env.man, "maybe_complete_save_operation", blocking=wait))
            ctx.ensure("completing does not fail", out[0] == "ok")
            if out[0] != "ok":
                return
            committed = out[1]
            sums = [e for e in env.log[mark:] if e[0] == "all_sum"]
            if wait:
                ctx.ensure("a blocking completion commits", committed is True)
            else:
                ctx.ensure("processes agree whether all are done", len(sums) == 1)
            if committed is not True:
                ctx.ensure("no completion is reported as such", committed is False)
                ctx.ensure("not visible before every process is done", not [
                    e for e in env.log if e[0] in ("move", "saved")])
                ctx.ensure("it stays pending", zbool(it.getattr(env.man, "is_saving")))
                ctx.cover("not all done")
                agree(ctx, env.log, (kind, wait, False))
                return
        ctx.ensure("nothing is pending after the commit", z_not(zbool(it.getattr(env.man, "is_saving"))))
        judge(ctx, env, env.log, n, rank0)
        kinds = {"full": 4, "model": 1}[kind]
        ctx.ensure("no more files than states", len([e for e in env.log if e[0] == "dump"]) <= kinds)
        agree(ctx, env.log, (kind, blocking, wait, True))
        cb = [e for e in env.log if e[0] in ("saved", "ready")]
        ctx.ensure("callbacks get the step", all(ctx.is_valid(zint(e[1]) == n) for e in cb))
    ctx.require_cover("committed", "not all done")


@unit("pending save first", about="a new save first completes the pending one")
def pending_first(ctx, it):
    rank0 = ctx.alt("rank", [True, False])
    kind = ctx.alt("kind", ["full", "model"])
    early = ctx.alt("thread", [True, False])
    c = Case(ctx, it, rank0, kind, False, early)
    env = c.env
    n1, n2 = ctx.int("step_1", lo=0, inp=True), ctx.int("step_2", lo=0, inp=True)
    ctx.assume(n1 != n2)
    if c.save(n1)[0] != "ok":
        ctx.fail("the save does not fail", "raised")
        return
    mark = len(env.log)
    if c.save(n2)[0] != "ok":
        ctx.fail("the save does not fail", "raised")
        return
    log = env.log[mark:]
    # everything of the second save starts after the first one's commit
    first = next((k for k, e in enumerate(log) if e[0] in MUTATE and e[0] != "move" and any(
        isinstance(p, PathVal) and within(ctx, p, env.step(n2, tmp=True)) for p in e[1:])), len(log))
    saved = [k for k, e in enumerate(log) if e[0] == "saved"]
    ctx.ensure("the pending checkpoint is announced exactly once", len(saved) == 1)
    ctx.ensure("it is committed before the next save writes", all(k < first for k in saved))
    judge(ctx, env, env.log[:mark] + log[:first], n1, rank0, "first: ")
    ctx.cover("second save")
    ctx.require_cover("second save")


@unit("nothing pending", about="completing without a pending save does nothing")
def nothing(ctx, it):
    env = Env(ctx, it)
    r = it.call_method(env.man, "maybe_complete_save_operation", blocking=ctx.alt("blocking", [True, False]))
    ctx.ensure("reports none", r is None)
    ctx.ensure("does nothing", not env.log)


@unit("vote", about="a non-blocking completion votes 1 iff this process has written its files, and commits iff all did")
def vote(ctx, it):
    c = Case(ctx, it, ctx.alt("rank", [True, False]), "full", False, ctx.alt("thread", [True, False]))
    env = c.env
    votes = []
    orig = env.all_sum

    def all_sum(it, b):
        f = it.getattr(env.man, "_save_op")
        votes.append((b["value"], f.fields["finished"]))
        r = orig(it, b)
        votes.append(r)
        return r

    ctx.contracts["fairseq2.gang:all_sum"] = all_sum
    n = ctx.int("step_nr", lo=0, inp=True)
    if c.save(n)[0] != "ok":
        ctx.fail("the save does not fail", "raised")
        return
    r = it.call_method(env.man, "maybe_complete_save_operation")
    ctx.ensure("one vote", len(votes) == 2)
    if len(votes) != 2:
        return
    v, fin = votes[0]
    ctx.ensure("votes 1 iff its own files are written", zint(v) == (1 if fin else 0))
    ctx.ensure("commits iff every process voted 1", zbool(r is True) == (votes[1] == env.size))
    ctx.cover("yes" if r is True else "no")
    ctx.require_cover("yes", "no")
