from pyvc.api import *

SW = "fairseq2.utils.stopwatch:Stopwatch"
ERR = "fairseq2.error:InvalidOperationError"


class Clock:
    """What time.perf_counter() returns is decided by the caller of the stopwatch."""

    def __init__(self, ctx):
        self.now, self.reads = z3.RealVal(0), 0
        ctx.clock = self

    def __call__(self):
        self.reads += 1
        return self.now


def canonical(ctx, it, clock, running, t0, t1, t2):
    """The watch after: started at t0, stopped at t1 and, if running, started again at t2."""
    w = it.instantiate(it.cls(SW), [], {})
    for t, op in ((t0, "start"), (t1, "stop")) + (((t2, "start"),) if running else ()):
        clock.now = t
        it.call_method(w, op)
    return w


def same_state(a, b):
    eqs = []
    if set(a.fields) != set(b.fields):
        raise Unsupported("the watch grows fields")
    for n in a.fields:
        x, y = a.fields[n], b.fields[n]
        if isinstance(x, bool) or isinstance(y, bool) or x is None or y is None or isinstance(x, (Model, Ext, str)):
            if isinstance(x, Model) and isinstance(y, Model):
                eqs.append(zbool(x.fields == y.fields))
            elif x is None or y is None or isinstance(x, (bool, str, Ext)) and isinstance(y, (bool, str, Ext)):
                eqs.append(zbool(x is y or x == y))
            else:
                raise Unsupported(f"field {n}")
        else:
            eqs.append(zreal(x) == zreal(y))
    return z_and(*eqs)


def setup(ctx, it):
    clock = Clock(ctx)
    running = ctx.alt("running", [False, True])
    t0, t1, t2 = ctx.real("t0", inp=True), ctx.real("t1", inp=True), ctx.real("t2", inp=True)
    ctx.assume(t0 <= t1)
    w = canonical(ctx, it, clock, running, t0, t1, t2)
    now = ctx.real("now", inp=True)
    if running:
        ctx.assume(t2 <= now)
    clock.now, clock.reads = now, 0
    return clock, running, w, t1 - t0, t2, now


def becomes(ctx, it, clock, w, running, acc, start, what):
    """The state of w is a canonical one that stands for (running, accumulated, running since)."""
    p = [z3.Real(f"p{i}") for i in range(3)]
    c = canonical(ctx, it, clock, running, *p)
    goal = [p[0] <= p[1], p[1] - p[0] == acc, same_state(w, c)]
    if running:
        goal.append(p[2] == start)
    ctx.ensure(what, z3.Exists(p, z3.And(*goal)))


def allowed(ctx, it, thunk, what):
    out = it.outcome(thunk)
    ctx.ensure(what, out[0] == "ok")
    return out[0] == "ok"


@unit("initial", about="a new watch is stopped with no time on it")
def initial(ctx, it):
    clock = Clock(ctx)
    clock.now = ctx.real("now")
    w = it.instantiate(it.cls(SW), [], {})
    ctx.ensure("stopped", z_not(it.truth(it.getattr(w, "is_running"))))
    ctx.ensure("zero", zreal(it.call_method(w, "get_elapsed_time")) == 0)
    becomes(ctx, it, clock, w, False, z3.RealVal(0), None, "the state of a watch with no time on it")


@unit("operations", about="every operation keeps: elapsed = sum of the running intervals since the last reset; the "
      "states are closed under all operations (induction over histories)",
      assumes=["time.perf_counter() is monotonic", "floating point seconds are treated as exact reals"])
def operations(ctx, it):
    clock, running, w, acc, since, now = setup(ctx, it)
    op = ctx.alt("op", ["start", "stop", "reset", "read", "with", "with error", "enter"])
    total = acc + (now - since) if running else acc
    ctx.ensure("is_running tells whether it runs", z_not(it.truth(it.getattr(w, "is_running"))) if not running
               else it.truth(it.getattr(w, "is_running")))
    if op in ("start", "enter"):
        out = it.outcome(lambda: it.call_method(w, "start" if op == "start" else "__enter__"))
        if running:
            ctx.ensure("starting a running watch is rejected",
                       out[0] == "exc" and it.subclass(out[1].obj.cls, it.cls(ERR)))
            becomes(ctx, it, clock, w, True, acc, since, "a rejected start has no effect")
            ctx.cover("start rejected")
        else:
            ctx.ensure("a stopped watch can be started", out[0] == "ok")
            if op == "enter":
                ctx.ensure("entering yields the watch", out[1] is w)
            becomes(ctx, it, clock, w, True, acc, now, "starting keeps the time and runs from now on")
            ctx.cover("started")
    elif op == "stop":
        if allowed(ctx, it, lambda: it.call_method(w, "stop"), "stopping is never rejected"):
            becomes(ctx, it, clock, w, False, total, None, "stopping adds the running interval, or has no effect")
            ctx.cover("stopped" if running else "stopped twice")
    elif op == "reset":
        if allowed(ctx, it, lambda: it.call_method(w, "reset"), "resetting is never rejected"):
            becomes(ctx, it, clock, w, running, z3.RealVal(0), now, "resetting restarts the count from zero")
            ctx.cover("reset running" if running else "reset stopped")
    elif op == "read":
        out = it.outcome(lambda: it.call_method(w, "get_elapsed_time"))
        ctx.ensure("reading is never rejected", out[0] == "ok")
        ctx.ensure("elapsed time is the total of the running intervals", zreal(out[1]) == total)
        becomes(ctx, it, clock, w, running, acc, since, "reading changes nothing")
        ctx.cover("read running" if running else "read stopped")
    elif not running:
        end = ctx.real("end", inp=True)
        ctx.assume(end >= now)

        def body(v):
            clock.now = end
            if op == "with error":
                raise it.exc(RuntimeError, "body")

        out = it.outcome(lambda: it.run_with(w, body))
        ctx.ensure("an error of the body passes through", out[0] == ("exc" if op == "with error" else "ok"))
        becomes(ctx, it, clock, w, False, acc + (end - now), None, "a with statement measures its body, whatever ends it")
        ctx.cover(op)
    ctx.require_cover("start rejected", "started", "stopped", "stopped twice", "reset running", "reset stopped",
                      "read running", "read stopped", "with", "with error")
