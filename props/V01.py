from pyvc.api import *
from pyvc.builtins_ import Fold
from pyvc.extlib import NullCM
from props._trainer import CMSink, CMSinkRng, GangM, Progress, Stats, Watch

V = "fairseq2.validator"
CLS = f"{V}:StandardValidator"
I = z3.IntSort()


class Log(Sink):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.lines = []

    def find_method(self, name):
        if name.startswith("is_enabled"):
            return lambda ctx, *a, **k: True
        return lambda ctx, *a, **k: self.lines.append(a)


class Descriptor(Model):
    """The metric that validation is scored by."""

    def __init__(self, ctx, higher):
        super().__init__(ctx, None, name="the_metric", display_name="The Metric", priority=1, log=True, higher_better=higher)
        self.shown = []

    def m_formatter(self, ctx, v):
        self.shown.append(v)
        return FStr([(v, "")])


class Units:
    """The evaluation units: unit i returns a score iff has(i)."""

    name = "unit"

    def getattr(self, it, e, name):
        if name == "name":
            return None
        return NotImplemented


UNIT, READER = Units(), Units()


class Manager(Sink):
    def __init__(self, ctx, scores):
        super().__init__(ctx)
        self.scores, self.asked = scores, 0

    def find_method(self, name):
        if name == "load_scores":
            def load(ctx):
                self.asked += 1
                return self.scores
            return load
        return super().find_method(name)


class Env:
    def __init__(self, ctx, it, n, rank=0, higher=True, scores=None):
        self.ctx, self.it, self.n = ctx, it, n
        self.has = ctx.func("has_score", I, z3.BoolSort())
        self.val = ctx.func("unit_score", I, z3.RealSort())
        self.mgr = Manager(ctx, scores if scores is not None else PyList(ctx, []))
        self.desc = Descriptor(ctx, higher)
        ctx.log = self.log = Log(ctx)
        dev = Model(ctx, None, type="cpu")
        root = GangM(ctx, rank, ctx.int("world", lo=1))
        gangs = Model(ctx, None, root=root, tp=GangM(ctx, 0, 1), dp=root, device=dev)
        ctx.contracts["fairseq2.utils.rng:RngBag.from_device_defaults"] = lambda it, b: CMSinkRng(it.ctx)
        ctx.class_models["fairseq2.utils.stopwatch:Stopwatch"] = lambda it, a, k: Watch(it.ctx)
        units = PyList(ctx, SymSeq(n, lambda i: Entity(UNIT, i), ("ent", UNIT)))
        readers = PyList(ctx, SymSeq(n, lambda i: Entity(READER, i), ("ent", READER)))
        READER.m = {"reset": lambda: None}
        self.v = it.instantiate(it.cls(CLS), [], dict(
            units=units, data_readers=readers, gangs=gangs, amp=False, amp_dtype=Ext("torch.float32"),
            score_metric_descriptor=self.desc, checkpoint_manager=self.mgr, hg_exporter=Sink(ctx),
            metric_recorder=Sink(ctx), profiler=CMSink(ctx), device_stat_tracker=Stats(ctx), wall_watch=Watch(ctx),
            progress_reporter=Progress(ctx), seed=1))
        for f in ("_best_score", "_best_step_nr"):
            if f not in self.v.fields:
                raise Unsupported(f"StandardValidator has no field {f}")

    def unit_contract(self):
        self.ran = []

        def run_unit(it, b):
            u, r = b["unit"], b["data_reader"]
            if not isinstance(u, Entity) or u.model is not UNIT or not isinstance(r, Entity) or r.model is not READER:
                raise Unsupported("unit")
            it.ctx.ensure("a unit is run with its own reader", zint(u.id) == zint(r.id))
            it.ctx.ensure("a unit is told the training step", zint(b["train_step_nr"]) == zint(self.step))
            if it.ctx.branch(self.has(zint(u.id))):
                return self.val(zint(u.id))
            return None

        self.ctx.contracts[f"{CLS}._run_unit"] = run_unit


@unit("run", about="a run returns the total of its units' scores; the best score and step become those of this run iff it "
      "beats all before (recorded scores of a restored run included); any number of units",
      assumes=["load_scores() returns the recorded scores best first (C01)", "scores are finite reals"])
def run(ctx, it):
    n = ctx.int("n", lo=1, inp=True)
    how = ctx.alt("history", ["first", "restored", "later"])
    higher = ctx.alt("higher_better", [True, False])
    m = ctx.int("recorded", lo=1)
    rs, rn = ctx.func("recorded_score", I, z3.RealSort()), ctx.func("recorded_step", I, I)
    scores = PyList(ctx, [])
    if how == "restored":
        scores = PyList(ctx, SymSeq(m, lambda i: (rs(zint(i)), rn(zint(i))), ("tuple", ("real",), ("int",))))
        ctx.assume(rn(0) >= 0)
    env = Env(ctx, it, n, higher=higher, scores=scores)
    env.unit_contract()
    v, step = env.v, ctx.int("step", lo=0, inp=True)
    env.step = step
    b0, s0 = None, z3.IntVal(0)
    if how == "later":
        b0, s0 = ctx.real("best_before", inp=True), ctx.int("best_step_before", lo=0)
        v.fields["_best_score"], v.fields["_best_step_nr"] = b0, s0
    elif how == "restored":
        b0, s0 = rs(z3.IntVal(0)), rn(z3.IntVal(0))
    flt = Filtered(ctx, "scored", n, lambda i: env.has(zint(i)))

    def gen(view):
        out = {}
        for name, cur in view.cur.items():
            if isinstance(cur, list) and not cur:
                cur = SymSeq(0, None, None)
            if isinstance(cur, SymSeq) and cur.kind in (None, ("real",)):
                at = cur.get if cur.kind else (lambda i: z3.RealVal(0))
                for k, q in flt.inv(view.k, cur.length, at, lambda i: env.val(zint(i))).items():
                    out[f"{name}: {k}"] = q
        return out

    ctx.loop_cands.append(gen)
    total = Fold(ctx, n, lambda i: z3.If(env.has(zint(i)), env.val(zint(i)), z3.RealVal(0)), 0, True, ("unit scores",))
    out = it.outcome(lambda: it.call_method(v, "run", step))
    i = z3.Int("ui")
    if out[0] != "ok":
        ctx.ensure("fails only if no unit has a score",
                   z3.Not(z3.Exists([i], z3.And(i >= 0, i < n, env.has(i)))))
        ctx.cover("no score")
        return
    sums = [f for k, f in ctx.memo.items() if isinstance(f, Fold) and isinstance(k, tuple) and k[0] == "sum"]
    for f in sums:
        k = ctx.int("ind", lo=0)
        flt.unfold(k)
        r = flt.rank(k)
        # one more unit: its score, if any, is the next summand
        ctx.ensure("sum over units (base)", f.s(0) == total.s(0))
        ctx.fact(z3.Implies(z3.And(r >= 0, r < f.n), f.s(r + 1) == f.s(r) + zreal(f.v(r))))
        ctx.fact(z3.Implies(z3.And(k >= 0, k < total.n), total.s(k + 1) == total.s(k) + zreal(total.v(k))))
        ctx.ensure("sum over units (step)", z3.Implies(
            z3.And(k < n, f.s(r) == total.s(k)), f.s(flt.rank(k + 1)) == total.s(k + 1)))
        ctx.fact(f.s(flt.rank(n)) == total.s(n))
    flt.unfold(n - 1)
    x = out[1]
    if x is None:
        ctx.fail("a score is returned", "None")
        return
    x = zreal(x)
    ctx.ensure("the score is the total over the units", x == total.s(n))
    best, bstep = v.fields["_best_score"], v.fields["_best_step_nr"]
    if isinstance(best, float):
        ctx.fail("a best score is known after a run", str(best))
        return
    better = TRUE if b0 is None else x > b0
    ctx.ensure("best score", zreal(best) == (x if b0 is None else z3.If(better, x, b0)))
    ctx.ensure("best step", zint(bstep) == z3.If(zbool(better), step, s0))
    sign = 1 if higher else -1
    sh = env.desc.shown
    if len(sh) == 2 and env.log.lines:
        ctx.ensure("shown score", zreal(sh[0]) == sign * x)
        ctx.ensure("shown best score", zreal(sh[1]) == sign * zreal(best))
        line = env.log.lines[-1]
        nums = [a for a in line if is_z3(a) and z3.is_int(a)]
        if len(nums) == 2:
            ctx.ensure("shown steps", z3.And(nums[0] == step, nums[1] == zint(bstep)))
    again = it.outcome(lambda: it.call_method(v, "run", step))
    ctx.ensure("a second run without a reset is rejected", again[0] == "exc")
    ctx.cover(how)
    ctx.require_cover("first", "restored", "later", "no score")


@unit("unit score", about="the score of a unit is its metric value, negated if lower is better")
def unit_score(ctx, it):
    higher = ctx.alt("higher_better", [True, False])
    kind = ctx.alt("value", ["real", "int", "missing"])
    env = Env(ctx, it, 1, higher=higher)
    x = ctx.real("x", inp=True) if kind == "real" else ctx.int("x", inp=True)
    d = {"other": ctx.real("other")}
    if kind != "missing":
        d["the_metric"] = x
    out = it.outcome(lambda: it.call_method(env.v, "_maybe_get_unit_score", PyDict(ctx, d)))
    ctx.ensure("no failure", out[0] == "ok")
    if kind == "missing":
        ctx.ensure("no score without the metric", out[1] is None)
    elif out[1] is None:
        ctx.fail("the metric is the score", "None")
    else:
        ctx.ensure("the metric is the score, higher is better", zreal(out[1]) == (zreal(x) if higher else -zreal(x)))
        ctx.cover("score")
    ctx.require_cover("score")


@unit("other processes", about="only the first process loads recorded scores and keeps a best score")
def others(ctx, it):
    n = ctx.int("n", lo=1)
    env = Env(ctx, it, n, rank=ctx.int("rank", lo=1))
    env.unit_contract()
    env.step = ctx.int("step", lo=0)
    out = it.outcome(lambda: it.call_method(env.v, "run", env.step))
    ctx.ensure("no failure", out[0] == "ok")
    ctx.ensure("recorded scores are not loaded", env.mgr.asked == 0)
    ctx.cover("ran")
    ctx.require_cover("ran")
