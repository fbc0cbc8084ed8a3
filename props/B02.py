import pyvc.tensor as tn
from pyvc.api import *
from pyvc.values import is_num

M = "fairseq2.datasets.batch"
SB, S2S = M + ":SequenceBatch", M + ":Seq2SeqBatch"
I = z3.IntSort()


class Lens:
    """n lengths for a width; bad is the first that does not fit (n: none), tot and rows are running totals of lengths and widths."""

    def __init__(self, ctx, name, packed, N, W, ok=False):
        self.ctx, self.W, self.packed, self.N = ctx, W, packed, N
        self.given = ok or ctx.alt(f"{name}seq_lens", ["none", "given"]) == "given"
        self.n = ctx.int(f"{name}n", lo=1 if ok else 0, inp=True) if self.given else (z3.IntVal(1) if packed else N)
        if ok and not packed:
            ctx.assume(self.n == N)
        f = ctx.func(f"{name}length", I, I)
        self.len = (lambda j: f(zint(j))) if self.given else (lambda j: W)
        self.tot, self.rows = tot, rows = ctx.func(f"{name}total", I, I), ctx.func(f"{name}rows", I, I)
        self.bad = bad = self.n if ok else ctx.int(f"{name}bad", lo=0)
        j = z3.Int("lj")
        fine = lambda j: z3.And(self.len(j) >= 1, z3.BoolVal(True) if packed else self.len(j) <= W)
        ctx.fact(z3.And(bad <= self.n, z3.Implies(bad < self.n, z3.Not(fine(bad))), tot(0) == 0, rows(0) == 0))
        ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < bad), fine(j)), patterns=[f(j)] if self.given else [tot(j)]))
        ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.And(tot(j + 1) == tot(j) + self.len(j), rows(j + 1) == rows(j) + W)), patterns=[tot(j)]))
        # by induction: the totals of positive lengths are at least their number
        ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= bad), tot(j) >= j), patterns=[tot(j)]))
        self.list = PyList(ctx, SymSeq(self.n, self.len, ("int",))) if self.given else None
        self.total = tot(self.n)
        self.padding = (W - self.total) if packed else rows(N) - self.total
        self.valid = z_and(W >= 1, self.n >= 1 if self.given else True, bad == self.n, self.total <= W if packed else self.n == N)
        if ok:
            ctx.assume(self.valid)


def cands(*lens):
    def gen(view):
        out, k, j = {}, zint(view.k), z3.Int("cj")
        for x, s in enumerate(lens):
            out[f"fitting so far {x}"] = k <= s.bad
            out[f"longer than one {x}"] = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), s.len(j) != 1))
            for name, cur in view.cur.items():
                if is_z3(cur) and z3.is_int(cur) or isinstance(cur, int) and not isinstance(cur, bool):
                    if not is_num(view.entry[name]):
                        continue
                    out[f"{name}: total {x}"] = zint(cur) == zint(view.entry[name]) + s.tot(k)
                    out[f"{name}: padding {x}"] = zint(cur) == zint(view.entry[name]) + s.rows(k) - s.tot(k)
                elif isinstance(cur, list) and not cur:
                    out[f"{name}: trimmed {x}"] = z3.BoolVal(True)
                elif isinstance(cur, SymSeq):
                    out[f"{name}: trimmed {x}"] = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(cur.length)), zint(cur.get(j)) == s.len(j) - 1))
        return out
    return gen


def summed(ctx):
    """tensor.sum(): one number for every content."""
    sums = {}

    def f(it, t, dim, keepdim):
        if dim is not None:
            raise Unsupported("a sum along a dimension")
        key = (id(t.store), id(t.store.fields["version"]), str(t.vmap), str(t.shape))
        if key not in sums:
            sums[key] = (ctx.int("masked", lo=0), t.store, t.store.fields["version"])
        v = sums[key][0]
        return tn.make(ctx, (), lambda: v, "int", None, t.device)

    ctx.memo["sum"] = f
    return lambda it, t: f(it, t, None, False).at()


def tensors(ctx, name, packed, dims, N, W):
    sh = ((W,) if packed else (N, W))
    sh = sh[:-1] if dims == "few" else sh + (ctx.int(f"{name}dim", lo=0),) if dims == "more" else sh
    return tn.symbolic(ctx, name, sh, "real", device=tn.DEVICE(ctx))


def mask(ctx, packed, N, W, ok=False):
    """(mask or None, does it fit)"""
    how = ctx.alt("target_mask", ["none", "fits"] if ok else ["none", "given", "more dims"])
    if how == "none":
        return None, True
    a, b = (N, W) if ok else (ctx.int("mask_a", lo=0), ctx.int("mask_b", lo=0))
    sh = (b,) if packed else (a, b)
    if how == "more dims":
        sh += (ctx.int("mask_c", lo=0),)
    return tn.symbolic(ctx, "mask", sh, "bool", device=tn.DEVICE(ctx)), z_and(how != "more dims", b == W, True if packed else a == N)


def rejected(ctx, it, out, valid):
    if out[0] == "exc":
        ctx.ensure("rejected with a value error", it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
        ctx.ensure("only what does not fit is rejected", z_not(valid))
        ctx.cover("rejected")
        return True
    ctx.ensure("what does not fit is rejected", valid)
    ctx.cover("accepted")
    return False


def same_lens(ctx, it, what, got, s, f=None):
    q = it.seq_of(got)
    x = ctx.int("x", lo=0)
    f = f or s.len
    ctx.ensure(f"{what}: lengths", z_and(zint(q.length) == s.n, z3.Implies(x < s.n, int_at(q)(x) == f(x))))


def seq_ctor(packed):
    def f(ctx, it):
        N, W = ctx.int("batch_size", lo=0, inp=True), ctx.int("width", lo=0, inp=True)
        dims = ctx.alt("dims", ["right", "few", "more"])
        s = Lens(ctx, "", packed, N, W)
        t = tensors(ctx, "seqs", packed, dims, N, W)
        m, fits = mask(ctx, packed, N, W)
        total = summed(ctx)
        ctx.loop_cands.append(cands(s))
        ex = Model(ctx, None)
        out = it.outcome(lambda: it.instantiate(it.cls(SB), [t, s.list], {"packed": packed, "target_mask": m, "example": ex}))
        if rejected(ctx, it, out, z_and(dims != "few", s.valid, fits)):
            return
        g = lambda a: it.getattr(out[1], a)
        ctx.ensure("the sequences are kept", g("seqs") is t and g("target_mask") is m and g("example") is ex)
        ctx.ensure("packed as asked", zbool(g("packed")) == packed)
        same_lens(ctx, it, "the batch", g("seq_lens"), s)
        ctx.ensure("elements are the total of the lengths", zint(g("num_elements")) == s.total)
        ctx.ensure("examples are the sequences", zint(g("num_examples")) == s.n)
        ctx.ensure("padding is the rest", zint(g("padding")) == s.padding)
        ctx.ensure("target elements are the unmasked positions, or all elements", zint(g("num_target_elements")) == (s.total if m is None else total(it, m)))
        ctx.ensure("the batch size is the first dimension, or one if packed", zint(g("batch_size")) == (1 if packed else N))
        ctx.require_cover("rejected", "accepted")
    return f


def s2s_ctor(packed):
    def f(ctx, it):
        N, N2, W, W2 = (ctx.int(n, lo=0, inp=True) for n in ("source_size", "target_size", "source_width", "target_width"))
        dims = ctx.alt("dims", ["right", "source", "target"])
        s, q = Lens(ctx, "source_", packed, N, W), Lens(ctx, "target_", packed, N2, W2)
        t, u = tensors(ctx, "source", packed, "few" if dims == "source" else "more", N, W), tensors(ctx, "target", packed, "few" if dims == "target" else "right", N2, W2)
        m, fits = mask(ctx, packed, N2, W2)
        total = summed(ctx)
        ctx.loop_cands.append(cands(s, q))
        ex = Model(ctx, None)
        out = it.outcome(lambda: it.instantiate(it.cls(S2S), [t, s.list, u, q.list], {"packed": packed, "target_mask": m, "example": ex}))
        if rejected(ctx, it, out, z_and(dims == "right", s.valid, q.valid, fits, s.n == q.n if packed else N == N2)):
            return
        g = lambda a: it.getattr(out[1], a)
        ctx.ensure("the sequences are kept", g("source_seqs") is t and g("target_seqs") is u and g("target_mask") is m and g("example") is ex)
        ctx.ensure("packed as asked", zbool(g("packed")) == packed)
        same_lens(ctx, it, "source", g("source_seq_lens"), s)
        same_lens(ctx, it, "target", g("target_seq_lens"), q)
        ctx.ensure("source elements are the total of their lengths", zint(g("num_source_elements")) == s.total)
        ctx.ensure("elements are the total of all lengths", zint(g("num_elements")) == s.total + q.total)
        ctx.ensure("examples are the sequences", zint(g("num_examples")) == s.n)
        ctx.ensure("padding is the rest of both", zint(g("padding")) == s.padding + q.padding)
        ctx.ensure("target elements are the unmasked positions, or all target elements",
                   zint(g("num_target_elements")) == (q.total if m is None else total(it, m)))
        ctx.ensure("the batch size is the first dimension, or one if packed", zint(g("batch_size")) == (1 if packed else N))
        ctx.require_cover("rejected", "accepted")
    return f


def shifted(ctx, what, t, of, packed, by):
    """t is a tensor without its last (by=0) or first (by=1) position along the sequences"""
    a, b = ctx.int("row", lo=0), ctx.int("column", lo=0)
    ax = 0 if packed else 1
    ctx.ensure(f"{what}: one position less", z_and(len(t.shape) == len(of.shape), *[zint(t.shape[d]) == (of.shape[d] - 1 if d == ax else of.shape[d])
                                                                           for d in range(len(of.shape))]))
    idx = (b,) if packed else (a, b)
    src = (b + by,) if packed else (a, b + by)
    if t.kind == "bool":
        eq = zbool(t.at(*idx)) == zbool(of.at(*src))
    else:
        eq = t.at(*idx) == of.at(*src)
    ctx.ensure(f"{what}: without the {'first' if by else 'last'} position", z3.Implies(z_and(*[z3.And(i < n) for i, n in zip(idx, t.shape)]), eq))


def split(packed, s2s):
    def f(ctx, it):
        N, W = ctx.int("batch_size", lo=1, inp=True), ctx.int("width", lo=1, inp=True)
        s = Lens(ctx, "", packed, N, W, ok=True)
        t = tensors(ctx, "seqs", packed, "right", N, W)
        m, _ = mask(ctx, packed, N, W, ok=True)
        summed(ctx)
        ex = Model(ctx, None)
        ctx.loop_cands.append(cands(s) if not s2s else None)
        if s2s:
            W2 = ctx.int("source_width", lo=1, inp=True)
            q = Lens(ctx, "source_", packed, N, W2, ok=True)
            if packed:
                ctx.assume(q.n == s.n)
            src = tensors(ctx, "source", packed, "right", N, W2)
            ctx.loop_cands[-1] = cands(q, s)
            out = it.outcome(lambda: it.instantiate(it.cls(S2S), [src, q.list, t, s.list], {"packed": packed, "target_mask": m, "example": ex}))
        else:
            out = it.outcome(lambda: it.instantiate(it.cls(SB), [t, s.list], {"packed": packed, "target_mask": m, "example": ex}))
        if out[0] != "ok":
            raise Unsupported("no batch")
        made = []
        names = {SB: ("seqs", "seq_lens"), S2S: ("source_seqs", "source_seq_lens", "target_seqs", "target_seq_lens")}
        for c in (SB, S2S):
            def new(it, a, k, c=c):
                args = dict(zip(names[c], a), **k)
                args["class"], r = c, Model(ctx, None)
                made.append((args, r))
                return r
            ctx.class_models[c] = new
        lens0 = s.list.content
        out = it.outcome(lambda: it.call_method(out[1], "as_auto_regressive"))
        ctx.ensure("the batch itself is left as it is", s.list.content is lens0)
        j = z3.Int("sj")
        last = s.len(s.n - 1)
        short = z3.And(s.n == 1, last == 1) if packed else z3.Exists([j], z3.And(j >= 0, j < s.n, s.len(j) == 1))
        if out[0] == "exc":
            ctx.ensure("rejected with an operation error", it.subclass(out[1].obj.cls, it.cls("fairseq2.error:InvalidOperationError")))
            ctx.ensure("only sequences of length one cannot be split", short)
            ctx.cover("rejected")
            return
        ctx.ensure("sequences of length one cannot be split", z3.Not(short))
        ctx.cover("split")
        parts = it.concrete_items(out[1])
        ctx.ensure("an input and a target batch", len(parts) == 2 and len(made) == 2 and {id(p) for p in parts} == {id(r) for _, r in made})
        if len(made) != 2:
            return
        by = {id(r): a for a, r in made}
        a, b = by[id(parts[0])], by[id(parts[1])]
        ctx.ensure("of their classes", a["class"] == (S2S if s2s else SB) and b["class"] == SB)
        if s2s:
            ctx.ensure("the source is kept", a["source_seqs"] is src)
            qs = it.seq_of(a["source_seq_lens"])
            x = ctx.int("x", lo=0)
            ctx.ensure("the source lengths are kept, one per target sequence", z3.And(zint(qs.length) == it.seq_of(a["target_seq_lens"]).length, z3.Implies(
                x < zint(qs.length), int_at(qs)(x) == q.len(x))))
        ctx.ensure("the example goes with the input", a.get("example") is ex)
        ctx.ensure("the input has no target mask", a.get("target_mask") is None)
        x = ctx.int("x", lo=0)
        for what, p, pre, k in (("input", a, "target_" if s2s else "", 0), ("target", b, "", 1)):
            ctx.ensure(f"{what}: packed as the batch", zbool(p.get("packed", False)) == packed)
            shifted(ctx, what, p[pre + "seqs"], t, packed, k)
            ls = it.seq_of(p[pre + "seq_lens"])
            # the constructor's preconditions: positive lengths that fit (packed: their total is one less)
            ctx.ensure(f"{what}: lengths that fit", z3.And(zint(ls.length) >= 1, z3.Implies(x < zint(ls.length), int_at(ls)(x) >= 1), W >= 2,
                                                          s.total - 1 <= W - 1 if packed else z3.Implies(x < zint(ls.length), int_at(ls)(x) <= W - 1)))
            if packed:
                cut = last == 1
                ctx.ensure(f"{what}: the last sequence is one shorter, or gone", z3.And(zint(ls.length) == z3.If(cut, s.n - 1, s.n), z3.Implies(
                    x < zint(ls.length), zint(int_at(ls)(x)) == z3.If(x == s.n - 1, s.len(x) - 1, s.len(x)))))
            else:
                ctx.ensure(f"{what}: every sequence is one shorter", z3.And(zint(ls.length) == s.n, z3.Implies(x < s.n, zint(int_at(ls)(x)) == s.len(x) - 1)))
        if m is None:
            ctx.ensure("no mask of its own", b.get("target_mask") is None)
        else:
            ctx.ensure("the target batch keeps the mask", b.get("target_mask") is not None)
            if b.get("target_mask") is not None:
                shifted(ctx, "mask", b["target_mask"], m, packed, 1)
        ctx.require_cover("split", "rejected")
    return f


@unit("model inputs", about="the layouts handed to models are those of the batch's own tensors and lengths")
def inputs(ctx, it):
    made = []

    def of(i, b):
        made.append(b)
        return Model(ctx, None)

    ctx.contracts["fairseq2.nn.batch_layout:BatchLayout.of"] = of
    packed = ctx.bool("packed")
    t, u, l1, l2 = tn.symbolic(ctx, "a", (ctx.int("a", lo=1),), "real"), tn.symbolic(ctx, "b", (ctx.int("b", lo=1),), "real"), PyList(ctx, [1]), PyList(ctx, [1])
    ctx.assume(packed)
    which = ctx.alt("which", ["as_input", "as_source_input", "as_target_input"])
    if which == "as_input":
        o = it.instantiate(it.cls(SB), [t, l1], {"packed": True})
    else:
        o = it.instantiate(it.cls(S2S), [t, l1, u, l2], {"packed": True})
    want = (u, l2) if which == "as_target_input" else (t, l1)
    out = it.outcome(lambda: it.call_method(o, which))
    ctx.ensure("inputs are returned", out[0] == "ok" and len(made) == 1)
    if out[0] == "ok" and made:
        r = it.concrete_items(out[1])
        v = made[0]
        ctx.ensure("the batch's own tensor", r[0] is want[0] and v.get("batch") is want[0])
        ctx.ensure("the batch's own lengths", v.get("seq_lens") is want[1])
        ctx.ensure("packed as the batch", zbool(v.get("packed", False)))


for _p, _n in ((True, "packed"), (False, "padded")):
    unit(f"{_n} sequence batch", about="every shape, list of lengths and target mask", assumes=["tensor.sum of a mask counts its true entries"])(seq_ctor(_p))
    unit(f"{_n} sequence-to-sequence batch", about="every pair of shapes and lists of lengths, every target mask")(s2s_ctor(_p))
    unit(f"{_n} split", about="the input without the last and the target without the first position")(split(_p, False))
    unit(f"{_n} sequence-to-sequence split", about="the target side without the last and without the first position")(split(_p, True))
