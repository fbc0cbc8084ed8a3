import pyvc.tensor as tn
from pyvc.api import *

SP = "fairseq2.generation.step_processor"
I, BS = z3.IntSort(), z3.BoolSort()
TORCH = "torch: slicing, any, logical_not, masked_fill, where and indexed assignment by contract, entry by entry"


def banned_cell(c, lprob):
    """The cell is that of a token that may not be generated."""
    c = tn.xr(c)
    return zbool(c.inf) if lprob else z3.And(z3.Not(zbool(c.inf)), c.val == 0)


class Step:
    """N sequences of S tokens of a vocabulary of V, and the scores of their next tokens; (r, v) is one of the scores."""

    def __init__(self, ctx):
        self.N, self.S, self.V = ctx.int("batch_size", lo=1, inp=True), ctx.int("seq_len", lo=1, inp=True), ctx.int("vocab_size", lo=1, inp=True)
        self.seqs = tn.symbolic(ctx, "seqs", (self.N, self.S), "int", Ext("torch.int64"), tn.DEVICE(ctx))
        self.probs = tn.symbolic(ctx, "probs", (self.N, self.V), "xreal", Ext("torch.float32"), tn.DEVICE(ctx))
        self.tok, self.old = self.seqs.reader(), self.probs.reader()
        a, b = z3.Ints("ta tb")
        t = self.tok(a, b)
        ctx.fact(z3.ForAll([a, b], z3.And(t >= 0, t < self.V), patterns=[t]))
        self.r, self.v = ctx.int("row", lo=0), ctx.int("token", lo=0)
        ctx.assume(z3.And(self.r < self.N, self.v < self.V))
        self.lprob = ctx.alt("lprob", [False, True])
        ctx.roots.append(self.probs)

    def cell(self):
        return self.probs.at(self.r, self.v)

    def entry(self, banned):
        """The score (r, v) is minus infinity (zero) if banned, and what it was otherwise."""
        return z3.If(banned, banned_cell(self.cell(), self.lprob), tn.cell_eq(self.cell(), self.old(self.r, self.v)))

    def frame(self, ctx):
        i, j = ctx.int("fi", lo=0), ctx.int("fj", lo=0)
        ctx.assume(z3.And(i < self.N, j < self.S))
        ctx.ensure("the sequences are left as they are", self.seqs.at(i, j) == self.tok(i, j))


@unit("n-gram size", about="an n-gram size of zero is rejected, any positive one is accepted")
def size(ctx, it):
    g = ctx.int("ngram_size", lo=0, inp=True)
    out = it.outcome(lambda: it.instantiate(it.cls(SP + ":NGramRepeatBlockProcessor"), [g], {}))
    if out[0] == "exc":
        ctx.ensure("rejected with a value error", it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
        ctx.ensure("only zero is rejected", g == 0)
    else:
        ctx.ensure("zero is rejected", g != 0)


@unit("n-grams", about="any number and length of sequences, any n-gram size: exactly the tokens that complete an n-gram of the sequence are banned", assumes=[TORCH])
def ngrams(ctx, it):
    w = Step(ctx)
    g = ctx.int("ngram_size", lo=1, inp=True)
    tok, r, v, S = w.tok, w.r, w.v, w.S
    p = it.instantiate(it.cls(SP + ":NGramRepeatBlockProcessor"), [g], {})

    def completes(i):
        """Appending token v makes the last g tokens equal to those at position i."""
        j = z3.Int("nj")
        last = S - g + 1  # where the last g - 1 tokens begin
        return z3.And(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < g - 1), tok(r, i + j) == tok(r, last + j))), tok(r, i + g - 1) == v)

    # whether one of the n-grams at positions before k is completed: by recursion on k
    hit = ctx.func("some_before", I, BS)
    ctx.fact(z3.Not(hit(0)))

    def step(k):
        ctx.fact(z3.Implies(k >= 0, hit(k + 1) == z3.Or(hit(k), completes(k))))

    def gen(view):
        k = zint(view.k)
        step(k)
        return {"entry so far": w.entry(hit(k))}

    ctx.loop_cands.append(gen)
    count = S + 1 - g  # n-grams of the sequence begin at the positions before
    # with single tokens the n-grams before k are the tokens before k (by induction on k)
    q = z3.Int("q")
    ctx.fact(z3.Implies(g == 1, hit(S) == z3.Exists([q], z3.And(q >= 0, q < S, tok(r, q) == v))))
    it.call_method(p, "__call__", w.seqs, w.probs, w.lprob)
    ctx.ensure("a token is banned iff it completes an n-gram that occurs in the sequence, all other scores are kept",
               w.entry(z3.And(count > 0, hit(count))))
    w.frame(ctx)
    ctx.cover("done")


def banned_list(ctx):
    """B sequences; sequence b has len(b) tokens tok(b, j)."""
    B = ctx.int("banned", lo=0, inp=True)
    ln, tk = ctx.func("banned_len", I, I), ctx.func("banned_token", I, I, I)
    dev = tn.DEVICE(ctx)

    def get(b):
        b = zint(b)
        ctx.fact(ln(b) >= 0)
        return tn.make(ctx, (ln(b),), lambda j: tk(b, zint(j)), "int", Ext("torch.int64"), dev)

    return B, ln, tk, PyList(ctx, SymSeq(B, get, None))


@unit("banned list", about="any number of banned sequences of any length: aligned at their ends, with a mask over the positions before them", assumes=[TORCH])
def banned_ctor(ctx, it):
    B, ln, tk, seqs = banned_list(ctx)
    b0, j0 = ctx.int("b0", lo=0), ctx.int("j0")
    a, j = z3.Ints("ba bj")
    bad = ctx.int("bad", lo=0)  # the first empty sequence (B: none)
    ctx.fact(z3.And(bad <= B, z3.Implies(bad < B, ln(bad) == 0)))
    ctx.fact(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < bad), z3.And(ln(a) >= 1, ln(a) < sys_max)), patterns=[ln(a)]))
    import sys
    it.b.EXT_VALUES["sys.maxsize"] = sys.maxsize

    def gen(view):
        out, k = {"no empty sequence so far": zint(view.k) <= bad}, zint(view.k)
        for name, c in view.cur.items():
            if isinstance(c, (SymSeq, list)):
                if isinstance(c, list) and not c:
                    out[f"{name}: one each"] = k == 0
                    out[f"{name}: lengths"] = z3.BoolVal(True)
                    continue
                s = view.it.seq_of(PyList(None, c))
                out[f"{name}: one each"] = zint(s.length) == k
                out[f"{name}: lengths"] = z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < zint(s.length)), zint(s.get(a)) == ln(a)))
            elif is_z3(c) and z3.is_int(c) or isinstance(c, int) and not isinstance(c, bool):
                c = zint(c)
                out[f"{name}: most"] = z3.And(c >= 0, z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < k), ln(a) <= c), patterns=[ln(a)]))
                out[f"{name}: least"] = z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < k), ln(a) >= c), patterns=[ln(a)])
        me = view.frame.vars["self"]
        for name, t in me.fields.items():
            if isinstance(t, tn.Tensor) and len(t.shape) == 2:
                m = zint(t.shape[1])
                done = z3.And(b0 < k, j0 >= 0, j0 < m)
                if t.kind == "int":
                    out[f"{name}: rows"] = z3.Implies(z3.And(done, j0 >= m - ln(b0)), t.at(b0, j0) == tk(b0, j0 - (m - ln(b0))))
                else:
                    out[f"{name}: mask"] = z3.Implies(z3.And(b0 < B, j0 >= 0, j0 < m), zbool(t.at(b0, j0)) == z3.Not(z3.And(b0 < k, j0 >= m - ln(b0))))
        return out

    ctx.loop_cands.append(gen)
    out = it.outcome(lambda: it.instantiate(it.cls(SP + ":BannedSequenceProcessor"), [seqs], {}))
    if out[0] == "exc":
        ctx.ensure("rejected with a value error", it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
        ctx.ensure("only empty sequences are rejected", bad < B)
        ctx.cover("rejected")
        return
    ctx.ensure("empty sequences are rejected", bad == B)
    p = out[1]
    t, m = it.getattr(p, "_banned_seqs"), it.getattr(p, "_banned_mask")
    if t is None:
        ctx.ensure("nothing is kept only of an empty list", B == 0)
        ctx.cover("no sequence")
        return
    ctx.ensure("one row per sequence", zint(t.shape[0]) == B)
    M = zint(t.shape[1])
    ctx.assume(z3.And(b0 < B, j0 >= 0, j0 < M))
    ctx.ensure("every sequence fits", ln(b0) <= M)
    real = j0 >= M - ln(b0)
    ctx.ensure("the sequences end in the last column", z3.Implies(real, t.at(b0, j0) == tk(b0, j0 - (M - ln(b0)))))
    if m is None:
        ctx.ensure("no mask only if there is nothing to mask", real)
        ctx.cover("no mask")
    else:
        ctx.ensure("the mask has the shape of the rows", z3.And(zint(m.shape[0]) == B, zint(m.shape[1]) == M))
        ctx.ensure("exactly the positions before a sequence are masked", zbool(m.at(b0, j0)) == z3.Not(real))
        ctx.cover("mask")


import sys as _sys

sys_max = _sys.maxsize


@unit("banned sequences", about="any banned sequences, any step: exactly the last tokens of the banned sequences whose other tokens end the sequence are banned", assumes=[TORCH])
def banned_call(ctx, it):
    w = Step(ctx)
    B, M = ctx.int("banned", lo=1, inp=True), ctx.int("longest", lo=1, inp=True)
    ln = ctx.func("banned_len", I, I)
    dev = tn.DEVICE(ctx)
    rows = tn.symbolic(ctx, "banned_seqs", (B, M), "int", Ext("torch.int64"), dev)
    tb = rows.reader()
    a, c = z3.Ints("ca cb")
    ctx.fact(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < B), z3.And(ln(a) >= 1, ln(a) <= M)), patterns=[ln(a)]))
    real = lambda b, j: j >= M - ln(b)
    ctx.fact(z3.ForAll([a, c], z3.Implies(z3.And(a >= 0, a < B, c >= 0, c < M), z3.And(tb(a, c) >= 0, tb(a, c) < w.V)), patterns=[tb(a, c)]))
    if ctx.alt("mask", [False, True]):
        mask = tn.make(ctx, (B, M), lambda b, j: z3.Not(real(zint(b), zint(j))), "bool", Ext("torch.bool"), dev)
    else:
        mask = None
        ctx.fact(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < B), ln(a) == M), patterns=[ln(a)]))
    p = it.new(SP + ":BannedSequenceProcessor", _banned_seqs=rows, _banned_mask=mask)
    tok, r, S = w.tok, w.r, w.S
    b, j = z3.Ints("xb xj")

    def ends(b):
        """All tokens but the last of banned sequence b end sequence r, and v is its last token."""
        at = S - (M - 1) + j  # the position of the sequence next to column j
        return z3.And(tb(b, M - 1) == w.v, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < M - 1, real(b, j)), z3.And(at >= 0, tok(r, at) == tb(b, j)))))

    banned = z3.Exists([b], z3.And(b >= 0, b < B, ends(b)))
    it.call_method(p, "__call__", w.seqs, w.probs, w.lprob)
    x = ctx.int("witness", lo=0)
    ctx.ensure("the last token of a banned sequence is banned after its other tokens", z3.Implies(z3.And(x < B, ends(x)), banned_cell(w.cell(), w.lprob)))
    ctx.ensure("all other scores are kept", z3.Implies(z3.Not(banned), tn.cell_eq(w.cell(), w.old(w.r, w.v))))
    w.frame(ctx)
    ctx.cover("done")


@unit("nothing banned", about="without banned sequences the scores are left as they are")
def none(ctx, it):
    w = Step(ctx)
    p = it.instantiate(it.cls(SP + ":BannedSequenceProcessor"), [PyList(ctx, [])], {})
    it.call_method(p, "__call__", w.seqs, w.probs, w.lprob)
    ctx.ensure("all scores are kept", tn.cell_eq(w.cell(), w.old(w.r, w.v)))
    w.frame(ctx)
