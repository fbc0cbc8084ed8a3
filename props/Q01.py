import pyvc.tensor as tn
from pyvc.api import *
from pyvc.builtins_ import py_floordiv

AB = "fairseq2.models.transformer.attention_bias"
BL = "fairseq2.nn.batch_layout:BatchLayout"
I, R, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
REAL = "entries are exact reals or minus infinity"


def inf(c):
    return zbool(tn.xr(c).inf)


def finite(c, v):
    x = tn.xr(c)
    return z3.And(z3.Not(zbool(x.inf)), x.val == v)



def args(ctx, q, k):
    return [q, k, tn.DEVICE(ctx), Ext("torch.float32")]


def entry(ctx, t, n, dims):
    """An arbitrary entry of a tensor whose last two dimensions must be queries and keys."""
    ctx.ensure("one entry per query and key", z_and(len(t.shape) == len(dims), *[zint(a) == zint(b) for a, b in zip(t.shape, dims)]))
    if len(t.shape) != len(dims):
        return None
    x = [ctx.int(nm, lo=0, inp=True) for nm in n]
    for a, b in zip(x, dims):
        ctx.assume(a < zint(b))
    return x


@unit("identity", about="every number of queries and keys: nothing is masked", assumes=[REAL])
def identity(ctx, it):
    q, k = ctx.int("q_len", lo=1, inp=True), ctx.int("k_len", lo=1, inp=True)
    t = it.call_method(it.instantiate(it.cls(AB + ":IdentityBias"), [], {}), "create_bias_tensor", *args(ctx, q, k))
    x = entry(ctx, t, "ij", (q, k))
    if x:
        ctx.ensure("all pairs are permitted", finite(t.at(*x), 0))


def causal_ok(q, k, i, j, w):
    p = i + k - q
    return z3.And(j <= p, j > p - w if w is not None else True)


@unit("causal", about="every number of queries and keys, every window: exactly the keys up to the position of the query and within its window are permitted",
      assumes=[REAL])
def causal(ctx, it):
    q, k = ctx.int("q_len", lo=1, inp=True), ctx.int("k_len", lo=1, inp=True)
    w = ctx.int("window", lo=1, inp=True) if ctx.alt("window", ["none", "given"]) == "given" else None
    b = it.instantiate(it.cls(AB + ":CausalAttentionBias"), [], {"attn_window_len": w})
    t = it.call_method(b, "create_bias_tensor", *args(ctx, q, k))
    x = entry(ctx, t, "ij", (q, k))
    if x:
        ok = causal_ok(q, k, *x, w)
        ctx.ensure("keys after the query and before its window get minus infinity", z3.Implies(z3.Not(ok), inf(t.at(*x))))
        ctx.ensure("permitted keys are not biased", z3.Implies(ok, finite(t.at(*x), 0)))
        if w is not None:
            ctx.require_cover("outside", "inside")
            if ctx.branch(ok):
                ctx.cover("inside")
            else:
                ctx.cover("outside")


def chunk_ok(q, k, i, j, c):
    p = i + k - q
    return z3.And(j <= p, py_floordiv(j, c) == py_floordiv(p, c))


@unit("chunked", about="every number of queries and keys, every chunk size: exactly the earlier keys of the same chunk are permitted", assumes=[REAL])
def chunked(ctx, it):
    q, k, c = ctx.int("q_len", lo=1, inp=True), ctx.int("k_len", lo=1, inp=True), ctx.int("chunk", lo=1, inp=True)
    b = it.instantiate(it.cls(AB + ":ChunkedAttentionBias"), [c], {})
    out = it.outcome(lambda: it.call_method(b, "create_bias_tensor", *args(ctx, q, k)))
    ctx.require_cover("created")
    if out[0] == "exc":
        ctx.ensure("only queries without a key are rejected", q > k)
        return
    t = out[1]
    ctx.cover("created")
    x = entry(ctx, t, "ij", (q, k))
    if x:
        ok = chunk_ok(q, k, *x, c)
        ctx.ensure("keys after the query and in other chunks get minus infinity", z3.Implies(z3.Not(ok), inf(t.at(*x))))
        ctx.ensure("permitted keys are not biased", z3.Implies(ok, finite(t.at(*x), 0)))


@unit("alibi", about="every number of heads, queries and keys: causal, with a bias that is linear in the key position", assumes=[REAL, "powers are an uninterpreted function"])
def alibi(ctx, it):
    H, q, k = ctx.int("heads", lo=1, inp=True), ctx.int("q_len", lo=1, inp=True), ctx.int("k_len", lo=1, inp=True)
    pw = ctx.func("slope", I, R)

    def power(it, a, kw):
        e = a[1]
        if not isinstance(e, tn.Tensor) or isinstance(a[0], tn.Tensor):
            raise Unsupported("another power")
        g = e.reader()
        return tn.make(ctx, e.shape, lambda *i: pw(zint(g(*i))), "real", None, e.device)

    it.b.EXT_CALLS["torch.pow"] = power
    b = it.instantiate(it.cls(AB + ":ALiBiAttentionBias"), [H], {})
    t = it.call_method(b, "create_bias_tensor", *args(ctx, q, k))
    x = entry(ctx, t, "hij", (H, q, k))
    if x:
        h, i, j = x
        ok = causal_ok(q, k, i, j, None)
        ctx.ensure("keys after the query get minus infinity", z3.Implies(z3.Not(ok), inf(t.at(*x))))
        ctx.ensure("permitted keys are biased by their position and the slope of the head", z3.Implies(ok, finite(t.at(*x), z3.ToReal(j) * pw(h + 1))))


class Bias(Model):
    """Any bias: its entries depend on the numbers of queries and keys."""

    def __init__(self, ctx, heads):
        super().__init__(ctx, None)
        self.ctx_, self.heads = ctx, heads
        n = 5 if heads is not None else 4
        self.inf, self.val = ctx.func("bias_inf", *[I] * n, BS), ctx.func("bias", *[I] * n, R)

    def cell(self, q, k, *x):
        return tn.XR(self.inf(zint(q), zint(k), *[zint(i) for i in x]), self.val(zint(q), zint(k), *[zint(i) for i in x]))

    def getattr(self, ctx, name):
        if name == "create_bias_tensor":
            def create(it, a, kw):
                q, k = zint(a[0]), zint(a[1])
                ctx.ensure("biases are of some queries and keys", z3.And(q >= 1, k >= 1))
                shape = (q, k) if self.heads is None else (self.heads, q, k)
                return tn.make(ctx, shape, lambda *x: self.cell(q, k, *x), "xreal", Ext("torch.float32"), tn.DEVICE(ctx))
            return Native(create, name)
        return NotImplemented

    def find_method(self, name):
        return None


class Seqs:
    """n sequences of positive lengths one after another in a row of w positions; pos is in sequence own, or in the padding if own is n."""

    def __init__(self, ctx, name, n, w, pos):
        self.ctx, self.n, self.w, self.pos = ctx, n, w, pos
        self.len_, self.beg_ = ctx.func(f"{name}_len", I, I), ctx.func(f"{name}_beg", I, I)
        self.own = ctx.int(f"{name}_own", lo=0)
        ctx.fact(self.own <= n)
        ctx.fact(self.beg(z3.IntVal(0)) == 0)
        ctx.fact(z3.And(self.beg(n) <= w, pos >= self.beg(self.own), z3.Implies(self.own < n, z3.And(pos < self.beg(self.own + 1), self.len(self.own) >= 1))))

    def beg(self, x):
        x = z3.simplify(zint(x))
        o, n, b = self.own, self.n, self.beg_
        self.ctx.fact(z3.Implies(z3.And(x >= 0, x <= n), z3.And(b(x) >= 0, b(x) <= b(n), z3.Implies(x < n, b(x) < b(n)), z3.Implies(x <= o, b(x) <= b(o)), z3.Implies(z3.And(x > o, o < n), b(x) >= b(o + 1)))))
        return b(x)

    def len(self, x):
        x = zint(x)
        self.ctx.fact(z3.Implies(z3.And(x >= 0, x < self.n), z3.And(self.len_(x) >= 1, self.beg(x + 1) == self.beg(x) + self.len_(x))))
        return self.len_(x)

    def lens(self):
        return PyList(self.ctx, SymSeq(self.n, lambda j: self.len(j), ("int",)))


def block_cell(bias, q, k, i, j, head):
    """What an entry of the block bias must be, as (minus infinity, value, unconstrained)."""
    h = () if head is None else (head,)
    inside = z3.And(q.own < q.n, k.own == q.own)
    c = bias.cell(q.len(q.own), k.len(q.own), *h, i - q.beg(q.own), j - k.beg(q.own))
    return inside, c


def blocks(heads):
    def f(ctx, it):
        n, Q, K = ctx.int("n", lo=1, inp=True), ctx.int("q_width", lo=1, inp=True), ctx.int("k_width", lo=1, inp=True)
        i, j = ctx.int("i", lo=0), ctx.int("j", lo=0)
        ctx.assume(z3.And(i < Q, j < K))
        q, k = Seqs(ctx, "q", n, Q, i), Seqs(ctx, "k", n, K, j)
        H = ctx.int("heads", lo=1) if heads else None
        h = ctx.int("h", lo=0) if heads else None
        if heads:
            ctx.assume(h < H)
        bias = Bias(ctx, H)
        ctx.memo["no-pair-cands"] = True
        a = z3.Int("a")
        x0 = () if h is None else (h,)
        inside, c = block_cell(bias, q, k, i, j, h)

        def gen(view):
            out, kk = {}, zint(view.k)
            for name, v in view.cur.items():
                if isinstance(v, list) and not v:
                    for s, sn in ((q, "q"), (k, "k")):
                        out[f"{name}: ranges of {sn}"] = z3.BoolVal(True)
                    out[f"{name}: one each"] = kk == 0
                elif isinstance(v, SymSeq) and v.kind and v.kind[0] == "tuple":
                    out[f"{name}: one each"] = zint(v.length) == kk
                    e = lambda x: v.get(x)
                    for s, sn in ((q, "q"), (k, "k")):
                        out[f"{name}: ranges of {sn}"] = z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < zint(v.length)), z3.And(
                            zint(e(a)[0]) == s.beg_(a), zint(e(a)[1]) == s.beg_(a + 1))), patterns=app_pattern(zint(e(a)[0])) + app_pattern(zint(e(a)[1])))
                elif isinstance(v, int) and not isinstance(v, bool) or is_z3(v) and z3.is_int(v):
                    for s, sn in ((q, "q"), (k, "k")):
                        out[f"{name}: begin of {sn}"] = zint(v) == s.beg(kk)
                        out[f"{name}: begin of {sn}, then the end"] = zint(v) == z3.If(kk <= n, s.beg_(kk), s.w)
            for name, t in view.frame.vars.items():
                if isinstance(t, tn.Tensor) and len(t.shape) in (2, 2 + len(x0)):
                    xs = x0 if len(t.shape) == 2 + len(x0) else ()
                    v = tn.xr(t.at(*xs, i, j))
                    if heads:
                        out[f"{name}: heads from the first block on"] = kk > 0 if xs else kk == 0
                    q.len(kk), k.len(kk), q.beg(kk), k.beg(kk)
                    done = z3.And(inside, q.own < kk)
                    out[f"{name}: blocks so far"] = z3.If(done, z3.And(zbool(v.inf) == zbool(c.inf), z3.Or(zbool(v.inf), v.val == c.val)),
                                                         z3.Implies(z3.Or(kk <= n, q.own < n), zbool(v.inf)))
                    out[f"{name}: padding queries have a key"] = z3.Implies(z3.And(q.own == n, kk > n), z3.Not(z3.And(*[inf(t.at(*xs, i, y)) for y in (z3.IntVal(0), K - 1)])))
            return out

        ctx.loop_cands.append(gen)
        if heads:
            ctx.elem_makers["tensor"] = lambda ctx: tn.symbolic(ctx, "tensor", (H, Q, K), "xreal", device=tn.DEVICE(ctx))
        ctx.require_cover("done")
        t = it.call_func(AB + ":_create_block_bias_tensor", bias, q.lens(), Q, k.lens(), K, tn.DEVICE(ctx), Ext("torch.float32"))
        dims = (Q, K) if H is None else (H, Q, K)
        ctx.ensure("one entry per query and key", z_and(len(t.shape) == len(dims), *[zint(a) == zint(b) for a, b in zip(t.shape, dims)]))
        if len(t.shape) != len(dims):
            return
        v = tn.xr(t.at(*x0, i, j))
        ctx.ensure("queries and keys of the same sequence get its bias", z3.Implies(inside, tn.cell_eq(v, c)))
        ctx.ensure("keys of other sequences and padding keys get minus infinity", z3.Implies(z3.And(q.own < n, k.own != q.own), zbool(v.inf)))
        ctx.ensure("padding queries have a key", z3.Implies(q.own == n, z3.Not(z3.And(inf(t.at(*x0, i, 0)), inf(t.at(*x0, i, K - 1))))))
        ctx.cover("done")
    return f


unit("blocks", about="any number of sequences of any length one after another, with padding: a query attends to its own sequence only, as the bias says",
     assumes=[REAL])(blocks(False))
unit("blocks with heads", about="the same for biases that depend on the head", assumes=[REAL])(blocks(True))


class Block:
    """The bias of one sequence; its identity is that of the lengths of its queries and keys."""

    def __init__(self, name, ndim):
        self.name, self.ndim = name, ndim

    def getattr(self, it, e, name):
        if name == "ndim":
            return self.ndim
        if name == "dim":
            return Native(lambda it, a, k: self.ndim, name)
        if name == "unsqueeze":
            def unsqueeze(it, a, k):
                if a[0] not in (0, -3) or self.ndim != 2:
                    raise Unsupported("another axis")
                return Entity(BLOCK3, zint(e.id))
            return Native(unsqueeze, name)
        raise Unsupported(f"{name} of a block")

    def getitem(self, it, e, i):
        if i is None and self.ndim == 2:
            return Entity(BLOCK3, zint(e.id))
        raise Unsupported("items of a block")


BLOCK2, BLOCK3 = Block("block", 2), Block("block with heads", 3)


def layout(ctx, it, name, n, packed):
    """A batch layout, with what its constructor guarantees of it (property B01)."""
    w, ln = ctx.int(f"{name}_width", lo=1, inp=True), ctx.func(f"{name}_len", I, I)
    bad = ctx.int(f"{name}_short", lo=0)
    padded = ctx.bool(f"{name}_padded")
    used = ctx.int(f"{name}_used", lo=0)
    ctx.fact(z3.And(bad <= n, used <= w))
    if packed:
        ctx.fact(padded == (used < w))
    else:
        ctx.fact(padded == (bad < n))
        ctx.fact(z3.Implies(bad < n, ln(bad) < w))

    def at(j):
        j = z3.simplify(zint(j))
        ok = z3.And(j >= 0, j < n)
        ctx.fact(z3.Implies(ok, z3.And(ln(j) >= 1, ln(j) <= w)))
        if packed:
            ctx.fact(z3.Implies(z3.And(ok, n == 1), used == ln(j)))
        else:
            ctx.fact(z3.Implies(z3.And(ok, bad == n), ln(j) == w))
        return ln(j)

    lo, hi = ctx.int(f"{name}_min", lo=0), ctx.int(f"{name}_max", lo=0)
    b, c = ctx.int("least", lo=0), ctx.int("most", lo=0)
    ctx.fact(z3.Implies(n > 0, z3.And(b < n, c < n, lo == at(b), hi == at(c))))

    def seen(j):
        r = at(j)
        ctx.fact(z3.Implies(z3.And(zint(j) >= 0, zint(j) < n), z3.And(lo <= r, r <= hi)))
        return r

    o = it.new(BL, _width=w, _seq_lens=PyList(ctx, SymSeq(n, seen, ("int",))), _packed=packed, _padded=padded, _min_seq_len=lo, _max_seq_len=hi)
    o.w, o.ln, o.pad, o.raw = w, seen, padded, ln
    return o


@unit("materialized bias", about="every pair of layouts: the bias of the whole batch if no query or key is padding, otherwise that of every sequence by itself")
def materialize(ctx, it):
    qp, kp = (ctx.alt(f"{s} packed", [False, True]) for s in "qk")
    nq, nk = ctx.int("num_q", lo=0, inp=True), ctx.int("num_k", lo=0, inp=True)
    ql, kl = layout(ctx, it, "q", nq, qp), layout(ctx, it, "k", nk, kp)
    B = BLOCK2 if ctx.alt("dims", [2, 3]) == 2 else BLOCK3
    blk = ctx.func("block", I, I, I)
    bias, whole, stacks, got = Model(ctx, None), [], [], []

    def block(it, b):
        ctx.ensure("blocks are of the bias and of the width of the batch", z3.And(z3.BoolVal(b["bias"] is bias), zint(b["q_len"]) == ql.w, zint(b["k_len"]) == kl.w))
        qs, ks = it.seq_of(b["q_seq_lens"]), it.seq_of(b["k_seq_lens"])
        if qp:
            got.append((qs, ks))
            return Entity(B, ctx.int("packed_block"))
        ctx.ensure("one sequence at a time", z3.And(zint(qs.length) == 1, zint(ks.length) == 1))
        return Entity(B, blk(zint(qs.get(z3.IntVal(0))), zint(ks.get(z3.IntVal(0)))))

    def create(it, a, k):
        whole.append([zint(x) for x in a[:2]])
        return Model(ctx, None)

    bias.find_method = lambda name: None
    bias.getattr = lambda ctx, name: Native(create, name) if name == "create_bias_tensor" else NotImplemented

    def stack(it, a, k):
        if k.get("dim", 0) != 0 or len(a) > 1 and a[1] != 0:
            raise Unsupported("stack along another axis")
        stacks.append(it.seq_of(a[0]))
        return Model(ctx, None)

    it.b.EXT_CALLS["torch.stack"] = stack
    ctx.contracts[AB + ":_create_block_bias_tensor"] = block
    ctx.memo["no-pair-cands"] = True
    a = z3.Int("a")

    def gen(view):
        out = {}
        for n, v in view.cur.items():
            if isinstance(v, list) and not v:
                out[f"{n}: one each"] = zint(view.k) == 0
                out[f"{n}: blocks"] = z3.BoolVal(True)
            elif isinstance(v, SymSeq) and v.kind and v.kind[0] == "ent":
                out[f"{n}: one each"] = zint(v.length) == zint(view.k)
                e = zint(v.get(a).id)
                ql.ln(zint(view.k)), kl.ln(zint(view.k))
                out[f"{n}: blocks"] = z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < zint(v.length)), e == blk(ql.raw(a), kl.raw(a))), patterns=app_pattern(e))
        return out

    ctx.loop_cands.append(gen)
    out = it.outcome(lambda: it.call_func(AB + ":materialize_attention_bias", bias, ql, kl, tn.DEVICE(ctx), Ext("torch.float32")))
    if out[0] == "exc":
        ctx.ensure("only layouts that do not fit together are rejected", z3.Or(z3.BoolVal(qp != kp), nq != nk))
        ctx.ensure("as a value error", it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
        return
    ctx.ensure("layouts that do not fit together are rejected", z3.And(z3.BoolVal(qp == kp), nq == nk))
    r = out[1]
    if qp:
        if got:
            qs, ks = got[0]
            x = ctx.int("x", lo=0)
            ctx.assume(x < nq)
            ctx.ensure("the sequences of the batch", z3.And(zint(qs.length) == nq, zint(ks.length) == nq, zint(qs.get(x)) == ql.ln(x), zint(ks.get(x)) == kl.ln(x)))
        else:
            ctx.ensure("packed sequences are masked block by block", nq == 0)
        return
    if whole:
        ctx.ensure("a single bias only if there is no padding", z3.And(z3.Not(ql.pad), z3.Not(kl.pad), whole[0][0] == ql.w, whole[0][1] == kl.w))
        return
    if stacks:
        s = stacks[0]
        x = ctx.int("x", lo=0)
        ctx.ensure("one bias per sequence", zint(s.length) == nq)
        ctx.assume(x < nq)
        e = s.get(x)
        ctx.ensure("biases have a head dimension", isinstance(e, Entity) and e.model is BLOCK3)
        ctx.ensure("the bias of the sequence", zint(e.id) == blk(ql.ln(x), kl.ln(x)) if isinstance(e, Entity) else False)
        return
    ctx.ensure("no bias only for no sequences", nq == 0)


class Cache(Model):
    """The attention bias cache of a forward pass."""

    def __init__(self, ctx):
        super().__init__(ctx, None)
        self.hit, self.sets = ctx.bool("cached"), []
        self.value = Model(ctx, None)

    def m_maybe_get(self, ctx, bias, impl, kls=None):
        return self.value if ctx.branch(self.hit) else None

    def m_set(self, ctx, bias, impl, value):
        self.sets.append((bias, value))


@unit("omitted bias", about="every bias and pair of layouts: the bias is omitted only if every query may attend to every key")
def omitted(ctx, it):
    packed = ctx.alt("packed", [False, True])
    n = ctx.int("n", lo=1, inp=True)
    ql, kl = layout(ctx, it, "q", n, packed), layout(ctx, it, "k", n, packed)
    kind = ctx.alt("bias", ["identity", "causal", "windowed", "chunked", "alibi"])
    w = ctx.int("window", lo=1, inp=True)
    cls, a, k = {"identity": ("IdentityBias", [], {}), "causal": ("CausalAttentionBias", [], {}), "windowed": ("CausalAttentionBias", [], {"attn_window_len": w}),
                 "chunked": ("ChunkedAttentionBias", [w], {}), "alibi": ("ALiBiAttentionBias", [w], {})}[kind]
    bias = it.instantiate(it.cls(f"{AB}:{cls}"), a, k)
    made = []

    def mat(it, b):
        ctx.ensure("the bias of these layouts", b["bias"] is bias and b["q_layout"] is ql and b["k_layout"] is kl)
        made.append(Model(ctx, None))
        return made[-1]

    ctx.contracts[AB + ":materialize_attention_bias"] = mat
    cache = Cache(ctx)
    q = tn.symbolic(ctx, "q", tuple(ctx.int(f"d{x}", lo=1) for x in range(4)), "real", dtype=Ext("torch.float32"), device=tn.DEVICE(ctx))
    r = it.call_func(AB + ":maybe_get_attention_bias_tensor", bias, q, ql, kl, cache)
    if r is None:
        s, i, j = ctx.int("sequence", lo=0), ctx.int("i", lo=0, inp=True), ctx.int("j", lo=0, inp=True)
        ctx.assume(z3.And(s < n, i < ql.ln(s), j < kl.w))
        x, y = ql.ln(s), kl.ln(s)
        if packed:
            ctx.ensure("packed sequences are masked from one another", n == 1)
        ctx.ensure("padding keys are masked", j < y)
        ok = {"identity": True, "causal": causal_ok(x, y, i, j, None), "windowed": causal_ok(x, y, i, j, w), "chunked": chunk_ok(x, y, i, j, w), "alibi": False}[kind]
        ctx.ensure("only a bias that permits every key is omitted", z3.Implies(j < y, ok) if ok is not False else False)
        return
    if made:
        ctx.ensure("the bias is returned", r is made[0])
        ctx.ensure("what is cached is the bias", all(v is made[0] and b is bias for b, v in cache.sets))
        ctx.ensure("the cache is consulted first", z3.Not(cache.hit))
    else:
        ctx.ensure("a cached bias is returned", r is cache.value)


class Attention:
    """One call of attention, with everything external that decides which keys are attended to recorded."""

    def __init__(self, ctx, it, packed=False):
        self.ctx, self.it = ctx, it
        self.n, self.S, self.T, self.H, self.K, self.V = (ctx.int(x, lo=1, inp=True) for x in ("n", "q_width", "k_width", "heads", "head_dim", "v_dim"))
        dev = tn.DEVICE(ctx)
        self.ql, self.kl = layout(ctx, it, "q", self.n, packed), layout(ctx, it, "k", self.n, packed)
        lead = () if packed else (self.n,)
        self.lead = lead
        sh = lambda w, d: lead + (w, self.H, d)
        self.q, self.k, self.v = (tn.symbolic(ctx, nm, sh(l, d), "real", dtype=Ext("torch.float32"), device=dev)
                                  for nm, l, d in (("q", self.ql.w, self.K), ("k", self.kl.w, self.K), ("v", self.kl.w, self.V)))
        self.masks, self.calls = [], []
        self.none = ctx.bool("bias_is_omitted")

        def maybe(it, b):
            ctx.ensure("the bias of these queries and keys", b["bias"] is self.bias and b["q_layout"] is self.ql and b["k_layout"] is self.kl)
            if ctx.branch(self.none):
                self.masks.append(None)
            else:
                self.masks.append(tn.symbolic(ctx, "mask", (self.n, z3.IntVal(1), self.ql.w, self.kl.w), "xreal", dtype=Ext("torch.float32"), device=dev))
            return self.masks[-1]

        ctx.contracts[AB + ":maybe_get_attention_bias_tensor"] = maybe

    def run(self, cls, bias, **fields):
        self.bias = bias
        o = self.it.new(cls, bias=bias, training=self.ctx.bool("training"), dropout_p=z3.RealVal(0), **fields)
        return self.it.outcome(lambda: self.it.call_method(o, "forward", self.q, self.ql, self.k, self.kl, self.v, Cache(self.ctx)))

    def full(self):
        return z3.And(z3.Not(self.ql.pad), z3.Not(self.kl.pad))


def a_bias(ctx, it, names=("identity", "causal", "windowed", "other")):
    kind = ctx.alt("bias", list(names))
    w = ctx.int("window", lo=1, inp=True)
    if kind == "identity":
        return kind, it.instantiate(it.cls(AB + ":IdentityBias"), [], {}), None
    if kind == "causal":
        return kind, it.instantiate(it.cls(AB + ":CausalAttentionBias"), [], {}), None
    if kind == "windowed":
        return kind, it.instantiate(it.cls(AB + ":CausalAttentionBias"), [], {"attn_window_len": w}), w
    return kind, it.instantiate(it.cls(AB + ":ChunkedAttentionBias"), [w], {}), w


@unit("torch attention", about="every bias and pair of layouts: PyTorch's attention gets the materialized bias, or its own causal mask where that is the same",
      assumes=["torch.nn.functional.scaled_dot_product_attention adds attn_mask to the logits; is_causal masks keys after the query"])
def torch_sdpa(ctx, it):
    packed = ctx.alt("packed", [False, True])
    A = Attention(ctx, it, packed)
    kind, bias, w = a_bias(ctx, it)
    got = []

    def sdpa(it, a, k):
        names = ["query", "key", "value", "attn_mask", "dropout_p", "is_causal", "scale"]
        got.append({**dict(zip(names, a)), **k})
        g = got[-1]
        q, v = g["query"], g["value"]
        return tn.make(ctx, q.shape[:-1] + v.shape[-1:], tn.arbitrary(ctx, "attended", len(q.shape), "real"), "real", None, q.device)

    it.b.EXT_CALLS["torch.nn.functional.scaled_dot_product_attention"] = sdpa
    out = A.run("fairseq2.models.transformer.sdpa.torch:TorchSDPA", bias, scale=None)
    ctx.ensure("attention is computed", out[0] == "ok" and len(got) == 1)
    if out[0] != "ok" or len(got) != 1:
        return
    g = got[0]
    mask, own = g.get("attn_mask"), g.get("is_causal", False)
    own = zbool(own)
    if mask is None:
        if A.masks:
            ctx.ensure("the bias is used", A.masks[0] is None)
            ctx.ensure("no other mask is used", z3.Not(own))
        else:
            ctx.ensure("PyTorch's causal mask only where it is the bias",
                       z3.And(own, z3.BoolVal(kind == "causal" and not packed), A.full(), A.ql.w == A.kl.w))
    else:
        ctx.ensure("the bias is used", bool(A.masks) and mask is A.masks[0])
        ctx.ensure("no other mask is used", z3.Not(own))
    x = [ctx.int(nm, lo=0) for nm in "bhsd"][-len(A.q.shape):]
    h, s, d = x[-3:]
    lead = x[:-3]
    for t, o, nm in ((g["query"], A.q, "queries"), (g["key"], A.k, "keys"), (g["value"], A.v, "values")):
        ctx.ensure(f"{nm} of each head", z_and(len(t.shape) == len(o.shape), tn.cell_eq(t.at(*lead, h, s, d), o.at(*lead, s, h, d)) if len(t.shape) == len(o.shape) else False))


def dots(ctx, it, log):
    """Contracts of the matrix product, softmax and dropout: results are uninterpreted, operands are recorded."""
    def result(shape, name, a):
        r = tn.make(ctx, shape, tn.arbitrary(ctx, name, len(shape), "real"), "real", Ext("torch.float32"), a.device)
        return r

    def matmul(it, a, k):
        x, y = a[:2]
        ctx.ensure("matrix products are of matching shapes", z3.And(zint(x.shape[-1]) == zint(y.shape[-2])))
        r = result(x.shape[:-1] + y.shape[-1:], "product", x)
        log.append(("matmul", x, y, r))
        return r

    def soft(it, a, k):
        d = k.get("dim", a[1] if len(a) > 1 else None)
        ctx.ensure("weights are normalized over the keys", d == -1 or d == len(a[0].shape) - 1)
        r = result(a[0].shape, "weights", a[0])
        log.append(("softmax", a[0], None, r))
        return r

    def drop(it, a, k):
        r = result(a[0].shape, "dropped", a[0])
        log.append(("dropout", a[0], None, r))
        return r

    for n, f in (("torch.matmul", matmul), ("torch.nn.functional.softmax", soft), ("torch.softmax", soft), ("torch.nn.functional.dropout", drop), ("torch.dropout", drop)):
        it.b.EXT_CALLS[n] = f


@unit("naive attention", about="every bias and pair of layouts: the bias is added to the scaled logits before the softmax over the keys, whose weights weigh the values",
      assumes=["torch.matmul, softmax and dropout: results uninterpreted, operands checked", REAL])
def naive(ctx, it):
    A = Attention(ctx, it)
    kind, bias, w = a_bias(ctx, it, ("identity", "windowed"))
    log = []
    dots(ctx, it, log)
    scale = None if ctx.alt("scale", ["default", "given"]) == "default" else ctx.real("scale")
    out = A.run("fairseq2.models.transformer.sdpa.naive:NaiveSDPA", bias, scale=scale)
    ok = out[0] == "ok" and [x[0] for x in log] == ["matmul", "softmax", "matmul"]
    ctx.ensure("attention is a weighted sum of values", ok)
    if not ok:
        return
    (_, x, y, r), (_, sm, _, wt), (_, w2, v2, r2) = log
    b, h, s, t, d = (ctx.int(nm, lo=0) for nm in ("b", "h", "s", "t", "d"))
    ctx.ensure("logits are products of queries and keys", z_and(tn.cell_eq(x.at(b, h, s, d), A.q.at(b, s, h, d)), tn.cell_eq(y.at(b, h, d, t), A.k.at(b, t, h, d))))
    ctx.ensure("values are weighed", z_and(tn.cell_eq(w2.at(b, h, s, t), wt.at(b, h, s, t)), tn.cell_eq(v2.at(b, h, t, d), A.v.at(b, t, h, d))))
    c = tn.xr(sm.at(b, h, s, t))
    ctx.ensure("the bias is consulted once", len(A.masks) == 1)
    m = A.masks[0] if A.masks else None
    if m is None:
        ctx.ensure("nothing else is masked", z3.Not(zbool(c.inf)))
    else:
        e = tn.xr(m.at(b, 0, s, t))
        ctx.ensure("minus infinity exactly where the bias is", zbool(c.inf) == zbool(e.inf))
        if scale is not None:
            ctx.ensure("the bias is added to the scaled logits", z3.Implies(z3.Not(zbool(e.inf)), c.val == zreal(r.at(b, h, s, t)) * scale + e.val))
    a, wts = out[1]
    ctx.ensure("outputs by position and head", tn.cell_eq(a.at(b, s, h, d), r2.at(b, h, s, d)))


def flash(mod, cls, has, fns):
    def f(ctx, it):
        packed = ctx.alt("packed", [False, True])
        A = Attention(ctx, it, packed)
        kind, bias, w = a_bias(ctx, it)
        got = []

        def attn(name):
            def call(it, a, k):
                got.append((name, k))
                return Model(ctx, None)
            return call

        m = it.world._mod(mod)
        it.globals_memo[(mod, has)] = True
        for n in fns:
            it.globals_memo[(mod, n)] = Native(lambda it, a, k, n=n: attn(n)(it, a, k), n)
        it.b.EXT_CALLS["torch.is_autocast_enabled"] = lambda it, a, k: False
        for l, nm in ((A.ql, "q"), (A.kl, "k")):
            it.setattr(l, "_seq_begin_indices_pt", Model(ctx, None))
        out = A.run(f"{mod}:{cls}", bias)
        if out[0] == "exc":
            ctx.ensure("only what is not supported is rejected", z3.Or(A.ql.pad, A.kl.pad, z3.BoolVal(kind == "other")))
            return
        ctx.cover(f"{kind}, packed: {packed}")
        ctx.require_cover(*[f"{b}, packed: {p}" for b in ("identity", "causal", "windowed") for p in (False, True)])
        ctx.ensure("padding keys are not attended to", A.full())
        ctx.ensure("one attention", len(got) == 1)
        if len(got) != 1:
            return
        k = got[0][1]
        left, right = k["window_size"] if "window_size" in k else (k.get("lhs_window_size", -1), k.get("rhs_window_size", -1))
        ctx.ensure("other biases are rejected", kind != "other")
        ctx.ensure("causal exactly if the bias is", zbool(k.get("causal", False)) == (kind in ("causal", "windowed")))
        ctx.ensure("no key on the right is cut off", z3.Or(zint(right) < 0, z3.BoolVal(kind != "identity")))
        if kind == "windowed":
            ctx.ensure("the window has its length, the query included", zint(left) + 1 == w)
        else:
            ctx.ensure("no window", zint(left) < 0)
    return f


unit("flash attention 2", about="every bias and pair of layouts", assumes=["flash_attn: queries attend to window_size[0] keys before their own position, to none after it if causal"])(
    flash("fairseq2.models.transformer.sdpa.flash2", "Flash2SDPA", "_has_flash_attn_2", ["flash_attn_func", "flash_attn_varlen_func"]))
unit("flash attention 3", about="every bias and pair of layouts", assumes=["flash_attn_3: queries attend to lhs_window_size keys before their own position, to none after it if causal"])(
    flash("fairseq2.models.transformer.sdpa.flash3", "Flash3SDPA", "_has_flash_attn_3", ["flash_attn_3", "flash_attn_3_varlen"]))
