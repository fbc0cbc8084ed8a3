from pyvc.api import *
from pyvc.builtins_ import UDIV, UMOD

FN = "fairseq2.data.data_pipeline:create_bucket_sizes"


def pairs(cur):
    if isinstance(cur, list) and not cur:
        return 0, (lambda i: z3.IntVal(0)), (lambda i: z3.IntVal(0))
    if isinstance(cur, SymSeq) and cur.kind and cur.kind[0] == "tuple":
        f = lambda i: cur.get(z3.simplify(zint(i)))
        return cur.length, (lambda i: zint(f(i)[0])), (lambda i: zint(f(i)[1]))
    return None


class Budget:
    """fits(b, s): b sequences of length s are in the budget; the product itself stays folded away."""

    def __init__(self, ctx, M):
        I = z3.IntSort()
        self.ctx, self.M = ctx, M
        self.f = f = z3.Function("fits", I, I, z3.BoolSort())
        b, s, c, t = z3.Ints("fb fs fc ft")
        ctx.fact(z3.ForAll([b, s, c, t], z3.Implies(z3.And(f(b, s), c >= 0, t >= 0, c <= b, t <= s), f(c, t)),
                           patterns=[z3.MultiPattern(f(b, s), f(c, t))]))
        ctx.fact(z3.ForAll([b, s], f(b, s) == f(s, b), patterns=[f(b, s)]))
        ctx.memo["uf-mod"] = ctx.memo["no-pair-cands"] = True
        q, r = UDIV(M, s), UMOD(M, s)
        ctx.fact(z3.ForAll([s], z3.Implies(s >= 1, z3.And(f(q, s), z3.Not(f(q + 1, s)))), patterns=[q]))

    def __call__(self, b, s):
        return self.f(b, s)


def grows(fits, lo, hi):
    """A list of (number, length) pairs so far: every length gets the number that its budget allows, without gaps."""
    i, j = z3.Ints("gi gj")

    def gen(view):
        out, lists = {}, []
        ints = [(n, zint(v)) for n, v in view.cur.items()
                if is_z3(v) and z3.is_int(v) or isinstance(v, int) and not isinstance(v, bool)]
        for name, cur in view.cur.items():
            p = pairs(cur)
            if not p:
                continue
            n, b, s = zint(p[0]), p[1], p[2]
            last = z3.If(n == 0, lo - 1, s(n - 1))
            each = lambda f: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), f), patterns=app_pattern(s(i)) + app_pattern(b(i)))
            out[f"{name}: no longer than the longest"] = each(z3.And(s(i) >= lo, s(i) < hi))
            out[f"{name}: in the budget"] = each(z3.And(b(i) >= 1, fits(b(i), s(i))))
            out[f"{name}: first"] = z3.Implies(n > 0, z3.Not(fits(b(z3.IntVal(0)) + 1, lo)))
            out[f"{name}: no more fit"] = each(z3.Implies(i > 0, z3.Not(fits(b(i) + 1, s(i - 1) + 1))))
            out[f"{name}: no longer ones fit"] = each(z3.Not(fits(b(i), s(i) + 1)))
            out[f"{name}: ascending"] = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), s(i) < s(j)))
            for x, xv in ints:
                out[f"{x} beyond {name}"] = z3.Implies(n > 0, xv > s(n - 1))
                out[f"{x} fits no more than {name}"] = z3.And(z3.Implies(n == 0, z3.Not(fits(xv + 1, lo))),
                                                              z3.Implies(n > 0, z3.Not(fits(xv + 1, s(n - 1) + 1))))
        for x, xv in ints:
            for y, yv in ints:
                if x < y:
                    out[f"{x}*{y} in the budget"] = fits(xv, yv)
                if x != y:
                    out[f"no longer {x} for {y}"] = z3.Not(fits(xv + 1, yv))
        return out
    return gen


def crops(M, m, src):
    def gen(view):
        out = {}
        for name, cur in view.cur.items():
            p = pairs(cur)
            if p and view.seq is not None:
                n, b, s = p
                out[f"{name}: one per bucket"] = zint(n) == zint(view.k)
                i = z3.Int("ci")
                e = lambda i: view.seq.get(i)
                out[f"{name}: rounded"] = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(n)), z3.And(
                    s(i) == zint(e(i)[1]), b(i) == rounded(zint(e(i)[0]), m))))
        return out
    return gen


def rounded(b, m):
    return z3.If(z3.And(b > m, m > 1), b - UMOD(b, m), b)


@unit("buckets", about="every admissible length gets exactly the number of sequences its budget allows, in ascending buckets "
      "up to the longest; every other parameter set is rejected", timeout_ms=40000,
      assumes=["Python integers are unbounded"])
def buckets(ctx, it):
    M, lo, hi, m = (ctx.int(n, inp=True) for n in ("max_num_elements", "min_seq_len", "max_seq_len", "multiple_of"))
    one = ctx.alt("num_seqs_multiple_of", ["any", "default"]) == "default"
    if one:
        m = z3.IntVal(1)
    fits = Budget(ctx, M)
    ctx.loop_cands.append(grows(fits, lo, hi))
    ctx.fact(z3.Implies(M >= 1, z3.And(fits(M, 1), fits(1, M), z3.Not(fits(M + 1, 1)), z3.Not(fits(2, M)))))
    ctx.loop_cands.append(crops(M, m, None))
    kw = {"max_num_elements": M, "max_seq_len": hi, "min_seq_len": lo}
    if not one:
        kw["num_seqs_multiple_of"] = m
    out = it.outcome(lambda: it.call_func(FN, **kw))
    valid = z_and(lo >= 1, lo <= hi, hi <= M, m >= 1)
    if out[0] == "exc":
        ctx.ensure("rejected with a value error", it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
        ctx.ensure("only impossible parameters are rejected", z_not(z_and(valid, UMOD(M, hi) == 0)))
        ctx.cover("rejected")
        return
    ctx.ensure("impossible parameters are rejected", z_and(valid, UMOD(M, hi) == 0))
    ctx.cover("accepted")
    r = it.seq_of(out[1])
    n = zint(r.length)
    b, s = (lambda i: zint(r.get(i)[0])), (lambda i: zint(r.get(i)[1]))
    ctx.ensure("there is a bucket", n >= 1)
    ctx.ensure("the last bucket takes the longest sequences", s(n - 1) == hi)
    x = ctx.int("x", lo=0)
    if not ctx.branch(x < n):
        return
    ctx.ensure("no bucket is empty", b(x) >= 1)
    ctx.ensure("every bucket is in the budget", fits(b(x), s(x)))
    ctx.ensure("every bucket holds some admissible length", z_and(s(x) >= lo, s(x) <= hi))
    ctx.ensure("lengths ascend", z3.Implies(x + 1 < n, s(x) < s(x + 1)))
    ctx.branch(x == n - 1), ctx.branch(x == 0)
    L = ctx.int("length", inp=True)
    if ctx.branch(z_and(L >= lo, L <= s(x), z3.Or(x == 0, s(x - 1) < L))):
        q = ctx.int("q", lo=1)
        ctx.fact(z3.And(fits(q, L), z3.Not(fits(q + 1, L))))
        ctx.ensure("no more sequences of any length would fit", b(x) == rounded(q, m))
        ctx.ensure("a bucket is as long as its number of sequences allows", z3.Implies(z3.And(L == s(x), x < n - 1),
                                                                                       z3.Not(fits(q, L + 1))))
        ctx.cover("a length")
    ctx.require_cover("accepted", "rejected", "a length")
