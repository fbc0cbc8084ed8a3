import pyvc.tensor as tn
import pyvc.builtins_ as B
from pyvc.api import *

SG, BG = "fairseq2.generation.sampling.generator:", "fairseq2.generation.beam_search.generator:"
AL = "fairseq2.generation.beam_search.algo:"
I, R, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
TORCH = "torch: slicing, masks, where, gather, index_select, nonzero, softmax (any probabilities) by contract, entry by entry"


class Bag(Model):
    """The incremental state: counts its steps."""

    def m_increment_step_nr(self, ctx, value=1):
        return None

    def m_reorder(self, ctx, order):
        self.order = order

    def m_size_bytes(self, ctx):
        return ctx.int("bytes", lo=0)

    m_capacity_bytes = m_size_bytes


class Watch(Model):
    def m_start(self, ctx):
        pass

    m_stop = m_reset = m_start

    def m_get_elapsed_time(self, ctx):
        return ctx.real("elapsed")


class Layout(Model):
    def __init__(self, ctx, w):
        super().__init__(ctx, None)
        self.w = w

    def getattr(self, ctx, name):
        w = self.w
        if name == "min_seq_len":
            return w.lo_prompt
        if name == "max_seq_len":
            return w.mp
        if name == "padded":
            return w.padded
        if name == "packed":
            return False
        if name == "seq_lens_pt":
            return tn.make(ctx, (w.P,), lambda r: w.given_len(zint(r)), "int", None, tn.DEVICE(ctx))
        if name == "position_indices":
            return tn.make(ctx, (w.P, w.W), lambda r, j: z3.If(zint(j) < w.given_len(zint(r)), zint(j), -1), "int", None, tn.DEVICE(ctx))
        raise Unsupported(f"layout.{name}")


class Vocab(Model):
    def __init__(self, ctx, w):
        super().__init__(ctx, None, size=w.V, eos_idx=w.eos, pad_idx=w.pad, unk_idx=w.unk, bos_idx=None)


class Outputs(Model):
    """The finished hypotheses of the prompts."""

    def __init__(self, ctx, w):
        super().__init__(ctx, None)
        self.w = w

    def getitem(self, it, i):
        w = self.w
        it.ctx.ensure("a hypothesis belongs to an existing prompt", z3.And(zint(i) >= 0, zint(i) < w.P))
        return w.pile(it.ctx, i)


class Pile(Model):
    def __init__(self, ctx, w, i):
        super().__init__(ctx, None)
        self.w, self.i = w, i

    def m_append(self, ctx, h):
        self.w.appended.append((self.i, h))

    def py_len(self, it):
        return zint(self.w.had) + len(self.w.appended)


class World:
    """A generator operation in the middle of its work: N sequences, of which the first `t` tokens are there; row r is any of them."""

    def __init__(self, ctx, it, beam, where="step", config=None):
        self.ctx, self.it, self.beam = ctx, it, beam
        self.P, self.N, self.V = ctx.int("prompts", lo=1), ctx.int("rows", lo=1, inp=True), ctx.int("vocab_size", lo=2, inp=True)
        self.eos = ctx.int("eos", lo=0)
        ctx.assume(self.eos < self.V)
        self.pad = self.unk = None
        self.full = where != "step" or config[1]
        if where == "step" and self.full:
            for name in ("pad", "unk"):
                i = ctx.int(name, lo=0)
                ctx.assume(z3.And(i < self.V, i != self.eos))
                setattr(self, name, i)
            ctx.assume(self.pad != self.unk)
        self.padded = config[0] if config else ctx.alt("prompts", ["equal", "ragged"]) == "ragged"
        self.mp = ctx.int("max_prompt", lo=1, inp=True)
        self.lo_prompt = ctx.int("min_prompt", lo=1) if self.padded else self.mp
        self.W = ctx.int("width", lo=1)
        ctx.assume(z3.And(self.lo_prompt <= self.mp, self.mp <= self.W))
        self.min_gen, self.max_gen = ctx.int("min_gen_len", lo=1, inp=True), ctx.int("max_gen_len", lo=1, inp=True)
        self.max_seq = ctx.int("max_seq_len", lo=1, inp=True)
        ctx.assume(self.min_gen <= self.max_gen)
        self.least = z3.If(self.mp + self.min_gen < self.max_seq, self.mp + self.min_gen, self.max_seq)
        self.most = z3.If(self.mp + self.max_gen < self.max_seq, self.mp + self.max_gen, self.max_seq)
        self.given_len = ctx.func("given_len", I, I)
        self.n = ctx.int("num_gens" if not beam else "beam_size", lo=1, inp=True)
        self.echo = ctx.alt("echo", [False, True]) if where == "finish" else False
        self.scores = beam or self.full
        self.normalize = ctx.alt("normalize", [True, False]) if where == "finish" else True
        self.temperature = 1
        if self.full:
            self.temperature = ctx.real("temperature")
            ctx.assume(z3.And(self.temperature > 0, self.temperature != 1))
        self.unk_penalty, self.len_penalty = ctx.real("unk_penalty"), ctx.real("len_penalty")
        self.appended, self.had = [], ctx.int("had", lo=0)
        self.pile = lambda c, i: Pile(c, self, i)
        self.proc = None
        ctx.class_models["fairseq2.nn.incremental_state:IncrementalStateBag"] = lambda it, a, k: Bag(ctx)
        ctx.contracts["fairseq2.nn.batch_layout:BatchLayout.of"] = lambda it, b: Model(ctx)
        ctx.class_models["fairseq2.utils.stopwatch:Stopwatch"] = lambda it, a, k: Watch(ctx)

    def args(self, model, mid, procs):
        ctx = self.ctx
        tail = [self.min_gen, self.max_gen, self.max_seq, self.echo]
        tail += [] if self.beam else [self.scores]
        tail += [self.normalize, self.temperature, self.unk_penalty, self.len_penalty, None, None, PyList(ctx, procs), PyDict(ctx, [])]
        prompts = tn.symbolic(ctx, "prompts_given", (self.P, self.W), "int", Ext("torch.int64"), tn.DEVICE(ctx))
        return [model, Vocab(ctx, self), prompts, Layout(ctx, self), mid, self.n] + tail

    def build(self, model, mid, procs=()):
        """The real operation after its real constructor."""
        name = (BG + "_BeamSearchSequenceGeneratorOp") if self.beam else (SG + "_SamplingSequenceGeneratorOp")
        return self.it.outcome(lambda: self.it.instantiate(self.it.cls(name), self.args(model, mid, list(procs)), {}))

    def state(self, op, t):
        """Any state before step t."""
        ctx, it = self.ctx, self.it
        for f in ("_seqs", "_step_scores", "_prompt_indices", "_prompt_mask", "_prompt_lens", "_step_nr", "_output", "_state_bag"):
            if f not in op.fields:
                raise Unsupported("another state of the operation")
        dev, N = tn.DEVICE(ctx), self.N
        self.tok, self.len = ctx.func("tok", I, I, I), ctx.func("prompt_len", I, I)
        self.sc, self.pi = ctx.func("step_score", I, I, R), ctx.func("prompt_idx", I, I)
        a, b = z3.Ints("wa wb")
        ctx.fact(z3.ForAll([a, b], z3.And(self.tok(a, b) >= 0, self.tok(a, b) < self.V), patterns=[self.tok(a, b)]))
        ctx.fact(z3.ForAll([a], z3.And(self.len(a) >= self.lo_prompt, self.len(a) <= self.mp), patterns=[self.len(a)]))
        ctx.fact(z3.ForAll([a], z3.And(self.pi(a) >= 0, self.pi(a) < self.P), patterns=[self.pi(a)]))
        self.t = t
        new = {
            "_seqs": tn.make(ctx, (N, self.most), lambda r, j: self.tok(zint(r), zint(j)), "int", Ext("torch.int64"), dev),
            "_prompt_indices": tn.make(ctx, (N,), lambda r: self.pi(zint(r)), "int", Ext("torch.int64"), dev),
            "_step_nr": t, "_output": Outputs(ctx, self)}
        new["_step_scores"] = tn.make(ctx, (N, self.most), self.score_cell, self.score_kind, Ext("torch.float32"), dev) if self.scores else None
        if self.padded:
            new["_prompt_lens"] = tn.make(ctx, (N,), lambda r: self.len(zint(r)), "int", None, dev)
            new["_prompt_mask"] = tn.make(ctx, (N, self.W), lambda r, j: zint(j) < self.len(zint(r)), "bool", None, dev)
        for k, v in new.items():
            it.setattr(op, k, v)

    score_kind = "real"

    def score_cell(self, r, j):
        return self.sc(zint(r), zint(j))

    def in_prompt(self, r):
        """The token at step t of row r is still one of its prompt."""
        return self.t < self.len(zint(r)) if self.padded else z3.BoolVal(False)

    def any_row(self, name="row"):
        r = self.ctx.int(name, lo=0)
        self.ctx.assume(r < self.N)
        return r

    def pick_step(self):
        t = self.ctx.int("step", lo=1, inp=True)
        self.ctx.assume(z3.And(t >= self.lo_prompt, t < self.most, self.mp < self.max_seq))
        return t


class Decoder(Model):
    """Any logits for the given tokens."""

    def __init__(self, ctx, w):
        super().__init__(ctx, None)
        self.w, self.calls = w, []

    def find_method(self, name):
        return self.call if name == "__call__" else None

    def call(self, ctx, seqs, layout, state_bag=None):
        self.calls.append(seqs)
        return tn.symbolic(ctx, "logits", (seqs.shape[0], seqs.shape[1], self.w.V), "real", Ext("torch.float32"), tn.DEVICE(ctx))


def softmax_contract(it, w, log):
    """Any probabilities (log probabilities) for the logits, nothing negative (positive)."""
    def f(it, a, k):
        x = a[0]
        out = tn.symbolic(it.ctx, "model", x.shape, "xreal" if log else "real", Ext("torch.float32"), x.device)
        i, j, v = z3.Ints("pi pj pv")
        g = out.reader()
        if not log:
            it.ctx.fact(z3.ForAll([i, j, v], g(i, j, v) >= 0, patterns=[g(i, j, v)]))
        w.own = g
        return out

    it.b.EXT_CALLS["torch.nn.functional." + ("log_softmax" if log else "softmax")] = f
    it.b.EXT_CALLS["torch." + ("log_softmax" if log else "softmax")] = f


class Processor(Model):
    """A step processor: bans some tokens."""

    def __init__(self, ctx, w):
        super().__init__(ctx, None)
        self.w, self.called = w, 0

    def find_method(self, name):
        return self.call if name == "__call__" else None

    def call(self, ctx, seqs, probs, lprob=False):
        w = self.w
        self.called += 1
        r = w.r0
        ctx.ensure("processors see the tokens so far", z3.And(zint(seqs.shape[0]) == w.N, zint(seqs.shape[1]) == w.t))
        ctx.ensure("processors are told whether scores are log probabilities", zbool(lprob) == w.beam)
        ban, old = w.ban, probs.reader()
        probs.write(ctx, lambda i, v: tn.cell_ite(ban(zint(i), zint(v)), -tn.INF if w.beam else z3.RealVal(0), old(i, v)), "xreal" if w.beam else "real")


class DrawSampler(Model):
    """N01: an index of the vocabulary of positive probability for every row."""

    def __init__(self, ctx, w):
        super().__init__(ctx, None)
        self.w, self.calls = w, 0

    def m_sample(self, ctx, probs):
        w, g = self.w, probs.reader()
        self.calls += 1
        r, v, t = w.r0, w.v0, w.t
        ctx.ensure("every row is sampled over the vocabulary", z3.And(zint(probs.shape[0]) == w.N, zint(probs.shape[1]) == w.V))
        free, p = z3.Not(w.in_prompt(r)), w.own(r, z3.IntVal(0), v)
        ctx.ensure("no probability is negative", g(r, v) >= 0)
        if w.pad is not None:
            ctx.ensure("padding is never drawn", z3.Implies(free, g(r, w.pad) == 0))
        ctx.ensure("end-of-sequence is not drawn before the minimum length", z3.Implies(z3.And(free, t + 1 < w.least), g(r, w.eos) == 0))
        special = z3.Or(v == w.eos, w.ban(r, v), *[v == i for i in (w.pad, w.unk) if i is not None])
        ctx.ensure("other tokens keep their probability", z3.Implies(z3.And(free, z3.Not(special)), g(r, v) == p))
        ctx.ensure("end-of-sequence keeps its probability from the minimum length on", z3.Implies(z3.And(free, v == w.eos, t + 1 >= w.least, z3.Not(w.ban(r, v))), g(r, v) == p))
        ctx.ensure("banned tokens stay banned", z3.Implies(z3.And(free, w.ban(r, v)), g(r, v) == 0))
        if w.unk is not None:
            q = p - w.unk_penalty
            ctx.ensure("the unknown token is penalised", z3.Implies(z3.And(free, v == w.unk, z3.Not(w.ban(r, v))), g(r, v) == z3.If(q < 0, 0, q)))
        d, a = ctx.func("drawn", I, I), z3.Int("da")
        ctx.fact(z3.ForAll([a], z3.And(d(a) >= 0, d(a) < w.V), patterns=[d(a)]))
        # of positive probability
        ctx.fact(g(r, d(r)) > 0)
        w.drawn, w.handed = d, g
        return tn.make(ctx, (w.N,), lambda i: d(zint(i)), "int", Ext("torch.int64"), probs.device)


def note_hits(ctx):
    """The positions where masks hold, in order: no position twice."""
    hits = []

    def seen(h):
        j = z3.Int("nhj")
        if len(h.pos) == 1:
            ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < h.n), h.nth(h.pos[0](j)) == j), patterns=[h.pos[0](j)]))
        hits.append(h)

    ctx.memo["on-hits"] = [seen]
    return hits


class Finished(Model):
    """How often row r0 was finished."""


CONFIGS = [(p, f) for p in (False, True) for f in (True, False)]


def each_config(name, **kw):
    """One unit for each: prompts of one length or ragged; all options or none."""
    def deco(fn):
        for c in CONFIGS:
            unit(f"{name} ({'ragged' if c[0] else 'equal'} prompts, {'all' if c[1] else 'no'} options)", **kw)(lambda ctx, it, c=c: fn(ctx, it, c))
        return fn

    return deco


@each_config("sampling step", about="one step over any number of sequences of any prompts: what may be drawn, what is recorded, who is finished and who goes on",
      assumes=[TORCH, "the sampler by N01"], )
def sampling_step(ctx, it, config):
    w = World(ctx, it, False, config=config)
    t = w.pick_step()
    w.r0, w.v0 = w.any_row(), ctx.int("token", lo=0)
    ctx.assume(w.v0 < w.V)
    w.ban = ctx.func("banned", I, I, BS)
    sampler, proc, model = DrawSampler(ctx, w), Processor(ctx, w), Decoder(ctx, w)
    with_proc = w.full
    if not with_proc:
        a, b = z3.Ints("ba bb")
        ctx.fact(z3.ForAll([a, b], z3.Not(w.ban(a, b)), patterns=[w.ban(a, b)]))
    out = w.build(model, sampler, [proc] if with_proc else [])
    if out[0] == "exc":
        ctx.fail("prompts shorter than the maximum length are rejected")
        return
    op = out[1]
    w.state(op, t)
    softmax_contract(it, w, False)
    r, last = w.r0, t == w.most - 1
    ghost = Finished(ctx, None, n=z3.IntVal(0))
    ctx.roots.append(ghost)
    hits = note_hits(ctx)

    def finish(it, bound):
        i = zint(bound["seq_idx"])
        ctx.ensure("only existing sequences are finished", z3.And(i >= 0, i < w.N))
        me = bound["self"]
        ctx.ensure("a sequence is finished after end-of-sequence is recorded at this step",
                   z3.And(it.getattr(me, "_seqs").at(i, t) == w.eos, zint(it.getattr(me, "_step_nr")) == t))
        it.setattr(ghost, "n", z3.simplify(zint(ghost.fields["n"]) + z3.If(i == r, 1, 0)))
        w.at_finish = it.getattr(me, "_seqs")

    ctx.contracts[SG + "_AbstractSamplingSequenceGeneratorOp._finish_sequence"] = finish

    def gen(view):
        if not hits:
            return {"finished so far": zint(ghost.fields["n"]) == 0}
        h = hits[0]
        return {"finished so far": zint(ghost.fields["n"]) == z3.If(z3.And(h.within([r]), h.nth(r) < zint(view.k)), 1, 0)}

    ctx.loop_cands.append(gen)
    out = it.outcome(lambda: it.call_method(op, "_step"))
    if out[0] == "exc":
        ctx.ensure("a step fails only on scores that are no numbers", out[1].obj.cls.name == "SequenceGenerationError")
        return
    if model.calls:
        s = model.calls[-1]
        ctx.ensure("the decoder is given the last token of every sequence",
                   z3.And(len(model.calls) == 1, zint(s.shape[0]) == w.N, zint(s.shape[1]) == 1, s.at(r, 0) == w.tok(r, t - 1)))
    else:
        ctx.fail("the decoder is called")
    mine = z3.If(w.in_prompt(r), w.tok(r, t), w.eos if sampler.calls == 0 else w.drawn(r))
    if sampler.calls == 0:
        ctx.ensure("tokens are only forced at the last possible step", last)
    else:
        ctx.ensure("the last possible step is always end-of-sequence", z3.Not(last))
        if with_proc:
            ctx.ensure("the step processor is called", proc.called == 1)
    ends = z3.And(z3.Not(w.in_prompt(r)), mine == w.eos)
    n = zint(ghost.fields["n"])
    ctx.ensure("a sequence is finished iff its new token is end-of-sequence, exactly once", n == z3.If(ends, 1, 0))
    goes_on = it.truth(out[1])
    seqs = it.getattr(op, "_seqs")
    rows = zint(seqs.shape[0])
    if not goes_on:
        ctx.ensure("generation stops only when every sequence is finished", ends)
        ctx.cover("all finished")
        return
    ctx.ensure("generation never goes on after the last possible step", z3.Not(last))
    # a surviving sequence keeps its tokens
    m = ctx.int("new_row", lo=0)
    ctx.assume(m < rows)
    bag = it.getattr(op, "_state_bag")
    order = getattr(bag, "order", None)
    old = order.at(m) if order is not None else m
    j = ctx.int("column", lo=0)
    ctx.assume(j < t)
    ctx.assume(old == r)  # r is any row: let it be the one that became m
    ctx.ensure("the sequences that go on are those not finished", z3.Not(ends))
    ctx.ensure("tokens so far are kept", seqs.at(m, j) == w.tok(r, j))
    ctx.ensure("the new token is recorded", seqs.at(m, t) == mine)
    ctx.ensure("sequences keep their prompt", it.getattr(op, "_prompt_indices").at(m) == w.pi(r))
    if w.padded:
        ctx.ensure("sequences keep their prompt length", it.getattr(op, "_prompt_lens").at(m) == w.len(r))
        mask = it.getattr(op, "_prompt_mask")
        if mask is not None:
            c = ctx.int("mask_column", lo=0)
            ctx.assume(c < w.W)
            ctx.ensure("sequences keep their prompt mask", zbool(mask.at(m, c)) == (c < w.len(r)))
    if w.scores:
        s = it.getattr(op, "_step_scores")
        ctx.ensure("scores so far are kept", s.at(m, j) == w.sc(r, j))
        p = w.own(r, z3.IntVal(0), mine)
        want = z3.If(w.in_prompt(r), p, w.handed(r, mine) if sampler.calls else p)
        ctx.ensure("the score of the new token is its probability, for a prompt token the decoder's own", s.at(m, t) == want)
    ctx.cover("goes on")


@each_config("survivors", about="every sequence that is not finished goes on, exactly once", assumes=[TORCH])
def sampling_survivors(ctx, it, config):
    w = World(ctx, it, False, config=config)
    t = w.pick_step()
    w.r0, w.v0 = w.any_row(), z3.IntVal(0)
    w.ban = ctx.func("banned", I, I, BS)
    a = z3.Int("ba")
    model = Decoder(ctx, w)

    class Any(Model):
        def m_sample(self, ctx, probs):
            d = ctx.func("drawn", I, I)
            ctx.fact(z3.ForAll([a], z3.And(d(a) >= 0, d(a) < w.V), patterns=[d(a)]))
            w.drawn = d
            return tn.make(ctx, (w.N,), lambda i: d(zint(i)), "int", Ext("torch.int64"), probs.device)

    out = w.build(model, Any(ctx), [])
    if out[0] == "exc":
        return
    op = out[1]
    w.state(op, t)
    softmax_contract(it, w, False)
    ctx.contracts[SG + "_AbstractSamplingSequenceGeneratorOp._finish_sequence"] = lambda it, b: None
    hits = note_hits(ctx)
    w.drawn = None
    out = it.outcome(lambda: it.call_method(op, "_step"))
    if out[0] == "exc" or not it.truth(out[1]):
        return
    r = w.r0
    mine = z3.If(w.in_prompt(r), w.tok(r, t), w.eos if w.drawn is None else w.drawn(r))
    ends = z3.And(z3.Not(w.in_prompt(r)), mine == w.eos)
    bag = it.getattr(op, "_state_bag")
    order = getattr(bag, "order", None)
    rows = zint(it.getattr(op, "_seqs").shape[0])
    if order is None:
        ctx.ensure("nobody is dropped", z3.And(rows == w.N, z3.Not(ends)))
        return
    m1, m2 = ctx.int("m1", lo=0), ctx.int("m2", lo=0)
    h = hits[-1]
    ctx.ensure("who is not finished goes on", z3.Implies(z3.Not(ends), z3.And(h.nth(r) >= 0, h.nth(r) < rows, order.at(h.nth(r)) == r)))
    ctx.assume(z3.And(m1 < m2, m2 < rows))
    ctx.ensure("nobody goes on twice", order.at(m1) != order.at(m2))
    ctx.cover("goes on")


def total(ctx, w):
    """Tensor.sum by contract: an uninterpreted number of exactly the given entries."""
    w.summed = []

    def f(it, t, dim, keepdim):
        if dim is not None and not (len(t.shape) == 1 and dim in (0, -1)) or keepdim:
            raise Unsupported("a partial sum")
        s = ctx.real("sum")
        w.summed.append((t.shape, t.reader(), s))
        return tn.make(ctx, (), lambda: s, "real", t.dtype, t.device)

    ctx.memo["sum"] = f


def hypothesis(ctx, it, w, op, r, t, seqs):
    """The one appended hypothesis, whose sequence is the row from where it begins."""
    ctx.ensure("exactly one hypothesis is added", z3.BoolVal(len(w.appended) == 1))
    if len(w.appended) != 1:
        return None
    i, h = w.appended[0]
    ctx.ensure("to its own prompt", zint(i) == w.pi(r))
    begin = z3.IntVal(0) if w.echo else (w.len(r) if w.padded else w.mp)
    seq, j = it.getattr(h, "seq"), ctx.int("column", lo=0)
    ctx.ensure("the sequence goes up to this step, without the prompt unless echoed", zint(seq.shape[0]) == t + 1 - begin)
    ctx.assume(j < t + 1 - begin)
    ctx.ensure("the sequence is the one generated", seq.at(j) == z3.If(begin + j == t, w.eos, w.tok(r, begin + j)))
    return h, begin, j


@unit("sampling hypotheses", about="any finished sequence: the hypothesis added, its scores", assumes=[TORCH, "log, sum and powers as uninterpreted functions"])
def sampling_finish(ctx, it):
    w = World(ctx, it, False, "finish")
    if ctx.alt("scores", [True, False]) is False:
        w.scores = False
    t = w.pick_step()
    out = w.build(Decoder(ctx, w), None)
    if out[0] == "exc":
        return
    op = out[1]
    w.state(op, t)
    total(ctx, w)
    r = w.any_row()
    ctx.assume(z3.And(w.tok(r, t) == w.eos, z3.Not(w.in_prompt(r))))
    out = it.outcome(lambda: it.call_method(op, "_finish_sequence", r))
    if out[0] == "exc":
        ctx.fail("a sequence that ended is added")
        return
    got = hypothesis(ctx, it, w, op, r, t, None)
    if got is None:
        return
    h, begin, j = got
    score, steps = it.getattr(h, "score"), it.getattr(h, "step_scores")
    if not w.scores:
        ctx.ensure("no scores unless requested", z3.BoolVal(score is None and steps is None))
        ctx.cover("no scores")
        return
    ctx.ensure("one step score each", zint(steps.shape[0]) == t + 1 - begin)
    ctx.ensure("the step scores are those of the sequence", steps.at(j) == w.sc(r, begin + j))
    ctx.ensure("the score is one sum", z3.BoolVal(len(w.summed) == 1))
    if len(w.summed) == 1:
        shape, g, s = w.summed[0]
        q = ctx.int("term", lo=0)
        ctx.ensure("of every step but the first", z3.BoolVal(len(shape) == 1) if len(shape) != 1 else zint(shape[0]) == t)
        ctx.assume(q < t)
        ctx.ensure("of the logarithms of the step scores", tn.cell_eq(g(q), tn.XR(w.sc(r, q + 1) == 0, tn.LOG(w.sc(r, q + 1)))))
        from pyvc.builtins_ import POW
        ctx.ensure("normalised by the length if requested", tn.item(score) == (s / POW(z3.ToReal(t), zreal(w.len_penalty)) if w.normalize else s))
    ctx.cover("scores")


@unit("beam search hypotheses", about="any finished sequence: the hypothesis added, its scores, and whether the beam is complete",
      assumes=[TORCH, "powers as an uninterpreted function"])
def beam_finish(ctx, it):
    w = World(ctx, it, True, "finish")
    t = w.pick_step()
    out = w.build(Decoder(ctx, w), None)
    if out[0] == "exc":
        return
    op = out[1]
    w.state(op, t)
    r, s = w.any_row(), ctx.real("score")
    ctx.assume(z3.Not(w.in_prompt(r)))
    score = tn.make(ctx, (), lambda: s, "real", None, tn.DEVICE(ctx))
    out = it.outcome(lambda: it.call_method(op, "_finish_sequence", r, score))
    if out[0] == "exc":
        ctx.fail("a sequence that ended is added")
        return
    got = hypothesis(ctx, it, w, op, r, t, None)
    if got is None:
        return
    h, begin, j = got
    steps = it.getattr(h, "step_scores")
    ctx.ensure("one step score each", zint(steps.shape[0]) == t + 1 - begin)
    cum = lambda c: z3.If(c == t, s, w.sc(r, c))
    c = begin + j
    ctx.ensure("the step scores are the increments of the cumulative score", steps.at(j) == z3.If(c == 0, cum(c), cum(c) - cum(c - 1)))
    from pyvc.builtins_ import POW
    ctx.ensure("the score is the cumulative one, normalised by the length if requested",
               tn.item(it.getattr(h, "score")) == (s / POW(z3.ToReal(t), zreal(w.len_penalty)) if w.normalize else s))
    ctx.ensure("the beam is complete with as many hypotheses as its size", zbool(it.truth(out[1])) == (w.had + 1 == w.n))
    ctx.cover("added")


@unit("beam search algorithm", about="any scores: the best candidates over all sequences and tokens, best first", assumes=["torch.topk by contract"])
def algorithm(ctx, it):
    N, V, S, B = (ctx.int(x, lo=1, inp=True) for x in ("rows", "vocab_size", "steps", "beam_size"))
    dev = tn.DEVICE(ctx)
    lp, sc = ctx.func("lprob", I, I, R), ctx.func("cumulative", I, I, R)
    lprobs = tn.make(ctx, (N, V), lambda i, v: lp(zint(i), zint(v)), "real", None, dev)
    scores = tn.make(ctx, (N, S), lambda i, j: sc(zint(i), zint(j)), "real", None, dev)
    o = ctx.func("best", I, I)
    seen = []

    def topk(it, a, k):
        t = a[0]
        n = a[1] if len(a) > 1 else k["k"]
        if len(t.shape) != 1 or k.get("largest", True) is not True or k.get("sorted", True) is not True:
            raise Unsupported("another topk")
        size, g, n = zint(t.shape[0]), t.reader(), zint(n)
        if not ctx.branch(z3.And(n >= 0, n <= size)):
            raise it.exc(RuntimeError, "selected index k out of range")
        i, j = z3.Ints("ti tj")
        ctx.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(o(i) >= 0, o(i) < size)), patterns=[o(i)]))
        seen.append((n, size, g))
        return (tn.make(ctx, (n,), lambda x: g(o(zint(x))), "real", None, dev), tn.make(ctx, (n,), lambda x: o(zint(x)), "int", Ext("torch.int64"), dev))

    it.b.EXT_CALLS["torch.topk"] = topk
    tn.METHODS["topk"] = lambda it, t, *a, **k: topk(it, [t, *a], k)
    ctx.fact(N * V >= V)
    ctx.memo["uf-mod"] = True
    out = it.outcome(lambda: it.call_method(it.instantiate(it.cls(AL + "StandardBeamSearchAlgorithm"), [], {}), "step", B, lprobs, scores))
    if out[0] == "exc":
        ctx.fail("a step never fails")
        return
    b = out[1]
    seqs, toks, vals = (it.getattr(b, x) for x in ("seq_indices", "vocab_indices", "scores"))
    K = zint(seqs.shape[0])
    ctx.ensure("twice the beam size, or every candidate if there are fewer", K == z3.If(2 * B <= N * V, 2 * B, N * V))
    ctx.ensure("one token and one score each", z3.And(zint(toks.shape[0]) == K, zint(vals.shape[0]) == K))
    ctx.ensure("one selection", z3.BoolVal(len(seen) == 1))
    j = ctx.int("candidate", lo=0)
    ctx.assume(j < K)
    s, v, score = seqs.at(j), toks.at(j), vals.at(j)
    ctx.ensure("existing sequences and tokens", z3.And(s >= 0, s < N, v >= 0, v < V))
    ctx.ensure("the score is the cumulative one of the sequence and the token", score == lp(s, v) + sc(s, S - 1))
    # the flattened candidates are all sequences and tokens
    n, size, g = seen[0]
    ctx.ensure("all candidates take part", size == N * V)
    ctx.cover("selected")


class SearchAlgo(Model):
    def __init__(self, ctx, w):
        super().__init__(ctx, None)
        self.w = w

    def m_step(self, ctx, beam_size, lprobs, step_scores):
        w = self.w
        ctx.ensure("the algorithm is given the beam size", zint(beam_size) == w.n)
        i, v = ctx.int("ai", lo=0), ctx.int("av", lo=0)
        ctx.assume(z3.And(i < w.b, v < w.V))
        ctx.ensure("the algorithm is given the scores of this beam", z3.And(zint(lprobs.shape[0]) == w.b, tn.cell_eq(lprobs.at(i, v), w.lprobs.at(i, v))))
        ctx.ensure("the algorithm is given the cumulative scores up to the last step",
                   z3.And(zint(step_scores.shape[1]) == w.t, tn.cell_eq(step_scores.at(i, w.t - 1), w.steps.at(i, w.t - 1))))
        w.asked += 1
        K, dev = w.K, tn.DEVICE(ctx)
        mk = lambda f: tn.make(ctx, (K,), lambda j: f(zint(j)), "int", Ext("torch.int64"), dev)
        return w.it.new(AL + "BeamStep", seq_indices=mk(w.cs), vocab_indices=mk(w.cv),
                        scores=tn.make(ctx, (K,), lambda j: w.cand(zint(j)), "xreal", Ext("torch.float32"), dev))


@unit("beam", about="one step of any beam, any candidates: which are finished, which go on", assumes=[TORCH, "the algorithm by its own unit"])
def search_beam(ctx, it):
    w = World(ctx, it, True, "search")
    t = w.pick_step()
    w.asked = 0
    out = w.build(Decoder(ctx, w), SearchAlgo(ctx, w))
    if out[0] == "exc":
        return
    op = out[1]
    w.state(op, t)
    w.b, off = ctx.int("beam_rows", lo=1), ctx.int("batch_offset", lo=0)
    ctx.assume(z3.And(off + w.b <= w.N, w.b <= w.n))
    w.lprobs = tn.symbolic(ctx, "lprobs", (w.b, w.V), "xreal", None, tn.DEVICE(ctx))
    w.steps = tn.symbolic(ctx, "cumulative", (w.b, w.most), "xreal", None, tn.DEVICE(ctx))
    w.K = ctx.int("candidates", lo=1)
    w.cs, w.cv = ctx.func("cand_seq", I, I), ctx.func("cand_token", I, I)
    ci, cr = ctx.func("cand_inf", I, BS), ctx.func("cand_score", I, R)
    w.cand = lambda j: tn.XR(ci(j), cr(j))
    a = z3.Int("ca")
    ctx.fact(z3.ForAll([a], z3.And(w.cs(a) >= 0, w.cs(a) < w.b), patterns=[w.cs(a)]))
    ctx.fact(z3.ForAll([a], z3.And(w.cv(a) >= 0, w.cv(a) < w.V), patterns=[w.cv(a)]))
    prompt = w.in_prompt(off)
    ctx.assume(z3.Implies(prompt, w.b == 1))
    hits = note_hits(ctx)
    done = Finished(ctx, None, n=z3.IntVal(0))
    ctx.roots.append(done)

    def finish(it, bound):
        i, s = zint(bound["seq_idx"]), bound["score"]
        x = tn.item(s) if isinstance(s, tn.Tensor) else s
        j = z3.Int("fj")
        ctx.ensure("only an allowed end-of-sequence among the best candidates is finished", z3.Exists([j], z3.And(
            j >= 0, j < w.K, j < w.n, w.cv(j) == w.eos, z3.Not(ci(j)), off + w.cs(j) == i, tn.cell_eq(x, w.cand(j)))))
        ctx.ensure("no sequence is finished within its prompt", z3.Not(prompt))
        full = ctx.bool("complete")
        it.setattr(done, "n", z3.If(full, 1, zint(done.fields["n"])))
        return full

    ctx.contracts[BG + "_AbstractBeamSearchSequenceGeneratorOp._finish_sequence"] = finish
    ctx.loop_cands.append(lambda view: {"not complete so far": zint(done.fields["n"]) == 0})
    out = it.outcome(lambda: it.call_method(op, "_search_beam", ctx.int("beam_idx", lo=0), off, w.lprobs, w.steps))
    if out[0] == "exc":
        ctx.fail("a step of a beam never fails")
        return
    b = out[1]
    if b is None:
        ctx.ensure("a beam is closed only when it is complete", done.fields["n"] == 1)
        ctx.cover("closed")
        return
    ctx.ensure("a complete beam is closed", zint(done.fields["n"]) == 0)
    seqs, toks, vals = (it.getattr(b, x) for x in ("seq_indices", "vocab_indices", "scores"))
    m, M = ctx.int("kept", lo=0), zint(seqs.shape[0])
    ctx.ensure("one token and one score each", z3.And(zint(toks.shape[0]) == M, zint(vals.shape[0]) == M))
    if w.asked == 0:
        ctx.ensure("only a prompt goes on without a search", prompt)
        ctx.ensure("a prompt goes on with its own token", z3.And(M == 1, seqs.at(0) == off, toks.at(0) == w.tok(off, t)))
        ctx.ensure("and the score of that token", tn.cell_eq(vals.at(0), tn.XR(
            z3.Or(zbool(w.steps.at(0, t - 1).inf), zbool(w.lprobs.at(0, w.tok(off, t)).inf)), w.steps.at(0, t - 1).val + w.lprobs.at(0, w.tok(off, t)).val)))
        ctx.cover("prompt")
        return
    ctx.ensure("a prompt is never searched", z3.Not(prompt))
    ctx.ensure("at most as many sequences as the beam size go on", M <= w.n)
    ctx.assume(m < M)
    j = z3.Int("kj")
    ctx.ensure("what goes on is a candidate, and no finished one", z3.Exists([j], z3.And(
        j >= 0, j < w.K, seqs.at(m) == off + w.cs(j), toks.at(m) == w.cv(j), tn.cell_eq(vals.at(m), w.cand(j)), z3.Or(w.cv(j) != w.eos, ci(j)))))
    ctx.cover("searched")


class BeamSteps:
    """What each beam goes on with: ns(q) sequences for beam q."""

    name = "beam step"

    def __init__(self):
        self.w = None

    def getattr(self, it, e, name):
        if name in ("seq_indices", "vocab_indices", "scores"):
            w = self.w
            it.ctx.fact(w.ns(e.id) >= 1)
            return tn.symbolic(it.ctx, name, (w.ns(e.id),), "int" if name != "scores" else "xreal", None, tn.DEVICE(it.ctx))
        raise Unsupported(f"beam step .{name}")

    def truth(self, it, e):
        return True

    def is_none(self, it, e):
        return False


STEPS = BeamSteps()


@each_config("beam search step", about="one step over any number of beams of any sizes: the scores each beam may choose from, what is recorded, who goes on",
             assumes=[TORCH, "beams by their own unit"])
def beam_step(ctx, it, config):
    World.score_kind = "xreal"
    w = World(ctx, it, True, config=config)
    World.score_kind = "real"
    w.score_kind = "xreal"
    inf = ctx.func("step_score_inf", I, I, BS)
    w.score_cell = lambda r, j: tn.XR(inf(zint(r), zint(j)), w.sc(zint(r), zint(j)))
    t = w.pick_step()
    w.r0, w.v0 = w.any_row(), ctx.int("token", lo=0)
    ctx.assume(w.v0 < w.V)
    w.ban = ctx.func("banned", I, I, BS)
    if not w.full:
        a, b = z3.Ints("ba bb")
        ctx.fact(z3.ForAll([a, b], z3.Not(w.ban(a, b)), patterns=[w.ban(a, b)]))
    proc, model = Processor(ctx, w), Decoder(ctx, w)
    out = w.build(model, SearchAlgo(ctx, w), [proc] if w.full else [])
    if out[0] == "exc":
        ctx.fail("prompts shorter than the maximum length are rejected")
        return
    op = out[1]
    w.state(op, t)
    softmax_contract(it, w, True)
    # the beams: sizes of any number of beams, together all sequences
    n, off, size = ctx.int("beams", lo=1), ctx.func("offset", I, I), ctx.func("size", I, I)
    w.ns, w.open = ctx.func("next_size", I, I), ctx.func("goes_on", I, BS)
    STEPS.w = w
    a = z3.Int("sa")
    ctx.fact(off(0) == 0)
    ctx.fact(z3.ForAll([a], size(a) >= 1, patterns=[size(a)]))
    ctx.fact(off(n) == w.N)
    ctx.memo["offsets"] = off
    it.setattr(op, "_beam_sizes", PyList(ctx, SymSeq(n, lambda q: size(zint(q)), ("int",))))
    last = t == w.most - 1
    v = w.v0

    def search(it, bound):
        k, o, lp, sc = zint(bound["beam_idx"]), zint(bound["batch_offset"]), bound["lprobs"], bound["step_scores"]
        ctx.ensure("each beam is searched where it begins", z3.And(k >= 0, k < n, o == off(k)))
        ctx.ensure("with the scores of its sequences", z3.And(zint(lp.shape[0]) == size(k), zint(lp.shape[1]) == w.V, zint(sc.shape[0]) == size(k)))
        i = ctx.int("in_beam", lo=0)
        ctx.assume(i < size(k))
        r = off(k) + i
        c = ctx.int("column", lo=0)
        ctx.assume(c < t)
        ctx.ensure("with the cumulative scores of its sequences", tn.cell_eq(sc.at(i, c), w.score_cell(r, c)))
        x, own = tn.xr(lp.at(i, v)), w.own(r, z3.IntVal(0), v)
        at = lambda u: zbool(tn.xr(lp.at(i, u)).inf)
        free = z3.Not(w.in_prompt(r))
        ctx.ensure("the last possible step is end-of-sequence", z3.Implies(z3.And(last, v != w.eos), at(v)))
        ctx.ensure("and that with its own score", z3.Implies(last, tn.cell_eq(tn.xr(lp.at(i, w.eos)), w.own(r, z3.IntVal(0), w.eos))))
        if w.pad is not None:
            ctx.ensure("padding is never chosen", z3.Implies(free, at(w.pad)))
        ctx.ensure("end-of-sequence is not chosen before the minimum length", z3.Implies(z3.And(free, t + 1 < w.least), at(w.eos)))
        ctx.ensure("banned tokens are not chosen", z3.Implies(z3.And(free, z3.Not(last), w.ban(r, v)), at(v)))
        ctx.ensure("prompt tokens keep the decoder's own scores", z3.Implies(z3.Not(free), tn.cell_eq(x, own)))
        plain = z3.And(free, z3.Not(last), z3.Not(w.ban(r, v)), *[v != q for q in (w.pad,) if q is not None], z3.Or(v != w.eos, t + 1 >= w.least))
        want = own if w.unk is None else tn.XR(own.inf, own.val - z3.If(v == w.unk, w.unk_penalty, 0))
        ctx.ensure("other tokens keep their score, the unknown one is penalised", z3.Implies(plain, tn.cell_eq(x, want)))
        if not ctx.branch(w.open(k)):
            return None
        return Entity(STEPS, k)

    ctx.contracts[BG + "_AbstractBeamSearchSequenceGeneratorOp._search_beam"] = search
    merged = []

    def merge_steps(it, bound):
        items = it.seq_of(bound["steps"])
        L = ctx.int("merged", lo=1)
        dev = tn.DEVICE(ctx)
        os_, ov = ctx.func("chosen_seq", I, I), ctx.func("chosen_token", I, I)
        q = z3.Int("mq")
        ctx.fact(z3.ForAll([q], z3.And(os_(q) >= 0, os_(q) < w.N), patterns=[os_(q)]))
        ctx.fact(z3.ForAll([q], z3.And(ov(q) >= 0, ov(q) < w.V), patterns=[ov(q)]))
        g = tn.arbitrary(ctx, "chosen_score", 1, "xreal")
        merged.append((items, L, os_, ov, g))
        return it.new(AL + "BeamStep", seq_indices=tn.make(ctx, (L,), lambda j: os_(zint(j)), "int", None, dev),
                      vocab_indices=tn.make(ctx, (L,), lambda j: ov(zint(j)), "int", None, dev),
                      scores=tn.make(ctx, (L,), lambda j: g(zint(j)), "xreal", None, dev))

    ctx.contracts[AL + "BeamStep.merge"] = merge_steps

    def ident(e):
        return zint(e.id) if isinstance(e, Entity) else None

    def gen(view):
        k, out = zint(view.k), {}
        j = z3.Int("gj")
        size_l, step_l = None, None
        for name, c in view.cur.items():
            if is_z3(c) and z3.is_int(c) or isinstance(c, int) and not isinstance(c, bool):
                out[f"{name}: the sequences before"] = zint(c) == off(k)
                out[f"{name}: within"] = zint(c) <= w.N
        seqs = {n: view.it.seq_of(PyList(None, c)) for n, c in view.cur.items() if isinstance(c, (SymSeq, list))}
        for n1, s1 in seqs.items():
            empty = isinstance(s1.length, int) and s1.length == 0
            ent = not empty and isinstance(s1.get(z3.IntVal(0)), Entity)
            f = (lambda q: z3.IntVal(0)) if empty else (lambda q, s1=s1: ident(s1.get(q))) if ent else (lambda q, s1=s1: zint(s1.get(q)))
            inn = z3.And(j >= 0, j < zint(s1.length))
            out[f"{n1}: beams so far"] = z3.ForAll([j], z3.Implies(inn, z3.And(f(j) >= 0, f(j) < k))) if ent or empty else z3.BoolVal(True)
            for n2, s2 in seqs.items():
                if n1 < n2:
                    out[f"{n1}, {n2}: same length"] = zint(s1.length) == zint(s2.length)
                    e2 = isinstance(s2.length, int) and s2.length == 0
                    ent2 = not e2 and isinstance(s2.get(z3.IntVal(0)), Entity)
                    g2 = (lambda q: z3.IntVal(0)) if e2 else (lambda q, s2=s2: ident(s2.get(q))) if ent2 else (lambda q, s2=s2: zint(s2.get(q)))
                    a1, b1 = (f, g2) if ent else (g2, f)
                    out[f"{n1}, {n2}: sizes"] = z3.BoolVal(True) if empty or e2 else z3.ForAll([j], z3.Implies(inn, b1(j) == w.ns(a1(j))))
        return out

    ctx.loop_cands.append(gen)
    out = it.outcome(lambda: it.call_method(op, "_step"))
    if out[0] == "exc":
        ctx.ensure("a step fails only on scores that are no numbers", out[1].obj.cls.name == "SequenceGenerationError")
        return
    if not it.truth(out[1]):
        ctx.cover("no beam left")
        ctx.ensure("nothing is recorded when no beam is left", z3.BoolVal(not merged))
        return
    ctx.ensure("the steps of the beams are merged once", z3.BoolVal(len(merged) == 1))
    items, L, os_, ov, g = merged[0]
    sizes = it.seq_of(it.getattr(op, "_beam_sizes"))
    q = ctx.int("some_beam", lo=0)
    ctx.assume(q < zint(sizes.length))
    ctx.ensure("one size for each beam that goes on", z3.And(zint(sizes.length) == zint(items.length), zint(sizes.get(q)) == w.ns(ident(items.get(q)))))
    seqs, scs = it.getattr(op, "_seqs"), it.getattr(op, "_step_scores")
    m, j = ctx.int("new_row", lo=0), ctx.int("column", lo=0)
    ctx.assume(z3.And(m < L, j < t))
    ctx.ensure("as many sequences as were chosen", z3.And(zint(seqs.shape[0]) == L, zint(scs.shape[0]) == L))
    ctx.ensure("tokens so far are kept", seqs.at(m, j) == w.tok(os_(m), j))
    ctx.ensure("the new token is recorded", seqs.at(m, t) == ov(m))
    ctx.ensure("scores so far are kept", tn.cell_eq(scs.at(m, j), w.score_cell(os_(m), j)))
    ctx.ensure("the new cumulative score is recorded", tn.cell_eq(scs.at(m, t), g(m)))
    ctx.ensure("sequences keep their prompt", it.getattr(op, "_prompt_indices").at(m) == w.pi(os_(m)))
    order = getattr(it.getattr(op, "_state_bag"), "order", None)
    ctx.ensure("the decoder's state is put in the same order", z3.BoolVal(False) if order is None else order.at(m) == os_(m))
    if w.padded:
        ctx.ensure("sequences keep their prompt length", it.getattr(op, "_prompt_lens").at(m) == w.len(os_(m)))
    ctx.cover("goes on")


# ---------------------------------------------------------------- the generators themselves
class StubModel(Model):
    """A model of any maximum length."""

    def find_method(self, name):
        return (lambda ctx: None) if name == "eval" else None


class SourceLayout(Model):
    def getattr(self, ctx, name):
        if name == "seq_lens":
            return self.lens
        if name == "packed":
            return False
        raise Unsupported(f"source layout.{name}")


def maybe(ctx, name, lo=None):
    """None or any integer."""
    return ctx.int(name, lo=lo, inp=True) if ctx.branch(ctx.bool("with_" + name)) else None


def generator_limits(ctx, it, cls, beam, s2s):
    """From the settings of a generator to those of its operation, for any settings and prompts."""
    w = World(ctx, it, beam, where="limits")
    w.scores, w.padded = True, False
    w.lo_prompt = w.mp
    eos = None if not ctx.branch(ctx.bool("has_eos")) else w.eos
    min_gen, max_gen = ctx.int("min_gen", inp=True), ctx.int("max_gen", inp=True)
    model_max, own_max = ctx.int("model_max", lo=1, inp=True), maybe(ctx, "own_max", lo=1)
    chunk, cap = maybe(ctx, "chunk"), maybe(ctx, "capacity")
    model = StubModel(ctx, None, max_seq_len=model_max, max_target_seq_len=model_max)
    vocab = Model(ctx, None, size=w.V, eos_idx=eos, pad_idx=None, unk_idx=None, bos_idx=None)
    a_term, b_term = ctx.real("a_term"), ctx.int("b_term")
    kw = {"min_gen_len": min_gen, "max_gen_len": (a_term, b_term) if s2s else max_gen, "max_seq_len": own_max,
          "prefill_chunk_size": chunk, "decode_capacity_increment": cap}
    kw["beam_size" if beam else "num_gens"] = w.n
    args = [model, vocab, Model(ctx)]
    out = it.outcome(lambda: it.instantiate(it.cls(cls), args, kw))
    bad = lambda v: z3.BoolVal(False) if v is None else v < 1
    wrong = z3.Or(z3.BoolVal(eos is None), min_gen < 1, bad(chunk), bad(cap), *([] if s2s else [max_gen < 1, min_gen > max_gen]))
    if out[0] == "exc":
        ctx.cover("settings rejected")
        ctx.ensure("only settings that make no sense are rejected", z3.And(z3.BoolVal(out[1].obj.cls.name == "ValueError"), wrong))
        return
    ctx.ensure("settings that make no sense are rejected", z3.Not(wrong))
    gen = out[1]
    made = []
    base = (BG + "_AbstractBeamSearchSequenceGeneratorOp") if beam else (SG + "_AbstractSamplingSequenceGeneratorOp")
    hyps, counters = Model(ctx), Model(ctx)

    def run(it, bound):
        made.append(bound["self"])
        return (hyps, counters)

    ctx.contracts[base + ".__call__"] = run
    prompts = tn.symbolic(ctx, "prompts_given", (w.P, w.W), "int", Ext("torch.int64"), tn.DEVICE(ctx))
    call = [prompts, Layout(ctx, w)]
    if s2s:
        n, slen = ctx.int("sources", lo=1), ctx.func("source_len", I, I)
        q = z3.Int("slq")
        ctx.fact(z3.ForAll([q], slen(q) >= 1, patterns=[slen(q)]))
        top = ctx.int("longest_source", lo=1)
        at = ctx.int("longest_at", lo=0)
        ctx.assume(z3.And(at < n, slen(at) == top, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), slen(q) <= top), patterns=[slen(q)])))
        lay = SourceLayout(ctx, None)
        lay.lens = PyList(ctx, SymSeq(n, lambda j: slen(zint(j)), ("int",)))
        call = [tn.symbolic(ctx, "sources_given", (w.P, ctx.int("source_width", lo=1)), "int", Ext("torch.int64"), tn.DEVICE(ctx)), lay] + call
        x = a_term * z3.ToReal(top) + z3.ToReal(b_term)
        max_gen = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    out = it.outcome(lambda: it.call_method(gen, "__call__", *call))
    limit = model_max if own_max is None else z3.If(own_max < model_max, own_max, model_max)
    wrong = z3.Or(w.mp >= limit, *([max_gen < 1, min_gen > max_gen] if s2s else []))
    if out[0] == "exc":
        ctx.cover("prompts rejected")
        ctx.ensure("only prompts that leave no room are rejected", z3.And(z3.BoolVal(out[1].obj.cls.name == "ValueError"), wrong))
        return
    ctx.ensure("prompts that leave no room are rejected", z3.Not(wrong))
    ctx.ensure("one operation runs", z3.BoolVal(len(made) == 1))
    op = made[0]
    cut = lambda v: z3.If(v < limit, v, limit)
    ctx.ensure("no sequence is longer than the longest prompt and the maximum generation length, the given maximum and the model's",
               zint(it.getattr(op, "_max_seq_len")) == cut(w.mp + max_gen))
    ctx.ensure("no sequence ends before the longest prompt and the minimum generation length", zint(it.getattr(op, "_min_seq_len")) == cut(w.mp + min_gen))
    ctx.ensure("as many sequences as asked for", zint(it.getattr(op, "_beam_size" if beam else "_num_gens")) == w.n)
    ctx.ensure("the end of sequences is the vocabulary's", zint(it.getattr(op, "_eos_idx")) == w.eos)
    ctx.ensure("the operation's hypotheses are returned", z3.BoolVal(it.getattr(out[1], "hypotheses") is hyps))
    seqs = it.getattr(op, "_seqs")
    i, j = ctx.int("prompt", lo=0), ctx.int("column", lo=0)
    ctx.assume(z3.And(i < w.P, j < w.mp))
    ctx.ensure("sequences begin with their prompts", z3.And(zint(seqs.shape[0]) == w.P, seqs.at(i, j) == prompts.at(i, j), it.getattr(op, "_prompt_indices").at(i) == i))
    ctx.cover("prompts accepted")


for _cls, _beam, _s2s in ((SG + "SamplingSequenceGenerator", False, False), (SG + "SamplingSeq2SeqGenerator", False, True),
                          (BG + "BeamSearchSequenceGenerator", True, False), (BG + "BeamSearchSeq2SeqGenerator", True, True)):
    unit(f"limits of {_cls.split(':')[1]}", about="any settings, any prompts: what is rejected, the limits of the operation")(
        lambda ctx, it, c=_cls, b=_beam, s=_s2s: generator_limits(ctx, it, c, b, s))


class Piles:
    """The hypotheses of a prompt."""

    def getattr(self, it, e, name):
        if name != "sort":
            raise Unsupported(f"hypotheses.{name}")
        ctx, ghost = it.ctx, self.ghost

        def sort(it, a, k):
            h = Model(ctx, None, score=ctx.real("a score"), seq=Model(ctx), step_scores=None)
            key, rev = k.get("key"), k.get("reverse", False)
            ctx.ensure("hypotheses are ordered by their score", z3.BoolVal(key is not None) if key is None else zreal(it.call(key, [h], {})) == h.fields["score"])
            ctx.ensure("the best score comes first", zbool(rev))
            ctx.ensure("each prompt's hypotheses are ordered", zint(e.id) == zint(ghost.fields["sorted"]))
            it.setattr(ghost, "sorted", zint(ghost.fields["sorted"]) + 1)

        return Native(sort, "sort")

    def truth(self, it, e):
        return it.ctx.bool("any hypotheses")

    def is_none(self, it, e):
        return False


PILES = Piles()


def generator_run(ctx, it, beam):
    """The whole operation over its steps."""
    w = World(ctx, it, beam, where="limits")
    w.scores = beam or ctx.alt("compute scores", [True, False])
    out = w.build(Model(ctx), Model(ctx))
    if out[0] == "exc":
        return
    op = out[1]
    base = (BG + "_AbstractBeamSearchSequenceGeneratorOp") if beam else (SG + "_AbstractSamplingSequenceGeneratorOp")
    ghost = Model(ctx, None, prepared=z3.IntVal(0), next=w.lo_prompt, stopped=z3.BoolVal(False), sorted=z3.IntVal(0))
    ctx.roots.append(ghost)
    hooks = ctx.func("wants_more", I, BS)

    def prepare(it, bound):
        ctx.ensure("the state is prepared before the first step", z3.And(ghost.fields["prepared"] == 0, zint(ghost.fields["next"]) == w.lo_prompt))
        it.setattr(ghost, "prepared", z3.IntVal(1))

    def step(it, bound):
        t = zint(it.getattr(bound["self"], "_step_nr"))
        ctx.ensure("steps run after the preparation, in order, none left out or repeated", z3.And(ghost.fields["prepared"] == 1, t == zint(ghost.fields["next"])))
        ctx.ensure("no step runs once all sequences are finished", z3.Not(zbool(ghost.fields["stopped"])))
        ctx.ensure("no step beyond the maximum length", z3.And(t >= w.lo_prompt, t < w.most))
        more = hooks(t)
        it.setattr(ghost, "next", t + 1)
        it.setattr(ghost, "stopped", z3.Not(more))
        return more

    ctx.contracts[base + "._prepare_state"] = prepare
    ctx.contracts[base + "._step"] = step

    def gen(view):
        if view.k is None:
            return {}
        return {"one step for each number": zint(ghost.fields["next"]) == w.lo_prompt + zint(view.k),
                "not stopped": z3.Not(zbool(ghost.fields["stopped"])), "prepared": zint(ghost.fields["prepared"]) == 1,
                "sorted so far": zint(ghost.fields["sorted"]) == zint(view.k), "steps over": z3.Or(zbool(ghost.fields["stopped"]), zint(ghost.fields["next"]) == w.most)}

    ctx.loop_cands.append(gen)
    PILES.ghost = ghost
    it.setattr(op, "_output", PyList(ctx, SymSeq(w.P, lambda i: Entity(PILES, zint(i)), ("ent", PILES))))
    out = it.outcome(lambda: it.call_method(op, "__call__"))
    if out[0] == "exc":
        ctx.fail("a run ends with its hypotheses")
        return
    ctx.ensure("steps run until the maximum length or until all sequences are finished", z3.Or(zbool(ghost.fields["stopped"]), zint(ghost.fields["next"]) == w.most))
    if w.scores:
        ctx.ensure("the hypotheses of all prompts are ordered", zint(ghost.fields["sorted"]) == w.P)
    ctx.ensure("the hypotheses found are returned", z3.BoolVal(it.concrete_items(out[1])[0] is it.getattr(op, "_output")))
    ctx.cover("ran")


unit("sampling run", about="any limits, any decoder: which steps run")(lambda ctx, it: generator_run(ctx, it, False))
unit("beam search run", about="any limits, any decoder: which steps run")(lambda ctx, it: generator_run(ctx, it, True))


class CountedBag(Bag):
    def m_increment_step_nr(self, ctx, value=1):
        g = self.ghost
        self.it.setattr(g, "step", zint(g.fields["step"]) + zint(value))


def prefill(ctx, it, beam):
    """The prompts' common part, in chunks of any size."""
    ctx.memo["uf-mod"] = True
    w = World(ctx, it, beam, where="limits")
    w.scores = True
    model = Model(ctx)
    out = w.build(model, Model(ctx))
    if out[0] == "exc":
        return
    op = out[1]
    chunk = ctx.int("chunk", lo=1, inp=True) if ctx.branch(ctx.bool("chunked")) else None
    it.setattr(op, "_prefill_chunk_size", chunk)
    w.tok = ctx.func("tok", I, I, I)
    own = ctx.func("own", I, I, I, R)
    total = ctx.func("sum_of_own", I, I, R)
    dev = tn.DEVICE(ctx)
    ctx.assume(w.lo_prompt > 1)
    it.setattr(op, "_seqs", tn.make(ctx, (w.P, w.most), lambda r, j: w.tok(zint(r), zint(j)), "int", Ext("torch.int64"), dev))
    r0, j0, v0 = ctx.int("row", lo=0), ctx.int("column", lo=1), ctx.int("offset", lo=0)
    a, b = z3.Ints("pa pb")
    ctx.fact(z3.ForAll([a, b], z3.And(w.tok(a, b) >= 0, w.tok(a, b) < w.V), patterns=[w.tok(a, b)]))
    ctx.assume(z3.And(r0 < w.P, j0 < w.lo_prompt))
    if beam:
        ctx.fact(z3.ForAll([a], total(a, 0) == 0, patterns=[total(a, 0)]))
    ghost = Model(ctx, None, read=z3.IntVal(0), step=z3.IntVal(0))
    ctx.roots.append(ghost)
    bag = CountedBag(ctx)
    bag.ghost, bag.it = ghost, it
    it.setattr(op, "_state_bag", bag)

    def decode(it, bound):
        s = bound["seqs"]
        at = zint(ghost.fields["read"])
        ctx.ensure("the state counts the tokens read", zint(ghost.fields["step"]) == at)
        ctx.ensure("tokens are read in order, none left out or repeated",
                   z3.And(zint(s.shape[0]) == w.P, zint(s.shape[1]) >= 1, at + zint(s.shape[1]) < w.lo_prompt, z3.Implies(v0 < zint(s.shape[1]), s.at(r0, v0) == w.tok(r0, at + v0))))
        if chunk is not None:
            ctx.ensure("in chunks of the asked size", zint(s.shape[1]) <= chunk)
        it.setattr(ghost, "read", at + zint(s.shape[1]))
        x = tn.symbolic(ctx, "logits", (s.shape[0], s.shape[1], w.V), "real", Ext("torch.float32"), dev)
        w.begin = at
        return x

    name = (BG + "_BeamSearchSequenceGeneratorOp") if beam else (SG + "_SamplingSequenceGeneratorOp")
    ctx.contracts[name + "._decode"] = decode

    def soft(it, a, k):
        at = w.begin
        return tn.make(ctx, a[0].shape, lambda i, j, v: own(zint(i), at + zint(j), zint(v)), "real", Ext("torch.float32"), dev)

    for mod in ("torch.nn.functional.", "torch."):
        it.b.EXT_CALLS[mod + ("log_softmax" if beam else "softmax")] = soft

    def cumsum(it, t, *a, **k):
        """Prefix sums: the cells are the scores from `begin` on."""
        at, n = w.begin, zint(t.shape[1])
        i, j = ctx.int("ci", lo=0), ctx.int("cj", lo=0)
        ctx.ensure("scores are accumulated over the prompt", z3.And(z3.BoolVal(len(t.shape) == 2), z3.Implies(z3.And(i < w.P, j < n), t.at(i, j) == own(i, at + j, w.tok(i, at + j + 1)))))
        t.write(ctx, lambda x, y: total(zint(x), at + zint(y) + 1) - total(zint(x), at), "real")
        return t

    w.cumsum = cumsum
    want = (lambda r, j: total(r, j)) if beam else (lambda r, j: own(r, j - 1, w.tok(r, j)))

    def gen(view):
        out = {"within": z3.And(zint(ghost.fields["read"]) >= 0, zint(ghost.fields["read"]) < w.lo_prompt),
               "state": zint(ghost.fields["step"]) == zint(ghost.fields["read"])}
        for n, c in view.cur.items():
            if is_z3(c) and z3.is_int(c) or isinstance(c, int) and not isinstance(c, bool):
                out[f"{n}: tokens read"] = zint(c) == zint(ghost.fields["read"])
        sc = it.getattr(op, "_step_scores")
        out["scores of the tokens read"] = z3.Implies(j0 <= zint(ghost.fields["read"]), sc.at(r0, j0) == want(r0, j0))
        if beam:
            out["score of the last token read"] = sc.at(r0, zint(ghost.fields["read"])) == want(r0, zint(ghost.fields["read"]))
        return out

    ctx.loop_cands.append(gen)
    fans = []
    ctx.contracts[name.replace("_Beam", "_AbstractBeam").replace("_Sampling", "_AbstractSampling") + "._reorder_state"] = lambda it, bound: fans.append(bound["new_order"])
    if beam:
        tn.METHODS["cumsum_"] = lambda it, t, *a, **k: cumsum(it, t)
    out = it.outcome(lambda: it.call_method(op, "_prepare_state"))
    if out[0] == "exc":
        ctx.ensure("the prefill fails only on scores that are no numbers", out[1].obj.cls.name == "SequenceGenerationError")
        return
    ctx.ensure("all tokens of the common part but the last are read", zint(ghost.fields["read"]) == w.lo_prompt - 1)
    ctx.ensure("the state counts the tokens read", zint(ghost.fields["step"]) == w.lo_prompt - 1)
    ctx.ensure("prompt tokens have the decoder's scores", it.getattr(op, "_step_scores").at(r0, j0) == want(r0, j0))
    if beam:
        ctx.ensure("no row is copied", z3.BoolVal(not fans))
    else:
        x = ctx.int("copy", lo=0)
        ctx.assume(x < w.P * w.n)
        if fans:
            ctx.ensure("each prompt is copied as often as asked for", z3.And(z3.BoolVal(len(fans) == 1), zint(fans[0].shape[0]) == w.P * w.n, fans[0].at(x) == B.uf_div(ctx, x, w.n)))
        else:
            ctx.ensure("each prompt is copied as often as asked for", w.n == 1)
    ctx.cover("prefilled")


unit("sampling prefill", about="any prompts, any chunk size: what is read, its scores, the copies", assumes=[TORCH])(lambda ctx, it: prefill(ctx, it, False))
unit("beam search prefill", about="any prompts, any chunk size: what is read, its scores", assumes=[TORCH, "torch.cumsum: prefix sums"])(lambda ctx, it: prefill(ctx, it, True))
