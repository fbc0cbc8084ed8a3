from drivers import boot  # noqa: F401

import math
import random

import torch
from torch.nn import Module

import fairseq2.recipe  # noqa: F401
from fairseq2.data.tokenizers import VocabularyInfo
from fairseq2.generation.beam_search.generator import BeamSearchSeq2SeqGenerator, BeamSearchSequenceGenerator
from fairseq2.generation.sampling.generator import SamplingSeq2SeqGenerator, SamplingSequenceGenerator
from fairseq2.generation.sampling.sampler import Sampler, TopKSampler, TopPSampler
from fairseq2.generation.step_processor import BannedSequenceProcessor, NGramRepeatBlockProcessor
from fairseq2.nn import BatchLayout, IncrementalState

RULE = ("the real generators over stub decoders whose logits are an arbitrary function of the whole prefix (kept in a reordered "
        "incremental state), random small vocabularies, beam sizes, ragged prompts, limits, penalties and step processors; every "
        "hypothesis against the length and end-of-sequence rules, the prompt, the number and order of hypotheses, and its scores "
        "recomputed from the decoder; each prompt again alone; non-trivial: some hypothesis ends at the limit or at its minimum")

MAX = 64


class Prefix(IncrementalState):
    def __init__(self, seqs, rows):
        self.seqs, self.rows = seqs, rows

    def reorder(self, new_order):
        self.seqs = self.seqs.index_select(0, new_order)
        self.rows = [self.rows[i] for i in new_order.tolist()]

    def size_bytes(self):
        return 0

    capacity_bytes = size_bytes


def row_logits(seed, src, prefix, V):
    r = random.Random(repr((seed, src, tuple(prefix))))
    return [-40.0 if r.random() < 0.1 else r.uniform(-3, 3) for _ in range(V)]


class Decoder(Module):
    def __init__(self, inp):
        super().__init__()
        self.inp = inp
        self.max_seq_len = self.max_target_seq_len = inp["model_max"]

    def forward(self, *args, state_bag):
        inp = self.inp
        seqs = args[-2]
        st = state_bag.maybe_get_state(self, Prefix)
        if st is None:
            src = [tuple(r[:n]) for r, n in zip(args[0].tolist(), args[1].seq_lens)] if len(args) == 4 else [()] * len(seqs)
            st = Prefix(seqs[:, :0], src)
            state_bag.set_state(self, st)
        if st.seqs.size(1) != state_bag.step_nr:
            raise AssertionError(f"decoder called at step {state_bag.step_nr} with {st.seqs.size(1)} steps seen")
        begin = st.seqs.size(1)
        st.seqs = torch.cat([st.seqs, seqs], dim=1)
        return torch.tensor([[row_logits(inp["seed"], st.rows[i], q[:begin + j + 1], inp["V"]) for j in range(seqs.size(1))]
                             for i, q in enumerate(st.seqs.tolist())])


class AnySampler(Sampler):
    """Draws evenly from the entries of positive probability, and records what it is given."""

    def __init__(self, seed):
        self.rng, self.bad = random.Random(seed), None

    def sample(self, probs):
        out = []
        for row in probs.tolist():
            if any(not p >= 0 for p in row):
                self.bad = "a negative probability is handed to the sampler"
            pos = [i for i, p in enumerate(row) if p > 0]
            if not pos:
                raise NoToken()
            out.append(self.rng.choice(pos))
        return torch.tensor(out)


class NoToken(Exception):
    pass


def cases(rng, tier):
    while True:
        V = rng.choice([3, 4, 4, 5, 6, 8])
        ids = list(range(V))
        rng.shuffle(ids)
        eos = ids[0]
        pad = rng.choice([None, ids[1], eos])
        unk = rng.choice([None, ids[2] if V > 3 else None])
        P = rng.choice([1, 1, 2, 3])
        prompts = [[rng.choice([t for t in range(V) if t != pad or pad == eos]) for _ in range(rng.choice([1, 1, 2, 3, 4]))] for _ in range(P)]
        if rng.random() < 0.4:
            n = len(prompts[0])
            prompts = [(p * 4)[:n] for p in prompts]
        lo = rng.choice([1, 1, 1, 2, 3, 5])
        mp = max(len(p) for p in prompts)
        procs = []
        if rng.random() < 0.4:
            procs.append(["ngram", rng.choice([1, 2, 2, 3])])
        if rng.random() < 0.3:
            procs.append(["ban", [[rng.randrange(V) for _ in range(rng.choice([1, 2, 2]))] for _ in range(rng.randint(1, 2))]])
        yield {"kind": rng.choice(["beam", "beam", "sampling"]), "s2s": rng.random() < 0.25, "V": V, "eos": eos, "pad": pad, "unk": unk,
               "prompts": prompts, "extra": rng.choice([0, 0, 0, 1]), "n": rng.choice([1, 2, 2, 3, 5]), "min": lo, "max": lo + rng.choice([0, 1, 2, 4]),
               "max_seq": rng.choice([None, None, mp + 1, mp + 2, mp + 4]), "model_max": rng.choice([MAX, MAX, MAX, mp + 3]),
               "echo": rng.random() < 0.5, "scores": rng.random() < 0.7, "norm": rng.random() < 0.6, "temp": rng.choice([1.0, 1.0, 0.5, 2.0]),
               "unk_penalty": rng.choice([0.0, 0.0, 0.5, 1.5, -0.5, 100.0]), "len_penalty": rng.choice([1.0, 1.0, 0.5, 2.0]),
               "chunk": rng.choice([None, 1, 2, 512]), "procs": procs, "sampler": rng.choice(["any", "any", "topk", "topp"]), "seed": rng.randrange(10**6)}


def generate(inp):
    """The hypotheses of each prompt as (tokens, score, step scores)."""
    vocab = VocabularyInfo(inp["V"], inp["unk"], None, inp["eos"], inp["pad"])
    procs = [NGramRepeatBlockProcessor(a) if k == "ngram" else BannedSequenceProcessor([torch.tensor(b) for b in a]) for k, a in inp["procs"]]
    model = Decoder(inp)
    kw = dict(min_gen_len=inp["min"], max_seq_len=inp["max_seq"], echo_prompt=inp["echo"], normalize_scores=inp["norm"], temperature=inp["temp"],
              unk_penalty=inp["unk_penalty"], len_penalty=inp["len_penalty"], prefill_chunk_size=inp["chunk"], step_processors=procs,
              max_gen_len=(1.0, inp["max"] - 2) if inp["s2s"] and inp["max"] > 2 else ((0.0, inp["max"]) if inp["s2s"] else inp["max"]))
    sampler = None
    if inp["kind"] == "beam":
        cls = BeamSearchSeq2SeqGenerator if inp["s2s"] else BeamSearchSequenceGenerator
        gen = cls(model, vocab, beam_size=inp["n"], **kw)
    else:
        torch.manual_seed(inp["seed"])
        sampler = {"any": lambda: AnySampler(inp["seed"]), "topk": lambda: TopKSampler(2), "topp": lambda: TopPSampler(0.8)}[inp["sampler"]]()
        cls = SamplingSeq2SeqGenerator if inp["s2s"] else SamplingSequenceGenerator
        gen = cls(model, vocab, sampler, num_gens=inp["n"], compute_scores=inp["scores"], **kw)
    lens = [len(p) for p in inp["prompts"]]
    width = max(lens) + inp["extra"]
    seqs = torch.tensor([p + [0] * (width - len(p)) for p in inp["prompts"]])
    args = [seqs, BatchLayout.of(seqs, lens)]
    if inp["s2s"]:
        src = torch.tensor(inp["source"] if "source" in inp else [[i, 7] for i in range(len(lens))])
        args = [src, BatchLayout.of(src), *args]
    keep = seqs.clone()
    hooked = []
    gen.register_step_hook(lambda idx, s, sc, prefill: hooked.append((idx.tolist(), s.tolist())))
    out = gen(*args)
    if not torch.equal(seqs, keep):
        raise Wrong("the given prompts are changed")
    for idx, s in hooked:
        for i, q in zip(idx, s):
            p = inp["prompts"][i]
            if q[:len(p)] != p[:len(q)]:
                raise Wrong(f"the prompt {p} has become {q[:len(p)]} in a generated sequence")
    if sampler is not None and getattr(sampler, "bad", None):
        raise Wrong(sampler.bad)
    return [[(h.seq.tolist(), None if h.score is None else float(h.score), None if h.step_scores is None else h.step_scores.tolist()) for h in hs] for hs in out.hypotheses]


class Wrong(Exception):
    pass


def limits(inp):
    mp = max(len(p) for p in inp["prompts"])
    top = inp["model_max"] if inp["max_seq"] is None else min(inp["max_seq"], inp["model_max"])
    return mp, top, min(top, mp + inp["min"]), min(top, mp + inp["max"])


def banned(inp, prefix):
    out = set()
    for k, a in inp["procs"]:
        for v in range(inp["V"]):
            s = prefix + [v]
            if k == "ngram":
                if len(s) > a and any(s[i:i + a] == s[-a:] for i in range(len(s) - a)):
                    out.add(v)
            elif any(len(s) >= len(b) and s[-len(b):] == b for b in a):
                out.add(v)
    return out


def step(inp, src, full, j):
    """The log probability of token j of a sequence as the generator should count it, or what forbids the token."""
    mp, top, lo, hi = limits(inp)
    V, v = inp["V"], full[j]
    lg = [x / inp["temp"] for x in row_logits(inp["seed"], src, full[:j], V)]
    m = max(lg)
    lp = lg[v] - m - math.log(sum(math.exp(x - m) for x in lg))
    if j < inp["_len"] or j == hi - 1:
        return lp
    if v in banned(inp, full[:j]):
        return f"token {v} is generated although a step processor bans it"
    if v == inp["unk"]:
        if inp["kind"] == "beam":
            lp -= inp["unk_penalty"]
        else:
            p = math.exp(lp) - inp["unk_penalty"]
            if p <= 0:
                return f"the unknown token is drawn although its penalised probability is {p}"
            lp = math.log(p)
    return lp


def close(a, b):
    return a == b or abs(a - b) <= 2e-4 * max(1.0, abs(a), abs(b))


def judge(inp, out, sources):
    mp, top, lo, hi = limits(inp)
    eos, pad = inp["eos"], inp["pad"] if inp["pad"] != inp["eos"] else None
    beam = inp["kind"] == "beam"
    for p, src, hyps in zip(inp["prompts"], sources, out):
        if len(hyps) > inp["n"] or (not beam and len(hyps) != inp["n"]):
            return "number of hypotheses", f"{len(hyps)} hypotheses are returned for a prompt instead of {'at most ' if beam else ''}{inp['n']}"
        if (beam or inp["scores"]) and [h[1] for h in hyps] != sorted((h[1] for h in hyps), reverse=True):
            return "order", f"the hypotheses are not returned best score first: {[h[1] for h in hyps]}"
        seen = set()
        for seq, score, steps in hyps:
            full = seq if inp["echo"] else p + seq
            if full[:len(p)] != p:
                return "prompt", f"the prompt {p} has become {full[:len(p)]}"
            gen = full[len(p):]
            if len(full) > hi:
                return "too long", f"a sequence of {len(full)} tokens although the limit is {hi}"
            if len(full) < lo:
                return "too short", f"{full} (prompt {p}) ends after {len(full)} tokens although the minimum is {lo}"
            if not gen or gen[-1] != eos:
                return "no end", f"{full} does not end with end-of-sequence"
            if eos in gen[:-1]:
                return "end inside", f"{full} (prompt {p}) goes on after end-of-sequence"
            if pad is not None and pad in gen:
                return "padding", f"{full} (prompt {p}) contains padding"
            if beam and tuple(full) in seen:
                return "twice", f"{full} is returned twice"
            seen.add(tuple(full))
            inp["_len"] = len(p)
            own = [0.0]
            for j in range(1, len(full)):
                s = step(inp, src, full, j)
                if isinstance(s, str):
                    return "banned", f"{full} (prompt {p}): {s}"
                own.append(s)
            if score is None:
                continue
            want = sum(own) / ((len(full) - 1) ** inp["len_penalty"] if inp["norm"] else 1)
            if not close(score, want):
                return "score", f"the score of {full} (prompt {p}) is {score} instead of {want}"
            part = own if inp["echo"] else own[len(p):]
            if not beam:
                part = [math.exp(x) for x in part]
                if inp["echo"]:
                    part[0] = 0.0
            if len(steps) != len(part) or not all(close(a, b) for a, b in zip(steps, part)):
                return "step scores", f"the step scores of {full} (prompt {p}) are {steps} instead of {part}"
    return None


def nontrivial(inp):
    return inp["max"] - inp["min"] < 4 or inp["max_seq"] is not None


def check(inp):
    inp = dict(inp)
    mp, top, lo, hi = limits(inp)
    name = f"{inp['kind']}: "
    try:
        try:
            out = generate(inp)
        except NoToken:
            return None
        except ValueError as e:
            return None if mp >= top else (name + "rejected", f"rejected although the prompts fit: {e}")
        if mp >= top:
            return name + "accepted", f"prompts of {mp} tokens are accepted although the limit is {top}"
        sources = [(i, 7) if inp["s2s"] else () for i in range(len(inp["prompts"]))]
        r = judge(inp, out, sources)
        if r is not None:
            return name + r[0], r[1]
        if inp["kind"] == "beam" and not inp["s2s"] and len(inp["prompts"]) > 1:
            for i, p in enumerate(inp["prompts"]):
                alone = dict(inp, prompts=[p], min=lo - len(p), max=hi - len(p), max_seq=hi, extra=0)
                a = generate(alone)[0]
                if [h[0] for h in a] != [h[0] for h in out[i]] or not all(close(x[1], y[1]) for x, y in zip(a, out[i])):
                    return name + "batch", f"prompt {p} gives {out[i]} in the batch {inp['prompts']} but {a} alone"
    except Wrong as e:
        return name + "inside", str(e)
    except RuntimeError as e:
        if inp["kind"] == "sampling" and inp["sampler"] != "any" and ("probability tensor" in str(e) or "invalid multinomial" in str(e)):
            if inp["procs"] or inp["V"] < 5 or inp["unk_penalty"] <= 0:
                return None  # every token is banned
        return name + type(e).__name__, f"{type(e).__name__}: {e}"
    except Exception as e:
        return name + type(e).__name__, f"{type(e).__name__}: {e}"
    return None


def from_cex(unit, obligation, cex):
    return None
