"""Judges the trace of a simulated training run, property by property."""
from fairseq2.recipe.error import MinimumLossScaleReachedError

from .trainer_sim import due, simulate

KINDS = {"publish_metrics": "publish", "validate": "validate", "checkpoint": "SAVE"}
KNOWN = {"read", "batches", "reset", "process", "backward", "unscale", "clip", "update", "overflow", "zero_grad",
         "lr", "publish", "validate", "SAVE", "visible", "score", "scored", "stopper", "STOP", "save"}


def windows(inp, w, resumed=None):
    """Cuts the trace at decision points.
    -> list of (point, step, epoch, stop requested before, events)"""
    step, epoch = (0, 1) if resumed is None else (resumed["_step_nr"], resumed["_data_epoch_nr"])
    out = [["start", step, epoch, False, []]]
    asked = False
    for e in w.trace:
        if e[0] == "STOP":
            asked = True
        if e[0] == "read":
            out.append(["read", step, epoch, asked, []])
        elif e[0] == "lr":
            step += 1
            out.append(["post", step, epoch, asked, []])
        elif e[0] == "overflow":
            # a stop fired by this very event is asked before the step ends
            out.append(["over", step, epoch, asked, []])
        elif e[0] == "reset":
            out.append(["epoch", step, epoch, asked, []])
            epoch += 1
        out[-1][4].append(e)
    for x in out:
        if x[0] in ("over", "epoch") and len(x[4]) > 1 and x[4][1][0] == "STOP":
            x[3] = True
    return out


def expectation(inp, win, resumed=False):
    """-> (rule per kind -> expected count, ends)"""
    cfg, (pt, step, epoch, asked, evs) = inp["cfg"], win
    ms, me = cfg.get("max_num_steps"), cfg.get("max_num_data_epochs")
    early = any(e[0] == "stopper" and e[3] for e in evs)
    sd = {k: due(cfg, k, step, "steps") for k in KINDS}
    ed = {k: due(cfg, k, epoch, "data_epochs") for k in KINDS}
    none = {k: 0 for k in KINDS}
    if pt == "start":
        exp = dict(none)
        if cfg.get("validate_at_start") and not resumed:
            exp["validate"] = 1
        ends = False
    elif pt == "read":
        return none, None
    elif pt == "post":
        if (ms is not None and step >= ms) or asked:
            exp, ends = {k: 1 for k in KINDS}, True
        else:
            exp, ends = {k: int(sd[k]) for k in KINDS}, early
            if early and not sd["checkpoint"]:
                exp["checkpoint"] = 1
    elif pt == "over":
        exp, ends = ({k: 1 for k in KINDS}, True) if asked else (none, False)
    else:
        if step == 0:
            exp, ends = none, True
        elif me is not None and epoch >= me:
            exp, ends = {k: int(not sd[k]) for k in KINDS}, True
        elif asked:
            exp, ends = {k: 1 for k in KINDS}, True
        else:
            exp, ends = {k: int(ed[k] and not sd[k]) for k in KINDS}, early
            if early and not sd["checkpoint"]:
                exp["checkpoint"] += 1
    if not inp.get("validator", True):
        exp = dict(exp, validate=0)
    return exp, ends


def t01(inp):
    w, out = simulate(inp)
    if not isinstance(out, str):
        return None if isinstance(out, MinimumLossScaleReachedError) else ("run-failed", f"run raised {out!r}")
    for win in windows(inp, w):
        exp, _ = expectation(inp, win)
        for k, ev in KINDS.items():
            got = [e for e in win[4] if e[0] == ev]
            if len(got) != exp[k]:
                return ("schedule", f"{k}: {len(got)} times instead of {exp[k]} at {win[0]} point of step {win[1]}, "
                                    f"epoch {win[2]}, stop requested={win[3]}")
            for e in got:
                if e[1] != win[1]:
                    return ("schedule-step", f"{k} carries step {e[1]} at step {win[1]}")
    return None


def t02(inp):
    w, out = simulate(inp)
    if out == "runaway":
        return ("runaway", "the run does not stop")
    if not isinstance(out, str):
        return None if isinstance(out, MinimumLossScaleReachedError) else ("run-failed", f"run raised {out!r}")
    cfg = inp["cfg"]
    ms, me = cfg.get("max_num_steps"), cfg.get("max_num_data_epochs")
    ups = sum(e[0] == "update" for e in w.trace)
    if ms is not None and ups > ms:
        return ("limit", f"{ups} updates, limit {ms}")
    if w.trainer.step_nr != ups:
        return ("count", f"step number {w.trainer.step_nr} after {ups} updates")
    allowed, resets, updates, early = None, 0, 0, False
    phase = "start"
    for e in w.trace:
        k = e[0]
        if k == "read":
            if allowed == 0:
                return ("stop", f"a batch is read after a served stop request: {inp['stop']}")
            if early:
                return ("early", "a batch is read after an early stop")
            if me is not None and resets >= me:
                return ("epochs", f"reads in epoch {resets + 1}, limit {me}")
            if ms is not None and updates >= ms:
                return ("limit", "reads a batch at the step limit")
            if allowed:
                allowed -= 1
        elif k == "reset":
            resets += 1
        elif k == "update":
            updates += 1
        elif k == "set_step" and e[1] != updates + 1:
            return ("count", f"step {e[1]} announced after {updates} updates")
        elif k == "stopper" and e[3]:
            early = True
        elif k == "STOP" and allowed is None:
            allowed = 0 if e[1] in ("read", "process", "update", "overflow", "reset") else 1
    if (out == "stop") != (w.stop_fired or early):
        return ("report", f"outcome {out}, stop requested {w.stop_fired}, early stop {early}")
    wins = windows(inp, w)
    ends = expectation(inp, wins[-1])[1]
    if ends is None or not ends:
        return ("ends", f"training ends at {wins[-1][:4]} for no reason")
    for x in wins[:-1]:
        if expectation(inp, x)[1]:
            return ("continues", f"training continues after {x[:4]}")
    return None


def resume_cfg(inp):
    r = dict(inp)
    r["overflow"], r["explode"], r["stop"], r["stopper"] = [], None, None, None
    r["cfg"] = dict(inp["cfg"], validate_at_start=False, save_model_only=False)
    if r["cfg"]["max_num_steps"] is None and r["cfg"]["max_num_data_epochs"] is None:
        r["cfg"]["max_num_steps"] = 6
    return r


def t03(inp):
    inp = resume_cfg(inp)
    w, out = simulate(inp)
    if out != "ok":
        return None if out in ("runaway",) else ("run-failed", f"run ended with {out!r}")
    for step, st in w.saved_states.items():
        ts = st["trainer"]
        if ts["_step_nr"] != step:
            return ("saved-step", f"checkpoint of step {step} holds step {ts['_step_nr']}")
        if ts["_lr_scheduler"] != {"n": step}:
            return ("saved-lr", f"checkpoint of step {step} holds scheduler {ts['_lr_scheduler']}")
        w2, out2 = simulate(inp, ckpt=(step, st))
        for n2, st2 in [(step, st)] + list(w2.saved_states.items()):
            want = 2.5 if n2 == step and st2 is st else 5.0
            if ts["_base_wall_time"] != 2.5 or st2["trainer"]["_base_wall_time"] != want:
                return ("wall", f"2.5 s per run: saved wall time at step {n2} is {st2['trainer']['_base_wall_time']}, not {want}")
        if out2 != "ok":
            return ("resume", f"resumed from {step}: {out2!r}")
        # the continuation does what the uninterrupted run did after that point
        key = lambda tr: [e for e in tr if e[0] in ("read", "batches", "reset", "update", "set_step")]
        a = key(w.trace[st["at"]:])
        b = key(w2.trace)
        if a != b:
            return ("resume-differs", f"resumed from step {step}: {b[:12]} instead of {a[:12]}")
        t2 = w2.trainer
        if t2.step_nr != w.trainer.step_nr or w2.sched.n != w.sched.n:
            return ("resume-count", f"resumed from {step}: step {t2.step_nr}, scheduler {w2.sched.n}; "
                                    f"uninterrupted {w.trainer.step_nr}, {w.sched.n}")
    return None


def t04(inp):
    w, out = simulate(inp)
    if not isinstance(out, str):
        if isinstance(out, MinimumLossScaleReachedError):
            if out.step_nr != sum(e[0] == "update" for e in w.trace) + 1:
                return ("explosion-step", f"explosion reported for step {out.step_nr}")
            return None
        return ("run-failed", f"run raised {out!r}")
    if inp.get("explode") is not None and w.attempt > inp["explode"]:
        return ("explosion", "loss scale at its minimum does not fail the run")
    cur, batches, last, seen, updates = [], [], None, 0, 0
    for e in w.trace:
        k = e[0]
        if k == "batches":
            batches, cur, zg = e[1], [], 0
        elif k == "process":
            cur.append(e[1])
        elif k in ("update", "overflow"):
            if cur != batches:
                return ("order", f"micro-batches {cur} processed, {batches} read")
            last = k
            if k == "update":
                updates += 1
            need_zero = True
            if k == "overflow":
                pass
        elif k == "zero_grad":
            zg += 1
            if zg != 1 or last is None:
                return ("zero", "gradients zeroed at the wrong time")
        elif k == "lr":
            if last != "update":
                return ("scheduler", "scheduler advances without an update")
            if zg != 1:
                return ("zero", "gradients not zeroed after the update")
            last = None
            seen += len(batches)
        elif k == "set_step":
            if e[1] != updates + 1:
                return ("number", f"attempt runs under number {e[1]} after {updates} updates")
            last = None
        elif k == "metric_values":
            if e[1] != seen:
                return ("metrics", f"metrics count {e[1]} micro-batches, {seen} belong to counted steps")
    if w.sched.n != updates:
        return ("scheduler", f"{w.sched.n} scheduler steps for {updates} updates")
    return None


def t05(inp):
    w, out = simulate(inp)
    if out not in ("ok", "stop"):
        return None
    if w.pending is not None:
        return ("pending", f"save of step {w.pending[0]} still pending when the run returned ({out})")
    vis = [e[1] for e in w.trace if e[0] == "visible"]
    for e in w.trace:
        if e[0] == "SAVE" and e[1] not in vis:
            return ("lost", f"checkpoint of step {e[1]} never became visible")
    win = windows(inp, w)[-1]
    exp, _ = expectation(inp, win)
    if exp["checkpoint"] and win[1] not in vis:
        return ("final", f"no checkpoint of the final step {win[1]}")
    return None


def t06(inp):
    w, out = simulate(inp)
    if not isinstance(out, str) and not isinstance(out, MinimumLossScaleReachedError):
        return ("run-failed", f"run raised {out!r}")
    batches, flags, bflags = [], [], []
    tg = inp.get("targets")
    for e in w.trace:
        if e[0] == "batches":
            batches, flags, bflags = e[1], [], []
        elif e[0] == "process":
            flags.append(e[2])
        elif e[0] == "backward":
            bflags.append(e[1])
        elif e[0] in ("update", "overflow"):
            n = len(batches)
            want = [bool(inp.get("accum_nosync")) and i < n - 1 for i in range(n)]
            if flags != want or (inp.get("fp16") and bflags != want):
                return ("sync", f"no-sync flags {flags}/{bflags}, expected {want}")
            if e[0] == "update":
                s = sum(2.0 ** (u % 5) for u in batches)
                if tg is None:
                    g = s / n
                else:
                    t = sum(tg[u % len(tg)] for u in batches)
                    g = s / t if t > 0 else s
                if abs(g - (e[1] or 0.0)) > 1e-4 * max(1, abs(g)):
                    return ("scale", f"gradient {e[1]} at the update of {batches}, expected {g}")
    return None


def t07(inp):
    decisions = []

    def rec(gang, flag, *a, **k):
        decisions.append(bool(flag))
        return bool(flag)

    w, out = simulate(inp, bcast=rec)
    if not isinstance(out, str):
        return None if isinstance(out, MinimumLossScaleReachedError) else ("run-failed", f"run raised {out!r}")
    for win in windows(inp, w):
        exp, _ = expectation(inp, win)
        # an early stop saves after the validation: its score is not recorded by the validation
        due_ck = exp["checkpoint"] and not (any(e[0] == "stopper" and e[3] for e in win[4])
                                           and not any(e[0] == "SAVE" for e in win[4][:_idx(win[4], "stopper")]))
        scored = [e for e in win[4] if e[0] == "scored" and e[2] is not None]
        rec_ = [e for e in win[4] if e[0] == "score"]
        if len(rec_) != (len(scored) if due_ck else 0):
            return ("score", f"{len(rec_)} scores recorded at {win[:4]}, checkpoint due: {bool(due_ck)}")
        for e in rec_:
            if e[1] != win[1] or e[2] != scored[0][2]:
                return ("score-value", f"score {e} recorded at step {win[1]}, validation gave {scored[0]}")
        st = [e for e in win[4] if e[0] == "stopper"]
        if len(st) > len(scored):
            return ("stopper-twice", f"early stopper consulted {len(st)} times for {len(scored)} scores")
        for e in st:
            if e[1] != win[1] or e[2] != scored[0][2]:
                return ("stopper-args", f"early stopper got {e}")
    for e in w.trace:
        if e[0] == "validating" and e[2]:
            return ("eval", "validation runs with the model in training mode")
    if not w.model.training:
        return ("train", "model is left in evaluation mode")
    if inp.get("stopper") is not None:
        replay = list(decisions)
        inp1 = dict(inp, rank=1)

        def give(gang, flag, *a, **k):
            return replay.pop(0) if replay else False

        w1, out1 = simulate(inp1, bcast=give)
        if any(e[0] == "stopper" for e in w1.trace):
            return ("rank1", "a process other than the first consults the early stopping policy")
        if inp.get("stop") is None or inp["stop"][0] not in ("publish",):
            k = lambda t: [e for e in t if e[0] in ("read", "batches", "update", "validate", "SAVE", "reset")]
            if k(w.trace) != k(w1.trace) or out != out1 or replay:
                return ("agree", f"processes diverge: {out} / {out1}")
    return None


def _idx(evs, kind):
    for i, e in enumerate(evs):
        if e[0] == kind:
            return i
    return len(evs)
