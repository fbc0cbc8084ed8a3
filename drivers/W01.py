from fairseq2.utils import stopwatch as sw
from fairseq2.error import InvalidOperationError

RULE = ("random histories of start/stop/reset/read/with on the real Stopwatch under a scripted clock, compared with the "
        "sum of the running intervals since the last reset; non-trivial: at least one running interval")
OPS = ("start", "stop", "reset", "read", "with", "fail", "running")


def cases(rng, tier):
    while True:
        t, h = 0.0, []
        for _ in range(rng.randint(1, 14)):
            t += rng.choice([0, 0.25, 0.5, 1, 3])
            h.append([t, rng.choice(OPS)])
        yield {"history": h}


def nontrivial(inp):
    return any(o in ("start", "with") for _, o in inp["history"])


def check(inp):
    now = [0.0]
    saved = sw.perf_counter if hasattr(sw, "perf_counter") else None
    import time
    real = time.perf_counter
    sw.perf_counter = time.perf_counter = lambda: now[0]
    try:
        w = sw.Stopwatch()
        acc, since = 0.0, None
        for n, (t, op) in enumerate(inp["history"]):
            now[0] = t
            if op in ("start", "with", "fail"):
                try:
                    if op == "start":
                        w.start()
                        ok = True
                    else:
                        ok = False
                        try:
                            with w:
                                ok = True
                                now[0] = t + 0.125
                                if op == "fail":
                                    raise KeyError
                        except KeyError:
                            pass
                        now[0] = t
                except InvalidOperationError:
                    ok = False
                if ok != (since is None):
                    return f"operation {n} ({op}): {'accepted' if ok else 'rejected'} on a {'stopped' if since is None else 'running'} watch"
                if ok and op == "start":
                    since = t
                elif ok:
                    acc += 0.125
            elif op == "stop":
                w.stop()
                if since is not None:
                    acc, since = acc + t - since, None
            elif op == "reset":
                w.reset()
                acc = 0.0
                since = None if since is None else t
            elif w.is_running != (since is not None):
                return f"operation {n}: is_running={w.is_running}"
            want = acc + (t - since if since is not None else 0.0)
            got = w.get_elapsed_time()
            if abs(got - want) > 1e-9:
                return f"after operation {n} ({op}) at {t}: elapsed {got}, running intervals {want}"
        return None
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    finally:
        time.perf_counter = real
        if saved is not None:
            sw.perf_counter = saved
