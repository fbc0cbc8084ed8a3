"""Real StandardCheckpointManager objects, one per simulated process, on a scratch directory."""
import os
import random
import shutil
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import torch

import fairseq2.recipe  # noqa: F401
from fairseq2.checkpoint.manager import StandardCheckpointManager
from fairseq2.error import NotSupportedError
from fairseq2.file_system import NativeLocalFileSystem
from fairseq2.io import _TorchTensorFileDumper, _TorchTensorFileLoader

KINDS = ("trainer", "model", "optimizer", "data_reader")


class Crash(BaseException):
    pass


class Escape(BaseException):
    """The code under test reached for a path outside of its scratch directory."""


class World:
    def __init__(self, size, crash_at=None):
        self.size, self.crash_at = size, crash_at
        self.bar = threading.Barrier(size)
        self.lock = threading.Lock()
        self.ops, self.log = 0, []
        self.acc, self.sum_bar = [], threading.Barrier(size)
        self.crashed = False

    def op(self, rank, what, *paths):
        with self.lock:
            if self.crashed:
                raise Crash()
            if self.crash_at is not None and self.ops == self.crash_at:
                self.crashed = True
                self.bar.abort()
                self.sum_bar.abort()
                raise Crash()
            self.ops += 1
            self.log.append((rank, what) + paths)


class Gang:
    def __init__(self, world, name, rank, size, grank=0):
        self.world, self.name, self.rank, self.size, self.grank = world, name, rank, size, grank
        self.device = torch.device("cpu")

    def barrier(self):
        w = self.world
        with w.lock:
            w.log.append((self.grank, "barrier"))
        if self.name != "root":
            raise AssertionError("barrier of a sub-gang")
        try:
            w.bar.wait(timeout=20)
        except threading.BrokenBarrierError:
            raise Crash() from None

    def all_reduce(self, t, op):
        w = self.world
        try:
            w.sum_bar.wait(timeout=20)
            with w.lock:
                w.acc.append(int(t))
            w.sum_bar.wait(timeout=20)
            s = sum(w.acc)
            w.sum_bar.wait(timeout=20)
            if self.rank == 0:
                w.acc.clear()
            w.sum_bar.wait(timeout=20)
        except threading.BrokenBarrierError:
            raise Crash() from None
        t.fill_(s)

    def as_process_group(self):
        raise NotSupportedError("no process group")


class Gangs:
    def __init__(self, world, shape, rank):
        # rank = ((pp * rdp + r) * sdp + s) * tp + t: data-parallel = rdp x sdp
        pp, rdp, sdp, tp = shape
        t = rank % tp
        s = rank // tp % sdp
        r = rank // tp // sdp % rdp
        p = rank // tp // sdp // rdp
        self.root = Gang(world, "root", rank, pp * rdp * sdp * tp, rank)
        self.dp = Gang(world, "dp", r * sdp + s, rdp * sdp)
        self.rdp, self.sdp = Gang(world, "rdp", r, rdp), Gang(world, "sdp", s, sdp)
        self.tp, self.pp = Gang(world, "tp", t, tp), Gang(world, "pp", p, pp)
        self.device = torch.device("cpu")

    def pos(self, kind):
        return {"trainer": (self.root.rank,), "model": (self.pp.rank, self.tp.rank, self.sdp.rank),
                "optimizer": (self.pp.rank, self.tp.rank, self.sdp.rank), "data_reader": (self.dp.rank,)}[kind]


class FS(NativeLocalFileSystem.__mro__[0] if not getattr(NativeLocalFileSystem, "__final__", False) else NativeLocalFileSystem):
    def __init__(self, world, rank, base, jitter=None):
        super().__init__()
        self.world, self.rank, self.base, self.jitter = world, rank, Path(os.path.realpath(base)), jitter
        self.shuffle = None

    def _guard(self, p, inner=True):
        q = Path(os.path.realpath(p))
        if q != self.base and self.base not in q.parents or inner and q == self.base:
            raise Escape(str(p))

    def _op(self, what, *ps):
        for p in ps:
            self._guard(p)
        if self.jitter:
            time.sleep(self.jitter.random() * 0.0015)
        self.world.op(self.rank, what, *[str(Path(p).relative_to(self.base)) for p in ps])

    def move(self, a, b):
        self._op("move", a, b)
        super().move(a, b)

    def remove(self, p):
        self._op("remove", p)
        super().remove(p)

    def remove_directory(self, p):
        self._op("rmdir", p)
        super().remove_directory(p)

    def make_directory(self, p):
        self._guard(p, inner=False)
        super().make_directory(p)

    def open(self, p, mode=None, **k):
        from fairseq2.file_system import FileMode
        if mode is not None and mode != FileMode.READ:
            self._op("open-w", p)
        return super().open(p, mode) if mode is not None else super().open(p)

    def open_text(self, p, mode=None, **k):
        from fairseq2.file_system import FileMode
        if mode is not None and mode != FileMode.READ:
            self._op("open-w", p)
        return super().open_text(p, mode) if mode is not None else super().open_text(p)

    def glob(self, p, pattern):
        r = list(super().glob(p, pattern))
        if self.shuffle:
            self.shuffle.shuffle(r)
        return iter(r)


class Part:
    def __init__(self, data):
        self.data, self.got = data, None

    def state_dict(self):
        return dict(self.data)

    def load_state_dict(self, sd):
        self.got = sd


class Pool:
    def __init__(self, delay):
        self.ex, self.delay = ThreadPoolExecutor(1), delay

    def queue(self, fn, *a, **k):
        def run():
            time.sleep(self.delay)
            return fn(*a, **k)
        return self.ex.submit(run)


class SlowDumper(_TorchTensorFileDumper):
    """Splits a write in two: between them the file is incomplete."""

    def __init__(self, fs):
        super().__init__(fs)
        self.fs = fs

    def dump(self, data, path, options=None):
        super().dump(data, path, options)
        self.fs._op("written", path)


def make(base, world, shape, rank, jitter=None, delay=0.0, fs=None):
    fs = fs or FS(world, rank, base, jitter)
    g = Gangs(world, shape, rank)
    m = StandardCheckpointManager(output_dir=Path(base), gangs=g, file_system=fs,
                                  tensor_file_loader=_TorchTensorFileLoader(fs),
                                  tensor_file_dumper=SlowDumper(fs), thread_pool=Pool(delay))
    return m, g, fs


def payload(kind, step, gangs):
    code = [KINDS.index(kind), step, *gangs.pos(kind)]
    return {"x": torch.tensor(code, dtype=torch.int64)}


def scratch():
    return tempfile.mkdtemp(prefix="verif_ckpt_")


def snapshot(base):
    out = {}
    for r, ds, fs in os.walk(base):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, base)] = open(p, "rb").read()
        for d in ds:
            out[os.path.relpath(os.path.join(r, d), base) + "/"] = None
    return out


def cleanup(base):
    assert os.path.basename(base).startswith("verif_ckpt_")
    shutil.rmtree(base, ignore_errors=True)


def run_threads(n, fn):
    """fn(rank) in n threads; returns exceptions by rank."""
    errs = {}

    def go(r):
        try:
            fn(r)
        except Crash:
            errs[r] = "crash"
        except BaseException as e:
            errs[r] = f"{type(e).__name__}: {e}"

    ts = [threading.Thread(target=go, args=(r,), daemon=True) for r in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
        if t.is_alive():
            errs["stuck"] = "a process never finished"
    return errs


# ------------------------------------------------------------------ multi-process scenario
def gen_world(rng):
    shape = rng.choice([(1, 1, 1, 1), (1, 2, 1, 1), (1, 1, 2, 1), (1, 1, 1, 2), (1, 2, 2, 1), (1, 1, 2, 2), (2, 1, 1, 2),
                        (1, 2, 1, 2), (2, 1, 2, 1), (1, 3, 1, 1), (1, 1, 3, 1)])
    steps = sorted(rng.sample([1, 2, 3, 5, 7, 10, 11, 100], rng.randint(1, 3)))
    script = []
    for s in steps:
        script.append({"op": rng.choice(["save", "save", "model"]), "step": s, "blocking": rng.random() < 0.4,
                       "delays": [round(rng.random() * 0.01, 4) for _ in range(8)],
                       "polls": rng.randint(0, 2), "finish": rng.random() < 0.7})
    return {"shape": shape, "script": script, "seed": rng.randrange(1 << 30),
            "crash": rng.choice([None, None, rng.randint(0, 60)]), "again": rng.random() < 0.2}


def run_world(inp):
    """-> (failure or None) for C02/C03, tagged by property."""
    shape = tuple(inp["shape"])
    size = shape[0] * shape[1] * shape[2] * shape[3]
    base = scratch()
    fails = []
    try:
        w = World(size, inp["crash"])
        mans = {}
        committed, started = {}, {}
        announced = [[] for _ in range(size)]

        def visible_complete(step, kinds, why):
            d = os.path.join(base, "checkpoints", f"step_{step}")
            if not os.path.isdir(d):
                fails.append(("C02", f"step {step}: {why}, but it is not visible"))
                return
            for r in range(size):
                g = Gangs(World(1), shape, r)
                for k in kinds:
                    if k == "data_reader" and shape[0] > 1:
                        continue
                    m, _, _ = make(base, World(1), shape, r)
                    part = Part({})
                    try:
                        getattr(m, f"load_{k}_state")(step, part)
                    except Exception as e:
                        cut = "C03" if not inp["crash"] else "C02"
                        fails.append((cut, f"step {step}: {why}, but {k} of rank {r} does not load: {type(e).__name__}: {e}"))
                        return
                    got = part.got.get("x").tolist() if isinstance(part.got, dict) and "x" in part.got else part.got
                    want = payload(k, step, g)["x"].tolist()
                    if got != want:
                        fails.append(("C03", f"step {step}: rank {r} loads {k} state {got}, not {want}"))
                        return

        def proc(rank):
            rng = random.Random(inp["seed"] + rank)
            m, g, fs = make(base, w, shape, rank, jitter=rng)
            mans[rank] = m
            for c in inp["script"]:
                step, kinds = c["step"], KINDS if c["op"] == "save" else ("model",)
                m._thread_pool.delay = c["delays"][rank % 8]
                parts = {k: Part(payload(k, step, g)) for k in KINDS}

                def saved(s, b, step=step, kinds=kinds):
                    announced[rank].append(s)
                    if s != step:
                        fails.append(("C02", f"callback of step {step} got {s}"))
                    elif rank == 0 or True:
                        d = os.path.join(base, "checkpoints", f"step_{step}")
                        if not os.path.isdir(d):
                            fails.append(("C02", f"rank {rank}: step {step} announced before it is visible"))

                started[step] = kinds
                if c["op"] == "save":
                    m.save_checkpoint(step, *[parts[k] for k in KINDS], saved_callback=saved, blocking=c["blocking"])
                else:
                    m.save_model_only(step, parts["model"], saved_callback=saved, blocking=c["blocking"])
                if c["blocking"]:
                    committed[step] = kinds
                    if m.is_saving:
                        fails.append(("C02", f"a blocking save of step {step} is still pending"))
                else:
                    for _ in range(c["polls"]):
                        if not m.is_saving:
                            break
                        r = m.maybe_complete_save_operation()
                        if r:
                            committed[step] = kinds
                            if step not in announced[rank]:
                                fails.append(("C02", f"step {step} completed without its callback"))
                        elif r is False and step in announced[rank]:
                            fails.append(("C02", f"step {step} announced, but reported as not complete"))
                    if c["finish"] and m.is_saving:
                        m.maybe_complete_save_operation(blocking=True)
                        committed[step] = kinds
                    elif m.is_saving and c is inp["script"][-1]:
                        m.maybe_complete_save_operation(blocking=True)
                        committed[step] = kinds

        errs = run_threads(size, proc)
        for m in mans.values():
            m._thread_pool.ex.shutdown(wait=True)
        real = {r: e for r, e in errs.items() if e != "crash"}
        if real:
            esc = [e for e in real.values() if "Escape" in e]
            return ("C02", f"a process failed: {real}" if not esc else f"path outside of the checkpoint directory: {esc}")
        if errs and not w.crashed:
            return ("C02", f"processes wait for each other in different places: {errs}")
        # whatever happened: what is visible is complete
        cdir = os.path.join(base, "checkpoints")
        names = sorted(os.listdir(cdir)) if os.path.isdir(cdir) else []
        m, _, _ = make(base, World(1), shape, 0)
        listed = m.get_step_numbers()
        for x in listed:
            if not os.path.isdir(os.path.join(cdir, f"step_{x}")):
                fails.append(("C02", f"step {x} is listed, but not committed: {names}"))
            elif x not in started:
                fails.append(("C02", f"step {x} is listed, but was never saved"))
            else:
                visible_complete(x, started[x], "it is listed")
        last = m.maybe_get_last_step_number()
        if last != (max(listed) if listed else None):
            fails.append(("C02", f"last step {last} of {listed}"))
        if not errs:
            for s in started:
                if s not in listed:
                    fails.append(("C02", f"step {s} was saved and completed, but is not listed: {names}"))
                for r in range(size):
                    if announced[r].count(s) != 1:
                        fails.append(("C02", f"step {s} announced {announced[r].count(s)} times on rank {r}"))
            # file ownership: every file of a checkpoint is written once
            wr = {}
            for rank, what, *ps in w.log:
                if what == "written":
                    wr.setdefault(ps[0], []).append(rank)
            for p, rs in wr.items():
                dup = [r for r in rs]
                if len(set(dup)) > 1 and not (shape[0] > 1 and "data_reader" in p):
                    fails.append(("C03", f"{p} is written by processes {sorted(set(dup))}"))
        if fails:
            return fails[0] if len({f[0] for f in fails}) == 1 else sorted(fails)[0] + ()
        return None
    finally:
        cleanup(base)


def judge_world(pid):
    def check(inp):
        r = run_world(inp)
        if r is None:
            return None
        # Violations of the sister property are reported by its own check.
        if r[0] != pid:
            return None
        return ("world", r[1])
    return check
