import drivers.boot  # noqa
import threading
from types import SimpleNamespace

import torch

import fairseq2
from fairseq2.data_type import (_DataTypeModeStack, _StandardDataTypeContext, _tensor_constructors)
from fairseq2.device import META_DEVICE, _StandardDeviceContext
from fairseq2.gang import Gangs, _GangManager, _StandardGangContext, create_fake_gangs
import fairseq2.gang as gang_mod
from fairseq2.utils.threading import _StandardThreadLocalStorage

RULE = ("random trees of nested device, data type and gang scopes (left normally or by exceptions, in two threads) on the real "
        "contexts with real tensors, against a stack; non-trivial: a nested scope left by an exception")
DT = [torch.float16, torch.bfloat16, torch.float32, torch.float64]
DEV = [torch.device("cpu"), torch.device("meta"), torch.device("cpu", 0)]


class Boom(Exception):
    pass


def tree(rng, depth):
    out = []
    for _ in range(rng.randint(0, 3) if depth else 0):
        out.append([rng.choice(["dtype", "gangs", "gangs", "with", "device"]), rng.randrange(4), rng.random() < 0.4,
                    rng.random() < 0.4, rng.random() < 0.2, tree(rng, depth - 1)])
    return out


def cases(rng, tier):
    while True:
        yield {"tree": tree(rng, rng.randint(1, 4)), "defaults": [rng.randrange(4), rng.random() < 0.5, rng.random() < 0.5]}


def nontrivial(inp):
    return any(t[3] and any(x for x in t[5]) for t in inp["tree"])


def check(inp):
    tls = _StandardThreadLocalStorage()
    dc = _StandardDeviceContext()
    mgr = _GangManager(dc, tls)
    gc = _StandardGangContext(mgr)
    tc = _StandardDataTypeContext(_DataTypeModeStack(_tensor_constructors(), tls))
    gangs = [create_fake_gangs(d) for d in (DEV[0], DEV[2], DEV[2], DEV[0])]
    stacks = {d: [] for d in DEV}
    types, devs = [torch.get_default_dtype()], [dc.get_current_device()]
    dflt = {}
    n, use, meta = inp["defaults"]
    try:
        if use:
            mgr.set_default_gangs(gangs[n], meta)
            dflt[gangs[n].device] = gangs[n]
            if meta:
                dflt[DEV[1]] = gangs[n]
        fakes = {d: mgr.get_default_gangs(d) for d in DEV}
    except Exception as e:  # noqa
        return f"default gangs: {e!r}"
    old = gang_mod.get_dependency_resolver
    gang_mod.get_dependency_resolver = lambda: SimpleNamespace(resolve=lambda k: mgr if k is _GangManager else gc)
    errs = []

    def look(at):
        if tc.get_current_dtype() != types[-1]:
            return f"{at}: current type {tc.get_current_dtype()}, expected {types[-1]}"
        for fn in (lambda: torch.ones((2,)), lambda: torch.zeros((1,), dtype=None), lambda: torch.rand((1,))):
            if fn().dtype != types[-1]:
                return f"{at}: a new tensor has type {fn().dtype}, expected {types[-1]}"
        if torch.ones((2,), dtype=torch.int8).dtype != torch.int8:
            return f"{at}: an explicit type is not honoured"
        if dc.get_current_device() != devs[-1] or torch.ones((2,)).device.type != devs[-1].type:
            return f"{at}: current device {dc.get_current_device()}, expected {devs[-1]}"
        for d in DEV:
            want = stacks[d][-1] if stacks[d] else dflt.get(d, fakes[d])
            if gc.get_current_gangs(d) is not want:
                return f"{at}: wrong current gangs of {d}"
        cur = devs[-1]
        for d in DEV:
            if d == cur and gc.get_current_gangs() is not gc.get_current_gangs(d):
                return f"{at}: the gangs of the current device are not the current ones"
        return None

    def other(at):
        def run():
            try:
                if tc.get_current_dtype() != torch.float32:
                    errs.append(f"{at}: the data type leaks into another thread")
                for d in DEV:
                    if gc.get_current_gangs(d) is not dflt.get(d, fakes[d]):
                        errs.append(f"{at}: the gangs leak into another thread")
            except Exception as e:  # noqa
                errs.append(f"{at}: {e!r} in another thread")
        t = threading.Thread(target=run)
        t.start()
        t.join()

    def walk(nodes, path):
        for i, (kind, n, meta, boom, thread, sub) in enumerate(nodes):
            at = f"{path}/{kind}{i}"
            if kind == "dtype":
                cm, stk, v = tc.set_dtype(DT[n]), [types], DT[n]
            elif kind == "device":
                v = DEV[n % 2]
                cm, stk = dc.set_device(v), [devs]
            else:
                v = gangs[n]
                meta = meta and kind == "gangs"
                cm = v if kind == "with" else gc.set_gangs(v, meta=meta)
                stk = [stacks[v.device]] + ([stacks[DEV[1]]] if meta else [])
            caught = False
            try:
                with cm:
                    for s in stk:
                        s.append(v)
                    e = look(at)
                    if e is None and thread:
                        other(at)
                        e = errs[0] if errs else None
                    if e is None:
                        e = walk(sub, at)
                    if e:
                        raise RuntimeError(e)
                    if boom:
                        raise Boom()
            except Boom:
                caught = True
            for s in stk:
                s.pop()
            if caught != boom:
                return f"{at}: the exception of the scope is swallowed or invented"
            e = look(f"after {at}")
            if e:
                return e
        return None

    try:
        e = look("at the beginning")
        return e or walk(inp["tree"], "")
    except RuntimeError as e:
        return str(e)
    except Exception as e:  # noqa
        return f"{e!r}"
    finally:
        gang_mod.get_dependency_resolver = old
        while len(torch.overrides._get_current_function_mode_stack()):
            from torch.overrides import _pop_mode
            _pop_mode()
