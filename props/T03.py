from props._trainer import *

PROXY = f"{T}:_TrainerProxy"


class Component(Sink):
    """A stateful collaborator: hands out its own state and records what it is given."""

    def __init__(self, ctx, name, error=None):
        super().__init__(ctx)
        self.cname, self.loaded, self.error = name, [], error
        self.saved = None

    def find_method(self, name):
        if name == "state_dict":
            def sd(ctx):
                self.saved = PyDict(ctx, {"token": Ext(f"state of {self.cname}")})
                return self.saved
            return sd
        if name == "load_state_dict":
            def load(ctx, state_dict):
                self.loaded.append(state_dict)
                return None
            return load
        if name == "temporary_manual_seed":
            return lambda ctx, *a, **k: NullCM(ctx)
        return super().find_method(name)


class Failing(Component):
    """Rejects every state with the given exception type."""

    def find_method(self, name):
        if name == "load_state_dict":
            def load(ctx, state_dict):
                raise self.error()
            return load
        return super().find_method(name)


class WallWatch(CMSink):
    def __init__(self, ctx, t):
        super().__init__(ctx)
        self.t = t

    def find_method(self, name):
        if name == "get_elapsed_time":
            return lambda ctx: self.t
        return super().find_method(name)


class Bag(MetricBagM):
    def __init__(self, ctx, comp):
        super().__init__(ctx)
        self.comp = comp

    def m_state_dict(self, ctx):
        return self.comp.find_method("state_dict")(ctx)

    def m_load_state_dict(self, ctx, state_dict):
        return self.comp.find_method("load_state_dict")(ctx, state_dict)


COMPONENTS = ("lr_scheduler", "fp16_loss_scaler", "rng_bag", "metric_bag")


class E(Env):
    def __init__(self, ctx, it, tag, bad=None, error=None):
        self.comps = {n: (Failing if n == bad else Component)(ctx, n, error) for n in COMPONENTS}
        self.elapsed = ctx.real(f"elapsed_{tag}", lo=0, inp=True)
        ctx.contracts["fairseq2.utils.rng:RngBag.from_device_defaults"] = lambda it, b: self.comps["rng_bag"]
        super().__init__(ctx, it, lr_scheduler=self.comps["lr_scheduler"],
                         fp16_loss_scaler=self.comps["fp16_loss_scaler"], wall_watch=WallWatch(ctx, self.elapsed))
        t = self.trainer
        for f in ("_rng_bag", "_metric_bag"):
            if f not in t.fields:
                raise Unsupported(f"Trainer has no field {f}")
        t.fields["_rng_bag"] = self.comps["rng_bag"]
        t.fields["_metric_bag"] = Bag(ctx, self.comps["metric_bag"])
        for f in ("_step_nr", "_data_epoch_nr", "_base_wall_time"):
            if f not in t.fields:
                raise Unsupported(f"Trainer has no field {f}")
        t.fields["_step_nr"] = ctx.int(f"step_nr_{tag}", lo=0, inp=True)
        t.fields["_data_epoch_nr"] = ctx.int(f"data_epoch_nr_{tag}", lo=1, inp=True)
        t.fields["_base_wall_time"] = ctx.real(f"base_wall_time_{tag}", lo=0, inp=True)

    def state(self):
        return self.trainer.fields


# states in which a checkpoint can be taken (T01), and whether the data epoch is over by then
SAVING = {"POST_STEP": 0, "END_OF_TRAINING": 0, "STOP_REQUESTED": 0, "EARLY_STOP": 0,
          "END_OF_DATA_EPOCH": 1, "END_OF_DATA": 1}


@unit("round trip", about="state_dict() of one trainer loaded by another gives every component exactly its saved state")
def roundtrip(ctx, it):
    st = ctx.alt("state", list(SAVING))
    a = E(ctx, it, "saved")
    a.trainer.fields["_state"] = state(it, st)
    frozen = dict(a.state())
    sd = it.call_method(it.instantiate(it.cls(PROXY), [a.trainer], {}), "state_dict")
    for k in ("_step_nr", "_data_epoch_nr", "_base_wall_time", "_state"):
        ctx.ensure(f"saving keeps {k}", py_eq(frozen[k], a.state()[k]))
    b = E(ctx, it, "restoring")
    b_before = dict(b.state())
    out = it.outcome(lambda: it.call_method(it.instantiate(it.cls(PROXY), [b.trainer], {}), "load_state_dict", sd))
    ctx.ensure("a saved state is accepted", out[0] == "ok")
    if out[0] != "ok":
        return
    f = b.state()
    ctx.ensure("the step number is restored", zint(f["_step_nr"]) == zint(frozen["_step_nr"]))
    ctx.ensure("the data epoch is the one training continues in",
               zint(f["_data_epoch_nr"]) == zint(frozen["_data_epoch_nr"]) + SAVING[st])
    ctx.ensure("wall time carries over as previous runs plus the saving run",
               zreal(f["_base_wall_time"]) == zreal(frozen["_base_wall_time"]) + a.elapsed)
    for n in COMPONENTS:
        ca, cb = a.comps[n], b.comps[n]
        ctx.ensure(f"{n} receives exactly its own saved state, once",
                   len(cb.loaded) == 1 and isinstance(cb.loaded[0], PyDict)
                   and bool(ca.saved is not None) and ctx.is_valid(zbool(py_eq(cb.loaded[0], ca.saved))))
    for k, v in b_before.items():
        if k not in ("_step_nr", "_data_epoch_nr", "_base_wall_time"):
            ctx.ensure(f"restoring leaves {k} in place", f[k] is v)
    ctx.cover(f"restored from {st}")
    ctx.require_cover("restored from END_OF_DATA_EPOCH")


def good_state(ctx, it):
    a = E(ctx, it, "saved")
    a.trainer.fields["_state"] = state(it, "POST_STEP")
    return it.call_method(it.instantiate(it.cls(PROXY), [a.trainer], {}), "state_dict")


def keys_of(sd):
    if not isinstance(sd, PyDict):
        raise Unsupported("state_dict() is not a plain dict")
    return list(sd.content)


@unit("bad entries", about="a missing, mistyped or unexpected entry is rejected")
def bad(ctx, it):
    sd = good_state(ctx, it)
    keys = keys_of(sd)
    kind = ctx.alt("kind", ["missing", "mistyped", "none", "unexpected"])
    if kind == "unexpected":
        sd.content["surplus entry"] = ctx.int("surplus")
        k = "surplus entry"
    else:
        k = ctx.alt("key", keys)
        if kind == "missing":
            del sd.content[k]
        else:
            sd.content[k] = "a string" if kind == "mistyped" else None
    b = E(ctx, it, "restoring")
    out = it.outcome(lambda: it.call_method(it.instantiate(it.cls(PROXY), [b.trainer], {}), "load_state_dict", sd))
    ctx.ensure(f"{kind} entry {k} is rejected", out[0] == "exc")
    if out[0] == "exc":
        ctx.ensure("with a state dict error", it.subclass(out[1].obj.cls, it.cls("fairseq2.error:StateDictError"))
                   if hasattr(out[1].obj.cls, "qualname") else False)
    ctx.cover("end")


@unit("input untouched", about="loading does not consume the caller's dictionary")
def untouched(ctx, it):
    sd = good_state(ctx, it)
    before = {k: sd.content[k] for k in keys_of(sd)}
    b = E(ctx, it, "restoring")
    it.call_method(it.instantiate(it.cls(PROXY), [b.trainer], {}), "load_state_dict", sd)
    ctx.ensure("same entries", set(before) == set(keys_of(sd)) and all(sd.content[k] is before[k] for k in before))
    ctx.cover("end")


@unit("component errors", about="a component that rejects its state makes the load fail")
def component_error(ctx, it):
    n = ctx.alt("component", list(COMPONENTS))
    sd = good_state(ctx, it)
    exc = ctx.alt("error", ["ValueError", "RuntimeError", "TypeError"])
    b = E(ctx, it, "restoring", bad=n, error=lambda: it.exc({"ValueError": ValueError, "RuntimeError": RuntimeError,
                                                             "TypeError": TypeError}[exc]))
    out = it.outcome(lambda: it.call_method(it.instantiate(it.cls(PROXY), [b.trainer], {}), "load_state_dict", sd))
    ctx.ensure(f"{n} failing is reported", out[0] == "exc")
    ctx.cover("end")
