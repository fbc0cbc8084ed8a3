from pathlib import Path

import fairseq2.recipe  # noqa: F401
from fairseq2.assets.card import AssetCardError
from fairseq2.assets.metadata_provider import AssetMetadataError, CachedAssetMetadataProvider, canonicalize_asset_name, load_in_memory_asset_metadata, sanitize_base_asset_name
from fairseq2.assets.store import AssetNotFoundError, StandardAssetStore

RULE = ("random registries (1-3 providers of 0-7 assets with plain and environment entries, base chains, cycles, missing bases) behind the real store, looked up "
        "by name, name@environment and name@; against an independent resolution; non-trivial: a look-up that goes through a base card or an environment")
NAMES = ["a", "b", "c", "d", "e"]
ENVS = ["user", "dev", "prod"]
FIELDS = ["f", "g", "path"]


def spec_name(n):
    p = n.split("@")
    if len(p) > 2 or not p[0].strip():
        return None
    return p[0].strip() + "@" + (p[1].strip() if len(p) == 2 else "")


def cases(rng, tier):
    for n in ["a", " a ", "a@", "a@x", " a @ x ", "a@x@y", "", " ", "@", "@x", " @x", "a@ ", "a b", "a@@", "@@", "a@x y"]:
        yield {"kind": "name", "name": n}
    yield {"kind": "store", "providers": [[{"name": "a", "base": "b"}, {"name": "b", "base": "a"}]], "env": None, "asks": [["a", "f"], ["b@", "f"]]}
    yield {"kind": "store", "providers": [[{"name": "a", "base": "a"}]], "env": None, "asks": [["a", "f"]]}
    yield {"kind": "store", "providers": [[{"name": "a", "base": " b "}, {"name": "b", "f": 1}]], "env": None, "asks": [["a", "f"]]}
    yield {"kind": "store", "providers": [[{"name": "a"}, {"name": "a@user", "f": 1}]], "env": " ", "asks": [["a", "f"], ["a@", "f"], ["a@ user ", "f"], ["a@ @", "f"]]}
    while True:
        ps = []
        clean = rng.random() < 0.85
        used = set()
        for p in range(rng.randint(1, 3)):
            es = []
            for _ in range(rng.randint(0, 7)):
                n = rng.choice(NAMES)
                e = {}
                if rng.random() < 0.5:
                    n = n + rng.choice(["@", " @ "]) + rng.choice(ENVS)
                if clean and spec_name(n) in used:
                    continue
                used.add(spec_name(n))
                e["name"] = n
                if rng.random() < 0.6:
                    e["base"] = rng.choice(NAMES[NAMES.index(n[0]) + 1:] or NAMES) if rng.random() < 0.8 else rng.choice(NAMES + ["zz", " b ", 3, ""])
                    if not clean and rng.random() < 0.1:
                        e["base"] = "a@user"
                for f in FIELDS:
                    if rng.random() < 0.35:
                        e[f] = rng.choice([None, 1, "x", [1], {"k": [2]}, "sub/file", "/abs/file"])
                if rng.random() < 0.5:
                    e["__base_path__"] = rng.choice(["/m1", "/m2", "/m3"])
                es.append(e)
            ps.append(es)
        asks = [[rng.choice(NAMES + [" a ", "zz", ""]) + rng.choice(["", "", "@", "@dev", "@ prod ", "@none"]), rng.choice(FIELDS)] for _ in range(4)]
        yield {"kind": "store", "providers": ps, "env": rng.choice([None, "dev", " prod ", "", "none"]), "asks": asks}


def nontrivial(i):
    return i["kind"] == "store" and any("base" in e or "@" in e["name"] for p in i["providers"] for e in p)


class Missing(Exception):
    pass


def resolve(reg, name, envs, seen, leaf):
    """The chain of (name, metadata) of a card."""
    if name + "@" not in reg:
        if name != leaf:
            raise Missing
        return None
    src, md = reg[name + "@"]
    md = dict(md)
    for e in envs:
        if f"{name}@{e}" in reg:
            src, more = reg[f"{name}@{e}"]
            md.update(more)
            break
    md["__source__"] = src
    chain = [(name, md)]
    b = md.get("base")
    if isinstance(b, str):
        if b in seen:
            raise Missing
        chain += resolve(reg, b, envs, seen | {b}, leaf)
    return chain


def freeze(v):
    return repr(v)


def check(inp):
    try:
        return check_(inp)
    except Exception as ex:  # noqa: BLE001
        import traceback
        return f"{type(ex).__name__}: {ex} at {traceback.extract_tb(ex.__traceback__)[-1].name}"


def check_(inp):
    if inp["kind"] == "name":
        n = inp["name"]
        if (got := canonicalize_asset_name(n)) != spec_name(n):
            return ("canonical name", f"the canonical form of {n!r} is {got!r}")
        want = None if "@" in n or not n.strip() else n.strip()
        if (got := sanitize_base_asset_name(n)) != want:
            return ("base name", f"the base name of {n!r} is {got!r}")
        return None
    reg, providers, bad = {}, [], False
    for p, es in enumerate(inp["providers"]):
        es = [{k: Path(v) if k == "__base_path__" else v for k, v in e.items()} for e in es]
        before = freeze(es)
        want, ok = {}, True
        for e in es:
            n, b = spec_name(e["name"]), e.get("base")
            if n is None or n in want or b is not None and (not isinstance(b, str) or "@" in b or not b.strip()):
                ok = False
                break
            want[n] = {k: (v.strip() if k == "base" and v is not None else v) for k, v in e.items() if k != "name"}
        try:
            pr = load_in_memory_asset_metadata(f"src{p}", es)
        except AssetMetadataError:
            if ok:
                return ("loading", f"{es} are rejected")
            return None
        if not ok:
            return ("loading", f"{es} are accepted")
        if freeze(es) != before:
            return ("loading", "loading modifies the entries of the caller")
        if set(pr.asset_names) != set(want):
            return ("loading", f"the assets are {sorted(pr.asset_names)}")
        for n, md in want.items():
            got = pr.maybe_get_metadata(n)
            if got != md:
                return ("loading", f"the metadata of {n} is {got} instead of {md}")
            if n in reg:
                bad = True
            reg[n] = (f"src{p}", md)
        providers.append(pr)
    try:
        store = StandardAssetStore(providers, default_env=inp["env"])
    except AssetMetadataError:
        return None if bad else ("registry", "providers without common names are rejected")
    if bad:
        return ("registry", "two providers with an asset of the same name are accepted")
    if set(store.asset_names) != set(reg):
        return ("registry", f"the store knows {sorted(store.asset_names)}")
    default = ["user"] + ([inp["env"].strip()] if inp["env"] and inp["env"].strip() else [])
    for name, field in inp["asks"]:
        for again in range(2):
            r = ask(store, reg, default, name, field)
            if r:
                return r
    for value in (1, None, "x", [1]):
        want = []
        try:
            for n in reg:
                if n.endswith("@"):
                    chain = resolve(reg, n[:-1], default, {n[:-1]}, n[:-1])
                    own = [md for _, md in chain if "f" in md]
                    if own and own[0]["f"] == value:
                        want.append(n[:-1])
        except Missing:
            break
        got = [c.name for c in store.find_cards("f", value)]
        if sorted(got) != sorted(want):
            return ("search", f"the cards whose field f is {value!r} are {got} instead of {want}")
    return None


def ask(store, reg, default, name, field):
    base, at, env = name.partition("@")
    envs = ([env.strip()] if env.strip() else []) if at else default
    base = base.strip()
    try:
        want = resolve(reg, base, envs, {base}, base) if base else None
    except Missing:
        want = Missing
    try:
        card = store.maybe_retrieve_card(name)
    except AssetCardError as ex:
        if want is not Missing:
            return ("look-up", f"{name!r} is an error: {ex}")
        if ex.name != base:
            return ("look-up", f"the error of {name!r} is about {ex.name!r}")
        return None
    except RecursionError:
        return ("cycle", f"the look-up of {name!r} does not end")
    if want is Missing:
        return ("look-up", f"{name!r} has a cyclic or missing base, but there is a card")
    try:
        strict = store.retrieve_card(name)
    except AssetNotFoundError:
        strict = None
    if (strict is None) != (want is None) or (card is None) != (want is None):
        return ("look-up", f"the look-up of {name!r} returns {card}, {strict}")
    if want is None:
        return None
    c, n = card, 0
    while c is not None:
        if n >= len(want) or c.name != want[n][0] or dict(c.metadata) != want[n][1]:
            return ("card", f"card {n} in the chain of {name!r} is {c} instead of {want[n] if n < len(want) else None}")
        c, n = c.base, n + 1
    if n != len(want):
        return ("card", f"the chain of {name!r} has {n} cards instead of {len(want)}")
    own = [md for _, md in want if field in md]
    f = card.maybe_get_field(field)
    if card.has_field(field) != bool(own) or (f is None) != (not own):
        return ("field", f"field {field} of {name!r} is {'missing' if own else 'made up'}")
    if own and f.value != own[0][field]:
        return ("field", f"field {field} of {name!r} is {f.value!r} instead of {own[0][field]!r}")
    try:
        if card.field(field).value != own[0][field]:
            return ("field", f"field {field} of {name!r} is wrong")
    except AssetCardError:
        if own:
            return ("field", f"field {field} of {name!r} is not found")
    if own and isinstance(own[0][field], str):
        v, bp = own[0][field], own[0].get("__base_path__")
        uri = None if not v.startswith("/") and bp is None else Path(v) if v.startswith("/") else bp / v
        try:
            got = f.as_uri().to_path()
        except AssetCardError:
            got = None
        if got != uri:
            return ("pathname", f"the pathname {v!r} of {name!r} is {got} instead of {uri}")
    for v in card.metadata.values():  # what the caller does with a card is not seen by later look-ups
        if isinstance(v, list):
            v.append("dirt")
        if isinstance(v, dict):
            v["dirt"] = 1
    for k in list(card.metadata):
        card.metadata[k] = "dirt"
    return None


def from_cex(unit, obligation, cex):
    return None
