import torch

from fairseq2.error import StateDictError
from fairseq2.utils.rng import RngBag

RULE = ("random nestings of temporary seeding, draws, errors and save/load over real torch generators, compared with "
        "generators that never saw them; non-trivial: at least one scope with draws inside")


def cases(rng, tier):
    def prog(d):
        out = []
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.4 and d < 3:
                out.append(["scope", rng.choice([0, 1, 7, 2 ** 32 - 1, 2 ** 32, -1]), rng.random() < 0.3, prog(d + 1)])
            elif r < 0.55:
                out.append(["saveload", [rng.randrange(3) for _ in range(2)]])
            elif r < 0.6:
                out.append(["badload", rng.choice([0, 1, 4, 5])])
            else:
                out.append(["draw", rng.randrange(3), rng.randint(1, 3)])
        return out
    while True:
        yield {"n": rng.randint(0, 3), "prog": prog(0)}


def nontrivial(inp):
    return inp["n"] > 0 and any(c[0] == "scope" for c in inp["prog"])


class Abort(Exception):
    pass


class Wrong(Exception):
    pass


def check(inp):
    n = inp["n"]
    gens = [torch.Generator().manual_seed(100 + i) for i in range(n)]
    bag = RngBag(*gens)
    draw = lambda g, m: [int(torch.randint(0, 1 << 30, (1,), generator=g)) for _ in range(m)]

    def run(prog, ref):
        for c in prog:
            if c[0] == "draw":
                if n:
                    i = c[1] % n
                    a, b = draw(gens[i], c[2]), draw(ref[i], c[2])
                    if a != b:
                        raise Wrong(f"generator {i} draws {a}, must draw {b}")
            elif c[0] == "scope":
                ok = 0 <= c[1] < 2 ** 32
                entered = False
                try:
                    with bag.temporary_manual_seed(c[1]):
                        entered = True
                        if not ok:
                            raise Wrong(f"seed {c[1]} accepted")
                        run(c[3], [torch.Generator().manual_seed(c[1]) for _ in range(n)])
                        if c[2]:
                            raise Abort
                except Abort:
                    pass
                except ValueError:
                    if ok or entered:
                        raise
            elif c[0] == "saveload":
                sd = bag.state_dict()
                for i in range(n):
                    draw(gens[i], 1 + c[1][i % 2])
                bag.load_state_dict(sd)
            elif c[0] == "badload" and c[1] != n:
                st = torch.Generator().manual_seed(5).get_state()
                try:
                    bag.load_state_dict({"generators": [st] * c[1]})
                except StateDictError:
                    continue
                raise Wrong(f"{c[1]} states accepted for {n} generators")

    try:
        run(inp["prog"] + [["draw", i, 1] for i in range(n)], [torch.Generator().manual_seed(100 + i) for i in range(n)])
        return None
    except Wrong as e:
        return str(e)
    except Exception as e:
        return f"{type(e).__name__}: {e}"
