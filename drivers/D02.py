from fairseq2.data.data_pipeline import create_bucket_sizes

RULE = ("exhaustive small and random large parameters of the real create_bucket_sizes; every length from the minimum to the "
        "maximum is looked up in the returned buckets; non-trivial: parameters for which buckets exist")


def cases(rng, tier):
    for M in range(0, 13):
        for lo in range(-1, M + 2):
            for hi in range(0, M + 2):
                for m in (-1, 0, 1, 2, 3, 5):
                    yield {"M": M, "lo": lo, "hi": hi, "m": m}
    while True:
        hi = rng.choice([rng.randint(1, 60), rng.randint(1, 3000)])
        M = hi * rng.randint(1, 40) + rng.choice([0, 0, 0, 0, 1])
        yield {"M": M, "lo": rng.choice([1, 1, rng.randint(1, hi), hi]), "hi": hi, "m": rng.choice([1, 1, 2, 3, 7, 8, 64])}


def valid(i):
    return i["lo"] >= 1 and i["hi"] >= i["lo"] and i["hi"] <= i["M"] and i["m"] >= 1 and i["M"] % i["hi"] == 0


nontrivial = valid


def check(inp):
    M, lo, hi, m = inp["M"], inp["lo"], inp["hi"], inp["m"]
    try:
        r = list(create_bucket_sizes(max_num_elements=M, max_seq_len=hi, min_seq_len=lo, num_seqs_multiple_of=m))
    except ValueError:
        return "possible parameters are rejected" if valid(inp) else None
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    if not valid(inp):
        return "impossible parameters are accepted"
    if not r or r[-1][1] != hi:
        return f"the last bucket does not take the longest sequences: {r[-3:]}"
    at, prev = lo, 0
    for b, s in r:
        if s <= prev:
            return f"lengths do not ascend: {prev}, {s}"
        if s < lo or s > hi:
            return f"bucket ({b}, {s}) holds no admissible length"
        if b < 1 or b * s > M:
            return f"bucket ({b}, {s}) is not in the budget"
        prev = s
        while at <= s:
            q = M // at
            want = q - q % m if q > m else q
            if b != want:
                return f"length {at} is put in ({b}, {s}) but {want} sequences fit"
            at += 1
        if s < hi and M // (s + 1) == M // s:
            return f"bucket ({b}, {s}) could be longer"
    return None


def from_cex(unit, obligation, cex):
    try:
        m = cex.get("multiple_of", 1) if cex.get("num_seqs_multiple_of") == 0 else 1
        inp = {"M": cex["max_num_elements"], "lo": cex["min_seq_len"], "hi": cex["max_seq_len"], "m": m}
    except KeyError:
        return None
    return inp if inp["M"] < 10 ** 6 else None
