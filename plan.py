"""Which workloads decide which property, and how many cases of each are run."""

GROUP = {
    "vec": "vecs", "small": "vecs", "panics": "vecs", "oom": "vecs", "affinity": "vecs",
    "string": "strings", "string-panics": "strings", "string-oom": "strings", "string-affinity": "strings",
    "rc": "handles", "arc": "handles", "urc": "handles", "handle-panics": "handles",
    "handle-oom": "handles", "handle-affinity": "handles",
    "arc-mt": "mt", "urc-mt": "mt",
    "scope": "scopes", "routing": "scopes",
    "box": "boxes", "box-panics": "boxes", "box-oom": "boxes",
    "cmp": "cmp", "sends": "sends",
}

RULE = (
    "A case is a history of operations derived from (suite, seed, case number): operation kinds, arguments, "
    "element types, scopes, failed allocations and injected panics are drawn by SplitMix64; cases of threads "
    "additionally have the schedule of the run. Trivial are the cases with less than two judged steps. Distinct "
    "are those with different signatures, i.e. hashes of the sequence of (operation, shape of the state) pairs; "
    "for threads the signature has the observed interleaving of the operations."
)

K = 1000


def w(suite, quick, thorough=None, miri=None, asan=0, **kw):
    """Workload: numbers of native cases (both debug and release get half), Miri (processes, cases)."""
    mq, mt = miri or ((0, 0), (0, 0))
    thorough = thorough or quick * 20
    r = {
        "suite": suite,
        "quick": {"native": quick // 2, "asan": 0, "miri": mq},
        "thorough": {"native": thorough // 2, "asan": asan * 10 or thorough // 20, "miri": mt},
        "modes": ["debug", "release", "asan"],
    }
    if asan:
        r["quick"]["asan"] = asan
    r.update(kw)
    return r


# Miri (quick, thorough) as (processes, cases of each).
M = ((4, 8), (16, 60))
M8 = ((8, 8), (24, 60))
M2 = ((2, 8), (8, 60))
M1 = ((1, 8), (4, 60))
MT = ((24, 40), (96, 200))
MS = ((8, 20), (32, 100))
MTH = ((12, 40), (48, 200))

PLAN = {
    "C01": {"work": [w("vec", 300 * K)]},
    "C02": {"work": [w("small", 300 * K)]},
    "C03": {"work": [w("string", 400 * K)]},
    "C04": {"work": [w("vec", 120 * K, miri=M), w("small", 120 * K, miri=M), w("box", 60 * K)]},
    "C05": {"work": [w("panics", 160 * K), w("string-panics", 60 * K), w("handle-panics", 80 * K), w("box-panics", 40 * K)]},
    "C06": {"work": [w("vec", 60 * K), w("small", 60 * K), w("affinity", 40 * K), w("oom", 40 * K), w("string", 40 * K),
                     w("rc", 40 * K), w("arc", 40 * K), w("urc", 40 * K), w("box", 40 * K)]},
    "C07": {"work": [w("oom", 140 * K), w("string-oom", 60 * K), w("handle-oom", 80 * K), w("box-oom", 50 * K)]},
    "C08": {"work": [w("vec", 150 * K), w("small", 150 * K), w("string", 100 * K), w("box", 30 * K)]},
    "C09": {"work": [w("small", 250 * K)]},
    "C10": {"work": [w("scope", 200 * K)]},
    "C11": {"work": [w("routing", 200 * K), w("affinity", 40 * K), w("string-affinity", 20 * K), w("handle-affinity", 30 * K)]},
    "C12": {"work": [w("affinity", 140 * K), w("string-affinity", 60 * K), w("handle-affinity", 80 * K), w("box", 30 * K)]},
    "C13": {"work": [w("rc", 300 * K, miri=M)]},
    "C14": {"work": [w("rc", 300 * K, miri=M)]},
    "C15": {"work": [w("arc", 150 * K), w("arc-mt", 200 * K, miri=MT)]},
    "C16": {"work": [w("arc", 150 * K), w("arc-mt", 200 * K, miri=MT)]},
    "C17": {"work": [w("urc", 150 * K), w("urc-mt", 200 * K, miri=MT)]},
    "C18": {"work": [w("urc", 150 * K), w("urc-mt", 200 * K, miri=MT)]},
    "C19": {"work": [w("vec", 20 * K, miri=M2), w("small", 20 * K, miri=M2), w("panics", 20 * K, miri=M1),
                     w("oom", 20 * K), w("string", 20 * K, miri=M2), w("rc", 20 * K, miri=M1),
                     w("arc", 20 * K, miri=M1), w("urc", 20 * K, miri=M1), w("handle-panics", 20 * K),
                     w("box", 20 * K, miri=M1), w("scope", 10 * K, miri=M1),
                     w("arc-mt", 20 * K, miri=MS), w("urc-mt", 20 * K, miri=MS), w("sends", 4 * K)]},
    "C20": {"work": [w("cmp", 60 * K), w("vec", 60 * K), w("small", 60 * K)]},
    "C21": {"work": [w("vec", 150 * K), w("small", 150 * K), w("box", 60 * K)]},
    "C22": {"work": [w("box", 300 * K, miri=M)]},
    "C23": {"work": [w("arc-mt", 120 * K, miri=MTH), w("urc-mt", 120 * K, miri=MTH), w("arc", 60 * K), w("urc", 60 * K)]},
    "C24": {"work": [w("sends", 60 * K, miri=M)]},
}
