"""Seeded generators of bass models, constraints and lines (C24, C25)."""

POOLS = [[8, 10, 0], [8, 4, 2, 1], [8, 10, 12, 15, 0], [0, 8], [8, 9, 10, 11, 12, 13, 14, 15], list(range(16)), [15], [8, 0, 5, 7]]


def line(rng, pool, n=None, like=None):
    n = n or rng.choice([2, 2, 3, 4, 4, 8, 8, 16])
    r = [rng.choice(pool) for _ in range(n)]
    if like and rng.random() < 0.4:
        r = list(like)
        r[rng.randrange(len(r))] = rng.choice(pool)
    return r


def pair(rng, pool, kicks, bass):
    n = len(bass) if rng.random() < 0.8 else max(1, len(bass) + rng.choice([-1, 1, 2]))
    return [[rng.choice(kicks) for _ in range(n)], bass]


def lessons(rng, pool, kicks, many=None, norm=0.2):
    r, last = [], None
    for _ in range(many or rng.choice([1, 1, 2, 3, 5])):
        b = line(rng, pool, like=last)
        last = b
        r.append(["line", b])
        if rng.random() < 0.8:
            r.append(["pair", pair(rng, pool, kicks, b)])
        if rng.random() < norm:
            r.append(["norm", 0])
    if rng.random() < 0.2:
        r.append(["pair", [line(rng, kicks), line(rng, pool)]])
    return r


def learning(rng, i=0):
    pool, kicks = rng.choice(POOLS), rng.choice(POOLS)
    steps, size = [], 16
    if rng.random() < 0.25:            # intervals from the first note, 12 for none
        size = rng.choice([25, [25, 25]])
        pool = rng.choice([[12, 19, 24], [12, 0, 24], list(range(25)), [12, 10, 5, 12, 17]])
    elif rng.random() < 0.2:
        size = [16, 16]
    for k in range(rng.choice([1, 1, 2, 3])):
        les = lessons(rng, pool, kicks)
        if k and rng.random() < 0.3:
            les = [x for x in les if x[0] != "line"]
        steps.append(["bassModel", {"m": "M", "learn": les, "twice": rng.randrange(2), "rhythm": rng.randrange(2), "size": size,
                                    "pitch": rng.randrange(2)}])
    if rng.random() < 0.05:
        steps.append(["bassDictionary", {}])
    return {"u": 1, "steps": steps}


def beats(rng, i=0):
    u = rng.choice([4, 8, 8, 16, 24, 96, 480, 480, 7, 12, 3])
    n = rng.choice([1, 2, 4, 8, 16])
    dur = n * u if rng.random() < 0.7 else rng.randrange(1, n * u + 1)
    on = []
    for _ in range(rng.choice([0, 1, 2, 5, 12])):
        x = rng.randrange(0, dur + (u if rng.random() < 0.2 else 0))
        if rng.random() < 0.5 and u % 4 == 0:
            x = x // (u // 4) * (u // 4) + rng.choice([0, 0, 0, 1, -1])
        x = max(0, x)
        if x < dur or x >= -(-dur // u) * u:        # not between the end and that of the last beat
            on.append(x)
    return {"u": u, "steps": [["bassBeats", {"on": on, "dur": dur}]], "ints": rng.random() < 0.5}


def corpora(rng, i=0):
    if i in (0, 1):
        return {"u": 480, "steps": [["bassCorpus", {"folder": ["booka_shade", "mr_scruff"][i]}]]}
    names = rng.sample(["one", "Two 120", "z z", "a", "b.c", "Song 1", "Song 2", "Song 10", "song", "k[1]", "k1"], rng.choice([1, 2, 3, 5]))
    pool = rng.choice([[8, 10, 12], [15, 9, 8], [1, 2, 4, 8, 3]])
    songs = []
    for x in names:
        n = rng.choice([2, 4, 8])
        songs.append([x, [rng.choice(pool) for _ in range(n - 1)] + [rng.choice([1, 3, 9])],
                      [rng.choice([8, 8, 0, 10, 2]) for _ in range(n)]])
    return {"u": 480, "steps": [["bassCorpus", {"songs": songs}]]}


def constrained(rng, pool, kicks):
    les = lessons(rng, pool, kicks, norm=0.05)
    les.append(["pair", [[8], [rng.choice(pool)]]])
    return les


def target(rng, kicks, n=None):
    n = n or rng.choice([2, 2, 3, 4, 5, 8])
    return [rng.choice(kicks) if rng.random() < 0.9 else rng.randrange(16) for _ in range(n)]


def mask(rng, les):
    """beats of a line (its first one kept), and which vary"""
    lines = [x[1] for x in les if x[0] == "line"]
    q = rng.choice(lines)
    n = rng.choice([2, 3, 4, 5, 8])
    k = rng.randrange(len(q))
    l = [q[(k + j) % len(q)] for j in range(n)]
    if rng.random() < 0.3:
        l[rng.randrange(n)] = rng.choice(rng.choice(lines))
    d = rng.choice([0.2, 0.5, 0.8, 1])
    return l, [l[0]] + [-1 if rng.random() < d else x for x in l[1:]]


def constraints(rng, i=0):
    pool, kicks = rng.choice(POOLS), rng.choice(POOLS)
    les = constrained(rng, pool, kicks)
    steps = []
    for k in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.5:
            steps.append(["bassConstrain", {"m": "M", "learn": les, "target": target(rng, kicks), "cut": rng.choice([0, 0, 1, 2, 3])}])
        else:
            steps.append(["bassVary", {"m": "M", "learn": les, "mask": mask(rng, les or first)[1]}])
        first = les or first
        les = lessons(rng, pool, kicks, many=1) if rng.random() < 0.3 else []
    return {"u": 1, "steps": steps}


def generation(rng, i=0):
    pool, kicks = rng.choice(POOLS), rng.choice(POOLS)
    les = constrained(rng, pool, kicks)
    kind = rng.choice(["kick", "kick", "keep", "keep", "free"])
    a = {"m": "M", "learn": les, "kind": kind, "len": rng.choice([1, 2, 3, 4, 8]), "runs": rng.choice([20, 100, 200]), "seed": rng.randrange(10 ** 6)}
    a["cut"] = rng.choice([0, 0, 1, 2, 3])
    if kind == "kick":
        a["target"] = target(rng, kicks)
        a["given"] = rng.randrange(2)
    elif kind == "keep":
        a["line"], a["mask"] = mask(rng, les)
        a["longer"] = rng.choice([0, 0, 1, 4])
    return {"u": 1, "steps": [["bassGenerate", a]]}


def draws(rng, i=0):
    n = rng.choice([1, 2, 2, 3, 4, 8, 16])
    w = [rng.choice([0, 1, 1, 2, 5]) for _ in range(n)]
    if not any(w):
        w[rng.randrange(n)] = 1
    return {"u": 1, "steps": [["bassDraw", {"w": w, "runs": 1200, "seed": rng.randrange(1 << 30), "array": rng.randrange(2)}]]}
