"""Seeded generators of histories of density changes (C23)."""

TAGS = [["a"], ["a", "b"], ["Kick", "Snare", "Hat"], ["a", ["a", "b"], "b"], [1, 2, "1"], ["silence", "a"], ["a", "ab", "abc", "b"]]


def densities(rng, i=0):
    n = rng.choice([1, 2, 3, 4, 5, 7, 8, 8, 16, 16, 16, 32, 32, 12, 24, 64])
    beats = rng.choice([4, 4, 4, 8, 1, 2, 3, 16, 5, 6])
    k = rng.choice([6, 10, 12])               # units in a step
    u = k * n
    step = k * beats
    dur = n * step
    tags = rng.choice(TAGS)
    steps = []

    def pattern(p, n, dur):
        step, ev = dur // n, []
        d = rng.choice([0.05, 0.2, 0.5, 0.9, 1])
        for t in tags:
            for j in range(n):
                if rng.random() < d:
                    for _ in range(rng.choice([1, 1, 1, 2])):
                        s = j * step
                        if rng.random() < 0.3:
                            s += rng.choice([-1, 1]) * rng.choice([1, step // 3, step // 2 - 1])
                        ln = rng.choice([1, 1, 2, 3, 7]) * step if rng.random() < 0.7 else rng.randrange(1, 3 * step)
                        s = max(0, s)
                        ln = min(ln, dur - s)
                        if ln > 0:
                            ev.append([s, ln, 40 + rng.randrange(40), rng.choice([1, 64, 127]), t])
        rng.shuffle(ev)
        r = {"p": p, "dur": dur, "ev": ev}
        if rng.random() < 0.2:
            r["name"] = "song"
        return ["new", r]

    steps.append(pattern("A", n, dur))
    steps.append(pattern("B", n, dur))
    if rng.random() < 0.1:
        steps.append(["densityNone", {"mode": "random", "n": n}])
    mode = rng.choice(["random", "hysteresis", "syncopation"])
    first = True
    many = rng.choice([1, 2, 4, 8, 12])
    for x in range(many):
        den = rng.choice([1, 2, 4, 8, 10, 100, 7, 16])
        dens = []
        for t in tags:
            if rng.random() < 0.7:
                num = rng.choice([0, den, 2 * den, rng.randrange(0, 2 * den + 1), rng.randrange(0, 2 * den + 1), rng.randrange(0, den + 1),
                                  rng.choice([-1, 2 * den + 1, 3 * den])])
                dens.append([t, num, den])
        if rng.random() < 0.1:
            dens.append(["other", 1, 2])
        a = {"t": "T", "mode": mode, "n": n, "dens": dens, "seed": rng.randrange(10 ** 9), "empty": rng.randrange(2)}
        if first or rng.random() < 0.2:
            a["p"] = rng.choice("AAB")
            a["configure"] = 1 if rng.random() < 0.3 else 0
            first = False
        if rng.random() < 0.3:
            a["q"] = rng.choice("RRRA")
        steps.append(["density", a])
        if a.get("q") == "R" and rng.random() < 0.5:
            steps.append(rng.choice([["transpose", {"p": "R", "n": 3}], ["stretch", {"p": "R", "num": 2, "den": 1}],
                                     ["removeByTags", {"p": "R", "tags": [tags[0]]}]]))
        elif rng.random() < 0.1:
            steps.append(["transpose", {"p": rng.choice("AB"), "n": rng.choice([-5, 1, 12])}])
    return {"u": u, "steps": steps, "ints": rng.random() < 0.5}


def sameSteps(rng, i=0):
    """patterns whose steps are the same but whose lengths are not, one after the other"""
    n = rng.choice([2, 3, 4, 8, 16])
    u = n * 4
    on = [j for j in range(n) if rng.random() < 0.5] or [0]
    steps, names = [], []
    for p in "AB":
        beats = rng.choice([n, n, 1, 4])
        st = 4 * beats
        steps.append(["new", {"p": p, "dur": n * st, "ev": [[j * st, st, 60, 100, "a"] for j in on]}])
    order = rng.choice(["AB", "BA", "ABA", "BAB", "ABBA", "AAB"])
    for p in order:
        steps.append(["density", {"t": "T", "mode": rng.choice(["random", "hysteresis"]), "n": n, "p": p, "seed": rng.randrange(10 ** 6), "empty": 0,
                                  "dens": [["a", rng.randrange(0, 9), 4]] if rng.random() < 0.8 else []}])
    return {"u": u, "steps": steps, "ints": rng.random() < 0.5}
