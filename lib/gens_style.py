"""Seeded generators of histories of styles (C20 to C22)."""
import gens as G

TAGS = [["a"], ["a", "b"], ["Kick", "Snare", "Hat"], ["a", "ab", "b"], ["a", ["a", "c"], "b"], [1, 2, "1"], ["b", "a", "c", "d"],
        ["a", ["C", "maj"], 1]]


class Loop(object):
    def __init__(self, rng, small=False):
        self.r = rng
        n, loop, order = rng.choice([(4, 4, 1), (4, 4, 2), (8, 4, 2), (8, 4, 1), (16, 4, 2), (16, 4, 3), (3, 3, 1), (6, 4, 2), (5, 4, 1), (12, 4, 2),
                                     (8, 2, 3), (4, 8, 1), (2, 4, 1), (8, 8, 0), (7, 4, 3), (16, 16, 1), (12, 3, 4), (1, 1, 0), (6, 6, 5), (32, 4, 2),
                                     (24, 4, 3), (4, 1, 3), (10, 5, 2)])
        if small:
            n, loop, order = rng.choice([(4, 4, 1), (3, 3, 1), (4, 2, 2), (5, 4, 1), (6, 4, 1), (4, 4, 0), (3, 4, 2), (2, 4, 1), (6, 3, 3), (8, 4, 2)])
        self.n, self.order = n, order
        # units per beat such that a step is 6 units
        self.u = rng.choice([6, 12]) * n
        self.loop = loop * self.u
        self.step = self.loop // n
        self.tags = rng.choice(TAGS)

    def pattern(self, p, density=None, off=0.3, silences=0.05, like=None):
        r, ev = self.r, []
        d = density if density is not None else r.choice([0.1, 0.3, 0.5, 0.8])
        for k in range(self.n):
            for t in self.tags:
                if r.random() < d:
                    s = k * self.step
                    if r.random() < off:
                        s += r.choice([-1, 1]) * r.choice([1, self.step // 3, self.step // 2 - 1])
                    ln = r.choice([1, 1, 2, 3, 5]) * self.step if r.random() < 0.8 else r.choice([1, self.step // 2, self.step + 1])
                    s = max(0, s)
                    ln = min(ln, self.loop - s)
                    if ln > 0:
                        ev.append([s, ln, 60 + r.randrange(12), r.choice([1, 100]), t])
        if r.random() < silences * 5:
            s = r.randrange(self.n) * self.step
            ev.append([s, min(r.choice([1, 2, 3]) * self.step, self.loop - s), 0, 0, "silence"])
        if like and r.random() < 0.5:
            ev = [list(e) for e in like[1]["ev"]]
            if ev and r.random() < 0.7:
                ev[r.randrange(len(ev))][4] = r.choice(self.tags)
        if ev and r.random() < 0.3:
            ev.append(list(r.choice(ev)))
        r.shuffle(ev)
        return ["new", {"p": p, "dur": self.loop, "ev": ev}]

    def patterns(self, many, **kw):
        r = []
        for p in many:
            r.append(self.pattern(p, like=r[-1] if r else None, **kw))
        return r

    def learn(self, s, ps, **kw):
        return ["learn", dict({"s": s, "order": self.order, "n": self.n, "loop": self.loop, "ps": ps}, **kw)]

    def prog(self, steps):
        return {"u": self.u, "steps": steps, "ints": self.r.random() < 0.5}


def learning(rng, i=0):
    l = Loop(rng)
    names = "ABCDEFGH"[:rng.choice([1, 1, 2, 3, 4, 6, 8])]
    steps = l.patterns(names)
    order = list(names)
    rng.shuffle(order)
    steps.append(l.learn("S", order))
    if rng.random() < 0.4:
        steps.append(["styleQueries", {"s": "S", "shift": rng.choice([[0], [0, -1], [-1], [1, 0], [2, -1]]), "show": rng.randrange(2)}])
    if rng.random() < 0.3:
        more = [rng.choice(names) for _ in range(rng.choice([1, 2, 3]))]
        steps.append(l.learn("S", more, again=1, build=rng.randrange(2)))
        if rng.random() < 0.3:
            steps.append(["styleQueries", {"s": "S", "shift": [0, -1], "show": rng.randrange(2)}])
    return l.prog(steps)


def generation(rng, i=0):
    l = Loop(rng, small=rng.random() < 0.7)
    names = "ABCDEFGH"[:rng.choice([1, 2, 3, 4, 5, 6])]
    steps = l.patterns(names, silences=0)
    steps.append(l.learn("S", list(names)))
    steps.append(["generate", {"s": "S", "runs": 300 if l.n <= 8 else 20, "seed": rng.randrange(10 ** 6)}])
    return l.prog(steps)


def saving(rng, i=0):
    l = Loop(rng, small=rng.random() < 0.5)
    names = "ABCD"[:rng.choice([1, 2, 3, 4])]
    steps = l.patterns(names)
    steps.append(l.learn("S", list(names)))
    known = {"S"}
    if rng.random() < 0.3:
        steps.append(["unlearnt", {"s": "T", "order": rng.choice([1, 2]), "n": 4, "loop": l.u, "empty": rng.randrange(2)}])
    elif rng.random() < 0.4:
        m = Loop(rng)
        steps.append(["learn", {"s": "T", "order": m.order, "n": m.n, "loop": l.loop, "ps": [names[0]]}])
        known.add("T")
    for _ in range(rng.choice([1, 1, 2, 3])):
        pairs = [("S", "T"), ("S", "T"), ("S", None)]
        if "T" in known:
            pairs.append(("T", "S"))
        a, b = rng.choice(pairs)
        steps.append(["saveStyle", {"s": a, "t": b, "how": rng.choice(["json", "pickle"])}])
        if b:
            known.add(b)
            if rng.random() < 0.5:
                steps.append(["generate", {"s": b, "runs": 12, "seed": rng.randrange(10 ** 6)}])
            elif rng.random() < 0.3:
                steps.append(["styleQueries", {"s": b, "shift": [0, -1]}])
    return l.prog(steps)


def databases(rng, i=0):
    s = G.Space(rng, dyadic=True, big=False, tags=rng.choice([G.PLAIN, G.SUBSTR, G.LETTERS]))
    names = "ABCDE"[:rng.choice([1, 1, 2, 3, 4, 5])] if rng.random() < 0.95 else ""
    steps = []
    for p in names:
        st = s.new(p)
        for k in ("st", "key", "res", "fp"):
            st[1].pop(k, None)
        if st[1].get("name") is None:
            st[1]["name"] = p
        steps.append(st)
    if not names:
        steps.append(["new", {"p": "Z", "dur": 1, "ev": []}])
    steps.append(["dbStyle", {"s": "D", "ps": list(names), "how": rng.choice(["indexed", "increasing", "random", None])}])
    which = ["D"]
    if rng.random() < 0.3:
        steps.append(["dbStyle", {"s": "E", "ps": list(names)[:rng.randrange(3)], "how": rng.choice(["indexed", "increasing", "random", None])}])
        which = ["D", "E"]
    for k in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.6 and names:
            steps.append(["dbGenerate", {"s": rng.choice(which), "seed": rng.randrange(10 ** 6), "idx": [rng.randrange(5) for _ in range(3)],
                                         "few": rng.choice([0, 0, 1, 2])}])
        else:
            a = rng.choice(which)
            steps.append(["dbSave", {"s": a, "t": "E", "how": rng.choice(["json", "pickle"]), "into": rng.choice([0, 1, 1]) if a != "E" else 0}])
            which = ["D", "E"]
    return s.prog(steps)
