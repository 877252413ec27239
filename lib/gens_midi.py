"""Seeded generators of MIDI files, mappings and exports (C13 to C16)."""
from gens import Space

RES = [1, 2, 3, 5, 24, 24, 48, 96, 96, 100, 120, 192, 220, 384, 480, 480, 960, 960, 1000, 1024, 4800]
MAXDT = (1 << 28) - 1
EDGES = [0, 1, 63, 64, 127, 128, 129, 255, 256, 8191, 8192, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152, 2097153,
         MAXDT - 1, MAXDT]
TEXTS = ["Drums", "Kick", "Kick Snare", "bass", "", "x" * 130, "Sna", "piano 1", "a,b", "kick", "DRUMS", "KICK snare"]
KNOWN_META = {0: 2, 0x20: 1, 0x21: 1, 0x2E: 3, 0x54: 5, 0x7F: None}


def varlen(n):
    r = [n & 127]
    n >>= 7
    while n:
        r.insert(0, (n & 127) | 128)
        n >>= 7
    return r


def be(n, k):
    return [(n >> (8 * (k - 1 - i))) & 255 for i in range(k)]


def encode(fmt, res, tracks, rng=None, pad=0, running=0.5):
    """messages are (dt, kind, channel or meta number, data)"""
    b = [77, 84, 104, 100] + be(6 + pad, 4) + be(fmt, 2) + be(len(tracks), 2) + be(res, 2) + [rng.randrange(256) if rng else 0 for _ in range(pad)]
    for t in tracks:
        d, last = [], None
        for dt, k, c, data in t:
            d += varlen(dt)
            if k == 255:
                d += [255, c] + varlen(len(data)) + list(data)
                last = None
            elif k == 240:
                d += [240] + varlen(len(data) + 1) + list(data) + [247]
                last = None
            else:
                if last != k + c or not rng or rng.random() >= running:
                    d.append(k + c)
                d += list(data)
                last = k + c
        b += [77, 84, 114, 107] + be(len(d), 4) + d
    return b


END = (0, 255, 47, [])


def dts(rng):
    """a choice of delta times, whose sum stays within 31 bits"""
    big = [3]

    def f():
        x = rng.random()
        if x < 0.55:
            return rng.choice([0, 0, 1, 2, 24, 96, 120])
        if x < 0.9 or big[0] == 0:
            return rng.choice(EDGES[:16])
        big[0] -= 1
        return rng.choice(EDGES + [rng.randrange(1 << 28)])
    return f


def metaMsg(rng, big=False):
    x = rng.random()
    if x < 0.35:
        c = rng.randint(1, 8)
        n = rng.choice([0, 1, 3, 5, 126, 127, 128, 129, 300]) if rng.random() < 0.4 else rng.randint(1, 9)
        if big and rng.random() < 0.05:
            n = rng.choice([16383, 16384, 17000])
        hi = 256 if rng.random() < 0.3 else 128
        return 255, c, [rng.randrange(hi) for _ in range(n)]
    if x < 0.5:
        return 255, 81, be(rng.choice([1, 255, 256, 65535, 65536, 400000, 500000, (1 << 24) - 1, rng.randrange(1, 1 << 24)]), 3)
    if x < 0.62:
        return 255, 88, [rng.choice([1, 2, 3, 4, 5, 6, 7, 12, 13, 255]), rng.randint(0, 7), rng.choice([24, 12, 0, 255]), rng.choice([8, 0, 32])]
    if x < 0.74:
        return 255, 89, [rng.randint(-7, 7) % 256, rng.randrange(2)]
    c = rng.choice(list(KNOWN_META) + [9, 0x10, 0x30, 0x60, 0x7E])
    n = KNOWN_META.get(c)
    return 255, c, [rng.randrange(256) for _ in range(rng.choice([0, 1, 4, 200]) if n is None else n)]


def channelMsg(rng, status=None):
    s = status or rng.choice([128, 144, 144, 160, 176, 192, 208, 224]) + rng.randrange(16)
    k = s // 16 * 16
    v = rng.choice([[0, 0], [127, 127], [0, 127], [127, 0], [64, 1], [rng.randrange(128), rng.randrange(128)]])
    return k, s % 16, v[:1 if k in (192, 208) else 2]


def anyTrack(rng, big):
    dt, r, last = dts(rng), [], None
    style = rng.random()
    for _ in range(rng.choice([0, 1, 2, 4, 7, 12])):
        x = rng.random()
        if x < 0.6 or style < 0.2:
            k, c, d = channelMsg(rng, last if last and rng.random() < 0.5 else None)
            last = k + c
        elif x < 0.88:
            k, c, d = metaMsg(rng, big)
        else:
            k, c, d = 240, 0, [rng.randrange(128) for _ in range(rng.choice([0, 1, 5, 126, 127, 128, 200]))]
        r.append((dt(), k, c, d))
    return r + [(rng.choice([0, 0, 1, 960, 20000]), 255, 47, [])] * (rng.random() < 0.8)


def reads(rng, i):
    tracks = [anyTrack(rng, i % 20 == 0) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 5]))]
    b = encode(rng.choice([0, 1, 1, 2]), rng.choice(RES + [1, 127, 128, 255, 256, 15360, 32767]), tracks, rng,
               pad=rng.choice([0, 0, 0, 1, 2, 4, 8, 10, 17]), running=rng.choice([0, 0.5, 1, 1]))
    return {"steps": [["midiRead", {"bytes": b, "how": rng.choice(["path", "file"]), "twice": rng.randrange(2)}]]}


def writes(rng, i):
    def item():
        x = rng.random()
        if x < 0.6:
            k, c, d = channelMsg(rng, status[0] if status and rng.random() < 0.5 else None)
            status[:] = [k + c]
            raw = 1 if rng.random() < 0.3 else 0
            v = d if raw or k != 224 else [rng.choice([-8192, -8191, -129, -128, -1, 0, 1, 127, 128, 8190, 8191, rng.randint(-8192, 8191)])]
        elif x < 0.9:
            k, c, d = metaMsg(rng, i % 20 == 0)
            raw, v = 1, d
            if c == 81 and rng.random() < 0.7:
                raw, v = 0, [d[0] * 65536 + d[1] * 256 + d[2]]
            elif c == 88 and rng.random() < 0.7:
                raw, v = 0, [d[0], 1 << d[1], d[2], d[3]]
            elif c == 89 and rng.random() < 0.7:
                raw, v = 0, [d[0] - 256 if d[0] > 127 else d[0], d[1]]
            elif 1 <= c <= 8 and rng.random() < 0.7:
                raw = 0
        else:
            k, c, v, raw = 240, 0, [rng.randrange(128) for _ in range(rng.choice([0, 1, 5, 126, 127, 128]))], 1
        return {"dt": dt(), "k": k, "c": c, "v": v, "raw": raw}
    tracks, status = [], []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        dt = dts(rng)
        tracks.append([item() for _ in range(rng.choice([0, 1, 2, 4, 7, 12]))] + [{"dt": rng.choice([0, 5, 960]), "k": 255, "c": 47, "v": [], "raw": 1}] * (rng.random() < 0.8))
    return {"steps": [["midiWrite", {"fmt": rng.choice([0, 1, 2]), "res": rng.choice(RES + [32767]), "tracks": tracks,
                                     "style": rng.randrange(4), "abs": rng.randrange(2)}]]}


def anyDelta(rng, bits):
    """numbers of all sizes, of few and of many bits set"""
    n = rng.randrange(1 << rng.randint(0, bits))
    if rng.random() < 0.3:
        n = (rng.randrange(1, 128) << (7 * rng.randrange(bits // 7))) | rng.choice([0, 0, 127, rng.randrange(1 << 7)])
    return min(n, (1 << bits) - 1)


def sweeps(rng, i):
    """tracks with many messages, at deltas of all sizes, read or written"""
    track, last = [], None
    for k in range(rng.choice([120, 200])):
        kind, c, d = channelMsg(rng, last if last and rng.random() < 0.6 else None)
        last = kind + c
        track.append((anyDelta(rng, 28 if k < 4 else 21 if k % 8 else 22), kind, c, d))
    rng.shuffle(track)
    track.append((anyDelta(rng, 21), 255, 47, []))
    if i % 2:
        return {"steps": [["midiRead", {"bytes": encode(1, 96, [track], rng, running=rng.choice([0, 0.5, 1])), "how": rng.choice(["path", "file"]), "twice": 0}]]}
    msgs = [{"dt": dt, "k": k, "c": c, "v": d, "raw": 1} for dt, k, c, d in track]
    return {"steps": [["midiWrite", {"fmt": 1, "res": 96, "tracks": [msgs], "style": rng.randrange(4), "abs": rng.randrange(2)}]]}


# ---------------------------------------------------------------- importing

class FileSpace(object):
    def __init__(self, rng, notes=None):
        self.r = rng
        self.res = rng.choice(RES)
        self.g = rng.choice([1, 1, 2, max(1, self.res // 4), self.res, max(1, self.res // 2)])
        self.pitches = rng.sample([0, 35, 36, 38, 42, 46, 48, 59, 60, 61, 72, 127], rng.choice([1, 1, 2, 3, 5]))
        self.channels = rng.sample(range(16), rng.choice([1, 1, 2, 3]))
        self.n = notes if notes is not None else rng.choice([0, 1, 2, 4, 6, 8, 12, 20])
        self.tidy = rng.random()        # how rarely notes are left open or ended twice
        self.zero = rng.random() < 0.5  # messages of one place in time
        self.names = rng.random()
        self.unended = 0                # tracks without an end-of-track

    def dt(self):
        r = self.r
        if self.zero and r.random() < 0.4:
            return 0
        return r.choice([1, 1, 1, 2, 3, 4, 7]) * self.g if r.random() < 0.95 else r.choice([r.randrange(1, 5000), 0])

    def track(self, meta, name, split):
        r, out, open_ = self.r, [], []
        if name is not None:
            out.append((0, 255, 3, [ord(x) for x in name]))
        for m in meta:
            out.insert(r.randrange(len(out) + 1), (0,) + m)
        for _ in range(self.n):
            x = r.random()
            if x < 0.08:
                k, c, d = r.choice([(176, self.channels[0], [7, 0]), (192, self.channels[0], [5]), (224, self.channels[0], [0, 64]),
                                    (160, self.channels[0], [self.pitches[0], 0]), (255, 1, [65]), (240, 0, [1, 2]), (255, 6, [75, 105])])
                out.append((self.dt(), k, c, d))
                continue
            if open_ and x < 0.08 + 0.46:
                p, c = open_.pop(r.choice([0, -1, r.randrange(len(open_))]))
                on = False
            else:
                p, c = r.choice(self.pitches), r.choice(self.channels)
                on = r.random() < 0.85 + 0.15 * self.tidy
                if on and r.random() < 0.9 + 0.1 * self.tidy:
                    open_.append((p, c))
            v = r.choice([1, 64, 100, 127])
            if on:
                out.append((self.dt(), 144, c, [p, v]))
            elif r.random() < split:
                out.append((self.dt(), 144, c, [p, 0]))
            else:
                out.append((self.dt(), 128, c, [p, r.choice([0, v])]))
        if r.random() < 0.6:
            for p, c in open_:
                out.append((self.dt(), 128, c, [p, 64]))
        return out if self.unended else out + [(r.choice([0, 0, self.g, self.dt(), 4 * self.res]), 255, 47, [])]

    def barIsExact(self, metas):
        """bars are whole ticks, and numbers of bars are found by division of whatever kind"""
        n, d = ([(m[2][0], 1 << m[2][1]) for m in metas if m[1] == 88] or [(4, 4)])[0]
        bar = 4 * self.res * n
        return bar % d == 0 and all(k * (bar // d) * (1.0 / self.res) / (n * 4.0 / d) == k for k in range(600))

    def metas(self):
        r, m = self.r, []
        if r.random() < 0.6:
            m.append((255, 81, be(r.choice([500000, 400000, 1, (1 << 24) - 1, r.randrange(100000, 2000000)]), 3)))
        if r.random() < 0.6:
            m.append((255, 88, [r.choice([1, 2, 3, 4, 5, 7, 12]), r.randint(0, 6), 24, 8]))
        if r.random() < 0.6:
            m.append((255, 89, [r.randint(-7, 7) % 256, r.randrange(2)]))
        return m

    def name(self):
        r = self.r
        return r.choice(TEXTS) if r.random() < 0.7 else None

    def file(self):
        r = self.r
        nt = r.choice([1, 1, 2, 3, 4])
        metas = self.metas()
        if self.unended:
            self.unended = self.barIsExact(metas)
        split = r.choice([0, 0.5, 1])
        where = r.randrange(nt) if r.random() < 0.5 else 0
        self.tn = [self.name() for _ in range(nt)]
        tracks = [self.track(metas if i == where else [], self.tn[i], split) for i in range(nt)]
        return encode(r.choice([0, 1]) if nt == 1 else 1, self.res, tracks, r, pad=r.choice([0, 0, 0, 2]), running=r.choice([0, 0.7]))


def pairings(rng, i):
    s = FileSpace(rng, rng.choice([70, 150, 200]) if i % 80 == 0 else None)
    s.unended = i % 9 == 0
    a = {"bytes": s.file(), "map": "pitchName", "default": rng.randrange(2)}
    if rng.random() < 0.15:
        a["over"] = 1
    if rng.random() < 0.2:
        a["map"] = [["all", {"one": ["*", "*"]}]]
    return {"steps": [["midiImport", a]]}


LABELS = ["Kick", "Snare", "Sna", "bass", "x", "Drums", "a", "b", "Hat", "kick", "SNARE", "K", "drums"]


def randomMap(rng, s, strings=True):
    x = rng.random()
    if x < 0.12:
        return "pitchName"
    if x < 0.2:
        return {"names": rng.choice([[], list("ABCDEFGHIJKL"), ["do", "re", "mi"], ["n%d" % k for k in range(24)]])}
    labels = rng.sample(LABELS, rng.choice([1, 1, 2, 3, 4]))
    if not strings and rng.random() < 0.3:
        labels[0] = rng.choice([7, ["a", "b"]])
    m = []
    for l in labels:
        def cond():
            p = rng.choice(s.pitches + [50])
            y = rng.random()
            if y < 0.4:
                return p
            return [p if rng.random() < 0.7 else "*", rng.choice(s.channels + [3]) if rng.random() < 0.6 else "*"]
        m.append([l, {"one": cond()} if rng.random() < 0.4 else {"list": [cond() for _ in range(rng.choice([1, 1, 2, 3]))]}])
    return m


def tracksFor(rng, s):
    x = rng.random()
    if x < 0.5:
        return []
    if x < 0.7:
        return rng.sample(range(6), rng.choice([1, 2]))
    if x < 0.9:
        return rng.sample([t for t in set(s.tn) if t] + ["Nothing", "Dru"], 1) + (["bass"] if rng.random() < 0.3 else [])
    return [0, rng.choice(TEXTS[:4])]


def mappings(rng, i):
    s = FileSpace(rng)
    s.unended = i % 16 == 0
    b = s.file()
    a = {"bytes": b, "map": randomMap(rng, s, False), "tracks": sorted(tracksFor(rng, s), key=str)}
    if rng.random() < 0.3:
        a["filter"] = 0
    elif rng.random() < 0.35:
        a["tfn"] = 1
        if a["map"] == "pitchName" or isinstance(a["map"], dict):
            a["map"] = randomMap(rng, s)
        if a["map"] == "pitchName" or isinstance(a["map"], dict):
            a["tfn"] = 0
        else:
            a["map"] = [[l if isinstance(l, str) else "Kick2", c] for l, c in a["map"]]
    if rng.random() < 0.1:
        a["over"] = 1
    return {"steps": [["midiImport", a]]}


def files(rng, zero=True):
    n = rng.choice([0, 1, 2, 3])
    r, spaces = [], []
    for k in range(n):
        s = FileSpace(rng, rng.choice([0, 2, 4, 8]))
        if not zero:
            s.zero = False
        spaces.append(s)
        b = s.file()
        r.append({"name": rng.choice(["f%d.mid", "loop %d.mid", "f%d_2.mid"]) % k, "match": 1, "bytes": b})
    s = FileSpace(rng, 2)
    spaces.append(s)
    r.append({"name": "other.mid", "match": 0, "bytes": s.file()})
    r.append({"name": "f9.txt", "match": 0, "bytes": s.file()})
    r.append({"name": "sub/f7.mid", "match": 0, "bytes": s.file()})
    if rng.random() < 0.3:
        r[-3]["match"] = 1
        return r, "*.mid", spaces
    return r, "[fl]*.mid", spaces


def collections_(rng, i):
    length = rng.choice([0, 0, 0, 1, 2, 4, 3, 8, 16])
    fs, g, spaces = files(rng, zero=not length)
    s = spaces[0]
    a = {"files": fs, "glob": g, "len": length, "map": randomMap(rng, s, False)}
    s.tn = sum([x.tn for x in spaces], [])
    a["tracks"] = sorted(tracksFor(rng, s), key=str)
    if rng.random() < 0.3:
        a["filter"] = 0
    elif rng.random() < 0.3 and isinstance(a["map"], list):
        a["tfn"] = 1
        a["map"] = [[l if isinstance(l, str) else "Kick2", c] for l, c in a["map"]]
    if length and any(noteOfNoLength(f["bytes"]) for f in fs):
        a["len"] = 0
    return {"steps": [["midiCollection", a]]}


def noteOfNoLength(b):
    """may the file have a note that ends where it starts (whose slices are not judged)?"""
    return True if not b else any(t for t in zeroNotes(b))


def zeroNotes(b):
    # the generator's own files: a note-off of the same place as a note-on of its pitch, or an end where a note starts
    p = 8 + (b[4] << 24 | b[5] << 16 | b[6] << 8 | b[7])
    while p < len(b):
        n = b[p + 4] << 24 | b[p + 5] << 16 | b[p + 6] << 8 | b[p + 7]
        d, q, t, st, ons = b[p + 8:p + 8 + n], 0, 0, 0, set()

        def num():
            nonlocal q
            v = 0
            while True:
                x = d[q]
                q += 1
                v = v << 7 | x & 127
                if x < 128:
                    return v
        while q < len(d):
            t += num()
            if d[q] == 255:
                q += 2
                k = d[q - 1]
                n2 = num()
                q += n2
                if k == 47 and any(x[1] == t for x in ons):
                    yield 1
            elif d[q] == 240:
                q += 1
                n2 = num()
                q += n2
            else:
                if d[q] > 127:
                    st = d[q]
                    q += 1
                k = st & 240
                data = d[q:q + (1 if k in (192, 208) else 2)]
                q += len(data)
                if k == 144 and data[1]:
                    ons.add((data[0], t))
                elif k == 128 and any(x[1] == t for x in ons):
                    yield 1
        p += 8 + n


def datasets(rng, i):
    length = rng.choice([1, 2, 4, 4, 3, 8, 16])
    fs, g, spaces = files(rng, zero=False)
    if any(noteOfNoLength(f["bytes"]) for f in fs):
        for f in fs:
            if noteOfNoLength(f["bytes"]):
                f["bytes"] = encode(1, 96, [[(0, 144, 0, [36, 100]), (48, 128, 0, [36, 0]), (rng.choice([0, 48, 400]), 255, 47, [])]])
    first = g if rng.random() < 0.7 else rng.choice(["other", "nothing.mid", "*.mid"])
    return {"steps": [["dataset", {"files": fs, "glob": g, "first": first, "len": length, "map": randomMap(rng, spaces[0], False),
                                   "over": rng.randrange(2), "sup": rng.randrange(2)}]]}


# ---------------------------------------------------------------- exporting

KEYS = ["Cb", "Gb", "Db", "Ab", "Eb", "Bb", "F", "C", "G", "D", "A", "E", "B", "F#", "C#"]


def exports(rng, i):
    s = Space(rng)
    s.h = min(s.h, 100)
    pitches = rng.sample([0, 1, 35, 36, 42, 59, 60, 61, 72, 126, 127], rng.choice([1, 1, 2, 3, 4]))
    evs = []
    for p in pitches:
        t = rng.choice([0, 0, s.t()])
        for _ in range(rng.choice([0, 1, 2, 3, 6])):
            d = s.d()
            evs.append([t, d, p, rng.choice([1, 64, 100, 127]), s.tag()])
            t += d + rng.choice([0, 0, 0, s.g, s.d()])
    if s.order == "shuffled":
        rng.shuffle(evs)
    elif s.order == "reversed":
        evs.reverse()
    else:
        evs.sort(key=lambda e: e[0])
    end = max([e[0] + e[1] for e in evs] or [0])
    new = {"p": "A", "ev": evs, "dur": rng.choice([end, end, end + s.g, end + s.d(), 0, s.u * 4 * (1 + end // (4 * s.u))]),
           "name": rng.choice(["loop", "a b", "x_1", "n.mid", "drums", "A", "k" * 140, " lead", "tail ", " both  ", ".mid x", "v1.0", u"Caf\u00e9", u"\u65e5\u672c"]), "ts": [rng.choice([1, 2, 3, 4, 5, 6, 7, 12]), 1 << rng.randint(0, 6)],
           "res": rng.choice(RES + [960, 960, 960])}
    while any(2 * t * new["res"] % (2 * s.u) == s.u for e in evs for t in (e[0], e[0] + e[1])):
        new["res"] = rng.choice(RES)  # a time in the middle of two ticks may fall on either
    if rng.random() < 0.6:
        new["key"] = rng.choice(KEYS) + rng.choice(["", "m"])
    a = {"p": "A", "bpm": rng.choice([[120, 1], [120, 1], [60, 1], [1205, 10], [999, 8], [7, 1], [333, 2], [4000, 30], [rng.randint(4, 400), 1],
                                      [rng.randint(200, 9000), 32]])}
    if rng.random() < 0.5:
        free = [q for q in range(128) if q not in pitches]
        a["map"] = []
        seen = []
        for t in s.tags:
            l = t[0] if isinstance(t, list) and t else t
            if l in seen or isinstance(l, list) or rng.random() < 0.3:
                continue
            seen.append(l)
            a["map"].append([l, rng.choice(free)])
        if not a["map"]:
            del a["map"]
    if rng.random() < 0.3:
        a["name"] = rng.choice(["other", "y.mid", "z 1", " z", "take.2"])
    steps = [["new", new], ["midiExport", a]]
    return s.prog(steps)
