"""Scenario generators. They decide what is tried, never what is right (Trace.tla decides that)."""
import random

NEG, POS = {"t": "neg", "k": []}, {"t": "pos", "k": []}


def fin(k):
    return {"t": "fin", "k": list(k)}


def conf(lo=NEG, hi=POS, mini=True, maxi=True, rev=False):
    return {"min": lo, "mini": mini, "max": hi, "maxi": maxi, "rev": rev}


# ---------------------------------------------------------------------------- keys and values

def pool(rng, kind, n):
    if kind == "int":
        return [[i] for i in range(n)]
    if kind == "text":       # decimal numbers: order is not numeric
        return [list(str(i).encode()) for i in range(n)]
    if kind == "mixed":      # lengths 0..3 over few bytes, extremes included
        ab = [0, 1, 45, 127, 128, 255]
        s = {()}
        while len(s) < n:
            s.add(tuple(rng.choice(ab) for _ in range(rng.randrange(4 if n < 200 else 5))))
        return [list(k) for k in s]
    if kind == "huge":       # lengths around those at which a length takes another byte
        s = set()
        while len(s) < n:
            m = rng.choice([126, 127, 128, 255, 256])
            s.add(tuple([rng.choice([0, 7, 100, 255])] + [107] * (m - 2) + [rng.choice([0, 1, 2, 3, 107, 254, 255])]))
        return [list(k) for k in s]
    if kind == "long":       # long common prefixes, also one key a prefix of another
        base = [112] * 40
        s = set()
        while len(s) < n:
            s.add(tuple(base[:rng.randrange(38, 41)] + [rng.choice([0, 112, 113, 255]) for _ in range(rng.randrange(4))]))
        return [list(k) for k in s]
    if kind == "wide":       # any bytes, any length
        s = set()
        while len(s) < n:
            k = tuple(rng.randrange(256) for _ in range(some_length(rng, 600)))
            s.add(k)
            if rng.random() < .3 and k:      # and one next to it
                s.add(k[:-1] + ((k[-1] + 1) % 256,))
        return [list(k) for k in sorted(s, key=lambda k: rng.random())[:n]]
    if kind == "utf8":       # text of several scripts
        s = set()
        while len(s) < n:
            s.add("".join(rng.choice("ab\u00e9\u00fc\u4e2d\u6587\u20ac\U0001f41d\u007f\u0080\u07ff\u0800\ufffd\U0010ffff") for _ in range(rng.randrange(5))))
        return [list(k.encode()) for k in sorted(s)]
    raise KeyError(kind)


KINDS = ["int", "text", "mixed", "long", "huge", "wide", "wide", "utf8"]
CAP = {"int": 200, "text": 200, "mixed": 150, "long": 100, "huge": 60, "wide": 60, "utf8": 120}


def some_length(rng, most):
    """0 to most, short ones more often."""
    return int((most + 1) ** rng.random()) - (1 if rng.random() < .5 else 0)


def value(rng):
    r = rng.random()
    if r < .2:
        return []
    if r < .3:
        return [[]]
    if r < .9:
        return [[rng.randrange(256) for _ in range(rng.randrange(1, 5))]]
    if r < .93:
        return [[rng.randrange(256) for _ in range(some_length(rng, 400))]]
    return [[rng.randrange(256)] * rng.choice([127, 128, 131, 300, 300, 300, 2000 if rng.random() < .8 else 17000])]


# ---------------------------------------------------------------------------- operations

def get(k, sub=()):
    return {"n": "get", "k": k, "sub": list(sub)}


def put(k, v, sub=()):
    return {"n": "put", "k": k, "v": v, "sub": list(sub)}


def dele(k, sub=()):
    return {"n": "del", "k": k, "sub": list(sub)}


def cput(k, v, ans=True, sub=()):
    return {"n": "cput", "k": k, "v": v, "ans": ans, "sub": list(sub)}


def cdel(k, ans=True, sub=()):
    return {"n": "cdel", "k": k, "ans": ans, "sub": list(sub)}


def tall(c=None, sub=(), lim=0):
    return {"n": "tall", "conf": c or conf(), "sub": list(sub), "lim": lim}


def topen(s, c=None, sub=()):
    return {"n": "topen", "s": s, "conf": c or conf(), "sub": list(sub)}


def tnext(s):
    return {"n": "tnext", "s": s}


def hdr(meta=()):
    return {"n": "hdr", "meta": list(meta)}


def x(n, **kw):
    return dict(n="x_" + n, **kw)


VER, HEIGHT, PRINT = {"n": "ver"}, {"n": "height"}, {"n": "print"}


def rand_bound(rng, keys):
    r = rng.random()
    if r < .12:
        return NEG
    if r < .24:
        return POS
    k = list(rng.choice(keys))
    r = rng.random()
    if r < .15:
        k = k + [0]
    elif r < .3 and k:
        k = k[:-1]
    elif r < .45 and k:
        k = k[:-1] + [(k[-1] + rng.choice([1, 255])) % 256]
    return fin(k)


def rand_conf(rng, keys):
    lo, hi = rand_bound(rng, keys), rand_bound(rng, keys)
    if lo["t"] == "fin" and hi["t"] == "fin" and lo["k"] > hi["k"] and rng.random() < .85:
        lo, hi = hi, lo
    if lo["t"] == "pos":
        lo = NEG
    if hi["t"] == "neg":
        hi = POS
    return conf(lo, hi, rng.random() < .5, rng.random() < .5, rng.random() < .5)


def history(rng, keys, n, w, subs=((),), live=None, growth=None):
    """n random operations; w maps operation to weight. Phases of growth and shrinkage alternate,
    so that trees get deep and empty again."""
    live = set() if live is None else live
    ops, names, weights = [], list(w), list(w.values())
    phase = .8 if growth is None else growth
    for i in range(n):
        if growth is None and rng.random() < 3 / n:
            phase = rng.choice([.1, .3, .5, .8, .95])
        sub = rng.choice(subs)
        name = rng.choices(names, weights)[0]
        if name == "w":
            name = "put" if rng.random() < phase else "del"
        if name == "cw":
            name = "cput" if rng.random() < phase else "cdel"
        k = rng.choice(keys)
        if name in ("del", "cdel") and live and rng.random() < .85:
            sub, k = rng.choice(sorted(live))
            k, sub = list(k), [list(map(lambda y: list(y) if isinstance(y, tuple) else y, s)) for s in sub]
        t = (tuple(tuple(tuple(y) if isinstance(y, list) else y for y in s) for s in sub), tuple(k))
        ans = rng.random() < .7
        if name == "put":
            ops.append(put(k, value(rng), sub))
            live.add(t)
        elif name == "cput":
            ops.append(cput(k, value(rng), ans, sub))
            if ans:
                live.add(t)
        elif name == "del":
            ops.append(dele(k, sub))
            live.discard(t)
        elif name == "cdel":
            ops.append(cdel(k, ans, sub))
            if ans:
                live.discard(t)
        elif name == "get":
            ops.append(get(k, sub))
        elif name == "tall":
            ops.append(tall(rand_conf(rng, keys), sub, lim=rng.choice([0, 0, 0, 1, 3])))
        elif name == "ver":
            ops.append(VER)
        elif name == "height":
            ops.append(HEIGHT)
        elif name == "print":
            ops.append(PRINT)
        elif name == "hdr":
            ops.append(hdr())
        elif name == "fresh":
            ops.append(x("fresh"))
        elif name == "reopen":
            ops.append(x("reopen"))
        else:
            raise KeyError(name)
    return ops


def sweep(keys):
    return [get(k) for k in keys]


def seq(id, ops, raw=False, **kw):
    return dict(id=id, raw=raw, clients=[{"h": "w", "ops": ops}], **kw)


# ---------------------------------------------------------------------------- trees

def leaf(n):
    return {"n": n, "c": []}


def inner(cs):
    return {"n": len(cs) - 1, "c": cs}


def tree(rng, h, lo=4, hi=8, root=True):
    """A random tree shape of height h."""
    bias = rng.random()
    n = lo if bias < .35 else hi if bias < .6 else rng.randrange(lo, hi + 1)
    if root:
        n = rng.randrange(1, hi + 1)
    if h == 1:
        return leaf(n)
    if h >= 3:
        n = min(n, rng.choice([1, 2, 4] if root else [4, 4, 5]))
    return inner([tree(rng, h - 1, lo, hi, False) for _ in range(n + 1)])


def tall_tree(rng):
    """A thin tree of height 4, with a few wider nodes."""
    def at(h, root=False):
        n = rng.choice([1, 1, 2]) if root else rng.choice([4] * 12 + [5, 6, 8]) if h > 1 else rng.choice([4, 4, 4, 4, 5, 8])
        return leaf(n) if h == 1 else inner([at(h - 1) for _ in range(n + 1)])
    return at(4, True)


def some_tree(rng, i, heights):
    """Now and then a tall one."""
    return tall_tree(rng) if i % 50 == 49 else tree(rng, rng.choice(heights))


def size(s):
    return s["n"] + sum(size(c) for c in s["c"])


def skey(r):
    return [r // 100, 2 * (r % 100)]


def sgap(r):
    return [r // 100, 2 * (r % 100) + 1]


def on_shape(id, shape, ops, style="spread", raw=False, **kw):
    return dict(id=id, raw=raw, init={"shape": [shape], "style": style}, clients=[{"h": "w", "ops": ops}], **kw)


def skeys(shape, extra=True):
    n = size(shape)
    r = [skey(i) for i in range(1, n + 1)]
    return r + ([sgap(i) for i in range(n + 1)] if extra else [])


def live_of(shape):
    return {((), tuple(skey(i))) for i in range(1, size(shape) + 1)}


# ---------------------------------------------------------------------------- families

def histories(rng, count, w, raw=False, subs=((),), sizes=(6, 15, 40, 90), tag="hist", lengthen=2.0, end=None, via=None):
    out = []
    for i in range(count):
        kind = rng.choice(KINDS)
        n = min(rng.choice(sizes), CAP[kind])
        keys = pool(rng, kind, n)
        ops = history(rng, keys, int(n * lengthen), w, subs)
        if end:
            ops += end(rng, keys)
        out.append(seq(f"{tag}-{kind}-{n}-{i}", ops, raw=raw, **({"via": via} if via else {})))
    return out


def long_histories(rng, count, n, w, raw=False, **kw):
    """Many operations through one handle, which remembers every block of them."""
    out = []
    for i in range(count):
        keys = [[j // 200, j % 200] for j in range(n // 2)]
        live = set()
        ops = history(rng, keys, n * 3 // 4, w, live=live, growth=rng.choice([.75, .9])) \
            + history(rng, keys, n // 4, w, live=live, growth=.3) + sweep(rng.sample(keys, min(len(keys), 80))) + [tall()]
        out.append(seq(f"long{i}", ops, raw=raw, **kw))
    return out


def ordered(rng, n, step, kind="int"):
    """All keys in an order that makes splits and merges cascade."""
    keys = pool(rng, kind, n)
    asc = sorted(keys)
    order = {"asc": asc, "desc": asc[::-1], "mid": sorted(asc, key=lambda k: abs(asc.index(k) - n // 2)),
             "out": sorted(asc, key=lambda k: -abs(asc.index(k) - n // 2))}[step]
    return order


def fill_and_drain(rng, n, up, down, kind="int", raw=False):
    a, b = ordered(rng, n, up, kind), ordered(rng, n, down, kind)
    ops = [put(k, value(rng)) for k in a]
    for i, k in enumerate(b):
        ops.append(dele(k))
        if i % 10 == 3:
            ops += [get(k), get(rng.choice(a)), tall()]
    return seq(f"drain-{up}-{down}-{n}", ops + [get(a[0]), tall(), put(a[0], [[1]]), get(a[0])], raw=raw)


def on_trees(rng, count, w, heights=(1, 2, 2, 3), nops=12, raw=False, tag="tree", ops_of=None, growth=None):
    out = []
    for i in range(count):
        s = some_tree(rng, i, heights) if max(heights) >= 3 else tree(rng, rng.choice(heights))
        keys = skeys(s)
        ops = ops_of(rng, s, keys) if ops_of else history(rng, keys, nops, w, live=live_of(s), growth=growth)
        out.append(on_shape(f"{tag}-{size(s)}-{i}", s, ops, rng.choice(["spread", "batch"]), raw))
    return out


# ---------------------------------------------------------------------------- arbitrary valid logs

def padded(rng, blocks, n):
    """The same tree in a log that is n blocks longer."""
    at = rng.choice([1, rng.randrange(1, len(blocks))])      # not after the last: it holds the root
    sh = lambda q: q + n if q >= at else q
    out = [b if b["h"] else dict(b, idx=[{"k": [sh(q) for q in nd["k"]], "c": [[sh(c[0]), c[1]] for c in nd["c"]]} for nd in b["idx"]])
           for b in blocks]
    return {"blocks": out, "style": "", "shape": [], "pad": [at, n]}


FAR = [100, 120, 126, 127, 128, 245, 255, 256, 1000]      # the sizes at which numbers get longer
VERYFAR = [16370, 16383, 16384, 65530]


def far_logs(rng, count, nops, w, raw=False, very=.1, tag="far"):
    """Short histories at the end of long logs."""
    out = []
    for i in range(count):
        s = tree(rng, rng.choice([1, 2, 2, 3]))
        if size(s) > 100:
            s = tree(rng, 2)
        n = size(s)
        keys = pool(rng, rng.choice(KINDS) if n < 80 else "int", n + 6)
        blocks = any_log(rng, s, rng.sample(keys, n))
        live = {((), tuple(b["key"])) for b in blocks[1:]}
        ops = sweep(rng.sample(keys, min(len(keys), 8))) + history(rng, keys, nops, w, live=live) \
            + sweep(rng.sample(keys, min(len(keys), 8))) + [tall(), VER]
        far = rng.choice(VERYFAR) if rng.random() < very else rng.choice(FAR) - rng.choice([0, 0, len(blocks), len(blocks) + nops // 2])
        if i in (3, 4):
            far = 2 ** 16 - rng.randrange(1, len(blocks) + nops // 2)
        elif rng.random() < .4:    # blocks of before and after the gap are a power of two apart
            far = 2 ** rng.choice([16] if far > 10000 else [6, 7, 8, 9, 10, 11, 12]) - rng.randrange(1, len(blocks) + nops // 2)
        out.append(dict(id=f"{tag}{i}", raw=raw, init=padded(rng, blocks, max(far, 1)), clients=[{"h": "w", "ops": ops}]))
    return out


def vast_logs(rng, count, nops, w, raw=False):
    """The same, of logs that are too long to be written: the harness leaves out a stretch."""
    out = []
    for i in range(count):
        s = tree(rng, rng.choice([1, 2, 2, 3]))
        if size(s) > 100:
            s = tree(rng, 2)
        n = size(s)
        keys = pool(rng, rng.choice(KINDS) if n < 80 else "int", n + 6)
        blocks = any_log(rng, s, rng.sample(keys, n))
        live = {((), tuple(b["key"])) for b in blocks[1:]}
        ops = sweep(rng.sample(keys, min(len(keys), 8))) + history(rng, keys, nops, w, live=live) \
            + sweep(rng.sample(keys, min(len(keys), 8))) + [tall(), VER]
        k = [20, 24, 31, 32, 32, 33, 40, 48, 53][i % 9]        # beyond 2^53 the JavaScript numbers end
        # the log ends around 2^k, or blocks before and after the gap are 2^k apart
        width = 2 ** k - rng.choice([rng.randrange(1, len(blocks) + nops // 2), rng.randrange(1, 4), 0 if k < 53 else 300])
        out.append(dict(id=f"vast{k}-{i}", raw=raw, clients=[{"h": "w", "ops": ops}],
                        init={"blocks": blocks, "style": "", "shape": [], "gap": [rng.choice([1, rng.randrange(1, len(blocks))]), width]}))
    return out


def big_batches(rng, count, raw=False):
    """Logs that end in one batch of several hundred nodes, and a few operations on them."""
    out = []
    def at(h):
        n = rng.choice([4] * 20 + [5])
        return leaf(n) if h == 1 else inner([at(h - 1) for _ in range(n + 1)])
    for i in range(count):
        s = inner([at(4), at(4)])
        n = size(s)
        keys = [[i >> 8, i & 255] for i in range(n)]
        blocks = any_log(rng, s, keys, True)
        some = rng.sample(keys, 12)
        ops = [get(k) for k in some] + [put(some[0], [[1]]), dele(some[1]), get(some[2]), tall(conf(fin(some[3])), lim=3)]
        out.append(dict(id=f"batch{i}", raw=raw, init={"blocks": blocks, "style": "", "shape": []}, clients=[{"h": "w", "ops": ops}]))
    return out


def any_log(rng, shape, keys, batch=False):
    """A valid log whose tree has this shape, laid out in no particular way: entries in any order, nodes in
    any later block at any offset (batch: all in the last one), blocks of deletions and empty blocks in between."""
    n = size(shape)
    keys = sorted(keys)[:n]
    assert len(keys) == n
    extra = rng.randrange(0, 6)
    seqs = list(range(1, n + extra + 1))
    total = n + extra
    slots = rng.sample(seqs, n)              # rank -> seq
    if rng.random() < .3:
        slots = sorted(slots)
    nodes = []                               # (keys, children indexes, least block)
    it = iter(range(n))

    def walk(s):
        ks, cs, least = [], [], 1
        if not s["c"]:
            ks = [slots[next(it)] for _ in range(s["n"])]
        else:
            for i, c in enumerate(s["c"]):
                cs.append(walk(c))
                if i < s["n"]:
                    ks.append(slots[next(it)])
        least = max([1] + ks + [nodes[c]["b"] for c in cs])
        nodes.append({"k": ks, "c": cs, "b": total if batch else least if rng.random() < .6 else rng.randrange(least, total + 1)})
        return len(nodes) - 1
    root = walk(shape)
    nodes[root]["b"] = total
    at = {b: [] for b in range(1, total + 1)}
    order = list(range(len(nodes)))
    rng.shuffle(order)
    for i in order:
        if i != root:
            at[nodes[i]["b"]].append(i)
    at[total].insert(0, root)
    pos = {i: (b, o) for b in at for o, i in enumerate(at[b])}
    by_seq = {s: keys[r] for r, s in enumerate(slots)}
    meta = rng.choice([[], [{"cf": [], "ud": []}], [{"cf": [[1] * 32], "ud": []}], [{"cf": [], "ud": [[104, 105]]}]])
    log = [{"h": True, "key": [], "val": [], "idx": [], "meta": meta}]
    for b in range(1, total + 1):
        live = b in by_seq
        log.append({"h": False, "key": by_seq[b] if live else rng.choice(keys or [[1]]), "val": value(rng) if live else [],
                    "idx": [{"k": nodes[i]["k"], "c": [list(pos[c]) for c in nodes[i]["c"]]} for i in at[b]]})
    return log


def giants(rng, count, raw=False, sizes=(16383, 16384, 20000)):
    """Keys and values whose lengths need three bytes."""
    out = []
    for i in range(count):
        n = rng.choice(sizes)
        base = [rng.randrange(256)] * n
        keys = [base, base[:-1] + [(base[-1] + 1) % 256], base[:n // 2], [0], [255] * 100]
        ops = [put(k, [[rng.randrange(256)] * rng.choice([3, 16383, 16384, 70000])]) for k in keys] + sweep(keys)
        ops += [put(keys[0], []), get(keys[0]), dele(keys[1]), get(keys[1]), tall()]
        out.append(seq(f"giant{i}", ops, raw=raw))
    return out
