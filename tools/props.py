"""Per property: which specification modules are model-checked, which behaviours are run against the
real code, and which aspects of Trace.tla judge them."""
import itertools
from gen import *

ASSUME = [
    "the crates hyperbee depends on (hypercore, replicator, futures-lite, derive_builder) are the stand-ins in /verif/env",
    "conformance is checked on the executions listed under coverage, not on all executions",
]
CORE = {"err", "append"}
W = {"w": 8, "get": 2}                        # puts and deletes in phases, some gets
WX = {"w": 8, "cw": 4, "get": 2}
ALL = {"w": 10, "cw": 4, "get": 4, "tall": 1, "ver": .5, "height": .5, "hdr": .3}


def T(tier, quick, thorough):
    return thorough if tier == "thorough" else quick


# ---------------------------------------------------------------------------- model configurations

def store_models(tier):
    return [("MCHyperbee", "MCHyperbee_2.cfg", ())] + ([("MCHyperbee", "MCHyperbee_4.cfg", ())] if tier == "thorough" else [])


def cas_models(tier):
    return store_models(tier) + [("MCConc", "MCConc_cas.cfg", ()), WRONG("MCConc", "MCConc_hasty.cfg")] \
        + ([("MCConc", "MCConc_casdeep.cfg", ())] if tier == "thorough" else [])


def header_models(tier):
    return store_models(tier) + [("MCConc", "MCConc_cas.cfg", ()), ("MCConc", "MCConc_casfail.cfg", ())]


def depth_of(shape, key, d=0):
    """Depth of the node that holds this key of LogOf(shape), or -1 (the key is in a gap)."""
    if key[1] % 2:
        return -1
    r = 100 * key[0] + key[1] // 2
    if not shape["c"]:
        return d
    for c in shape["c"]:
        n = size(c)
        if r <= n:
            return depth_of(c, [r // 100, 2 * (r % 100)], d + 1)
        r -= n + 1
        if r == 0:
            return d
    return -1


def pick(rng, fam, n):
    """A stratified sample: the same share of every operation kind, and of every depth of its key."""
    if len(fam) <= n:
        return list(fam)
    by = {}
    for s in fam:
        op = s["clients"][0]["ops"][0]
        by.setdefault((op["n"], depth_of(s["init"]["shape"][0], op["k"])), []).append(s)
    out, left = [], n
    for i, k in enumerate(sorted(by, key=lambda k: len(by[k]))):
        take = min(len(by[k]), -(-left // (len(by) - i)))
        out += rng.sample(by[k], take)
        left -= take
    return out


TREES = {"quick": ["all1", "all2", "fam2", "fam3", "full3", "fam4"],
         "thorough": ["all1", "all2", "all3", "fam2", "fam3", "full3", "fam4"]}


def transitions(rng, tier, fam, n, raw):
    out = []
    for w, f in fam.items():
        out += pick(rng, f, T(tier, {"all1": 200, "full3": 120}.get(w, n), 10**9))
    for s in out:
        s["raw"] = raw
    return out


def sweep_end(rng, keys):
    return sweep(keys) + [tall()]


PROPS = {}
# how often the (random) scenarios of a check are drawn
ROUNDS = {"P03": 2, "P06": 3, "P08": 4, "P09": 3, "P10": 4, "P11": 4, "P12": 4, "P13": 4, "P14": 3, "P20": 3, "P22": 2, "P23": 2, "P24": 2,
          "P26": 2}


def prop(pid, **kw):
    def deco(f):
        PROPS[pid] = dict(make=f, **kw)
        return f
    return deco


# ---------------------------------------------------------------------------- the store

@prop("P01", models=store_models, gen=TREES, aspects=CORE | {"get", "map"},
      guards={"get:found": 300, "get:absent": 300, "app": 1000, "nodes written:4*": 5})
def p01(rng, tier, fam):
    return (transitions(rng, tier, fam, 350, False)
            + histories(rng, T(tier, 60, 600), W, end=sweep_end)
            + [fill_and_drain(rng, n, u, d, k) for n in T(tier, (30, 150), (30, 90, 200)) for u, d, k in
               [("asc", "asc", "int"), ("asc", "desc", "text"), ("desc", "mid", "int"), ("mid", "out", "int")]]
            + giants(rng, T(tier, 1, 4))
            + far_logs(rng, T(tier, 40, 400), 20, W) + vast_logs(rng, T(tier, 18, 180), 20, W) + long_histories(rng, T(tier, 2, 6), T(tier, 1100, 3000), W)
            + on_trees(rng, T(tier, 100, 1000), W, nops=20))


@prop("P02", models=store_models, gen=TREES, aspects=CORE | {"putres", "delres"},
      guards={"put:replaced": 200, "put:added": 200, "del:found": 300, "del:absent": 100})
def p02(rng, tier, fam):
    return (transitions(rng, tier, fam, 350, False)
            + histories(rng, T(tier, 80, 800), {"w": 1})
            + [fill_and_drain(rng, n, u, d, k) for n in (30, 120) for u, d, k in [("asc", "mid", "int"), ("desc", "asc", "long")]]
            + far_logs(rng, T(tier, 20, 200), 20, {"w": 1}) + vast_logs(rng, T(tier, 9, 90), 20, {"w": 1}) + long_histories(rng, 1, T(tier, 1100, 3000), {"w": 1})
            + on_trees(rng, T(tier, 120, 1000), {"w": 1}, nops=25, growth=.4))


@prop("P03", models=cas_models, aspects=CORE | {"cas", "map", "get"},
      guards={"cput:declined": 200, "cdel:declined": 150, "cput:replaced": 200, "cput:added": 200, "cdel:absent": 100})
def p03(rng, tier, fam):
    w = {"cw": 10, "w": 3, "get": 3}
    return (histories(rng, T(tier, 120, 1000), w, end=sweep_end)
            + histories(rng, T(tier, 40, 300), w, subs=((), ([[97], [0]],)), tag="subcas")
            + far_logs(rng, T(tier, 20, 200), 20, w) + vast_logs(rng, T(tier, 9, 90), 20, w)
            + on_trees(rng, T(tier, 200, 1500), w, nops=20, growth=.5))


@prop("P04", models=store_models, gen=TREES, aspects=CORE | {"wf"},
      guards={"app": 3000, "del:found": 500, "nodes written:4*": 20})
def p04(rng, tier, fam):
    return (transitions(rng, tier, fam, 1500, False)
            + histories(rng, T(tier, 40, 500), {"w": 10, "cw": 2})
            + [fill_and_drain(rng, n, u, d, k) for n in T(tier, (40, 150), (40, 90, 200)) for u, d, k in
               [("asc", "asc", "int"), ("asc", "out", "text"), ("desc", "mid", "int"), ("mid", "desc", "mixed")]]
            + giants(rng, T(tier, 1, 4), sizes=(5000,))
            + far_logs(rng, T(tier, 30, 300), 20, {"w": 1}) + vast_logs(rng, T(tier, 18, 180), 20, {"w": 1}) + long_histories(rng, 1, T(tier, 1100, 3000), {"w": 1})
            + on_trees(rng, T(tier, 100, 1000), {"w": 1}, nops=20))


@prop("P05", models=store_models, gen=TREES, aspects=CORE | {"struct", "enc", "hdr"},
      guards={"app": 3000, "header": 15, "nodes written:4*": 20})
def p05(rng, tier, fam):
    return (transitions(rng, tier, fam, 1200, True)
            + histories(rng, T(tier, 40, 500), {"w": 10, "cw": 2}, raw=True)
            + [fill_and_drain(rng, n, u, d, k, raw=True) for n in T(tier, (40, 140), (40, 90, 200)) for u, d, k in
               [("asc", "asc", "int"), ("asc", "out", "text"), ("desc", "mid", "long"), ("mid", "desc", "mixed")]]
            + giants(rng, T(tier, 1, 4), raw=True)
            + far_logs(rng, T(tier, 60, 400), 20, {"w": 1}, raw=True, very=.2) + vast_logs(rng, T(tier, 18, 180), 20, {"w": 1}, raw=True) + long_histories(rng, 1, T(tier, 1100, 3000), {"w": 1}, raw=True)
            + on_trees(rng, T(tier, 100, 1000), {"w": 1}, nops=15, raw=True))


@prop("P06", models=store_models, aspects={"append", "map", "err", "ver"},
      guards={"call:get": 200, "call:tall": 100, "cput:declined": 100, "del:absent": 100, "call:ver": 200, "app": 1000})
def p06(rng, tier, fam):
    def op(r, keys):
        o = history(r, keys, 60, dict(ALL, ver=3, fresh=.5))
        return [y for z in o for y in ((z, VER) if r.random() < .4 else (z,))]
    out = histories(rng, T(tier, 80, 800), dict(ALL, ver=4, fresh=.5))
    for i in range(T(tier, 60, 500)):
        k = pool(rng, "mixed", 20)
        out.append(seq(f"ver{i}", op(rng, k)))
    return out + on_trees(rng, T(tier, 100, 800), dict(ALL, ver=3), nops=20)


# ---------------------------------------------------------------------------- reading ranges

def range_models(tier):
    return [("MCTraverse", "MCTraverse.cfg", ())] + ([("MCTraverse", "MCTraverse_all.cfg", ()), ("MCTraverse", "MCTraverse_any.cfg", ())] if tier == "thorough" else [])


def snap_models(tier):
    return [("MCTraverse", "MCTraverse_grow.cfg", ()), ("MCConc", "MCConc_walk.cfg", ()), WRONG("MCConc", "MCConc_floating.cfg")] \
        + ([("MCTraverse", "MCTraverse_growdeep.cfg", ()), ("MCConc", "MCConc_walkdeep.cfg", ())] if tier == "thorough" else [])


def hole_models(tier):
    return [("MCTraverse", "MCTraverse_holes.cfg", ()), ("MCReplica", "MCReplica.cfg", ()), WRONG("MCReplica", "MCReplica_blind.cfg")] \
        + ([("MCReplica", "MCReplica_drop.cfg", ())] if tier == "thorough" else [])


def WRONG(module, cfg):
    """A wrong design: TLC has to find out."""
    return (module, cfg, (), "violated")


def all_bounds(shape, incl=True):
    n = size(shape)
    pts = sorted([skey(i) for i in range(1, n + 1)] + [sgap(i) for i in range(n + 1)] + [[0], [0, 0]])
    for lo in [NEG] + [fin(k) for k in pts]:
        for hi in [POS] + [fin(k) for k in pts]:
            if lo["t"] == "fin" and hi["t"] == "fin" and lo["k"] > hi["k"]:
                continue
            for mini, maxi, rev in itertools.product((True, False), repeat=3):
                yield conf(lo, hi, mini, maxi, rev)


def range_scens(rng, tier):
    out = []
    # every range on small trees
    shapes = [leaf(0), leaf(1), leaf(2), leaf(3), inner([leaf(4), leaf(4)]), inner([leaf(4), leaf(5), leaf(4)])]
    if tier == "thorough":
        shapes += [leaf(8), inner([leaf(8), leaf(4)]), inner([leaf(4)] * 4)]
    for s in shapes:
        cs = list(all_bounds(s))
        if tier == "quick" and len(cs) > 2500:
            cs = rng.sample(cs, 2500)
        for j in range(0, len(cs), 120):
            out.append(on_shape(f"ranges-{size(s)}-{j}", s, [tall(c) for c in cs[j:j + 120]],
                                rng.choice(["spread", "batch"])))

    # random ranges on random trees of up to three levels
    def some(r, s, keys):
        return [tall(rand_conf(r, keys), lim=r.choice([0, 0, 0, 0, 1, 4])) for _ in range(25)]
    out += on_trees(rng, T(tier, 120, 1200), None, heights=(1, 2, 2, 3, 3), ops_of=some, tag="rr")
    # ranges over what a history left behind
    w = {"w": 4, "tall": 5}
    out += histories(rng, T(tier, 40, 400), w, sizes=(4, 15, 40))
    return out + giants(rng, T(tier, 1, 4), sizes=(5000,)) + far_logs(rng, T(tier, 25, 250), 20, w) + vast_logs(rng, T(tier, 9, 90), 20, w)


@prop("P07", models=range_models, aspects=CORE | {"trav"},
      guards={"tall:nonempty": 3000, "items": 20000})
def p07(rng, tier, fam):
    return range_scens(rng, tier)


@prop("P08", models=snap_models, aspects=CORE | {"stream"},
      guards={"call:topen": 100, "ok:tnext": 1500, "app": 500})
def p08(rng, tier, fam):
    out = []
    for i in range(T(tier, 200, 2000)):
        s = some_tree(rng, i, (1, 2, 2, 3))
        keys = skeys(s)
        live = live_of(s)
        ops = [topen(1, conf(rev=rng.random() < .4) if rng.random() < .5 else rand_conf(rng, keys))]
        for j in range(40):
            r = rng.random()
            if r < .45:
                ops.append(tnext(1))
            elif r < .5:
                ops += [topen(2, rand_conf(rng, keys)), tnext(2)]
            elif r < .6:
                ops.append(tnext(2))
            else:
                ops += history(rng, keys, 1, {"w": 5, "cw": 1}, live=live, growth=rng.choice([.2, .5, .8]))
        ops += [tnext(1)] * T(tier, 25, 60) + [tnext(2)] * 10
        out.append(on_shape(f"snap-{i}", s, ops, rng.choice(["spread", "batch"])))
    for i in range(T(tier, 60, 500)):      # the tree is in the writer's cache when the stream opens
        kind = rng.choice(KINDS)
        keys = pool(rng, kind, rng.choice([5, 20, 50]))
        ops, live = history(rng, keys, 60, {"w": 1}, growth=.8), set()
        for rnd in range(4):
            ops.append(topen(rnd, rand_conf(rng, keys) if rng.random() < .5 else conf(rev=rng.random() < .5)))
            for j in range(25):
                ops += [tnext(rnd)] if rng.random() < .5 else history(rng, keys, 1, {"w": 1}, growth=.4)
            ops += [tnext(rnd)] * 12
        out.append(seq(f"snapw-{i}", ops))
    for i in range(T(tier, 4, 40)):        # very many streams side by side
        s = tree(rng, rng.choice([2, 3]))
        keys, live, ops = skeys(s), live_of(s), []
        for j in range(60):
            ops.append(topen(j, rand_conf(rng, keys) if rng.random() < .5 else conf(rev=rng.random() < .5)))
            ops += [tnext(rng.randrange(j + 1)) for _ in range(2)] + history(rng, keys, 1, {"w": 5, "cw": 1}, live=live, growth=rng.choice([.2, .8]))
        order = list(range(60)) * 3
        rng.shuffle(order)
        out.append(on_shape(f"streams-{i}", s, ops + [tnext(j) for j in order], rng.choice(["spread", "batch"])))
    return out


# ---------------------------------------------------------------------------- subs

def sub_models(tier):
    return [("MCSub", "MCSub.cfg", ())] + ([("MCSub", "MCSub_long.cfg", ())] if tier == "thorough" else [])


SUBS = [((), ), ]


def sub_universe(rng):
    """Subs whose prefixes are near each other, and keys on their edges."""
    kind = rng.randrange(5)
    if kind == 4:     # long prefixes and separators
        p, q = ([rng.randrange(256) for _ in range(some_length(rng, 300))] for _ in range(2))
        subs = [[[a, b]] for a, b in ((p, [0]), (p, q), (q, p), (p + q, []), (p + [0], q[:1]))]
    elif kind == 0:   # default separator
        subs = [[[p, [0], rng.choice([1, 1, 2])]] for p in ([97], [97, 0], [98], [], [97, 255])]
    elif kind == 1:   # bytes at the end of the range
        subs = [[[p, s]] for p, s in (([255], [255]), ([255], []), ([97, 255], []), ([97], [255]), ([98], []))]
    elif kind == 2:   # separators of other lengths
        subs = [[[p, s, 3] if rng.random() < .5 else [p, s]] for p, s in (([97], [58, 58]), ([97, 58], [58]), ([97], []), ([97], [58]), ([], []))]
    else:
        ab = [0, 1, 97, 254, 255]
        subs = [[[[rng.choice(ab) for _ in range(rng.randrange(3))], [rng.choice(ab) for _ in range(rng.randrange(3))]]]
                for _ in range(5)]
    keys = [[], [0], [97], [97, 0], [98], [255], [0, 255], [255, 255]]
    full = [s[0][0] + s[0][1] + k for s in subs for k in keys]
    edges = [s[0][0] + s[0][1] for s in subs]
    for e in list(edges):
        if e:
            edges.append(e[:-1] + [(e[-1] + 1) % 256])
            edges.append(e + [255, 255, 255])
            edges.append(e[:-1])
    return subs, keys, full + edges


@prop("P09", models=sub_models, aspects=CORE | {"subtrav", "get", "putres", "delres", "cas", "map", "trav"},
      guards={"subcall:tall": 500, "subcall:put": 500, "subcall:get": 500, "subcall:cput": 100, "subcall:del": 100,
              "tall:nonempty": 400})
def p09(rng, tier, fam):
    out = []
    for i in range(T(tier, 150, 1500)):
        subs, keys, full = sub_universe(rng)
        ops = []
        for k in rng.sample(full, min(len(full), rng.choice([5, 15, 30]))):
            ops.append(put(k, value(rng)))
        w = {"w": 4, "cw": 1, "get": 3}
        live = set()
        for j in range(T(tier, 12, 20)):
            ops += history(rng, keys, 3, w, subs=subs, live=live, growth=.7)
            ops += history(rng, full, 1, w, growth=.6)
            s = rng.choice(subs)
            c = rng.choice([conf(), conf(rev=True), rand_conf(rng, keys), conf(lo=rng.choice([NEG, POS]), hi=rng.choice([NEG, POS]),
                            mini=rng.random() < .5, maxi=rng.random() < .5)])
            ops += [tall(c, s), get(rng.choice(keys), s)]
        for s in subs:
            ops += [tall(conf(), s), tall(conf(rev=True), s), tall(conf(mini=False, maxi=False), s)]
        out.append(seq(f"sub{i}", ops + [tall()]))
    return out


# ---------------------------------------------------------------------------- configurations of traversals

@prop("P19", models=range_models, aspects={"tcfg", "err"}, guards={"call:tcfg": 675, "error:tcfg": 50, "ok:tcfg": 300})
def p19(rng, tier, fam):
    lims = [NEG, POS, fin([1]), fin([2])]
    lims2 = lims + [fin([]), fin([1, 0]), fin([255]), fin([0])]
    ops = []
    for ls in (lims, lims2) if tier == "quick" else (lims, lims2):
        for a, b in itertools.product([[]] + [[z] for z in ls], repeat=2):
            for mi, ma, rv in itertools.product([[], [True], [False]], repeat=3):
                ops.append({"n": "tcfg", "min": a, "max": b, "mini": mi, "maxi": ma, "rev": rv})
    for _ in range(T(tier, 1500, 20000)):      # limits of any kind
        k = [rng.randrange(256) for _ in range(some_length(rng, 40))]
        l = rng.choice([k, k + [rng.randrange(256)], k[:-1], k[:-1] + [rng.randrange(256)], [rng.randrange(256) for _ in range(some_length(rng, 40))]])
        a, b = rng.sample([fin(k), fin(l)], 2) if rng.random() < .9 else rng.sample([fin(k), NEG, POS], 2)
        ops.append({"n": "tcfg", "min": [a], "max": [b], "mini": rng.choice([[], [True], [False]]),
                    "maxi": rng.choice([[], [True], [False]]), "rev": rng.choice([[], [True], [False]])})
    ops += [{"n": "tcfg", "how": "default", "min": [], "max": [], "mini": [], "maxi": [], "rev": []}]
    return [seq(f"tcfg{i}", ops[i:i + 100]) for i in range(0, len(ops), 100)]


# ---------------------------------------------------------------------------- concurrency and faults

def conc_models(*more):
    """The concurrent store without failures; more: (quick configurations), (thorough ones)."""
    quick, thorough = more
    def models(tier):
        return [m if isinstance(m, tuple) else ("MCConc", m, ()) for m in quick + (thorough if tier == "thorough" else [])]
    return models


NOLOCK, INPLACE, LEAKY = (WRONG("MCConc", f"MCConc_{x}.cfg") for x in ("nolock", "inplace", "leaky"))


def small_start(rng):
    """Start states on which two writes interfere: empty, one leaf, full leaf, minimal leaves."""
    r = rng.random()
    if r < .25:
        return None, [[i] for i in range(1, 6)], set()
    s = rng.choice([leaf(0), leaf(2), leaf(8), leaf(7), inner([leaf(4), leaf(4)]), inner([leaf(8), leaf(4)]),
                    inner([leaf(4), leaf(4), leaf(8)]), inner([leaf(8)] * 9)])
    return s, skeys(s), live_of(s)


def clients_scen(rng, id, ncl, nops, w, sched, readers=0, rops=3, **kw):
    s, keys, live = small_start(rng)
    # few keys, so that the clients meet
    some = rng.sample(keys, min(len(keys), rng.choice([2, 4, 8])))
    cls = []
    # some of the clients go through subs: another view of the same store, and of the same keys if the prefix is empty
    subs = rng.choice([((),), ((),), ((), [[[], []]]), ([[[], []]], [[[97], [0]]]), ((), [[[97], [0]]], [[[], []]])])
    for c in range(ncl):
        cls.append({"h": "w", "ops": history(rng, some, nops, w, subs=subs, live={l for l in live if list(l[1]) in some}, growth=rng.choice([.3, .5, .8]))})
    for c in range(readers):
        ops = []
        for j in range(rops):
            r = rng.random()
            if r < .45:
                ops.append(get(rng.choice(some), rng.choice(subs)))
            elif r < .65:
                ops.append(tall(rand_conf(rng, keys), rng.choice(subs)))
            elif r < .72:
                ops.append(VER)
            elif r < .8:
                ops.append(HEIGHT)
            else:
                sid = 10 * c + j
                ops += [topen(sid, rand_conf(rng, keys), rng.choice(subs))] + [tnext(sid)] * 4
        cls.append({"h": "w", "ops": ops})
    sc = dict(id=id, raw=False, yields=True, clients=cls, sched=sched, **kw)
    if s is not None:
        sc["init"] = {"shape": [s], "style": rng.choice(["spread", "batch"])}
    return sc


def explore(rng, preempt, mx):
    return {"kind": "explore", "preempt": preempt, "max": mx}


def randsched(rng, n):
    return {"kind": "rand", "seed": rng.randrange(1 << 30), "n": n}


@prop("P10", models=conc_models(["MCConc.cfg", "MCConc_cas.cfg", NOLOCK], ["MCConc_deep.cfg", "MCConc_three.cfg", "MCConc_casdeep.cfg"]), aspects=CORE | {"map", "wf", "putres", "delres", "cas", "hdr", "get", "ver"},
      guards={"overlapping calls": 2000, "app": 3000, "header": 80})
def p10(rng, tier, fam):
    out = []
    w = {"w": 8, "cw": 4, "hdr": .7, "get": 1}
    for i in range(T(tier, 60, 500)):
        out.append(clients_scen(rng, f"ww{i}", 2, rng.choice([1, 2]), w, explore(rng, 2, T(tier, 60, 400))))
    for i in range(T(tier, 40, 400)):
        out.append(clients_scen(rng, f"www{i}", rng.choice([2, 3, 4]), rng.choice([2, 3, 5]), w, randsched(rng, T(tier, 25, 60))))
    for i in range(T(tier, 15, 100)):
        s = clients_scen(rng, f"par{i}", rng.choice([2, 4, 6]), rng.choice([5, 15]), w, {"kind": "stress"})
        s["yields"] = False
        out.append(s)
    for i in range(T(tier, 6, 60)):        # a crowd
        out.append(clients_scen(rng, f"crowd{i}", rng.choice([12, 40]), rng.choice([1, 2]), w, randsched(rng, T(tier, 6, 20))))
    return out


@prop("P11", models=conc_models(["MCConc.cfg", "MCConc_walk.cfg"], ["MCConc_deep.cfg", "MCConc_walkdeep.cfg"]), aspects=CORE | {"get", "trav", "subtrav", "stream", "ver", "height"},
      guards={"overlapping calls": 2000, "call:get": 2000, "call:tall": 500, "ok:tnext": 500, "app": 2000})
def p11(rng, tier, fam):
    out = []
    w = {"w": 8, "cw": 2}
    for i in range(T(tier, 60, 500)):
        out.append(clients_scen(rng, f"rw{i}", 1, rng.choice([1, 2]), w, explore(rng, 2, T(tier, 60, 300)), readers=1, rops=2))
    for i in range(T(tier, 50, 400)):
        if i % 8 == 0:                     # a crowd
            out.append(clients_scen(rng, f"crowd{i}", rng.choice([4, 10]), 2, w, randsched(rng, T(tier, 6, 20)), readers=rng.choice([10, 30]), rops=2))
        out.append(clients_scen(rng, f"rww{i}", rng.choice([1, 2]), rng.choice([2, 4, 8]), w, randsched(rng, T(tier, 25, 60)), readers=rng.choice([1, 2]), rops=5, spurious=i % 3 == 0))
    for i in range(T(tier, 15, 100)):
        s = clients_scen(rng, f"par{i}", rng.choice([1, 2]), 12, w, {"kind": "stress"})
        for c in range(3):
            s["clients"].append({"h": "w", "ops": [rng.choice([get(rng.choice([[1], [2], skey(2), sgap(1)])), tall()]) for _ in range(12)]})
        s["yields"] = False
        out.append(s)
    return out


def with_faults(rng, ops, p, kinds):
    """Put faults in front of some operations."""
    out = []
    for o in ops:
        if rng.random() < p:
            k = rng.choice(kinds)
            if k == "get":
                out.append(x("gfault", at=rng.choice([0, 0, 1, 1, 2, 3, 5])))
            elif k == "cancel":
                out.append(x("cancel", polls=rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])))
            elif k == "fresh":
                out.append(x("fresh"))
            else:
                out.append(x("afault", at=rng.choice([0, 0, 0, 1]), kind=k))
            out.append(o)
            out.append(x("nofault"))
        else:
            out.append(o)
    return out


def worn(rng, count, n, kinds, yields, tag):
    """One handle that sees very many failures (or cancellations), and is asked for everything in the end."""
    out = []
    for i in range(count):
        s = tree(rng, 3)
        while not 60 <= size(s) <= 250:
            s = tree(rng, 3)
        keys = skeys(s)
        live = live_of(s)
        ops = []
        for j in range(n):
            k = rng.choice(kinds)
            o = get(rng.choice(keys)) if rng.random() < .7 else history(rng, keys, 1, {"w": 5, "cw": 1, "tall": .3}, live=live, growth=.4)[0]
            ops += [x("cancel", polls=rng.choice([1, 2, 3, 3, 4, 4, 5, 6])) if k == "cancel" else
                    x("gfault", at=rng.choice([0, 0, 0, 1])) if k == "get" else x("afault", at=0, kind=k), o, x("nofault")]
        ops += [tall(), HEIGHT] + history(rng, keys, 5, {"w": 1}, live=live) + [get(k) for k in rng.sample(keys, 20)] + [tall(), VER]
        out.append(on_shape(f"{tag}{i}", s, ops, "spread", yields=yields))
    return out


def faulty(rng, tier, kinds, p, yields, count, tag):
    out = []
    w = {"w": 8, "cw": 3, "get": 3, "tall": 1, "hdr": .2}
    for i in range(count):
        kind = rng.choice(KINDS)
        keys = pool(rng, kind, rng.choice([4, 12, 30]))
        ops = []
        for j in range(5):
            ops += with_faults(rng, history(rng, keys, 8, w), p, kinds) + sweep(keys)
        out.append(seq(f"{tag}-{kind}-{i}", ops + [tall()], yields=yields))
    for i in range(count):
        s = some_tree(rng, i, (1, 2, 2, 3))
        keys = skeys(s)
        live = live_of(s)
        ops = []
        for j in range(8):
            # a faulty write on a cold or warm cache, then a look at everything, then a write that works
            if rng.random() < .5:
                ops.append(x("fresh"))
            ops += with_faults(rng, history(rng, keys, rng.choice([1, 2]), {"w": 5, "cw": 1}, live=live, growth=.4), 1 if p > .2 else p, kinds)
            ops += [tall(), get(rng.choice(keys)), HEIGHT]
            ops += history(rng, keys, 1, {"w": 1}, live=live, growth=.4)
        out.append(on_shape(f"{tag}-tree-{i}", s, ops + [tall()], rng.choice(["spread", "batch"]), yields=yields))
    return out


@prop("P12", models=conc_models(["MCConc_fail.cfg", "MCConc_casfail.cfg", INPLACE], ["MCConc_faildeep.cfg"]), aspects=CORE | {"get", "map", "wf", "trav", "subtrav", "stream", "putres", "delres", "cas", "height", "hdr", "ver"},
      guards={"afail": 300, "gfail": 40, "error:put": 200, "error:del": 80, "tall:nonempty": 500})
def p12(rng, tier, fam):
    out = faulty(rng, tier, ["before", "before", "after", "get", "get"], .35, False, T(tier, 70, 700), "fault")
    out += worn(rng, T(tier, 3, 12), 150, ["get", "get", "before", "after"], False, "worn")
    for i in range(T(tier, 30, 300)):      # a failing writer next to others
        s = clients_scen(rng, f"fw{i}", 2, 3, {"w": 8, "cw": 2, "get": 2}, randsched(rng, T(tier, 10, 40)))
        for c in s["clients"]:
            c["ops"] = with_faults(rng, c["ops"], .5, ["before", "get"]) + [tall()]
        out.append(s)
    return out


@prop("P13", models=conc_models(["MCConc_fail.cfg", "MCConc_casfail.cfg", INPLACE], ["MCConc_faildeep.cfg"]), aspects=CORE | {"get", "map", "wf", "trav", "subtrav", "stream", "putres", "delres", "cas", "height", "hdr", "ver"},
      guards={"cancel": 300, "tall:nonempty": 500, "app": 1000})
def p13(rng, tier, fam):
    out = faulty(rng, tier, ["cancel"], .5, True, T(tier, 60, 600), "cancel")
    out += worn(rng, T(tier, 3, 12), 150, ["cancel"], True, "worn")
    for i in range(T(tier, 40, 400)):
        s = clients_scen(rng, f"cw{i}", 2, 4, {"w": 8, "cw": 2, "get": 2}, randsched(rng, T(tier, 10, 40)))
        for c in s["clients"]:
            c["ops"] = with_faults(rng, c["ops"], .5, ["cancel"]) + [tall()]
        out.append(s)
    return out


@prop("P14", models=conc_models(["MCConc_fail.cfg"], ["MCConc_faildeep.cfg"]), aspects=CORE | {"get", "map", "wf", "trav", "subtrav", "stream", "putres", "delres", "cas", "ver", "height", "hdr"},
      guards={"crash": 150, "killed calls": 200, "app": 2000, "get:found": 500, "tall:nonempty": 200})
def p14(rng, tier, fam):
    out = []
    for i in range(T(tier, 120, 1000)):
        kind = rng.choice(KINDS)
        keys = pool(rng, kind, rng.choice([3, 10, 25, 60]))
        ops = []
        for j in range(rng.choice([1, 3, 6])):
            ops += history(rng, keys, rng.choice([1, 5, 25]), {"w": 8, "cw": 1, "get": 1, "hdr": .3})
            r = rng.random()
            if r < .35:
                ops.append(x("reopen"))
            elif r < .8:
                ops.append(x("crash", drop=rng.choice([0, 1, 1, 2, 5]), torn=rng.choice([0, 1, 3, 4, 5, 9, 20])))
            else:
                ops.append(x("fresh"))
            ops += [VER, HEIGHT] + sweep(rng.sample(keys, min(len(keys), 10)))
            if rng.random() < .7:
                ops += [put(rng.choice(keys), value(rng)), tall()]
        out.append(seq(f"re-{kind}-{i}", ops, via=rng.choice(["disk", "disk", "newdir", "sim"])))
    for s in long_histories(rng, T(tier, 2, 6), 800, {"w": 8, "get": 1}):
        ops = s["clients"][0]["ops"]
        for at in (100, 333, 600):
            ops[at:at] = [x("crash", drop=rng.choice([0, 1]), torn=rng.choice([0, 5])), VER, HEIGHT]
        out.append(dict(s, via="disk"))
    for i in range(T(tier, 60, 500)):
        s = tree(rng, rng.choice([1, 2, 3]))
        keys = skeys(s)
        live = live_of(s)
        ops = []
        for j in range(4):
            ops += history(rng, keys, 3, {"w": 1}, live=live, growth=.4)
            ops += [rng.choice([x("reopen"), x("fresh")])] + [get(rng.choice(keys)), tall(rand_conf(rng, keys))]
        sc = on_shape(f"retree-{i}", s, ops, rng.choice(["spread", "batch"]))
        if rng.random() < .5:
            sc["via"] = "disk"
        out.append(sc)
    for s in far_logs(rng, T(tier, 20, 150), 20, {"w": 8, "cw": 1, "get": 2}, tag="refar"):
        ops = s["clients"][0]["ops"]
        ops[len(ops) // 3:len(ops) // 3] = [rng.choice([x("reopen"), x("crash", drop=1)]), VER]
        s["via"] = rng.choice(["sim", "disk"])
        out.append(s)
    for i in range(T(tier, 60, 500)):      # killed while several clients are at work
        sc = clients_scen(rng, f"kill{i}", rng.choice([1, 2, 3]), 4, {"w": 8, "cw": 2, "hdr": .5}, randsched(rng, T(tier, 8, 30)), readers=rng.choice([0, 1, 2]))
        kill = lambda: x("crash", drop=rng.choice([0, 0, 1, 1, 2]), torn=rng.choice([0, 1, 5]))
        ops = []
        for j in range(rng.choice([1, 2, 4])):
            ops += [VER] * rng.randrange(4) + [kill()]
        sc["clients"].append({"h": "w", "ops": ops + [VER, HEIGHT, tall()]})
        if rng.random() < .5:              # or by one that works itself
            some = rng.choice(sc["clients"])["ops"]
            some.insert(rng.randrange(len(some) + 1), kill())
        if "init" not in sc and rng.random() < .4:
            sc["via"] = "disk"
        out.append(sc)
    return out


@prop("P26", models=conc_models(["MCConc_live.cfg", LEAKY], ["MCConc_livedeep.cfg"]), aspects={"append", "dbg"},
      guards={"overlapping calls": 2000, "cancel": 300, "afail": 50, "app": 3000, "ok:dbg": 500})
def p26(rng, tier, fam):
    out = []
    w = {"w": 8, "cw": 3, "get": 3, "tall": 1, "hdr": .5, "ver": .5}
    for i in range(T(tier, 40, 400)):
        out.append(clients_scen(rng, f"live{i}", 2, 2, w, explore(rng, 2, T(tier, 60, 300)), readers=rng.choice([0, 1])))
    for i in range(T(tier, 60, 400)):
        s = clients_scen(rng, f"mix{i}", rng.choice([2, 3, 5]), 5, w, randsched(rng, T(tier, 12, 40)), readers=rng.choice([0, 1, 2]))
        for c in s["clients"]:
            c["ops"] = with_faults(rng, c["ops"], .3, ["cancel", "cancel", "before", "get"])
        if i % 4 == 1:        # peers come and go meanwhile
            s["clients"].append({"h": "w", "ops": [{"n": "x_attach"}] * 3})
        if i % 3 == 0:        # with a log, and printed for debugging in between
            s["log"] = True
            s["clients"].append({"h": "w", "ops": [y for z in range(3) for y in ({"n": "dbg", "k": [], "sub": []}, VER)]})
        s["spurious"] = i % 2 == 0
        out.append(s)
    for i in range(T(tier, 60, 500)):      # everything that may be logged
        s = some_tree(rng, i, (1, 2, 2, 3))
        keys = skeys(s)
        live = live_of(s)
        ops = []
        for j in range(12):
            ops += with_faults(rng, history(rng, keys, 2, dict(w, height=.5), live=live, growth=.2), .1, ["cancel", "before", "get", "fresh"])
            ops.append({"n": "dbg", "k": [], "sub": rng.choice([[], [[[97], [0]]]])})
        out.append(on_shape(f"logged{i}", s, ops, rng.choice(["spread", "batch"]), log=True, yields=True))
    out += worn(rng, T(tier, 4, 16), 200, ["cancel", "cancel", "get", "before"], True, "worn")
    for i in range(T(tier, 10, 80)):
        s = clients_scen(rng, f"par{i}", 6, 20, w, {"kind": "stress"})
        s["yields"] = False
        if i % 2:          # peers come and go meanwhile
            s["clients"].append({"h": "w", "ops": [{"n": "x_attach", "n_times": 2000}]})
            s["clients"] += [{"h": "w", "ops": [rng.choice([get([1]), VER, tall()]) for _ in range(60)]} for _ in range(2)]
        out.append(s)
    return out


# ---------------------------------------------------------------------------- replicas

def replica_models(tier):
    return [("MCReplica", "MCReplica.cfg", ())] + ([("MCReplica", "MCReplica_deep.cfg", ())] if tier == "thorough" else [])


def live_models(tier):
    return [("MCReplica", "MCReplica.cfg", ()), ("MCReplica", "MCReplica_live.cfg", ()), WRONG("MCReplica", "MCReplica_stale.cfg")] \
        + ([("MCReplica", "MCReplica_deep.cfg", ())] if tier == "thorough" else [])


@prop("P15", models=replica_models, aspects=CORE | {"get", "trav", "height", "ver"},
      guards={"rlen": 500, "get:found": 800, "tall:nonempty": 300})
def p15(rng, tier, fam):
    """Every prefix of a log is read through a handle of its own view."""
    out = []
    for i in range(T(tier, 60, 600)):
        kind = rng.choice(KINDS)
        keys = pool(rng, kind, rng.choice([3, 8, 16, 40]))
        n = rng.choice([5, 20, 50])
        ops = history(rng, keys, n, {"w": 8, "cw": 2})
        r = []
        for j in range(n + 1):
            r += [x("rlen", len=j)] + ([x("fill", i=j - 1)] if j else []) + [VER, HEIGHT]
            r += sweep(rng.sample(keys, min(len(keys), 6)))
            if j >= 2 and rng.random() < .6:
                r.append(tall(rand_conf(rng, keys) if rng.random() < .5 else None))
        out.append(dict(id=f"prefix{i}", raw=False, clients=[{"h": "w", "ops": ops}, {"h": "r", "ops": r}]))
    return out


def sparse_reads(rng, keys, n):
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < .6:
            ops.append(get(rng.choice(keys)))
        elif r < .9:
            ops.append(tall(rand_conf(rng, keys)))
        else:
            ops.append(HEIGHT)
    return ops


@prop("P16", models=hole_models, aspects=CORE | {"get", "trav", "stream", "height", "subtrav"},
      guards={"fill": 3000, "error:get": 300, "item errors": 100, "get:found": 500, "tall:nonempty": 500})
def p16(rng, tier, fam):
    out = []
    for i in range(T(tier, 150, 1500)):
        if rng.random() < .5:
            s = tree(rng, rng.choice([1, 2, 2, 3]))
            if size(s) > 120:
                s = tree(rng, 2)
            keys, n, init = skeys(s), size(s) + 1, {"shape": [s], "style": rng.choice(["spread", "spread", "batch"])}
            wops = []
        else:
            keys = pool(rng, rng.choice(KINDS), rng.choice([8, 25, 50]))
            wops = history(rng, keys, 80, {"w": 1}, growth=.8)
            n, init = 81, {}
        r = [x("rlen", len=n)]
        order = list(range(n))
        rng.shuffle(order)
        if rng.random() < .7:      # the root first, else nothing can be answered
            order.remove(n - 1)
            order.insert(0, n - 1)
        step = rng.choice([1, 3, 10, 30])
        sid = 0
        for j in range(0, n, step):
            r += [x("fill", i=b) for b in order[j:j + step]]
            if rng.random() < .15:
                r += [topen(sid, rand_conf(rng, keys))] + [tnext(sid)] * 3
                sid += 1
            elif sid and rng.random() < .3:
                r += [tnext(sid - 1)] * 2
            r += sparse_reads(rng, keys, rng.choice([1, 2, 3]))
            if rng.random() < .1:
                r.append(x("gfault", at=rng.randrange(3)))
        r += sweep(keys) + [tall(), HEIGHT] + [tnext(z) for z in range(sid)]
        sc = dict(id=f"sparse{i}", raw=False, clients=[{"h": "w", "ops": wops}, {"h": "r", "ops": r}])
        if init:
            sc["init"] = init
        out.append(sc)
    return out


@prop("P17", models=live_models, aspects=CORE | {"link", "putres", "delres", "cas", "hdr", "get", "trav", "subtrav", "stream", "ver", "height"},
      guards={"settled": 100, "error:put": 50, "fill": 700, "rlen": 200, "get:found": 200, "overlapping calls": 400})
def p17(rng, tier, fam):
    """A replica reads while its log grows block by block behind the writer's."""
    out = []
    for i in range(T(tier, 100, 1000)):
        keys = pool(rng, rng.choice(KINDS), rng.choice([3, 10, 30]))
        n = rng.choice([10, 40])
        w = history(rng, keys, n, {"w": 9, "cw": 1}, growth=rng.choice([.5, .8]))
        feed, r, at = [], [], 0
        r1 = []
        for j in range(1, n + 2):
            feed.append(x("follow", lag=rng.choice([0, 0, 1, 3]), miss=rng.choice([0, 0, 0, 1, 2])))
            feed.append(VER)
            r1 += rng.choice([[get(rng.choice(keys))], [tall(rand_conf(rng, keys))], [VER], [HEIGHT], [get(rng.choice(keys))]])
        out.append(dict(id=f"live{i}", raw=False, yields=True, clients=[{"h": "w", "ops": w}, {"h": "r", "ops": feed}, {"h": "r", "ops": r1},
                        {"h": "r", "ops": [y for z in range(8) for y in [topen(z, rand_conf(rng, keys))] + [tnext(z)] * 3]}],
                        sched=randsched(rng, T(tier, 3, 8))))
    for i in range(T(tier, 60, 600)):      # connected by a stream, in either role
        keys = pool(rng, rng.choice(KINDS), rng.choice([3, 10, 30]))
        def some(p):
            return history(rng, keys, rng.choice([1, 5, 20]), {"w": 9, "cw": 1, "hdr": .3}) if rng.random() < p else []
        w, r = [some(.5)], []
        link = x("link", initiator=rng.random() < .5, replica_first=rng.random() < .5, peer=rng.choice(["", "w", "r"]), room=rng.choice([1, 64, 5000]))
        ops = some(.5) + [link]
        for j in range(rng.choice([1, 3, 6])):
            ops += some(.9) + [x("settle")]
        # the replica reads when the writer is done; also tries to write, which must fail and do nothing
        subs = [(), [[[97], [0]]], [[[], []]]]
        r = [VER] + sweep(rng.sample(keys, min(len(keys), 8))) + history(rng, keys, rng.choice([2, 6]), {"w": 4, "cw": 2, "hdr": 1}, subs=subs) \
            + sweep(rng.sample(keys, min(len(keys), 8))) + [tall(), tall(rand_conf(rng, keys)), HEIGHT, VER]
        out.append(dict(id=f"link{i}", raw=False, clients=[{"h": "w", "ops": ops}, {"h": "r", "ops": r}]))
    return out


@prop("P18", models=replica_models, gen={"quick": ["local1", "local2"], "thorough": ["local1", "local2", "local3"]},
      aspects=CORE | {"local", "terr", "get", "trav"},
      guards={"fill": 3000, "ok:get": 1000, "ok:tall": 500})
def p18(rng, tier, fam):
    out = []
    for w, f in fam.items():
        out += f if tier == "thorough" else rng.sample(f, min(len(f), 700))
    return out + [s for s in p16(rng, tier, fam) if "init" in s][:T(tier, 50, 500)]


@prop("P20", models=header_models, aspects=CORE | {"hdr", "ver", "enc", "struct", "get"},
      guards={"header": 200, "error:hdr": 200, "ok:hdr": 100})
def p20(rng, tier, fam):
    metas = [[]] + [[{"cf": cf, "ud": ud}] for cf in ([], [[]], [[1, 2, 3]], [[255] * 32], [[7] * 200]) for ud in ([], [[]], [[0]], [[117] * 130])]
    out = []
    for i, m in enumerate(metas):
        for via in ("sim", "ram", "disk"):
            out.append(seq(f"hdr{i}{via}", [VER, hdr(m), VER, hdr(m), hdr(), get([1]), put([1], [[2]]), hdr(m), VER, get([1]),
                                            x("reopen"), VER, hdr(m), get([1]), put([1], [[3]]), get([1]), VER], raw=True,
                           via=via if via != "ram" else "ram"))
    some = lambda: rng.choice([[], [[rng.randrange(256) for _ in range(some_length(rng, 2000))]], [[rng.randrange(256)] * rng.choice([127, 128, 16384, 20000])]])
    metas += [[{"cf": some(), "ud": some()}] for _ in range(20)]
    for i in range(T(tier, 60, 400)):
        k = pool(rng, "mixed", 5)
        ops = [hdr(rng.choice(metas))] if rng.random() < .3 else []
        for j in range(8):
            ops.append(rng.choice([hdr(rng.choice(metas)), VER, put(rng.choice(k), value(rng)), cput(rng.choice(k), value(rng), rng.random() < .5),
                                   dele(rng.choice(k)), get(rng.choice(k)), x("fresh"), cdel(rng.choice(k)), HEIGHT]))
        out.append(seq(f"hdrmix{i}", ops, raw=True))
    for i in range(T(tier, 60, 400)):
        k = pool(rng, "mixed", 5)
        out.append(dict(id=f"hdrrace{i}", raw=True, yields=True, sched=explore(rng, 2, 40), clients=[
            {"h": "w", "ops": [rng.choice([hdr(rng.choice(metas)), put(rng.choice(k), value(rng))]), VER]} for _ in range(2)]))
    return out


@prop("P21", models=store_models, aspects=CORE | {"get", "map", "wf", "struct", "enc", "trav", "putres", "delres", "cas", "height"},
      guards={"init": 150, "app": 1000, "get:found": 500, "tall:nonempty": 300, "nodes written:4*": 10})
def p21(rng, tier, fam):
    out = []
    for i in range(T(tier, 250, 2500)):
        s = tree(rng, rng.choice([1, 2, 2, 2, 3]))
        n = size(s)
        kind = rng.choice(KINDS) if n < 95 else "int"
        keys = pool(rng, kind, n + 12) if n + 12 <= 256 else [skey(j) for j in range(1, n + 1)]
        blocks = any_log(rng, s, rng.sample(keys, n))
        live = {((), tuple(b["key"])) for b in blocks[1:]}
        ops = sweep(rng.sample(keys, min(len(keys), 12))) + [tall(), tall(rand_conf(rng, keys)), HEIGHT, VER]
        for j in range(rng.choice([3, 8, 15])):
            ops += history(rng, keys, 2, {"w": 8, "cw": 1}, live=live, growth=.4)
            ops += [get(rng.choice(keys)), tall(rand_conf(rng, keys))]
        out.append(dict(id=f"any{i}", raw=True, init={"blocks": blocks, "style": "", "shape": []},
                        clients=[{"h": "w", "ops": ops}]))
    return out + giants(rng, T(tier, 1, 4), raw=True, sizes=(5000,)) + far_logs(rng, T(tier, 60, 600), 15, ALL, raw=True) + vast_logs(rng, T(tier, 36, 360), 15, ALL, raw=True) + big_batches(rng, T(tier, 1, 6), raw=True)


@prop("P24", models=store_models, aspects=CORE | {"height", "print"},
      guards={"ok:height": 1000, "ok:print": 250, "error:print": 5})
def p24(rng, tier, fam):
    out = []
    for i in range(T(tier, 80, 600)):
        kind = rng.choice(["text", "text", "int", "long", "utf8", "utf8"])
        keys = pool(rng, kind, rng.choice([1, 4, 12, 40, 100]))
        ops = [HEIGHT, PRINT]
        for j in range(6):
            ops += history(rng, keys, rng.choice([3, 10, 30]), {"w": 1}) + [HEIGHT, PRINT]
        out.append(seq(f"print{i}", ops))
    for n in T(tier, [60], [60, 128]):
        for up, down in (("asc", "desc"), ("desc", "mid"), ("mid", "out")):
            ops = []
            for k in ordered(rng, n, up, "text"):
                ops += [put(k, []), HEIGHT, PRINT]
            for k in ordered(rng, n, down, "text"):
                ops += [dele(k), HEIGHT, PRINT]
            out.append(seq(f"printall-{n}-{up}-{down}", ops))
    for i in range(T(tier, 150, 1000)):
        s = some_tree(rng, i, (1, 2, 3, 3))
        keys = skeys(s)
        live = live_of(s)
        ops = [HEIGHT]
        for j in range(10):
            ops += history(rng, keys, 1, {"w": 1}, live=live, growth=.3) + [HEIGHT]
        out.append(on_shape(f"height{i}", s, ops + ([PRINT] if size(s) < 64 else []), rng.choice(["spread", "batch"])))
    return out


UNDECODABLE = ["junk", "wiretype", "cut", "cuthead", "oddkids", "badindex"]
DAMAGE = UNDECODABLE + ["nonodes", "lastnode"]


@prop("P25", models=hole_models, aspects=CORE | {"get", "trav", "subtrav", "stream", "height", "map", "wf", "putres", "delres", "cas", "local", "terr"},
      guards={"unfill": 500, "corrupt": 200, "errorkind:DecodeError": 100, "errorkind:NoNodeAtOffsetError": 5, "item errors": 20,
              "error:put": 50, "get:found": 500})
def p25(rng, tier, fam):
    out = []
    for i in range(T(tier, 250, 2500)):        # a replica that was sent damaged blocks
        s = tree(rng, rng.choice([1, 2, 2, 3]))
        if size(s) > 120:
            s = tree(rng, 2)
        n = size(s) + 1
        keys = skeys(s)
        bad = set(rng.sample(range(n), min(n, rng.choice([1, 1, 2, 4, 10]))))
        if rng.random() < .25:
            bad.add(n - 1)
        r = [x("rlen", len=n)]
        # a block that decodes is remembered (blocks never change), one that does not is asked for again
        again = rng.random() < .3
        kinds = UNDECODABLE if again else DAMAGE + ["fewkids"]
        for b in range(n):
            r.append(x("raw", i=b, how=rng.choice(kinds)) if b in bad else x("fill", i=b))
        r += sparse_reads(rng, keys, 15) + [HEIGHT, tall()]
        r += [topen(0, rand_conf(rng, keys))] + [tnext(0)] * 8
        # the good blocks arrive after all
        if again:
            r += [x("fill", i=b) for b in bad] + sweep(rng.sample(keys, min(12, len(keys)))) + [tall()]
        out.append(on_shape(f"raw{i}", s, [], rng.choice(["spread", "batch"])))
        out[-1]["clients"].append({"h": "r", "ops": r})
    for i in range(T(tier, 150, 1500)):        # a writer whose log is damaged
        keys = pool(rng, rng.choice(KINDS), rng.choice([3, 10, 30]))
        ops = history(rng, keys, rng.choice([4, 20, 60]), {"w": 1}, growth=.75)
        for j in range(3):
            ops.append(x("corrupt", back=rng.choice([0, 0, 0, 1, 2, 5, 20]), how=rng.choice(DAMAGE + ["lost"])))
            ops += history(rng, keys, 5, {"w": 5, "cw": 1, "get": 3, "tall": 2, "height": 1})
        out.append(seq(f"corrupt{i}", ops))
    return out


# ---------------------------------------------------------------------------- other languages

@prop("P22", variant="ffi", models=store_models, aspects=CORE | {"get", "map", "wf", "putres", "delres", "ver", "trav", "open"},
      guards={"subcall:put": 300, "subcall:get": 300, "subcall:del": 50, "get:found": 500, "get:absent": 200, "del:found": 100,
              "put:replaced": 100, "call:open": 10, "error:put": 20, "ok:ver": 100})
def p22(rng, tier, fam):
    """The operations of the bindings, alone and side by side."""
    out = []
    vals = lambda: rng.choice([[], [[]], [[0]], [[rng.randrange(256) for _ in range(rng.choice([1, 5, 300]))]]])
    for i in range(T(tier, 150, 1500)):
        keys = pool(rng, rng.choice(KINDS), rng.choice([2, 6, 15, 40]))
        subs = [[], [], [[[97], [0], 1]], [[[98], [58]]], [[[], []]], [[[97, 0], [255, 255]]]]
        via = rng.choice(["udisk", "udisk", "uram"])
        ops, lost = [], 0
        for j in range(rng.choice([10, 40, 80])):
            s, k, r = rng.choice(subs), rng.choice(keys), rng.random()
            if r < .45:
                ops.append(put(k, vals(), s))
            elif r < .6:
                ops.append(dele(k, s))
            elif r < .9:
                ops.append(get(k, s))
            elif r < .95:
                ops.append(VER)
            elif r < .97 and via == "udisk":
                ops.append(x("reopen"))
            elif r < .96 and lost < 3:      # a block goes missing
                lost += 1
                ops.append(x("corrupt", back=rng.choice([0, 1, 2, 5, 10]), how=rng.choice(["lost", "lost", "lost", "junk"])))
            else:
                ops += with_faults(rng, [rng.choice([put(k, vals(), s), get(k, s), dele(k, s)])], 1, ["before", "get"])
        if via == "udisk" and rng.random() < .3:
            ops.append({"n": "open", "how": rng.choice(["file", "dir"])})
        ops += [get(k, s) for k in keys for s in subs[1:]]
        out.append(dict(id=f"uniffi{i}", raw=False, via=via, clients=[{"h": "u", "ops": ops}, {"h": "w", "ops": [tall(), get(keys[0])]}]))
    for i in range(T(tier, 40, 400)):       # several calls under way
        keys = pool(rng, rng.choice(KINDS), 5)
        cls = [{"h": "u", "ops": with_faults(rng, history(rng, keys, 4, {"w": 6, "get": 2, "ver": .5}), .15, ["cancel"])} for _ in range(3)]
        out.append(dict(id=f"uniffipar{i}", raw=False, yields=True, via="uram", clients=cls, sched=randsched(rng, T(tier, 8, 30))))
    return out


@prop("P23", variant="ffi", models=store_models, aspects=CORE | {"get", "open"},
      guards={"ok:open": 200, "error:open": 40, "get:found": 600, "get:absent": 600, "error:get": 30, "ok:getm": 30, "corrupt": 50})
def p23(rng, tier, fam):
    """The C interface: open a store and look keys up."""
    out = []
    for i in range(T(tier, 300, 2500)):
        keys = pool(rng, rng.choice(KINDS), rng.choice([2, 6, 15, 40]))
        ops, live = [], set()
        for rnd in range(rng.choice([1, 3])):
            part = []
            part += history(rng, keys, rng.choice([0, 1, 10, 40]), {"w": 1}, live=live)
            cp = [{"n": "open", "how": rng.choice(["dir", "dir", "alias"])}]
            if rng.random() < .3:
                cp.insert(0, {"n": "open", "how": rng.choice(["null", "file"])})
            if rng.random() < .3:
                cp.append({"n": "open", "how": "bytes"})
            if rng.random() < .3:
                cp.append({"n": "getm", "ks": rng.sample(keys, min(len(keys), 25))})
            for k in rng.sample(keys, min(len(keys), 25)) + [[]]:
                g = get(k)
                if not k and rng.random() < .5:
                    g["null"] = True
                if rng.random() < .15:
                    g["fault"] = rng.choice([0, 0, 1, 2, 3])
                cp.append(g)
            ops += [("w", part), ("c", cp)]
        if rng.random() < .3:      # in the end, a store that lacks blocks
            ops += [("c", [{"n": "open", "how": "dir"}] + [{"n": "x_clost", "i": rng.randrange(1000)} for _ in range(rng.choice([1, 1, 4]))]
                     + [get(k) for k in rng.sample(keys, min(len(keys), 15))])]
        # clients take turns: each part is a client of its own, run one after the other
        out.append(dict(id=f"c{i}", raw=False, via="disk", clients=[{"h": h, "ops": o} for h, o in ops]))
    for n in (65535, 65536, 70001):      # lengths of more than 16 bits
        v = [rng.randrange(256)] * n
        out.append(dict(id=f"big{n}", raw=False, via="disk", clients=[{"h": "w", "ops": [put([1], [v]), put([2], [[5]])]},
                                                                        {"h": "c", "ops": [{"n": "open", "how": "dir"}, get([1]), get([2])]}]))
    return out


@prop("P27", variant="ord", models=range_models, aspects=CORE | {"ord"}, guards={"call:lcmp": 8000})
def p27(rng, tier, fam):
    """Every limit against every key of up to two bytes out of some, long ones, and random ones."""
    ab = [0, 1, 127, 128, 255] if tier == "quick" else [0, 1, 2, 45, 48, 57, 126, 127, 128, 254, 255]
    keys = [[]] + [[a] for a in ab] + [[a, b] for a in ab for b in ab] + [[255] * 40, [0] * 40, [255] * 300]
    keys += [[rng.randrange(256) for _ in range(rng.randrange(1, 9))] for _ in range(T(tier, 60, 300))]
    keys += [[rng.randrange(256) for _ in range(some_length(rng, 300))] for _ in range(20)]
    keys += [list(str(i).encode()) for i in (0, 1, 9, 10, 11, 99, 100, 101, 12345)]
    ops = [{"n": "lcmp", "lim": l, "k": k} for l in [NEG, POS] + [fin(k) for k in keys] for k in keys]
    for k in [[rng.randrange(256) for _ in range(rng.randrange(40))] for _ in range(T(tier, 1000, 20000))] + [[b] for b in range(256)]:
        ops += [{"n": "lcmp", "lim": l, "k": k} for l in (NEG, POS)]
    for n in [0, 1, 9, 10, 42, 99, 100, 255, 256, 1000, 65535, 99999, 100000, 2147483647] + [rng.randrange(1 << 31) for _ in range(50)]:
        s = list(str(n).encode())
        ops += [{"n": "lcmp", "num": n, "k": k} for k in ([], s, s[:-1], s + [0], s + [48], s[:-1] + [s[-1] + 1], [48] + s, [n % 256], [255])]
    return [seq(f"lcmp{j}", ops[j:j + 200]) for j in range(0, len(ops), 200)]
