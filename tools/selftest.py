#!/usr/bin/env python3
"""selftest.py PID [N]: does the specification notice a falsified recording?

Records N scenarios of the check's, falsifies one value in each trace (an answer, an appended block, a
question asked of a compare-and-swap), and lets TLC judge all of them with the aspects of the property.
Prints, by place of the falsification, how many were noticed.  What is never noticed is either no
concern of the property, or something it is blind to; read the list.
"""
import collections, copy, json, os, random, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hb, props


def leaves(x, path=()):
    """Places in a JSON value that can be falsified."""
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        yield path
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    elif isinstance(x, (bool, int)):
        yield path


def falsify(rng, root, path):
    """Change the value at the path; None if it cannot be changed, else a word for what was done."""
    at = root
    for p in path[:-1]:
        at = at[p]
    v = at[path[-1]]
    if isinstance(v, bool):
        at[path[-1]] = not v
        return "flip"
    if isinstance(v, int):
        at[path[-1]] = v + 1 if v < 255 and (v == 0 or rng.random() < .5) else v - 1
        return "change"
    if isinstance(v, list) and v:
        i = rng.randrange(len(v))
        w = rng.choice(["drop", "double", "swap"])
        if w == "drop":
            del v[i]
        elif w == "double":
            v.insert(i, copy.deepcopy(v[i]))
        else:
            j = rng.randrange(len(v))
            if v[i] == v[j]:
                return None
            v[i], v[j] = v[j], v[i]
        return w
    return None


FIELDS = {"ret": ["r"], "app": ["b", "raw"], "cas": ["old", "new", "ans"], "settled": ["len", "have"], "linked": ["ok"]}


def one(rng, t):
    t = copy.deepcopy(t)
    ops, places = {}, []
    for n, e in enumerate(t["ev"]):
        if e["e"] == "call":
            ops[e["c"]] = e["op"]["n"]
        op = ops.get(e.get("c"), "")
        if e["e"] in FIELDS:
            by = collections.defaultdict(list)
            for f in FIELDS[e["e"]]:
                if f in e:
                    for p in leaves({f: e[f]}):
                        if len(p) == 1 and not isinstance(e[f], list):
                            by[(f,)].append(p)
                        else:
                            by[tuple(y for y in p if not isinstance(y, int))].append(p)
            if e["e"] == "ret" and e.get("ok"):
                by[("fails",)] = [("fails",)]
            for k, ps in by.items():
                places.append((n, e["e"], op, k, rng.choice(ps)))
        if e["e"] == "app" and n + 1 < len(t["ev"]):
            places.append((n, "app", op, ("lost",), ("lost",)))
    if not places:
        return None
    kinds = sorted({x[1:4] for x in places})
    k = rng.choice(kinds)
    n, ek, op, pk, path = rng.choice([x for x in places if x[1:4] == k])
    e = t["ev"][n]
    if path == ("fails",):
        t["ev"][n] = {"e": "ret", "c": e["c"], "ok": False, "err": "SelfTest"}
        what = ""
    elif path == ("lost",):
        del t["ev"][n]
        what = ""
    else:
        what = falsify(rng, e, path)
        if what is None:
            return None
    return t, f"{ek} {op} {'.'.join(pk)} {what}", n


def main():
    pid = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 400
    p = props.PROPS[pid]
    rng = random.Random(f"self/{pid}")
    hb.build(p.get("variant"))
    fam = {w: hb.generated(hb.generate(w)) for w in p.get("gen", {}).get("quick", [])}
    scen = p["make"](rng, "quick", fam)
    scen = [s for s in scen if sum(len(c["ops"]) for c in s["clients"]) < 120]
    scen = rng.sample(scen, min(n, len(scen)))
    traces = [t for t in hb.run_real("self" + pid, scen, variant=p.get("variant")) if t["ev"]]
    out = []
    for i in range(n):
        x = one(rng, traces[i % len(traces)])
        if x:
            out.append(x)
    seen, todo = set(), list(range(len(out)))
    while todo:      # TLC ends at a trace it cannot evaluate: that is noticed, too
        d = os.path.join(hb.OUT, f"self_{os.getpid()}")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "t.ndjson")
        hb.write_nd(path, [out[i][0] for i in todo])
        cfg = (hb.TRACE_CFG % ", ".join(f'"{a}"' for a in sorted(p["aspects"]))).replace("POSTCONDITION AllConsumed\n", "")
        t = hb.Tlc("Trace", cfg, env={"TRACES": path}, tag="self_" + pid, extra=("-continue",), timeout=800)
        t.wait()
        shutil.rmtree(d, ignore_errors=True)
        parts = t.text.split("Invariant Conforms is violated")
        for m in parts[1:]:
            trs = re.findall(r"/\\ tr = (\d+)", m.split("The behavior up to this point is")[1].split("Error:")[0])
            seen.add(todo[int(trs[-1]) - 1])
        if "Model checking completed" in t.text:
            break
        trs = re.findall(r"/\\ tr = (\d+)", t.text)
        if not trs:
            raise hb.ToolError(t.text[-2000:])
        seen.add(todo[int(trs[-1]) - 1])
        todo = [i for i in todo if i not in seen]
    total, hit, miss = collections.Counter(), collections.Counter(), {}
    for i, (_, w, at) in enumerate(out):
        total[w] += 1
        if i in seen:
            hit[w] += 1
        else:
            miss.setdefault(w, (out[i][0]["id"], at))
    print(f"{pid}: {sum(hit.values())} of {sum(total.values())} falsified recordings are noticed")
    for w in sorted(total):
        if hit[w] < total[w]:
            print(f"  {hit[w]:4}/{total[w]:<4} {w}   unnoticed e.g. {miss[w]}")
    if len(sys.argv) > 3:
        for i, (tr, w, at) in enumerate(out):
            if i not in seen and w.startswith(sys.argv[3]):
                print(json.dumps(tr["ev"][max(0, at - 3):at + 2])[:1500])


main()
