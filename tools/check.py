#!/usr/bin/env python3
"""check.py PID [--replay FILE]: decide one property.

1. TLC checks the specification modules the property is stated on.
2. Behaviours (generated by TLC from Gen.tla, and by gen.py) are run against the real code.
3. TLC judges the recorded behaviour against Trace.tla, with the aspects of the property.
"""
import collections, json, os, random, shutil, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hb
from hb import log, ToolError
import props


def count(traces):
    """What the traces exercised, for the vacuity guards and the evidence."""
    c = collections.Counter()
    for t in traces:
        ops = {}
        busy = 0
        for e in t["ev"]:
            k = e["e"]
            c["events"] += 1
            if k == "call":
                ops[e["c"]] = e["op"]
                c["call:" + e["op"]["n"]] += 1
                if e["op"].get("sub"):
                    c["subcall:" + e["op"]["n"]] += 1
                busy += 1
                if busy > 1:
                    c["overlapping calls"] += 1
            elif k == "ret":
                busy -= 1
                n = ops.get(e["c"], {}).get("n", "?")
                if not e.get("ok"):
                    c["error:" + n] += 1
                    c["errorkind:" + str(e.get("err"))] += 1
                else:
                    r = e.get("r")
                    c["ok:" + n] += 1
                    if n in ("get", "del", "cdel"):
                        c[n + (":found" if r else ":absent")] += 1
                    if n in ("put", "cput"):
                        c[n + (":replaced" if r["old"] else ":added")] += 1
                        if n == "cput" and not r["new"]:
                            c["cput:declined"] += 1
                    if n == "cdel" and r and not r[0][0]:
                        c["cdel:declined"] += 1
                    if n == "tall":
                        c["items"] += len(r["items"])
                        if r["items"]:
                            c["tall:nonempty"] += 1
                        c["item errors"] += sum(not i["ok"] for i in r["items"])
            elif k == "cancel":
                busy -= 1
                c["cancel"] += 1
            elif k == "app":
                c["header" if e["b"]["h"] else "app"] += 1
                if not e["b"]["h"]:
                    c["nodes written:%s" % min(len(e["b"]["idx"]), 9)] += 1
            else:
                c[k] += 1
                if k == "crash":
                    c["killed calls"] += busy
                    busy = 0
    return c


BUDGET = 760        # seconds, thorough tier
WAVE = 80000        # operations


def waves_of(rng, scen):
    """The scenarios in random order (but the long ones first), in parts that a run of TLC can hold."""
    ops = lambda s: 20 + sum(len(c["ops"]) for c in s["clients"])
    size = lambda s: ops(s) * max(1, s.get("sched", {}).get("max", 1) // 6, s.get("sched", {}).get("n", 1) // 2)
    scen = rng.sample(scen, len(scen))
    scen.sort(key=lambda s: -ops(s) if ops(s) > 400 else 0)
    out, room = [], 0
    for s in scen:
        if room <= 0:
            out.append([])
            room = WAVE
        out[-1].append(s)
        room -= size(s)
    return out


def main():
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    p = props.PROPS[pid]
    t0 = time.time()
    os.makedirs(hb.OUT, exist_ok=True)
    for f in os.listdir(hb.OUT):      # leftovers of runs that were cut short
        if f.startswith(("run_", "judge_", "gen_")):
            q = os.path.join(hb.OUT, f)
            shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
    shutil.rmtree(os.path.join(hb.OUT, "tlc"), ignore_errors=True)

    # everything that does not depend on the code runs while the code is built
    err = []

    def bg():
        try:
            hb.build(p.get("variant"))
        except Exception as e:
            err.append(e)
    th = threading.Thread(target=bg)
    th.start()
    fams = p.get("gen", {}).get(tier, p.get("gen", {}).get("quick", []))
    gens = {} if replay else {w: hb.generate(w) for w in fams}
    models = [] if replay else [hb.Tlc(m[0], m[1], workers=2, tag=m[1][:-4], timeout=700, extra=m[2], expect=(m + ("ok",))[3])
                                for m in p["models"](tier)]
    fam = {w: hb.generated(g) for w, g in gens.items()}
    for w, f in fam.items():
        if not f:
            raise ToolError(f"no behaviours generated for {w}")
    th.join()
    if err:
        raise err[0]
    rng = random.Random(f"{pid}/{seed}/{tier}")
    if replay:
        with open(replay) as f:
            scen = [json.loads(x) for x in f if x.strip()]
    else:
        scen = [s for n in range(props.ROUNDS.get(pid, 1)) for s in p["make"](rng, tier, fam)]
        for s in scen:      # subs are used again and again, and made anew now and then
            for c in s["clients"]:
                for o in c["ops"]:
                    if o.get("sub") and rng.random() < .2:
                        o["anew"] = True
    log(f"[{time.time() - t0:.1f}s] {len(scen)} scenarios")
    c, ntraces, judged, findings, hits, viol, left = collections.Counter(), 0, 0, hb.known_findings(pid), [], None, 0
    waves = [scen] if tier == "quick" or replay else waves_of(rng, scen)
    long = 0
    for n, wave in enumerate(waves):
        start = time.time()
        if n and start - t0 + 1.3 * long > BUDGET:
            left = sum(len(w) for w in waves[n:])
            log(f"[{start - t0:.1f}s] no time left for {left} of the {len(scen)} scenarios")
            break
        traces = hb.run_real(pid, wave, variant=p.get("variant"))
        log(f"[{time.time() - t0:.1f}s] {len(traces)} traces recorded")
        todo = traces = [t for t in traces if t["ev"]]
        ntraces += len(traces)
        while todo:
            tlc, v = hb.judge(pid, todo, p["aspects"])
            judged += tlc.distinct
            if v is None:
                break
            hit = [t for s, t in findings if s == v["trace"]["id"]]
            if not hit:
                viol, scen = v, wave
                break
            hits.append(hit[0])
            todo = [t for t in todo if t["id"] != v["trace"]["id"]]
        log(f"[{time.time() - t0:.1f}s] judged")
        c += count(traces)
        if viol:
            break
        long = max(long, time.time() - start)
    if not replay and not ntraces:
        raise ToolError("nothing was recorded")
    for m in models:
        m.need_ok()
        log(f"    {m.tag}: {m.distinct} distinct states, {m.generated} generated, {m.wall:.1f}s")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m.distinct for m in models),
            "transitions": sum(m.generated for m in models),
            "models": {m.tag: m.distinct for m in models},
            "traces_validated_against_impl": ntraces,
            "scenarios_left_for_lack_of_time": left,
            "trace_events_judged": judged,
            "aspects_judged": sorted(p["aspects"]),
            "exercised": {k: c[k] for k in sorted(c)},
            "generated_by_spec": {w: len(f) for w, f in fam.items()},
            "samples": [json.loads(json.dumps(x)[:2000]) if len(json.dumps(x)) < 2000 else {"id": x.get("id"), "start": json.dumps(x)[:1500]}
                        for x in (scen[:1] + scen[len(scen) // 2:len(scen) // 2 + 1] + scen[-1:])],
        },
        "assumptions": p.get("assumptions", props.ASSUME),
        "violations": 0 if viol is None else 1,
        "wall_s": round(time.time() - t0, 1),
    }
    if not replay:
        os.makedirs(os.path.join(hb.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(hb.VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for h in hits:
        print(f"KNOWN-FINDING: property={pid} {h}", flush=True)
    if viol:
        tr, at = viol["trace"], viol["at"]
        os.makedirs(os.path.join(hb.OUT, "replay"), exist_ok=True)
        path = os.path.join(hb.OUT, "replay", f"{pid}_{seed}.ndjson")
        hb.write_nd(path, [hb.replayable(scen, viol)])
        log(f"what the specification forbids: {viol['what']} in {tr['id']}, event {at}")
        for e in tr["ev"][max(0, at - 3):at + 1]:
            log("   ", json.dumps(e)[:1500])
        if "tlc" in viol:
            log(viol["tlc"])
        log(f"replay with: python3 tools/check.py {pid} --replay {path}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if not replay:
        for what, least in p.get("guards", {}).items():
            n = sum(v for k, v in c.items() if k == what or (what.endswith("*") and k.startswith(what[:-1])))
            if n < least:
                raise ToolError(f"vacuous: {what} happened {n} times, expected at least {least}")
    log(f"{pid} holds on everything explored ({ev['wall_s']}s)")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except ToolError as e:
        log("TOOL ERROR", e)
        rc = 2
    sys.exit(rc)
