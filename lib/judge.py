"""The check of a property that is judged on conversions (spec/Props.tla)."""
import copy
import json
import os
import random
import re
import time

import cases as C
import rt

# (universe cases at most, random cases) per run and shard-round
QUICK = dict(universe=2400, random=4800, machine=56)
DEEP = dict(universe=40000, random=12000, machine=600)
CALLS = ("t", "r", "c", "n", "u", "w", "x")


def dump(c, deep):
    out = os.path.join(c.dir, "universe%d.ndjson" % deep)
    t = rt.tlc("Dump", dict(PROP=c.prop, DEEP=str(int(deep)), OUT=out), c.dir, heap="6g")
    if not t.ok:
        raise rt.ToolError("the universe could not be enumerated:\n" + t.out[-2000:])
    with open(out) as f:
        return f.read().splitlines()


def judge(c, obs, module="Judge", prop=None):
    """-> [(id, fails)]. TLC stumbling over an observation that the program
    made is a failure of that observation."""
    fails, skip = [], 0
    while True:
        t = rt.tlc(module, dict(PROP=prop or c.prop, OBS=obs), os.path.dirname(obs))
        c.add(t)
        fails += [(f["id"], f["fails"]) for f in t.tagged("FAIL")]
        if t.ok:
            return fails
        m = re.findall(r"^/?\\? ?j?Idx = (\d+)|jIdx = (\d+)|lIdx = (\d+)|qIdx = (\d+)|oIdx = (\d+)", t.out, re.M)
        bad = re.search(r"OutOfMemory|StackOverflow|Parsing or semantic|Could not|Exception in thread", t.out)
        if bad or not m or skip >= 3:
            raise rt.ToolError("TLC failed on %s:\n%s" % (module, t.out[-3000:]))
        skip += 1
        idx = int([x for x in m[-1] if x][0])
        with open(obs) as f:
            lines = f.readlines()
        o = json.loads(lines[idx - 1])
        fails = [x for x in fails if x[0] != o["id"]]
        fails.append((o["id"], [["the specification cannot account for the output", [1, 1], ""]]))
        keep = obs + ".rest"
        with open(keep, "w") as f:
            f.writelines(lines[:idx - 1] + lines[idx:])
        # what was judged already is judged again, and reported once
        done = set()
        again = judge(c, keep, module, prop)
        out = []
        for x in fails + again:
            if x[0] not in done:
                done.add(x[0])
                out.append(x)
        return out


def unlisted(c, fails):
    out = []
    for f in fails:
        what = f[2][0] if isinstance(f[2], list) and f[2] else ""
        hit = [k for k in c.known if k["tag"] == what]
        for k in hit:
            k["seen"] = True
        if not hit:
            out.append(f)
    return out


def shard(c, name, lines, jstx, machine=0, rng=None):
    """Cases -> (observations file, failures that are not known)."""
    d = os.path.join(c.dir, name)
    os.makedirs(d, exist_ok=True)
    cases, obs = os.path.join(d, "cases"), os.path.join(d, "obs")
    with open(cases, "w") as f:
        for x in lines:
            f.write(x + "\n")
    deaths = rt.run_real(jstx, cases, obs)
    fails = judge(c, obs)
    left = [(i, u) for i, u in ((i, unlisted(c, f)) for i, f in fails) if u]
    if machine:
        with open(obs) as f:
            seen = f.readlines()
        pick = rng.sample(seen, min(machine, len(seen)))
        some = os.path.join(d, "machine")
        with open(some, "w") as f:
            f.writelines(pick)
        t = rt.tlc("Machine", dict(PROP=c.prop, OBS=some), d)
        if not t.ok:
            raise rt.ToolError("the state machine violates its invariants:\n" + "\n".join(x[:2000] for x in t.out.splitlines() if "FAIL" in x or "nvariant" in x or "Error" in x)[:3000] + t.out[-1500:])
        c.add(t)
        c.cover["machine_cases"] = c.cover.get("machine_cases", 0) + len(pick)
    return obs, left, deaths


def probes(c):
    """The inputs of the known findings, always included."""
    out = []
    for i, k in enumerate(c.known):
        t = "bq" if c.prop == "C02" else None
        calls = [dict(t=x, r="cast", c=False, n=False, u=False, w=False, x=[]) for x in ("avro", "bq") if t in (None, x)]
        out.append(json.dumps(dict(id="k%d" % i, kind="plain", parts=[dict(schema=k["probe"], calls=calls)])))
    return out


def corpus(c):
    """Real schemas and earlier finds, under options drawn at random."""
    out = []
    path = os.path.join(rt.VERIF, "corpus", "schemas.ndjson")
    if not os.path.exists(path) or c.prop in ("C15", "C20", "C21", "C23", "C25", "C28", "C29", "C30", "C32"):
        return out
    rng = random.Random("corpus/%s/%d" % (c.prop, c.seed))
    with open(path) as f:
        for i, line in enumerate(f):
            s = json.loads(line)
            calls = C.calls_for(c.prop, rng, None)
            out.append(json.dumps(dict(id="c%d" % i, kind="plain", parts=[dict(schema=s, calls=calls)])))
    return out


def tally(c, obs):
    """What the calls were like, from the recorded outcomes."""
    n = c.cover
    with open(obs) as f:
        for line in f:
            o = json.loads(line)
            c.traces += 1
            for p in o["parts"]:
                for k in p["calls"]:
                    n["calls"] = n.get("calls", 0) + 1
                    key = "%s_%s" % (k["t"], "converted" if k["out"]["r"] == "ok" else "refused")
                    n[key] = n.get(key, 0) + 1
            if len(c.samples) < 3 and (c.traces % 577 == 1):
                c.samples.append(dict(id=o["id"], kind=o["kind"], parts=[
                    dict(schema=rt.untag(p["schema"], o.get("more", ())), calls=[
                        dict({x: k[x] for x in CALLS}, out=rt.untag(k["out"]["v"], o.get("more", ())) if k["out"]["r"] == "ok" else "refused")
                        for k in p["calls"][:2]]) for p in o["parts"]]))


def check_judged(c):
    size = DEEP if c.deep else QUICK
    rng = random.Random("%s/%d" % (c.prop, c.seed))
    fut = c.pool.submit(dump, c, c.deep)
    jstx, _ = rt.build()
    uni = fut.result()
    c.cover["universe_cases"] = len(uni)
    c.cover["exhaustive"] = len(uni) <= size["universe"]
    if len(uni) > size["universe"]:
        uni = rng.sample(uni, size["universe"])
    c.cover["universe_cases_replayed"] = len(uni)
    fixed = probes(c) + corpus(c)
    rounds, base = 0, 0
    while True:
        rand = [json.dumps(x) for x in C.cases(c.prop, c.seed, base + size["random"], start=base)]
        base += size["random"]
        lots = [uni[i::rt.SHARDS] + fixed[i::rt.SHARDS] + rand[i::rt.SHARDS] for i in range(rt.SHARDS)]
        rngs = [random.Random("%s/%d/%d" % (c.prop, c.seed, i + 100 * rounds)) for i in range(rt.SHARDS)]
        for r, lot in zip(rngs, lots):
            r.shuffle(lot)
        fs = [c.pool.submit(shard, c, "s%d" % i, lot, jstx, size["machine"], rngs[i]) for i, lot in enumerate(lots)]
        done = [f.result() for f in fs]
        fails = []
        for (obs, left, deaths), lot in zip(done, lots):
            tally(c, obs)
            c.cover["calls_that_killed_the_process"] = c.cover.get("calls_that_killed_the_process", 0) + len(deaths)
            if left:
                byid = {json.loads(x)["id"]: x for x in lot}
                fails += [(json.loads(byid[i]), f) for i, f in left]
        rounds += 1
        c.cover["random_cases"] = base
        if fails:
            report(c, fails, jstx)
            return
        uni, fixed = [], []
        # a quick run goes on for a second round where the first was fast
        if c.left() < 90 if c.deep else rounds == 2 or time.time() - c.t0 > 60:
            return


def report(c, fails, jstx):
    fails.sort(key=lambda x: len(json.dumps(x[0])))
    c.cover["failing_cases"] = len(fails)
    seen = set()
    for case, f in fails:
        kind = f[0][0] + "/" + (str(f[0][2][0]) if isinstance(f[0][2], list) and f[0][2] else "")
        if kind in seen:
            continue
        seen.add(kind)
        case = plainly(case)
        if not seen - {kind}:
            case, f = shrink(c, case, f, jstx)
        d = os.path.join(c.dir, "final%d" % len(seen))
        os.makedirs(d, exist_ok=True)
        a, b = os.path.join(d, "cases"), os.path.join(d, "obs")
        with open(a, "w") as fh:
            fh.write(json.dumps(case) + "\n")
        rt.run_real(jstx, a, b)
        with open(b) as fh:
            o = json.loads(fh.readline())
        outs = [[rt.untag(k["out"]["v"], o.get("more", ())) if k["out"]["r"] == "ok" else k["out"] for k in p["calls"]] for p in o["parts"]]
        c.violation("; ".join(sorted({words(x) for x in f}))[:600], dict(case=case, fails=f, outputs=outs))
        if len(seen) >= 3:
            break


def words(f):
    w = f[2]
    if isinstance(w, list):
        w = " ".join(str(x) for x in w if not isinstance(x, list))
    return (f[0] + (" (" + str(w) + ")" if w else ""))


def plainly(case):
    case = copy.deepcopy(case)
    for p in case["parts"]:
        if "tagged" in p:
            p["schema"] = rt.untag(p.pop("tagged"))
        for k in p["calls"]:
            k.pop("out", None)
            if isinstance(k["x"], dict):
                k["x"] = []
    return case


def smaller(v):
    """Every value that is v with one thing taken away."""
    if isinstance(v, dict):
        for k in v:
            yield {a: b for a, b in v.items() if a != k}
        for k in v:
            if isinstance(v[k], (dict, list)):
                for x in smaller(v[k]):
                    yield dict(v, **{k: x})
            elif isinstance(v[k], str) and len(v[k]) > 1 and k in ("description", "title"):
                yield dict(v, **{k: v[k][:len(v[k]) // 2]})
    elif isinstance(v, list):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
        for i in range(len(v)):
            if isinstance(v[i], (dict, list)):
                for x in smaller(v[i]):
                    yield v[:i] + [x] + v[i + 1:]


def shrink(c, case, f, jstx):
    """A smaller case that fails in the same way, for cases of one schema."""
    if case["kind"] != "plain":
        return case, f
    what = f[0][0]
    end = time.time() + (60 if c.deep else 25)
    for _ in range(12):
        if time.time() > end:
            break
        p = case["parts"][0]
        cand = [dict(p, schema=x) for x in smaller(p["schema"])][:400]
        if len(p["calls"]) > 1:
            cand += [dict(p, calls=p["calls"][:i] + p["calls"][i + 1:]) for i in range(len(p["calls"]))]
        if not cand:
            break
        d = os.path.join(c.dir, "shrink")
        os.makedirs(d, exist_ok=True)
        a, b = os.path.join(d, "cases"), os.path.join(d, "obs")
        todo = [dict(id="z%d" % i, kind="plain", parts=[x]) for i, x in enumerate(cand)]
        with open(a, "w") as fh:
            for x in todo:
                fh.write(json.dumps(x) + "\n")
        try:
            rt.run_real(jstx, a, b, stall=5)
            got = [(i, unlisted(c, y)) for i, y in judge(c, b)]
        except rt.ToolError:
            break
        same = [(i, y) for i, y in got if y and any(t[0] == what for t in y)]
        if not same:
            break
        best = min(same, key=lambda x: len(json.dumps(todo[int(x[0][1:])])))
        case, f = dict(todo[int(best[0][1:])], id=case["id"]), best[1]
    return case, f


def replay_judged(c, rep):
    jstx, _ = rt.build()
    _, left, _ = shard(c, "replay", [json.dumps(rep["case"])], jstx)
    c.traces = 1
    if left:
        report(c, [(rep["case"], left[0][1])], jstx)
