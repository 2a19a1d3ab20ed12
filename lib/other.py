"""The checks that are not about single conversions: sessions (C06), the
snake_case function (C14), the command line (C22) and options given as
data (C27)."""
import copy
import itertools
import json
import os
import random
import string
import subprocess

import cases as C
import gen
import rt


def write_lines(path, lines):
    with open(path, "w") as f:
        for x in lines:
            f.write((x if isinstance(x, str) else json.dumps(x)) + "\n")


def read_lines(path):
    with open(path) as f:
        return [json.loads(x) for x in f]


def judge_shards(c, module, items, name):
    """Items in eight files, each judged by a TLC of its own -> failing [(id, fails)]."""
    from judge import judge
    files = []
    for i in range(rt.SHARDS):
        d = os.path.join(c.dir, "%s%d" % (name, i))
        os.makedirs(d, exist_ok=True)
        write_lines(os.path.join(d, "obs"), items[i::rt.SHARDS])
        if items[i::rt.SHARDS]:
            files.append(os.path.join(d, "obs"))
    return [x for f in [c.pool.submit(judge, c, p, module) for p in files] for x in f.result()]


# ------------------------------------------------------------------ C14
def all_words(alphabet, n):
    for k in range(n + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield "".join(w)


def random_words(rng, n):
    parts = ["camel", "Case", "HTTP", "XML", "a", "B", "7", "42", "_", "-", "__", ".", " ", "$", "ID", "s", "v2", "Z9z", "1A", "x", "Q", "é", "'", "/"]
    ascii_ = [chr(i) for i in range(32, 127)]
    for i in range(n):
        k = rng.random()
        if k < .4:
            yield "".join(rng.choice(parts[:-3] + parts[-2:]) for _ in range(rng.randint(1, 8)))
        elif k < .7:
            yield "".join(rng.choice(ascii_) for _ in range(rng.randint(0, 14)))
        else:
            yield "".join(rng.choice("abXYZ019_-") for _ in range(rng.randint(6, 24)))


def c14(c):
    jobs = [c.pool.submit(rt.tlc, "MCCasing", dict(ALPHA=a, LENGTH=str(n)), os.path.join(c.dir, "mc" + a.replace("_", "u")), "4g")
            for a, n in ([("aA7-", 8), ("aBc_", 8), ("aA9bB_", 6)] if c.deep else [("aA7-", 6), ("aBc_", 5)])]
    plain = c.pool.submit(rt.build)
    onig, _ = rt.build(onig=True)
    plain, _ = plain.result()
    rng = random.Random("C14/%d" % c.seed)
    words = list(all_words("aA7-", 8 if c.deep else 6)) + list(all_words("zZ_0.", 6 if c.deep else 4))
    words += list(random_words(rng, 60000 if c.deep else 6000))
    words = list(dict.fromkeys(words))
    src = os.path.join(c.dir, "words")
    write_lines(src, [json.dumps(w) for w in words])
    items = {}
    for name, exe in (("default", plain), ("oniguruma", onig)):
        out = os.path.join(c.dir, "out." + name)
        subprocess.run([exe, "words", src, out], check=True, timeout=300)
        for i, o in enumerate(read_lines(out)):
            items["%s/%d" % (name, i)] = dict(o, id="%s/%d" % (name, i))
    fails = judge_shards(c, "Words", list(items.values()), "w")
    for j in jobs:
        t = j.result()
        if not t.ok:
            raise rt.ToolError("the word splitter of the specification is wrong:\n" + t.out[-2000:])
        c.add(t)
    c.traces = len(items)
    c.samples = rng.sample(list(items.values()), 3)
    c.cover.update(words=len(words), implementations=2, exhaustive=False)
    fails.sort(key=lambda x: len(items[x[0]]["s"]))
    for i, f in fails[:3]:
        o = items[i]
        c.violation("snake_case of %r gives %r (%s)" % (o["s"], o["r"], ", ".join(x[0] for x in f)), dict(word=o["s"], got=o["r"], implementation=i.split("/")[0]))


# ------------------------------------------------------------------ C22
SCHEMAS = [{"type": "integer"}, {"type": "object", "properties": {"a-b": {"type": "integer"}}}]


def spelled(rng):
    """Arguments at random, most of them right."""
    out = []
    if rng.random() < .7:
        v = rng.choice(["avro", "bigquery", "bigquery"])
        out.append(rng.choice([["-t", v], ["-t" + v], ["-t=" + v], ["--type", v], ["--type=" + v]]))
    if rng.random() < .7:
        v = rng.choice(["cast", "drop", "panic"])
        out.append(rng.choice([["-r", v], ["-r" + v], ["-r=" + v], ["--resolve", v], ["--resolve=" + v]]))
    word = lambda: rng.choice(gen.WORDS or ["zz"])
    if rng.random() < .06:  # nothing that it knows
        out.append(rng.choice([["--" + word()], ["-" + rng.choice(string.ascii_letters + string.digits + "?")], ["--type=" + word()], ["-r", word()],
                               ["--" + word() + "=" + word()], ["--" + word(), word()], ["--typ=avro"], ["--resolve-method=drop"], ["--no-normalize-case"],
                               ["--Normalize-Case"], ["--normalize_case"], ["--type=Avro"], ["-tBQ"], ["-rDROP"], ["-r", "cast,drop"], ["--force-nullable="]]))
    for a, b in (("-c", "--normalize-case"), ("-n", "--force-nullable"), ("-w", "--allow-maps-without-value"), ("--tuple-struct",) * 2):
        if rng.random() < .4:
            out.append([rng.choice([a, b])])
    k = rng.random()
    if k < .3:
        out.append(["FILE"])
    elif k < .4:
        out.append(["-"])
    elif k < .43:
        out.append([rng.choice(["NOFILE", "DIR", "--", "-x", "--nope", "avro", "FILE.json", "./FILE", "DIR/FILE", "./-", "nofile.json", "http://localhost/FILE"])])
    rng.shuffle(out)
    flat = [x for g in out for x in g]
    if rng.random() < .2:  # two short flags in one argument
        s = [x for x in flat if x in ("-c", "-n", "-w")]
        if len(s) >= 2:
            flat = [x for x in flat if x not in s[:2]]
            flat.insert(rng.randint(0, len(flat)), "-" + s[0][1] + s[1][1])
    return flat


# what is not JSON, in ways that a lenient reader lets through
NOT_JSON = ["{'type': 'integer'}", '{"type": "integer",}', '{type: "integer"}', '{"type": "integer"} // x', '/* x */ {"type": "integer"}', "# x\n{}",
            '{"type": "integer", "minimum": 01}', '{"type": "integer", "minimum": +1}', '{"minimum": .5}', '{"minimum": 5.}', '{"minimum": 0x10}',
            '{"minimum": NaN}', '{"minimum": Infinity}', '{"minimum": 1e999}', '{"default": True}', '{"default": undefined}', '{"title": "a\nb"}',
            '{"title": "\\x41"}', '{"title": "\\ud800"}', '{"title": "\\u12"}', "type: integer", "---\ntype: integer\n", "<a/>", '{"type": "integer"}\n{"type": "string"}\n',
            '{"type": "integer"},', '[{"type": "integer"}', '{"type": "integer"}]', '{"type": "integer"}\u0000', "null null", '"x', "nul", "tru", "-", "{}{}", "[]x",
            '{"type" "integer"}', '{"type": "integer" "title": "x"}', '{"type": "integer", "title"}', '{"a": 1;}', "\u00a0{}", "\u2028{}", "\f{}", "\v{}", "{}\u00a0",
            "[" * 200 + "]" * 200, '{"a":' * 200 + "1" + "}" * 200]
NOT_TEXT = ["ff", "7b7dff", "7b227469746c65223a22ff227d", "fffe7b007d00", "7b227469746c65223a22c3227d", "efbbbf7b7d", "00", "7b007d00"]
GOOD = [('{"type": "string", "type": "integer"}', {"type": "integer"}), ('{"\\u0074ype": "int\\u0065ger"}', {"type": "integer"}),
        ('{"properties": {"a": {"type": "integer"}}, "properties": {"b": {"type": "integer"}}}', {"properties": {"b": {"type": "integer"}}}),
        ('{"title": "\\u00e9\\/\\ud83d\\ude00", "properties": {"a": {"description": "\\u00e9\\u2028\\u007f\\/"}}}',
         {"title": "\u00e9/\U0001f600", "properties": {"a": {"description": "\u00e9\u2028\x7f/"}}}),
        ('{"type":"array","items":[{"type":"integer"}],"maxItems":1e0}', {"type": "array", "items": [{"type": "integer"}], "maxItems": 1.0}),
        ('{"a":' * 100 + "1" + "}" * 100, None), ('{"oneOf":[' * 30 + '{"type":"integer"}' + "]}" * 30, None),
        ("[]", []), ("null", None), ("12", 12), ('""', ""), ("true", True), ("-0.0", -0.0), ("[{}]", [{}]),
        ('{"minimum": 123456789012345678901234567890, "type": "integer"}', {"type": "integer"})]


def cli_texts(rng):
    g = gen.Gen(rng.random(), rng.choice([C.p_general, C.p_names, C.p_tuple, C.p_map, C.p_json, C.p_camel, C.p_desc])(rng))
    k = rng.random()
    if k < .02:
        return dict(k="bad", hex=rng.choice(NOT_TEXT))
    if k < .08:
        return dict(k="bad", raw=rng.choice(NOT_JSON))
    if k < .12:
        raw, v = rng.choice(GOOD)
        return dict(k="json", raw=raw, value=json.loads(raw) if v is None else v)
    v = gen.big(g) if k < .16 else C.root_like(g)
    if C.height(v) > 25:  # what is printed is read again
        v = {"type": "integer"}
    if k < .125:  # more than a pipe holds
        v = {"type": "object", "properties": {"p%d" % i: {"type": rng.choice(["integer", "string"]), "description": "d" * 150} for i in range(rng.choice([20, 300]))},
             "description": "x" * rng.choice([10, 70000])}
    t = dict(k="json", value=v)
    k = rng.random()
    if k < .2:
        t["raw"] = json.dumps(v, indent=rng.choice([None, 1, 4, "\t"]), ensure_ascii=rng.random() < .5)
    elif k < .3:
        t["raw"] = rng.choice([" ", "\n\n", "\t\r\n"]) + json.dumps(v) + rng.choice([" ", "\n", "\r\n \n", " " * 9000])
    elif k < .42:
        raw = json.dumps(v)
        cut = rng.randint(1, max(1, len(raw) - 1))
        t = dict(k="bad", raw=rng.choice([raw[:-1], raw + "x", raw + raw, "", raw.replace(":", "=", 1) if ":" in raw else "]", "\ufeff" + raw,
                                          raw + "\n" + raw, raw[:cut] if raw[0] in "{[" else "]", raw + rng.choice([",", "}", "]", "\x00", "//", "null"])]))
    return t


def printable(v):
    """The model prints these: no control characters but the ones it knows."""
    return all(ord(x) >= 32 or x in "\t\n\r\f" for s in texts_of(v) for x in s)


def texts_of(v):
    if isinstance(v, str):
        yield v
    elif isinstance(v, dict):
        for k, x in v.items():
            yield k
            yield from texts_of(x)
    elif isinstance(v, list):
        for x in v:
            yield from texts_of(x)


def random_runs(rng, n):
    i = 0
    while i < n:
        a, b = cli_texts(rng), cli_texts(rng)
        env = rng.choice([None, None, {"RUST_LOG": "trace"}, {"RUST_LOG": "debug", "RUST_BACKTRACE": "1"}, {"RUST_LOG": "jst=warn"}, {"LANG": "C", "NO_COLOR": "1"}])
        if all(printable(t.get("value")) for t in (a, b)):
            o = dict(id="r%d" % i, args=spelled(rng), stdin=a, file=b)
            if env:
                o["env"] = env
            yield o
            i += 1


def c22(c):
    out = os.path.join(c.dir, "universe")
    fut = c.pool.submit(rt.tlc, "CliCases", dict(DEEP=str(int(c.deep)), OUT=out), os.path.join(c.dir, "u"), "6g")
    jstx, cli = rt.build()
    t = fut.result()
    if not t.ok:
        raise rt.ToolError("the runs could not be enumerated:\n" + t.out[-2000:])
    c.add(t)
    runs = read_lines(out)
    c.cover["universe_cases"] = len(runs)
    rng = random.Random("C22/%d" % c.seed)
    for r in rng.sample(runs, len(runs) // 10):
        r["env"] = {"RUST_LOG": "trace"}
    rand = list(random_runs(rng, 12000 if c.deep else 1500))
    c.cover["random_cases"] = len(rand)
    do_runs(c, runs + rand, jstx, cli)


def do_runs(c, runs, jstx, cli):
    cases, obs = os.path.join(c.dir, "runs"), os.path.join(c.dir, "obs")
    write_lines(cases, runs)
    scratch = os.path.join(c.dir, "scratch")
    os.makedirs(scratch)
    subprocess.run([jstx, "cli", cases, obs, cli, scratch, str(rt.SHARDS)], check=True, timeout=400)
    items = read_lines(obs)
    c.traces = len(items)
    n = c.cover
    for o in items:
        k = "runs_with_output" if o["code"] == 0 else "runs_that_fail"
        n[k] = n.get(k, 0) + 1
    c.samples = [dict(args=o["args"], code=o["code"], text=o["text"][:300]) for o in items[17::len(items) // 3 + 1]]
    fails = judge_shards(c, "CliJudge", items, "j")
    byid = {r["id"]: r for r in runs}
    seen = {o["id"]: o for o in items}
    fails.sort(key=lambda x: len(json.dumps(byid[x[0]])))
    kinds = set()
    for i, f in fails:
        if f[0][0] in kinds:
            continue
        kinds.add(f[0][0])
        o = seen[i]
        c.violation("arguments %s: %s (exit %d)" % (json.dumps(o["args"]), "; ".join(x[0] for x in f), o["code"]),
                    dict(run=byid[i], code=o["code"], text=o["text"][:4000]))


# ------------------------------------------------------------------ C27
OPTIONS = ["resolve_method", "normalize_case", "force_nullable", "tuple_struct", "allow_maps_without_value", "json_object_path_regex"]


def random_options(rng, n):
    words = [w for w in gen.WORDS if w not in OPTIONS] or ["zz"]
    for i in range(n):
        g = gen.Gen(rng.random(), rng.choice([C.p_general, C.p_json, C.p_tuple, C.p_map, C.p_camel])(rng))
        s = C.root_like(g)
        es = []
        for k in rng.sample(OPTIONS, rng.randint(0, 6)):
            if k == "resolve_method":
                v = rng.choice(["Cast", "Drop", "Panic", "Drop", "Panic", {"Drop": None}] + [rng.choice(words).capitalize(), rng.choice(words)] * (rng.random() < .3))
            elif k == "json_object_path_regex":
                v = rng.choice([None, g.regex(s), g.regex(s), g.regex(s)])
            else:
                v = rng.random() < .6
            es.append(dict(name=k, v=v))
        for _ in range(rng.choice([0, 0, 1, 2])):
            es.insert(rng.randint(0, len(es)), dict(name=rng.choice(words), v=rng.choice(gen.VALUES)))
        if rng.random() < .15 and es:
            rng.choice(es)["v"] = rng.choice(gen.VALUES)
        if rng.random() < .05 and es:
            es.append(dict(rng.choice(es)))
        yield dict(id="r%d" % i, form="map", es=es, schema=s, t=rng.choice(["avro", "bq"]))


def c27(c):
    out = os.path.join(c.dir, "universe")
    fut = c.pool.submit(rt.tlc, "OptCases", dict(DEEP=str(int(c.deep)), OUT=out), os.path.join(c.dir, "u"), "6g")
    jstx, _ = rt.build()
    t = fut.result()
    if not t.ok:
        raise rt.ToolError("the options could not be enumerated:\n" + t.out[-2000:])
    c.add(t)
    items = read_lines(out)
    rng = random.Random("C27/%d" % c.seed)
    c.cover["universe_cases"] = len(items)
    rand = list(random_options(rng, 40000 if c.deep else 2500))
    c.cover["random_cases"] = len(rand)
    do_options(c, items + rand, jstx)


def do_options(c, items, jstx):
    cases, obs = os.path.join(c.dir, "options"), os.path.join(c.dir, "obs")
    write_lines(cases, items)
    subprocess.run([jstx, "options", cases, obs], check=True, timeout=300, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    seen = read_lines(obs)
    c.traces = len(seen)
    c.cover["options_read"] = sum(1 for o in seen if o["text"])
    c.cover["options_refused"] = sum(1 for o in seen if not o["text"])
    c.samples = [dict(entries=[[e["name"], rt.untag(e["v"])] for e in o["es"]], read=o["text"]) for o in seen[13::len(seen) // 3 + 1]]
    fails = judge_shards(c, "OptJudge", seen, "o")
    byid = {r["id"]: r for r in items}
    fails.sort(key=lambda x: len(json.dumps(byid[x[0]])))
    kinds = set()
    for i, f in fails:
        if f[0][0] in kinds:
            continue
        kinds.add(f[0][0])
        o = [x for x in seen if x["id"] == i][0]
        c.violation("options %s: %s (read as %s)" % (json.dumps([[e["name"], rt.untag(e["v"])] for e in o["es"]])[:300], "; ".join(x[0] for x in f), json.dumps(o["text"])),
                    dict(options=byid[i], read=o["text"]))


# ------------------------------------------------------------------ C06
def reshuffled(rng, v):
    """The same JSON value, with its keys written in another order."""
    if isinstance(v, dict):
        return {k: reshuffled(rng, v[k]) for k in rng.sample(list(v), len(v))}
    return [reshuffled(rng, x) for x in v] if isinstance(v, list) else v


def c06_cases(rng, n, seed):
    out = []
    for i, p in enumerate(["C12", "C15", "C18", "C07", "C05", "C19", "C17", "C10", "C03"] * (n // 9 + 1)):
        case = next(C.cases(p, "C06/%s" % seed, i + 1, start=i))
        part = case["parts"][0]
        out.append(dict(id="s%d" % i, kind="plain", parts=[dict(schema=part["schema"], calls=part["calls"])]))
        if len(out) == n:
            return out
    return out


def c06(c):
    mc = c.pool.submit(rt.tlc, "MCSession", dict(SHARED="0"), os.path.join(c.dir, "mc"), "3g")
    jstx, cli = rt.build()
    rng = random.Random("C06/%d" % c.seed)
    n, storms = (2400, 6) if c.deep else (1300, 3)
    cases = c06_cases(rng, n, c.seed)
    session(c, cases, storms, jstx, cli, rng)
    t = mc.result()
    if not t.ok:
        raise rt.ToolError("the model of the service is wrong:\n" + t.out[-2000:])
    c.add(t)


def session(c, cases, storms, jstx, cli, rng):
    keys, outs = {}, {}

    def key(i, call):
        return keys.setdefault((i, json.dumps({k: call[k] for k in C_OPTS}, sort_keys=True)), len(keys) + 1)

    def outcome(out):
        text = json.dumps({k: out[k] for k in out if k != "m"}, sort_keys=True)
        return outs.setdefault(text, len(outs) + 1)
    events = []

    def took(w, i, call, out):
        k = key(i, call)
        events.append(dict(w=w, a="begin", k=k, r=0, id="s%d" % i))
        events.append(dict(w=w, a="end", k=k, r=outcome(out), id="s%d" % i))

    src = os.path.join(c.dir, "cases")
    write_lines(src, cases)

    # one process after another: in order, backwards with the keys of every object shuffled,
    # each case twice in a row, and each case after one that is refused
    poison = dict(id="p", kind="plain", parts=[dict(schema={"type": "object", "properties": {"a": {"type": "array"}}},
                                                    calls=[dict(cases[0]["parts"][0]["calls"][0], r="panic")])])
    lots = [[(i, x) for i, x in enumerate(cases)]]
    back = [(i, json.loads(json.dumps(x))) for i, x in reversed(list(enumerate(cases)))]
    for _, x in back:
        x["parts"][0]["schema"] = reshuffled(rng, x["parts"][0]["schema"])
        rng.shuffle(x["parts"][0]["calls"])
    lots.append(back)
    lots.append([y for i, x in enumerate(cases) for y in ((i, x), (None, poison), (i, x))])

    def sequential(n, lot):
        a, b = os.path.join(c.dir, "seq%d.in" % n), os.path.join(c.dir, "seq%d.out" % n)
        write_lines(a, [x for _, x in lot])
        for i in rt.run_real(jstx, a, b, whole=True):
            dead.add(lot[i][0])
        return read_lines(b)

    def storm(n):
        out = os.path.join(c.dir, "storm%d.out" % n)
        try:
            subprocess.run([jstx, "storm", src, out, str(rt.SHARDS)], preexec_fn=rt.limits, timeout=200,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return None
        return read_lines(out) if os.path.exists(out) else None
    dead = set()
    seqs = [c.pool.submit(sequential, n, lot) for n, lot in enumerate(lots)]
    for n, (f, lot) in enumerate(zip(seqs, lots)):
        for o, (i, _) in zip(f.result(), lot):
            if i is not None:
                for call in o["parts"][0]["calls"]:
                    took("seq%d" % n, i, call, call["out"])
    c.cover["sequential_processes"] = len(lots)

    # many threads at once, unless single calls kill or hang the process already
    for n in range(0 if dead else storms):
        log = storm(n)
        if log is None:
            c.violation("the process with %d threads did not survive the calls that it survives one by one" % rt.SHARDS,
                        dict(cases=cases))
            break
        marks = []
        for e in log:
            i = e["case"] - 1
            call = cases[i]["parts"][0]["calls"][e["call"] - 1]
            w = "storm%d.%d" % (n, e["th"])
            k = key(i, call)
            marks.append((e["b"], dict(w=w, a="begin", k=k, r=0, id="s%d" % i)))
            marks.append((e["e"], dict(w=w, a="end", k=k, r=outcome(e["out"]), id="s%d" % i)))
        marks.sort(key=lambda x: x[0])
        events += [x for _, x in marks]
    c.cover["threads"] = storms * rt.SHARDS

    # the command, with and without logging
    runs, meta = [], []
    for i, x in rng.sample(list(enumerate(cases)), min(len(cases), 1200 if c.deep else 200)):
        calls = [k for k in x["parts"][0]["calls"] if k["x"] == []]
        if calls:
            k = rng.choice(calls)
            args = ["--type", {"avro": "avro", "bq": "bigquery"}[k["t"]], "--resolve", k["r"]] + [
                a for o, a in (("c", "-c"), ("n", "-n"), ("u", "--tuple-struct"), ("w", "-w")) if k[o]]
            for env in ({}, {"RUST_LOG": "trace"}):
                runs.append(dict(id="s%d" % i, args=args, env=env, file=dict(k="bad", raw=""),
                                 stdin=dict(k="json", value=reshuffled(rng, x["parts"][0]["schema"]))))
                meta.append((i, k))
    a, b = os.path.join(c.dir, "runs"), os.path.join(c.dir, "runs.out")
    write_lines(a, runs)
    scratch = os.path.join(c.dir, "scratch")
    os.makedirs(scratch)
    subprocess.run([jstx, "cli", a, b, cli, scratch, str(rt.SHARDS)], check=True, timeout=300)
    for n, (o, (i, k)) in enumerate(zip(read_lines(b), meta)):
        out = dict(r="ok", v=o["value"][0]) if o["code"] == 0 and o["value"] else dict(r="fail")
        took("cmd%d" % (n % 7), i, k, out)
    c.cover["command_runs"] = len(runs)

    # judge: the keys in eight groups, each with its part of the history
    c.cover.update(keys=len(keys), events=len(events), distinct_outcomes=len(outs))
    texts = {v: k for k, v in outs.items()}
    files = []
    for g in range(rt.SHARDS):
        mine = [k for k in keys.values() if k % rt.SHARDS == g]
        small = {k: j + 1 for j, k in enumerate(mine)}
        part = [dict(e, k=small[e["k"]], nkeys=max(1, len(mine))) for e in events if e["k"] in small]
        if part:
            d = os.path.join(c.dir, "t%d" % g)
            os.makedirs(d)
            write_lines(os.path.join(d, "obs"), part)
            files.append(os.path.join(d, "obs"))

    def follow(path):
        t = rt.tlc("SessionTrace", dict(OBS=path), os.path.dirname(path))
        if not t.ok:
            raise rt.ToolError("the session could not be followed:\n" + t.out[-2000:])
        return t
    bad = []
    for f in [c.pool.submit(follow, p) for p in files]:
        t = f.result()
        c.add(t)
        bad += [x["id"] for x in t.tagged("FAIL")]
    c.traces = len(events) // 2
    c.samples = [dict(e, outcome=texts.get(e["r"], "")[:300]) for e in events[1::len(events) // 3 + 1]]
    bad = sorted(set(bad), key=lambda i: len(json.dumps(cases[int(i[1:])])))
    for i in bad[:2]:
        case = cases[int(i[1:])]
        mine = {}
        for e in events:
            if e["id"] == i and e["a"] == "end":
                mine.setdefault(e["k"], set()).add(texts[e["r"]][:1000])
        c.violation("the same input gave different outcomes: schema %s" % json.dumps(case["parts"][0]["schema"])[:400],
                    dict(cases=[case], outcomes=[sorted(v) for v in mine.values() if len(v) > 1]))


C_OPTS = ("t", "r", "c", "n", "u", "w", "x")
CHECKS = {"C06": c06, "C14": c14, "C22": c22, "C27": c27}


def replay(c, rep):
    if c.prop == "C06":
        jstx, cli = rt.build()
        session(c, rep["cases"], 40, jstx, cli, random.Random(1))
    elif c.prop == "C27":
        jstx, _ = rt.build()
        do_options(c, [dict(rep["options"], id="r0")], jstx)
    elif c.prop == "C22":
        jstx, cli = rt.build()
        do_runs(c, [dict(rep["run"], id="r0")], jstx, cli)
    else:
        exe, _ = rt.build(onig=rep["implementation"] == "oniguruma")
        src, out = os.path.join(c.dir, "words"), os.path.join(c.dir, "out")
        write_lines(src, [json.dumps(rep["word"])])
        subprocess.run([exe, "words", src, out], check=True, timeout=60)
        items = [dict(o, id="x") for o in read_lines(out)]
        c.traces = 1
        for _, f in judge_shards(c, "Words", items, "w"):
            c.violation("snake_case of %r gives %r (%s)" % (items[0]["s"], items[0]["r"], ", ".join(x[0] for x in f)),
                        dict(rep, got=items[0]["r"]))
