"""Random cases for each property: which schemas, in which variants, under which options.

cases(prop, seed, n) yields n cases in the format that the harness takes.
"""
import copy
import json
import os
import random

import gen

T = ("avro", "bq")
R = ("cast", "drop", "panic")


def opts(rng, regex=None, **kw):
    o = dict(t=rng.choice(T), r=rng.choice(R), c=rng.random() < .3, n=rng.random() < .25, u=rng.random() < .6,
             w=rng.random() < .3, x=[regex] if regex and rng.random() < .6 else [])
    o.update(kw)
    return o


def toggles(rng, k, key, values, regex=None, **kw):
    """k groups of calls; the calls of a group differ in one option only."""
    out = []
    for _ in range(k):
        o = opts(rng, regex, **kw)
        for v in values:
            c = dict(o)
            c[key] = v
            if c not in out:
                out.append(c)
    return out


# ------------------------------------------------------------------ profiles
LARGE = False  # whether the case under construction is a large one


def prof(rng, **kw):
    kw["big"] = LARGE
    kw.setdefault("odd", rng.choice([0, .1, .4]))
    kw.setdefault("depth", rng.choice([1, 2, 2, 3, 3, 4]))
    return gen.profile(**kw)


def p_general(rng):
    return prof(rng)


def p_names(rng):
    pool = rng.choice([gen.DIRTY, gen.ILLEGAL, gen.CAMEL, gen.RESERVED, gen.ODD, gen.CAMEL + gen.DIRTY, gen.TWINS, gen.WORDS or gen.ODD])
    return prof(rng, names=pool, odd=.2, maxprops=rng.choice([2, 4, 6]), depth=rng.choice([1, 2, 3]),
                w=dict(object=14, oneof=3, map=2, array=2))


def p_camel(rng):
    return prof(rng, names=rng.choice([gen.CAMEL, gen.CAMEL, gen.CAMEL, gen.ODD, gen.TWINS]), odd=.1, maxprops=4, depth=rng.choice([1, 2, 3]),
                w=dict(object=12))


def p_union(rng):
    return prof(rng, odd=.05, w=dict(oneof=14, types=6, object=7, map=4, array=4), names=["a", "b", "c"])


def p_leaf(rng):
    return prof(rng, odd=.05, w=dict(atom=20, types=6, oneof=4))


def p_tuple(rng):
    return prof(rng, odd=.05, w=dict(tuple=14, object=4, oneof=3, array=3), badtuple=.15, depth=rng.choice([2, 3, 4]))


def p_map(rng):
    return prof(rng, odd=.05, w=dict(map=16, empty=3), depth=rng.choice([2, 3, 4]))


def p_lists(rng):
    return prof(rng, odd=.05, w=dict(array=16, atom=6), depth=rng.choice([3, 4, 5]))


def p_json(rng):
    return prof(rng, odd=.15, w=dict(empty=6, oneof=5, array=5, map=4, object=8), names=["a", "b", "c", "foo", "bar"],
                depth=rng.choice([2, 3, 4]), meta=.35)


def p_ambig(rng):
    return prof(rng, w=dict(empty=6, null=3, oneof=6, object=8), bad=rng.choice([0, 0, .02, .05]),
                depth=rng.choice([1, 2, 3, 4]))


def p_desc(rng):
    return prof(rng, odd=.1, desc=.7)


def p_plainobj(rng):
    return prof(rng, odd=.1, w=dict(object=10))


# ------------------------------------------------------------------ schemas
def root_like(g):
    """All sorts of roots, not only objects."""
    g.last = a_root(g)
    return g.last


def a_root(g):
    if g.p.get("big"):
        return gen.big(g)
    if g.chance(.06):
        return real(g)
    s = g.schema()
    if g.chance(.25):
        s = g.object(g.p["depth"])
    if g.p["meta"] and g.chance(g.p["meta"]):
        s["mozPipelineMetadata"] = {"json_object_path_regex": g.regex(s)}
    return s


def real_schemas():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus", "schemas.ndjson")
    with open(path) as f:
        return [json.loads(line) for line in f]


REAL = real_schemas()


def real(g):
    """A real schema, or a part of one, with a few changes."""
    def some():
        v = copy.deepcopy(g.r.choice(REAL))
        return v if g.chance(.5) else g.r.choice(list(subschemas(v)))
    v = some()
    for _ in range(g.r.choice([0, 1, 1, 2, 3, 5])):
        s = g.r.choice(list(subschemas(v)))
        old = copy.deepcopy(s)
        k = g.r.randrange(8)
        if k == 0:
            new = g.schema(1)
        elif k == 1:
            new = some()
        elif k == 2:
            new = {"oneOf": g.r.choice([[old, g.perturb(old)], [g.perturb(old), old, {"type": "null"}], [{"type": "null"}, old], [old]])}
        elif k == 3:
            new = {"type": "array", "items": old}
        elif k == 4:
            new = {"type": "object", "additionalProperties": old}
        elif k == 5 and isinstance(old.get("properties"), dict):
            new = dict(old, properties=dict(old["properties"], **{g.name(): g.schema(1)}))
            g.requireds(new)
        elif k == 6 and len(old) > 1:
            new = {x: old[x] for x in g.r.sample(sorted(old), len(old) - 1)}
        else:
            new = g.perturb(old)
        s.clear()
        s.update(copy.deepcopy(new))
    return v


def shuffled(rng, v):
    """The same schema with every set of alternatives in another order."""
    if isinstance(v, dict):
        out = {k: shuffled(rng, x) if k not in ("default", "examples", "enum", "const", "required") else x
               for k, x in v.items()}
        if isinstance(out.get("oneOf"), list):
            rng.shuffle(out["oneOf"])
        if isinstance(out.get("type"), list):
            rng.shuffle(out["type"])
        if isinstance(out.get("required"), list):
            out["required"] = rng.sample(out["required"], len(out["required"]))
        return out
    if isinstance(v, list):
        return [shuffled(rng, x) for x in v]
    return v


def duplicated(rng, v):
    if isinstance(v, dict):
        out = {k: duplicated(rng, x) if k not in ("default", "examples", "enum", "const", "required") else x
               for k, x in v.items()}
        for k in ("oneOf", "type"):
            if isinstance(out.get(k), list) and out[k]:
                out[k] = out[k] + [copy.deepcopy(rng.choice(out[k]))]
        return out
    if isinstance(v, list):
        return [duplicated(rng, x) for x in v]
    return v


def strip(v, keys):
    if isinstance(v, dict):
        return {k: strip(x, keys) if k != "properties" else
                ({p: strip(q, keys) for p, q in x.items()} if isinstance(x, dict) else x)
                for k, x in v.items() if k not in keys}
    if isinstance(v, list):
        return [strip(x, keys) for x in v]
    return v


INERT = [(k, v) for k, v in gen.JUNK if k not in ("mozPipelineMetadata", "const")] + [
    ("mozPipelineMetadata", {"json_object_path_regex": 7}), ("mozPipelineMetadata", {}), ("const", None),
    ("$defs", {"a": 7}), ("writeOnly", 1), ("deprecated", []), ("contentEncoding", "base64"), ("unevaluatedProperties", {"type": "q"})]


# words of the source that are no keywords of the dialect
FOREIGN = [w for w in gen.WORDS if w not in gen.MEANT]


def subschemas(v):
    """Every position of v that holds a schema."""
    if not isinstance(v, dict):
        return
    yield v
    for k in ("properties", "patternProperties"):
        if isinstance(v.get(k), dict):
            for x in v[k].values():
                yield from subschemas(x)
    for k in ("additionalProperties", "items", "additionalItems"):
        yield from subschemas(v.get(k))
    for k in ("oneOf", "items"):
        if isinstance(v.get(k), list):
            for x in v[k]:
                yield from subschemas(x)


def littered(rng, v):
    v = copy.deepcopy(v)
    for s in list(subschemas(v)):
        for _ in range(rng.choice([0, 1, 2])):
            k, x = rng.choice(INERT)
            if FOREIGN and rng.random() < .35:
                k, x = rng.choice(FOREIGN), rng.choice(gen.VALUES)
            if k not in s:
                s[k] = copy.deepcopy(x)
        # the lengths of a list
        if isinstance(s.get("items"), dict) and rng.random() < .4:
            s[rng.choice(["minItems", "maxItems"])] = rng.choice(gen.COUNTS)
        # keywords of other types than the schema's own
        t = s.get("type")
        if isinstance(t, str) and rng.random() < .4:
            if t not in ("object",) :
                if rng.random() < .5:
                    s.setdefault("required", ["zz"])
            if t not in ("array",):
                if rng.random() < .5:
                    s.setdefault("minItems", rng.choice(gen.COUNTS))
                if rng.random() < .5:
                    s.setdefault("maxItems", rng.choice(gen.COUNTS))
            if t not in ("string",) and rng.random() < .5:
                s.setdefault("format", rng.choice(["date-time", "bytes", "email"]))
    return v


def described(rng, g, v):
    v = copy.deepcopy(v)
    for s in list(subschemas(v)):
        if rng.random() < .6:
            s["description"] = g.text()
        if rng.random() < .4:
            s["title"] = g.text()
    return v


# ------------------------------------------------------------------ cases
def one(prop, rng):
    case = dict(kind="plain")
    if prop in ("C01", "C02"):
        g = gen.Gen(rng.random(), rng.choice([p_general, p_union, p_tuple, p_map, p_lists, p_names, p_plainobj])(rng))
        s = root_like(g)
        rx = g.regex() if prop == "C02" else None
        t = "avro" if prop == "C01" else "bq"
        calls = [opts(rng, rx, t=t) for _ in range(4)]
        return dict(case, parts=[dict(schema=s, calls=calls)])
    if prop in ("C03", "C04"):
        g = gen.Gen(rng.random(), rng.choice([p_general, p_names, p_names, p_desc, p_tuple, p_map, p_lists, p_camel])(rng))
        t = "avro" if prop == "C03" else "bq"
        return dict(case, parts=[dict(schema=root_like(g), calls=[opts(rng, g.regex(), t=t) for _ in range(4)])])
    if prop == "C05":
        g = gen.Gen(rng.random(), rng.choice([p_general, p_union, p_tuple, p_map, p_lists, p_names, p_leaf])(rng))
        return dict(case, parts=[dict(schema=root_like(g), calls=toggles(rng, 4, "t", T, w=False))])
    if prop == "C07":
        g = gen.Gen(rng.random(), rng.choice([p_ambig, p_general, p_union, p_tuple, p_map, p_names])(rng))
        g.p["bad"] = rng.choice([0, .02, .06])
        return dict(case, parts=[dict(schema=root_like(g), calls=toggles(rng, 4, "r", R, g.regex() if rng.random() < .3 else None))])
    if prop in ("C08", "C09"):
        g = gen.Gen(rng.random(), rng.choice([p_ambig, p_ambig, p_general, p_union, p_tuple, p_map])(rng))
        s = root_like(g)
        rx = g.regex() if rng.random() < .4 else None
        return dict(case, parts=[dict(schema=s, calls=toggles(rng, 4, "r", R, rx))])
    if prop == "C10":
        g = gen.Gen(rng.random(), rng.choice([p_general, p_union, p_union, p_tuple, p_plainobj, p_map])(rng))
        return dict(case, parts=[dict(schema=root_like(g), calls=toggles(rng, 3, "t", T))])
    if prop == "C11":
        g = gen.Gen(rng.random(), rng.choice([p_general, p_union, p_tuple, p_plainobj, p_map, p_lists])(rng))
        return dict(case, parts=[dict(schema=root_like(g), calls=toggles(rng, 3, "n", (False, True), g.regex()))])
    if prop == "C12":
        g = gen.Gen(rng.random(), p_names(rng))
        return dict(case, parts=[dict(schema=root_like(g), calls=toggles(rng, 3, "t", T))])
    if prop == "C13":
        g = gen.Gen(rng.random(), rng.choice([p_camel, p_camel, p_names])(rng))
        return dict(case, parts=[dict(schema=root_like(g), calls=toggles(rng, 3, "c", (False, True)))])
    if prop == "C15":
        g = gen.Gen(rng.random(), p_union(rng))
        k = rng.random()
        if k < .4:
            s = root_like(g)
            calls = [opts(rng, g.regex() if rng.random() < .3 else None) for _ in range(4)]
            s = strip(s, ("title", "description", "mozPipelineMetadata"))
            parts = [dict(schema=x, calls=copy.deepcopy(calls)) for x in (s, shuffled(rng, s), shuffled(rng, s))]
            return dict(kind="same", parts=parts)
        if k < .7:
            g._similar = None
            alts = [g.similar(2) for _ in range(rng.choice([1, 2, 3]))]
            alts = strip(alts, ("title", "description"))
            calls = [opts(rng) for _ in range(4)]
            more = alts + [{"type": "null"}]
            rng.shuffle(more)
            mk = lambda a: {"type": "object", "required": ["p"], "properties": {"p": {"oneOf": a}, "zz": {"type": "integer"}}}
            return dict(kind="nullable", parts=[dict(schema=mk(a), calls=copy.deepcopy(calls)) for a in (alts, more)])
        return dict(case, parts=[dict(schema=root_like(g), calls=toggles(rng, 2, "t", T))])
    if prop == "C16":
        g = gen.Gen(rng.random(), p_leaf(rng))
        return dict(case, parts=[dict(schema=root_like(g), calls=toggles(rng, 3, "t", T))])
    if prop == "C17":
        g = gen.Gen(rng.random(), p_tuple(rng))
        return dict(case, parts=[dict(schema=root_like(g), calls=toggles(rng, 3, "u", (False, True)))])
    if prop == "C18":
        g = gen.Gen(rng.random(), p_map(rng))
        return dict(case, parts=[dict(schema=root_like(g), calls=toggles(rng, 3, "w", (False, True)))])
    if prop == "C19":
        g = gen.Gen(rng.random(), p_json(rng))
        s = root_like(g)
        rx = g.regex()
        calls = toggles(rng, 3, "x", ([], [rx]), t="bq") + toggles(rng, 1, "x", ([], [rx]))
        return dict(case, parts=[dict(schema=s, calls=calls)])
    if prop == "C20":
        g = gen.Gen(rng.random(), p_desc(rng))
        s = root_like(g)
        bare = strip(s, ("title", "description"))
        calls = [opts(rng, g.regex() if rng.random() < .2 else None) for _ in range(2)] + [opts(rng, t="bq") for _ in range(2)]
        if rng.random() < .5:
            s = described(rng, g, bare)
        return dict(kind="desc", parts=[dict(schema=x, calls=copy.deepcopy(calls)) for x in (s, bare)])
    if prop == "C21":
        g = gen.Gen(rng.random(), rng.choice([p_general, p_union, p_tuple, p_map, p_plainobj, p_leaf])(rng))
        s = root_like(g)
        calls = [opts(rng, g.regex() if rng.random() < .3 else None) for _ in range(4)]
        return dict(kind="same", parts=[dict(schema=x, calls=copy.deepcopy(calls)) for x in (s, littered(rng, s), littered(rng, s))])
    if prop == "C23":
        return embed(rng)
    if prop == "C24":
        g = gen.Gen(rng.random(), p_lists(rng))
        return dict(case, parts=[dict(schema=root_like(g), calls=toggles(rng, 3, "t", T))])
    if prop == "C25":
        g = gen.Gen(rng.random(), rng.choice([p_plainobj, p_union, p_names, p_camel])(rng))
        g.p["maxprops"] = rng.choice([1, 3, 5])
        s = root_like(g) if LARGE else g.object(g.p["depth"])
        if "properties" not in s:
            s = {"properties": {"p": s}}
        s["properties"]["zz"] = {"type": "integer"}
        s["type"] = "object"
        q = near_name(rng, list(s["properties"])) if rng.random() < .5 else rng.choice(["added", "aa", "zzz", "m", "Zz", "addedLater"])
        q = "zzz" if q == "zz" else q
        s["properties"].pop(q, None)
        simple = rng.random() < .5
        big = copy.deepcopy(s)
        big["properties"][q] = g.atom() if simple else g.schema(rng.choice([1, 2]))
        big["properties"] = dict(rng.sample(sorted(big["properties"].items(), key=lambda x: x[0]), len(big["properties"])))
        if rng.random() < .4:
            big.setdefault("required", [])
            big["required"] = big["required"] + [q]
        calls = [opts(rng) for _ in range(4)]
        if not simple:
            # what is added is to be converted whatever it is
            for x in calls:
                x["r"] = "cast"
                x["u"] = False
        path = rng.choice([[], [], ["o"], ["o", "[]"], ["[]"], ["{}"], ["o", "p"], ["o", "{}"], ["o", "[]", "p"]])
        return dict(kind="extend", added=q, parts=[dict(schema=placed(path, x), path=path, calls=copy.deepcopy(calls)) for x in (s, big)])
    if prop == "C26":
        g = gen.Gen(rng.random(), rng.choice([p_general, p_union, p_tuple, p_map, p_lists, p_ambig])(rng))
        return dict(case, parts=[dict(schema=root_like(g) if LARGE else g.schema(), calls=toggles(rng, 3, "t", T, g.regex() if rng.random() < .2 else None))])
    if prop == "C28":
        g = gen.Gen(rng.random(), rng.choice([p_plainobj, p_union, p_general, p_names, p_map, p_tuple])(rng))
        s = root_like(g)
        rx = g.regex() if rng.random() < .2 else None
        calls = [opts(rng, rx) for _ in range(4)]
        return dict(kind="required", parts=[dict(schema=x, calls=copy.deepcopy(calls)) for x in (s, otherwise_required(rng, s), more_required(rng, s))])
    if prop == "C29":
        g = gen.Gen(rng.random(), rng.choice([p_plainobj, p_union, p_general, p_names, p_map, p_tuple, p_leaf])(rng))
        p, q = "pp", rng.choice([g.name(), g.name(), rng.choice(gen.ODD), rng.choice(gen.WORDS or gen.ODD), rng.choice(gen.LONG), rng.choice(gen.CAMEL)])
        names = g.names(rng.randint(0, 3))
        if rng.random() < .3:
            # a new name that belongs to the others
            names = rng.choice([gen.together(rng), gen.together(rng), ["key", "value"], ["f0_", "f1_"], ["list", "value"]])
            names = rng.sample(names, len(names))
            q = names.pop()
        rest = {k: g.schema(rng.choice([0, 1])) for k in names if k not in (p, q)}
        x = root_like(g) if LARGE else g.schema(rng.choice([1, 2, 3]))
        req = [k for k in rest if rng.random() < .5]
        own, path = rng.random() < .5, rng.choice([[], [], ["o"], ["o", "[]"], ["{}"], ["[]"], ["o", "f0_"], ["o", "p"]])

        def called(n):
            items = list(rest.items()) + [(n, copy.deepcopy(x))]
            return dict(type="object", properties=dict(rng.sample(items, len(items))), required=req + [n] * own)
        calls = [opts(rng) for _ in range(4)]
        if "f0_" in path:
            for c in calls:
                c["u"] = True
        return dict(kind="rename", **{"from": p}, to=q,
                    parts=[dict(schema=placed(path, called(n)), path=path, calls=copy.deepcopy(calls)) for n in (p, q)])
    if prop == "C30":
        g = gen.Gen(rng.random(), rng.choice([p_general, p_union, p_tuple, p_map, p_plainobj, p_leaf, p_desc, p_lists])(rng))
        s = root_like(g)
        rx = g.regex() if rng.random() < .25 else None
        calls = [opts(rng, rx) for _ in range(4)]
        return dict(kind="same", parts=[dict(schema=x, calls=copy.deepcopy(calls)) 
                                       for x in (s, shallow(respelt(rng, s, .15), s), shallow(respelt(rng, s, .5), s))])
    if prop == "C31":
        g = gen.Gen(rng.random(), rng.choice([p_ambig, p_ambig, p_general, p_union, p_tuple, p_map, p_names])(rng))
        s = root_like(g)
        rx = g.regex() if rng.random() < .3 else None
        return dict(case, parts=[dict(schema=s, calls=toggles(rng, 4, "r", ("panic", rng.choice(R)), rx))])
    if prop == "C32":
        g = gen.Gen(rng.random(), rng.choice([p_general, p_union, p_union, p_plainobj, p_map, p_tuple, p_lists, p_leaf])(rng))
        s = strip(root_like(g), ("title", "description", "mozPipelineMetadata"))
        calls = toggles(rng, 2, "t", T, r="cast")
        return dict(kind="widen", parts=[dict(schema=x, calls=copy.deepcopy(calls)) for x in (s, widened(rng, g, s))])
    raise KeyError(prop)


def widened(rng, g, v):
    """The same schema with more alternatives, like the given ones or not."""
    v = copy.deepcopy(v)
    nodes = list(subschemas(v))
    for s in rng.sample(nodes, min(len(nodes), rng.choice([1, 1, 2, 3]))):
        k = rng.random()
        old = copy.deepcopy(s)
        if k < .15:
            alt = {"type": "null"}
        elif k < .4:
            alt = copy.deepcopy(old)
            for x in list(subschemas(alt)):
                if rng.random() < .4:
                    if isinstance(x.get("properties"), dict) and x["properties"]:
                        if rng.random() < .5:
                            del x["properties"][rng.choice(list(x["properties"]))]
                        else:
                            x["properties"][g.name()] = g.atom()
                    elif x.get("type") in ("integer", "number"):
                        x["type"] = rng.choice(["integer", "number", "number", "string"])
                    elif "required" in x:
                        del x["required"]
        elif k < .6:
            alt = {"type": "object", "properties": {n: g.atom() for n in g.names(rng.choice([1, 2, 3]))}}
        elif k < .8:
            alt = g.atom()
        else:
            alt = g.schema(rng.choice([1, 2]))
        if set(old) == {"oneOf"} and isinstance(old["oneOf"], list):
            alts = old["oneOf"] + [alt]
        else:
            alts = [old, alt]
        s.clear()
        s["oneOf"] = rng.sample(alts, len(alts))
    return v


WORN = ("description", "title", "mozPipelineMetadata")


def less(v, *ks):
    return {k: x for k, x in v.items() if k not in ks}


def worn(v, w):
    return dict({k: v[k] for k in WORN if k in v}, **w)


def spellings(v):
    """Other ways to write v, changed at its top only (see Spellings.tla)."""
    t, ps, add, pat, alts = (v.get(k) for k in ("type", "properties", "additionalProperties", "patternProperties", "oneOf"))
    stamp = t == "string" and v.get("format") in ("date-time", "bytes")
    obj = t == "object" or not isinstance(t, (str, list))
    plain = lambda x: isinstance(x, dict) and x.get("description") is None and x.get("title") is None
    yield worn(v, {"oneOf": [less(v, *WORN)]})
    if isinstance(t, str) and not stamp:
        yield dict(v, type=[t])
        if t not in ("object", "array"):
            yield dict(v, type=[t, t])
    if stamp:
        yield dict(less(v, "format"), type=v["format"])
    if isinstance(t, list) and t:
        yield worn(v, {"oneOf": [dict(less(v, "format", *WORN), type=x) for x in t]})
    if not isinstance(t, (str, list)):
        yield dict(v, type="object")
    if t == "object":
        yield less(v, "type")
    if isinstance(v.get("required"), list):
        yield dict(v, required=v["required"] * 2) if v["required"] else less(v, "required")
    elif v.get("required") is None:
        yield dict(v, required=[])
    ismap = isinstance(add, dict) or isinstance(pat, dict) and pat
    if obj and ps is None and ismap and isinstance(pat, (dict, type(None))):
        bare = less(v, "additionalProperties", "patternProperties")
        if isinstance(add, dict) and pat is None:
            if plain(add):
                yield dict(bare, patternProperties={".*": add})
                yield dict(bare, additionalProperties={"oneOf": [add]})
                yield dict(v, patternProperties={})
        else:
            every = ([add] if isinstance(add, dict) else []) + list(pat.values())
            yield dict(bare, additionalProperties={"oneOf": every})
            yield dict(bare, patternProperties={"p%d" % i: x for i, x in enumerate(every)})
            yield dict(bare, additionalProperties=every[0], patternProperties={"p%d" % i: x for i, x in enumerate(every[1:])})
    if obj and ps is None and not ismap and isinstance(alts, list) and alts:
        yield dict(v, oneOf=[{"oneOf": alts}])
        yield dict(v, oneOf=[{"oneOf": [x]} for x in alts])
        for i in range(len(alts)):
            yield dict(v, oneOf=alts[:i] + [{"oneOf": alts[i:]}])
        flat = []
        for x in alts:
            flat += x["oneOf"] if isinstance(x, dict) and set(x) == {"oneOf"} and isinstance(x["oneOf"], list) else [x]
        yield dict(v, oneOf=flat)
    xs = v.get("items")
    if t == "array" and isinstance(xs, list):
        n, lo, hi, more = len(xs), v.get("minItems"), v.get("maxItems"), v.get("additionalItems")
        lo = n if lo is None else lo
        if more is False:
            yield dict(less(v, "additionalItems"), maxItems=n)
            yield less(v, "maxItems")
        if more is None and hi == n:
            yield dict(less(v, "maxItems"), additionalItems=False)
        if isinstance(lo, int) and lo >= n:
            yield less(v, "minItems")
            yield dict(v, minItems=n)
        if isinstance(more, dict) and isinstance(hi, int) and 0 <= hi - n <= 8 and isinstance(lo, int) and lo >= 0:
            yield dict(less(v, "maxItems"), items=xs + [more] * (hi - n), additionalItems=False, minItems=min(lo, n))


    # keywords for another type than the one given
    int_ = {"type": "integer"}
    idle = {}
    if obj or isinstance(t, str) and t != "array":
        idle.update(items=int_, additionalItems=False, minItems=1, maxItems=3)
    if isinstance(t, str) and t != "object":
        idle.update(properties={"p": int_}, required=["p"], additionalProperties=int_, patternProperties={"^p": int_}, oneOf=[int_])
    if obj or isinstance(t, str) and t != "string":
        idle.update(format="date-time")
    for k in idle:
        if k not in v:
            yield dict(v, **{k: idle[k]})


SCHEMAS = ("properties", "patternProperties")


def height(v):
    return 1 + max([height(x) for x in (v.values() if isinstance(v, dict) else v)], default=0) if isinstance(v, (dict, list)) else 0


def shallow(v, other):
    """v, unless it is nested too deeply to be written down."""
    return v if height(v) < 100 else other


def respelt(rng, v, p):
    """The same schema in other words, here and there."""
    if not isinstance(v, dict):
        return v
    for _ in range(4):
        if rng.random() >= p:
            break
        # keywords of the wrong kind are left as they are
        if all(v.get(k) is None or isinstance(v[k], x) for k, x in (("properties", dict), ("patternProperties", dict), ("required", list), ("oneOf", list))):
            v = rng.choice(list(spellings(v)))
    out = {}
    for k, x in v.items():
        if k in SCHEMAS and isinstance(x, dict):
            x = {a: respelt(rng, b, p) for a, b in x.items()}
        elif k in ("additionalProperties", "items", "additionalItems") and isinstance(x, dict):
            x = respelt(rng, x, p)
        elif k in ("oneOf", "items") and isinstance(x, list):
            x = [respelt(rng, y, p) for y in x]
        out[k] = x
    return out


def otherwise_required(rng, v):
    """The same schema with other lists of required properties."""
    v = copy.deepcopy(v)
    for s in list(subschemas(v)):
        if rng.random() < .7:
            names = list(s["properties"]) if isinstance(s.get("properties"), dict) else []
            s["required"] = [k for k in names if rng.random() < .5]
            if rng.random() < .2:
                del s["required"]
            elif rng.random() < .2:
                s["required"] = None
    return v


def more_required(rng, v):
    v = copy.deepcopy(v)
    for s in list(subschemas(v)):
        if isinstance(s.get("required"), list):
            extra = rng.choice([[], ["no such property"], ["unlisted_q"], ["unlisted_q", "unlisted-q"]]) + rng.choice([[], s["required"]])
            s["required"] = rng.sample(s["required"] + extra, len(s["required"] + extra))
    return v


def calls_for(prop, rng, rx):
    """Calls of the sort that a property is about, for a given schema."""
    if prop in ("C01", "C03"):
        return [opts(rng, t="avro") for _ in range(4)]
    if prop in ("C02", "C04"):
        return [opts(rng, rx, t="bq") for _ in range(4)]
    key, values = {"C07": ("r", R), "C08": ("r", R), "C09": ("r", R), "C11": ("n", (False, True)), "C13": ("c", (False, True)),
                   "C17": ("u", (False, True)), "C18": ("w", (False, True))}.get(prop, ("t", T))
    return toggles(rng, 3, key, values, rx, **({"w": False} if prop == "C05" else {}))


def near_name(rng, names):
    """A name that is easily taken for one of the others."""
    x = rng.choice(names)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randrange(9)
        i = rng.randrange(len(x)) if x else 0
        if k == 0:
            x = x.swapcase()
        elif k == 1:
            x = x[:i] + x[i:i + 1].swapcase() + x[i + 1:]
        elif k == 2:
            x = x.upper()
        elif k == 3:
            x = x[:i] + rng.choice("-._") + x[i:]
        elif k == 4:
            x = x.replace("-", ".") if "-" in x else x.replace(".", "-") if "." in x else x.replace("_", "-")
        elif k == 5:
            x = "_" + x
        elif k == 6:
            x = x + rng.choice(["_", "1", "x", " ", "-"])
        elif k == 7:
            x = x[:-1] or "m"
        else:
            x = x.lower()
    return x


def placed(path, inner):
    """inner at a path of a schema, among integers."""
    for h in reversed(path):
        if h == "[]":
            inner = {"type": "array", "items": inner}
        elif h == "{}":
            inner = {"type": "object", "additionalProperties": inner}
        elif h == "f0_":
            inner = {"type": "array", "items": [inner, {"type": "string"}], "maxItems": 2}
        else:
            inner = {"type": "object", "properties": {h: inner, "zz": {"type": "integer"}}, "required": [h]}
    return inner


def embed(rng):
    g = gen.Gen(rng.random(), rng.choice([p_general, p_union, p_tuple, p_names, p_leaf])(rng))
    g.p["badtuple"] = 0
    s = root_like(g) if LARGE else g.schema(rng.choice([1, 2, 3]))
    spread = not isinstance(s.get("items"), (dict, list)) and not any(k in s for k in ("oneOf", "additionalProperties", "patternProperties")) \
        and not isinstance(s.get("type"), list) and s.get("type") != "null"

    def mk(path, inner):
        for h in reversed(path):
            if h == "[]":
                inner = {"type": "array", "items": inner}
            elif h == "{}":
                inner = {"type": "object", "additionalProperties": inner}
            elif h == "f0_":
                inner = {"type": "array", "items": [inner, {"type": "string"}], "maxItems": 2}
            else:
                inner = {"type": "object", "properties": {h: inner, "zz": {"type": "integer"}}, "required": [h]}
                for k in g.names(rng.choice([0, 1, 2])):
                    if k not in (h, "zz"):
                        inner["properties"][k] = g.schema(1)
        return inner
    paths = [["p"], ["q"], ["p", "q"], ["p", "q", "r"]]
    if rng.random() < .6:
        paths += [["p", "f0_"], ["p", "f0_"], ["p", "f0_", "q"], ["p", "[]", "q", "f0_"], ["p", "[]", "f0_"], ["p", "{}", "f0_"], ["p", "f0_", "f0_"]]
    if spread:
        paths += [["p", "{}"], ["p", "[]"], ["p", "{}", "q"], ["p", "[]", "q"], ["p", "{}", "{}"]]
    parts = []
    calls = [opts(rng) for _ in range(4)]
    for c in calls:
        c["r"] = rng.choice(["cast", "cast", "drop"])
    chosen = [["p"]] + rng.sample(paths, 3)
    if any("f0_" in p for p in chosen):
        for c in calls:
            c["u"] = True
    for p in chosen:
        parts.append(dict(schema=mk(p, copy.deepcopy(s)), path=p, calls=copy.deepcopy(calls)))
    return dict(kind="embed", parts=parts)


def cases(prop, seed, n, start=0, step=1):
    for i in range(start, n, step):
        global LARGE
        rng = random.Random("%s/%s/%s" % (prop, seed, i))
        LARGE = i % 100 == 50
        c = one(prop, rng)
        LARGE = False
        c["id"] = "r%d" % i
        yield c


if __name__ == "__main__":
    import json
    import sys
    for c in cases(sys.argv[1], int(sys.argv[2]), int(sys.argv[3])):
        print(json.dumps(c))
