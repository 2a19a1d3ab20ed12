"""Random schemas in the dialect of the transpiler, and well beyond it.

A profile is a dict of weights and switches; every check picks its own, so
that the inputs concentrate on what the property is about.  Everything is a
function of the seed.
"""
import glob
import itertools
import os
import random
import re

PLAIN = ["a", "b", "c", "foo", "bar", "id", "x1", "name_2"]
RESERVED = ["key", "value", "list", "root", "f0_", "f1_", "__unknown__", "__union__", "record",
            "type", "properties", "items", "name", "mode", "fields", "required", "null", "default"]
DIRTY = ["a-b", "a.b", "a_b", "-a", ".a", "a-", "1a", "64bit", "_64bit", "9", "0-1", "a.b-c", "a--b",
         "a..b", "_", "__", "-", ".", "-1", "x.1"]
ILLEGAL = ["$schema", "$ref", "a b", " ", "a:b", "x/y", "\u00e9t\u00e9", "\u65e5\u672c", "\u00b2x", "\u0663a", "a$", "\U0001f600",
           "a+b", "a\n", "\ta", "a\u00a0b", "@id", "a'b", "", "a%", "\u00b2", "a\u0301"]
CAMEL = ["camelCase", "CamelCase", "HTTPServer", "camel_case", "XMLHttpRequest", "aB", "AB", "A", "Ab",
         "a1B", "A1b", "A1B", "a1b", "B2B", "fooBAR", "FooBar2Baz", "foo_Bar", "foo__bar", "_fooBar",
         "fooBar_", "Foo", "FOO", "foo-Bar", "foo.BarBaz", "64Bit", "aBC1dE", "x86_64", "isHTTP2Ok"]

TWINS = ["id", "ID", "Id", "iD", "fooBar", "foo_bar", "FooBar", "foo-bar", "foo.bar", "foobar", "FOOBAR", "fOobar", "Foo_Bar",
         "a", "A", "b", "B", "_a", "a_", "1x", "_1x", "_1X", "x1", "X1", "x_1", "aa", "aA", "Aa", "AA"]
MEANT = {"type", "format", "properties", "additionalProperties", "patternProperties", "required", "items", "additionalItems",
         "minItems", "maxItems", "oneOf", "allOf", "title", "description", "mozPipelineMetadata"}


def dictionary():
    """Words and numbers that the source of the repository mentions: what it
    treats specially is most likely among them. Only a hint of what to try."""
    words, nums, order = set(), set(), []
    repo = os.path.abspath(os.environ.get("REPO", "/repo"))
    for f in sorted(glob.glob(repo + "/src/**/*.rs", recursive=True)):
        with open(f, errors="replace") as fh:
            text = fh.read().split("#[cfg(test)]\nmod tests")[0]
        text = re.sub(r"//[^\n]*", "", text)
        for x in re.findall(r'"((?:[^"\\\n]|\\.){1,80})"', text):
            if len(x) <= 40 and "\\" not in x:
                words.add(x)
            words.update(re.findall(r"[A-Za-z_$][\w$.-]*", x))
            if re.fullmatch(r"[A-Za-z_]\w{0,39}", x):
                order.append(x)
        for x in re.findall(r"(?<![\w.])(\d[\d_]*)(?![\w.])", text):
            n = int(x.replace("_", ""))
            if 2 < n <= 100000:
                nums.add(n)
        for x in re.findall(r"1 ?<< ?(\d+)", text):
            nums.add(1 << min(int(x), 20))
    return sorted(x for x in words if "\x00" not in x and len(x) <= 60), sorted(nums), order


WORDS, NUMS, ORDER = dictionary()


def together(r):
    """Two or three names that the source mentions next to each other."""
    n = r.choice([2, 2, 3])
    i = r.randrange(max(1, len(ORDER) - n + 1))
    return list(dict.fromkeys(ORDER[i:i + n])) or ["key", "value"]


def measure(r, lo, hi, usual):
    """A size: mostly one of the usual ones, or a number around one that the source mentions."""
    near = [n + d for n in NUMS for d in (-1, 0, 1, 2) if lo <= n + d <= hi]
    if near and r.random() < .4:
        return r.choice(near)
    return r.choice([x for x in usual if lo <= x <= hi])


# sizes of lists, which say nothing about the type
COUNTS = sorted({0, 1, 2, 3, 7, 10, 100, 127, 128, 255, 256, 257, 300, 1000, 32767, 32768, 65535, 65536, 100000, 2**31 - 1, 2**31,
                 2**32 - 1, 2**32, 2**32 + 1, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1} | set(NUMS))

BASE = dict(
    names=PLAIN, odd=0.15, maxprops=3, depth=3,
    w=dict(atom=10, object=6, map=3, array=4, tuple=2, oneof=4, types=3, null=1, empty=1.5, junk=0.6),
    atoms=["boolean", "integer", "number", "string", "datetime", "bytes"],
    desc=0.15, junk=0.15, required=0.7, badtuple=0.05, bad=0.0, meta=0.0,
    tlen=(1, 3), ulen=(1, 2, 2, 2, 3, 3, 4), stretch=0.07,
)
MANY = ["p%d" % i for i in range(24)] + ["q_%d" % i for i in range(8)] + ["P%d" % i for i in range(4)]
LONG = ["n" * 40, "n" * 41, "long_" * 13 + "x", "aVeryLongPropertyName" * 4, "x" * 127, "x" * 128, "x" * 129, "a-" * 30 + "b", "y" * 260, "Z" * 64]


def stretched(r, p):
    """The same profile, with one measure much larger."""
    k = r.choice(["wide", "union", "tuple", "deep", "long", "chain"])
    p = dict(p, w=dict(p["w"]))
    if k == "wide":
        p.update(maxprops=r.choice([8, 12, 20, 30]), depth=r.choice([1, 1, 2]), names=MANY, odd=.1)
        for x in ("oneof", "tuple", "types"):
            p["w"][x] = min(p["w"][x], 1)
        p["w"]["object"] = max(p["w"]["object"], 3) if p["depth"] == 1 else 1
    elif k == "union":
        p.update(ulen=(4, 5, 6, 8), depth=min(p["depth"], 2), maxprops=2)
    elif k == "tuple":
        p.update(tlen=(5, 13), depth=min(p["depth"], 2), maxprops=2)
        p["w"]["tuple"] = 12
    elif k == "deep":
        p.update(depth=r.choice([5, 6]), maxprops=2, ulen=(1, 2), tlen=(1, 2))
    elif k == "chain":
        p.update(depth=r.choice([7, 9, 12]), maxprops=1, ulen=(1,), tlen=(1, 1), junk=.05)
        p["w"].update(atom=.5, empty=.2, null=.1, types=.3, junk=.1)
    else:
        p.update(names=LONG, odd=.1, depth=min(p["depth"], 2))
    return p

KEYSETS = dict(plain=PLAIN, reserved=RESERVED, dirty=DIRTY, illegal=ILLEGAL, camel=CAMEL)
ODD = RESERVED + DIRTY + ILLEGAL + CAMEL


def profile(**kw):
    p = dict(BASE)
    w = dict(BASE["w"])
    w.update(kw.pop("w", {}))
    p.update(kw)
    p["w"] = w
    return p


class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = stretched(self.r, prof) if self.r.random() < prof["stretch"] else dict(prof)

    def chance(self, x):
        return self.r.random() < x

    def name(self):
        if self.chance(self.p["odd"]):
            return self.r.choice(WORDS if WORDS and self.chance(.2) else ODD)
        return self.r.choice(self.p["names"])

    def names(self, n):
        if n > 1 and self.chance(.06):
            return together(self.r)
        out = []
        for _ in range(n):
            x = self.name()
            if x not in out:
                out.append(x)
        return out

    # -- decoration that must not change the meaning ----------------------
    def text(self):
        k = self.r.random()
        if k < 0.6:
            return self.r.choice(["d", "some text", "T - x", "", " ", "\u00e9\u00e8 \u65e5\u672c", "\U0001f600 face", "a\nb", "\"q\" \\ x"])
        if k < 0.65 and WORDS:
            return self.r.choice(WORDS)
        n = measure(self.r, 20, 3000, [1000, 1020, 1021, 1022, 1023, 1024, 1025, 1030, 1500, 2100])
        unit = self.r.choice(["x", "ab", "\u00e9", "\u65e5\u672c", "\U0001f600", "e\u0301"])
        return (unit * n)[:n]

    def describe(self, s):
        if self.chance(self.p["desc"]):
            if self.chance(0.6):
                s["description"] = self.text()
            if self.chance(0.5):
                s["title"] = self.text()
        return s

    def junk(self, s):
        if self.chance(self.p["junk"]):
            for _ in range(self.r.randint(1, 3)):
                k, v = self.r.choice(JUNK)
                if WORDS and self.chance(.25):
                    k = self.r.choice([x for x in WORDS if x not in MEANT])
                    v = self.r.choice(VALUES)
                s.setdefault(k, v)
            if not isinstance(s.get("items"), list) and self.chance(.15):
                s.setdefault(self.r.choice(["minItems", "maxItems"]), self.r.choice(COUNTS))
        return s

    def dress(self, s):
        return self.junk(self.describe(s))

    # -- schemas -----------------------------------------------------------
    def atom(self, a=None):
        a = a or self.r.choice(self.p["atoms"])
        if a == "datetime":
            if self.chance(0.15):
                return {"type": "date-time"}
            return {"type": "string", "format": "date-time"}
        if a == "bytes":
            if self.chance(0.15):
                return {"type": "bytes"}
            return {"type": "string", "format": "bytes"}
        s = {"type": a}
        if self.chance(0.08):
            s["format"] = self.r.choice(["date-time", "bytes", "email", "json", "date", "uri"])
            if WORDS and self.chance(.3):
                s["format"] = self.r.choice(WORDS)
            if a == "string" and s["format"] in ("date-time", "bytes"):
                s["format"] = "email"
        return s

    def object(self, d):
        n = self.r.randint(0, self.p["maxprops"])
        s = {"properties": {k: self.schema(d - 1) for k in self.names(n)}}
        if self.chance(0.85):
            s["type"] = "object"
        self.requireds(s)
        if self.chance(0.15):
            s["additionalProperties"] = self.r.choice([True, False, {"type": "string"}])
        return s

    def requireds(self, s):
        if self.chance(self.p["required"]):
            ks = list(s.get("properties", {}))
            req = [k for k in ks if self.chance(0.6)]
            if self.chance(0.1):
                req.append(self.name())
            if req and self.chance(0.05):
                req.append(req[0])
            s["required"] = req

    def map(self, d):
        s = {}
        if self.chance(0.85):
            s["type"] = "object"
        k = self.r.random()
        if k < 0.65:
            s["additionalProperties"] = self.schema(d - 1)
        elif k < 0.85:
            s["patternProperties"] = self.patterns(d)
            if self.chance(0.3):
                s["additionalProperties"] = self.r.choice([True, False])
        else:
            s["patternProperties"] = self.patterns(d)
            s["additionalProperties"] = self.similar(d)
        return s

    def patterns(self, d):
        n = self.r.choice([0, 1, 1, 2, 2, 3])
        return {p: self.similar(d) for p in self.r.sample(["^a", "^b", ".+", "^[0-9]+$"], n)}

    _similar = None

    def similar(self, d):
        """Schemas that have a good chance to be compatible with one another."""
        if self._similar is not None and self.chance(0.6):
            s = self.perturb(self._similar)
        else:
            s = self.schema(d - 1)
        self._similar = s
        return s

    def perturb(self, s):
        if not isinstance(s, dict):
            return s
        s = dict(s)
        k = self.r.random()
        t = s.get("type")
        if k < 0.25 and t in ("integer", "number"):
            s["type"] = "number" if t == "integer" else "integer"
        elif k < 0.4 and isinstance(t, str):
            s["type"] = self.r.choice([[t, "null"], ["null", t]])
        elif k < 0.6 and "properties" in s:
            p = dict(s["properties"])
            if p and self.chance(0.5):
                p.pop(self.r.choice(sorted(p)))
            if self.chance(0.7):
                p[self.name()] = self.atom()
            elif p:
                q = self.r.choice(sorted(p))
                p[q] = self.perturb(p[q])
            s["properties"] = p
            s.pop("required", None)
            self.requireds(s)
        elif k < 0.7 and isinstance(s.get("items"), dict):
            s["items"] = self.perturb(s["items"])
        elif k < 0.8 and isinstance(s.get("additionalProperties"), dict):
            s["additionalProperties"] = self.perturb(s["additionalProperties"])
        return s

    def array(self, d):
        s = {"type": "array", "items": self.schema(d - 1)}
        if self.chance(.12):
            s["minItems"] = self.r.choice(COUNTS)
        if self.chance(.12):
            s["maxItems"] = self.r.choice(COUNTS)
        return s

    def tuple(self, d):
        n = 0 if self.chance(.04) else self.r.randint(*self.p["tlen"])
        s = {"type": "array", "items": [self.schema(d - 1) for _ in range(n)]}
        if self.chance(0.5):
            s["minItems"] = self.r.choice(COUNTS) if self.chance(.1) else self.r.randint(0, n + 1)
        k = self.r.random()
        if k < 0.4:
            s["additionalItems"] = False
            if self.chance(0.3):
                s["maxItems"] = self.r.choice(COUNTS) if self.chance(.3) else self.r.randint(0, n + 1)
        elif k < 0.7:
            s["maxItems"] = n
        else:
            s["additionalItems"] = self.schema(d - 1)
            s["maxItems"] = n + self.r.randint(0, 2)
        if self.chance(self.p["badtuple"]):
            k = self.r.random()
            if k < 0.3:
                s["additionalItems"] = True
            elif k < 0.6:
                s.pop("maxItems", None)
                s.pop("additionalItems", None)
            else:
                s["maxItems"] = n - 1
        return s

    def oneof(self, d):
        n = self.r.choice(self.p["ulen"])
        keep, self._similar = self._similar, None
        items = [self.similar(d) for _ in range(n)]
        self._similar = keep
        if self.chance(0.3):
            items.insert(self.r.randint(0, n), {"type": "null"})
        if self.chance(0.1):
            items.append(dict(self.r.choice(items)))
        s = {"oneOf": items}
        if self.chance(0.1):
            s["type"] = "object"
        return s

    def types(self, d):
        pool = ["null", "boolean", "integer", "number", "string", "object", "array"]
        k = self.r.random()
        if k < 0.55:
            ts = [self.r.choice(pool[1:5]), "null"]
        elif k < 0.7:
            ts = ["integer", "number"] + (["null"] if self.chance(0.5) else [])
        else:
            ts = self.r.sample(pool, self.r.randint(1, 4))
        self.r.shuffle(ts)
        s = {"type": ts}
        if "object" in ts or self.chance(0.05):
            x = self.r.choice([self.object, self.map, self.oneof])(d)
            x.pop("type", None)
            s.update(x)
        if "array" in ts:
            x = self.r.choice([self.array, self.array, self.tuple])(d)
            x.pop("type", None)
            s.update(x)
        if self.chance(0.1):
            s["format"] = self.r.choice(["date-time", "bytes"])
        return s

    def empty(self):
        return self.r.choice([{}, {"type": "object"}, {"type": "object", "additionalProperties": True},
                              {"type": "object", "additionalProperties": False}, {"properties": {}},
                              {"allOf": [{"type": "integer"}]}, {"enum": [1, "a"]},
                              {"patternProperties": {}}, {"anyOf": [{"type": "string"}]},
                              {"type": None}, {"type": {}}, {"type": 7}, {"required": ["a"]}])

    def mixed(self, d):
        """Several object keywords at once: the ones that lose are ignored."""
        s = {}
        for f in self.r.sample([self.object, self.map, self.oneof], 2):
            for k, v in f(d).items():
                s.setdefault(k, v)
            if not isinstance(s.get("items"), list) and self.chance(.15):
                s.setdefault(self.r.choice(["minItems", "maxItems"]), self.r.choice(COUNTS))
        return s

    def bad(self, d):
        return self.r.choice([
            {"type": "int"}, {"type": []}, {"type": ["strin"]}, {"oneOf": []}, {"type": "array"},
            {"type": "array", "items": True}, {"properties": {"a": True}}, {"properties": []},
            {"required": "a", "properties": {"a": {}}}, {"type": "object", "required": [1]},
            {"description": 1}, {"title": []}, {"format": 3, "type": "string"},
            {"type": "integer", "minItems": -1}, {"type": "integer", "maxItems": 1.5}, {"additionalProperties": 3},
            {"type": ["integer", 3]}, {"oneOf": {}}, {"oneOf": [True]}, {"allOf": [3]},
            {"items": [True], "type": "array"}, {"patternProperties": {"a": False}}, {"type": "Integer"},
            {"type": "integer", "properties": {"a": 3}}, {"type": "string", "oneOf": [{"type": "x"}]},
            {"type": "integer", "items": "x"}, {"properties": {"a": {"type": "float"}}},
        ])

    def schema(self, d=None):
        d = self.p["depth"] if d is None else d
        if self.p["bad"] and self.chance(self.p["bad"]):
            return self.bad(d)
        w = self.p["w"]
        kinds = list(w)
        ws = [w[k] if d > 0 or k in ("atom", "null", "empty") else 0 for k in kinds]
        k = self.r.choices(kinds, ws)[0]
        if k == "atom":
            s = self.atom()
        elif k == "null":
            s = {"type": "null"}
        elif k == "empty":
            s = self.empty()
        elif k == "junk":
            s = self.mixed(d)
        else:
            s = getattr(self, k)(d)
        return self.dress(dict(s))

    def root(self, d=None):
        s = self.schema(d)
        if self.chance(0.5) and "properties" not in s:
            s = self.object(d or self.p["depth"])
        if self.p["meta"] and self.chance(self.p["meta"]):
            s["mozPipelineMetadata"] = {"json_object_path_regex": self.regex(s)}
        return s

    def regex(self, schema=None):
        """A path expression, by preference about a path of the schema."""
        schema = schema if schema is not None else getattr(self, "last", None)
        if self.chance(0.06):
            return self.r.choice(["", "^", "$", ".*", ".+", "zzz", "^$", "()", "(?i)", "\\b", "a{0}"])
        r = self.r
        parts = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            segs = path_of(r, schema) if schema is not None and r.random() < .7 else [
                r.choice([r"[^.]+", "list", "value", "f0_", "a", "b", "c", "foo", "bar", ".*", "camel_case", "__unknown__", "a_b"])
                for _ in range(r.randint(1, 3))]
            k = r.random()
            if k < .1 and len(segs) > 1:
                segs = segs[1:]
            elif k < .2:
                segs = segs[:r.randint(1, len(segs))]
            text = r.choice([r"\.", r"\.", r"\.", ".", "[.]", r"\W"]).join(self.blurred(x) for x in segs)
            text = r.choice(["", "", "", "^", "^", r"\A", r"\b", "(?:)"]) + text + r.choice(["", "", "", "$", "$", r"\z", r"\b", ".", ".*", r"\..+"])
            if r.random() < .1:
                text = r.choice(["(%s)", "(?:%s)", "(%s)?", "(?:%s|x)", "(%s)+"]) % text
            parts.append(text)
        out = "|".join(parts)
        if r.random() < .15:
            out = r.choice(["(%s)", "(?:%s)$", "^(%s)", "^(?:%s)$"]) % out
        if r.random() < .06:
            out = "(?i)" + out
        return out

    def blurred(self, seg):
        """An expression near a name."""
        r = self.r
        if not seg or not all(c.isalnum() or c == "_" for c in seg):
            return seg
        k = r.random()
        if k < .6:
            return seg
        i = r.randrange(len(seg))
        c = seg[i]
        if k < .66:
            return seg[:i] + c.swapcase() + seg[i + 1:]
        if k < .7:
            return seg[:max(1, i)]
        if k < .74:
            return seg[min(i, len(seg) - 1):]
        kinds = ["[a-z]", "[A-Za-z_]", "[^%s]" % c, "[%sx]" % c, r"\w", r"\d", r"\D", ".", c + "?", c + "+", c + "*", c + "*?", c + "{1}", c + "{0,2}",
                 "(%s|z)" % c, "(?:%s)" % c, "[0-9]", r"\W", "[%s-%s]" % (c, c), r"\S", c + "{2,}", ".{1,3}?"]
        return seg[:i] + r.choice(kinds) + seg[i + 1:]


def path_of(r, s):
    """The names on a path through a schema, roughly as the columns are named."""
    out = []
    while isinstance(s, dict) and len(out) < 6:
        subs = []
        if isinstance(s.get("properties"), dict):
            subs += [(k.replace(".", "_").replace("-", "_"), v) for k, v in s["properties"].items()]
        for k in ("additionalProperties", "additionalItems"):
            if isinstance(s.get(k), dict):
                subs.append(("value" if k[10] == "P" else "f2_", s[k]))
        if isinstance(s.get("patternProperties"), dict):
            subs += [("value", v) for v in s["patternProperties"].values()]
        if isinstance(s.get("items"), dict):
            subs.append(("list", s["items"]))
        if isinstance(s.get("items"), list):
            subs += [("f%d_" % i, v) for i, v in enumerate(s["items"])]
        if isinstance(s.get("oneOf"), list):
            subs += [(None, v) for v in s["oneOf"]]
        if not subs or out and r.random() < .15:
            break
        name, s = r.choice(subs)
        if name is not None:
            if name[:1].isdigit():
                name = "_" + name
            out.append(name if all(c.isalnum() and c.isascii() or c == "_" for c in name) else "x")
    return out or ["__unknown__"]


JUNK = [("$schema", "http://json-schema.org/draft-04/schema#"), ("$id", "x"), ("id", "y"), ("$comment", "hi"),
        ("default", {"a": 1}), ("examples", [1, None, "x"]), ("enum", [1, 2]), ("minimum", 3), ("maximum", 9.5),
        ("minLength", 1), ("maxLength", 2), ("pattern", "^a$"), ("uniqueItems", True), ("definitions", {"q": {"type": 3}}),
        ("anyOf", [{"type": "null"}]), ("not", {"type": "string"}), ("dependencies", {"a": ["b"]}), ("multipleOf", 2),
        ("const", 5), ("minProperties", 1), ("maxProperties", 2), ("x-custom", {"properties": {"a": 1}}), ("readOnly", True),
        ("name", "zz"), ("namespace", "ns"), ("nullable", True), ("mode", "REPEATED"), ("is_root", False), ("key", {}), ("value", 1),
        ("mozPipelineMetadata", {"bq_table": "t"}), ("mozPipelineMetadata", 3), ("contains", {}), ("propertyNames", {"type": "x"}),
        ("if", {}), ("one_of", []), ("additional_properties", {"type": "string"}), ("nullable", "x"), ("Type", "string"), ("union", []),
        ("allOf", [{"type": "string", "properties": {"zz": {"type": "null"}}}]), ("items_", 3), ("exclusiveMinimum", True), ("const", None)]


VALUES = [True, False, None, 0, 1, 2, -1, 1.5, "", "x", "string", "null", "true", "base64", [], {}, ["a"], {"type": "string"}, ["null"]]


def big(g):
    """Schemas that are large in one measure."""
    r = g.r
    leaf = lambda: r.choice([{"type": "integer"}, {"type": "string"}, {"type": ["number", "null"]}, {"type": "string", "format": "date-time"},
                             {"type": "boolean"}, {"type": "object", "properties": {"x": {"type": "integer"}}, "required": ["x"]}, {}])
    plain = lambda: r.choice([{"type": "integer"}, {"type": "string"}, {"type": ["number", "null"]}, {"type": "string", "format": "bytes"}, {"type": "boolean"}])
    k = r.choice(["chain", "chain", "chain", "nest", "wide", "alts", "tuple", "patterns", "long"])
    if k == "chain":
        s = leaf()
        kinds = r.choice([["object"], ["map"], ["list"], ["list", "object"], ["tuple"], ["object", "map", "list", "tuple", "one"], ["object", "one"]])
        for i in range(measure(r, 8, 50, [10, 12, 16, 17, 20, 32, 33, 45])):
            x = r.choice(kinds)
            if x == "object":
                s = {"type": "object", "properties": {r.choice(["a", "b", "fooBar", "list", "value"]): s}}
                if r.random() < .5:
                    s["required"] = list(s["properties"])
                if r.random() < .2:
                    s["properties"]["zz"] = leaf()
            elif x == "map":
                s = {"type": "object", "additionalProperties": s}
            elif x == "list":
                s = {"type": r.choice(["array", "array", ["array", "null"]]), "items": s}
            elif x == "tuple":
                s = {"type": "array", "items": [s], "maxItems": 1}
            else:
                s = {"oneOf": r.choice([[s], [s, {"type": "null"}], [{"type": "null"}, s]])}
    elif k == "nest":
        s = plain()
        t = dict(s)
        for i in range(measure(r, 8, 40, [10, 16, 24, 30, 36])):
            s = {"oneOf": r.sample([s, dict(t)] + ([{"type": "null"}] if r.random() < .1 else []), 2)}
    elif k == "wide":
        names = ["p%d" % i for i in range(500)] if r.random() < .7 else ["colName%d" % i for i in range(500)]
        n = measure(r, 20, 300, [30, 64, 65, 100, 128, 200, 256, 257])
        s = {"type": "object", "properties": {x: plain() for x in r.sample(names[:n + 20], n)}}
        s["required"] = r.sample(sorted(s["properties"]), n // 2)
    elif k == "alts":
        n = measure(r, 6, 40, [8, 10, 16, 17, 32, 33])
        x = r.choice(["objects", "same", "lists", "maps", "numbers"])
        mk = dict(objects=lambda i: {"type": "object", "properties": {"p%d" % (i % 7): {"type": "integer"}, "q": {"type": r.choice(["integer", "number"])}},
                                     "required": r.choice([["q"], ["q", "p%d" % (i % 7)]])},
                  same=lambda i: {"type": "object", "properties": {"q": {"type": "integer"}}, "required": ["q"]},
                  lists=lambda i: {"type": "array", "items": {"type": r.choice(["integer", "number", "integer"])}},
                  maps=lambda i: {"type": "object", "additionalProperties": {"type": ["integer", r.choice(["number", "null"])]}},
                  numbers=lambda i: {"type": r.choice(["integer", "integer", "number"])})[x]
        items = [mk(i) for i in range(n)]
        if r.random() < .3:
            items[r.randrange(n)] = r.choice([{"type": "null"}, leaf()])
        s = {"oneOf": items}
    elif k == "tuple":
        n = measure(r, 5, 40, [9, 10, 11, 12, 20, 33])
        s = {"type": "array", "items": [plain() for _ in range(n)], "maxItems": n}
        if r.random() < .5:
            s["minItems"] = r.randint(0, n)
        if r.random() < .4:
            s["additionalItems"] = plain()
            s["maxItems"] = n + r.choice([0, 1, 5])
    elif k == "patterns":
        n = measure(r, 4, 40, [5, 8, 16, 17, 33])
        s = {"type": "object", "patternProperties": {"^%s$" % ("x" * (i + 1)): {"type": r.choice([["integer", "null"], "integer", "number"])} for i in range(n)}}
        if r.random() < .5:
            s["additionalProperties"] = {"type": "number"}
    else:
        n = measure(r, 30, 2000, [63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 301, 1024])
        unit = r.choice(["n", "n", "aB", "a-", "Z1"])
        s = {"type": "object", "properties": {unit * (n if unit == "n" else min(n // 2, 160)): plain(), "b": plain()}}
    if r.random() < .4:
        s = {"type": "object", "properties": {"p": s, "q": leaf()}, "required": ["p"]}
    return s


def grid(t=("avro", "bq"), r=("cast", "drop", "panic"), c=(False, True), n=(False, True), u=(False, True),
         w=(False,), x=((),)):
    return [dict(t=a, r=b, c=d, n=e, u=f, w=g, x=list(h))
            for a, b, d, e, f, g, h in itertools.product(t, r, c, n, u, w, x)]


def some_calls(rng, k, regex=None):
    out = []
    for _ in range(k):
        o = dict(r=rng.choice(["cast", "drop", "panic"]), c=rng.random() < .3, n=rng.random() < .3,
                 u=rng.random() < .6, w=rng.random() < .4, x=[regex] if regex and rng.random() < .7 else [])
        out.append(dict(o, t="avro"))
        out.append(dict(o, t="bq"))
    return out
