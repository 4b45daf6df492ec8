"""C24: settings files round-trip; attributes of the objects that read them."""
import json
import os
import re
import tempfile
from decimal import Decimal
from fractions import Fraction
import lib
from lib import attempt, enc
lib.setup_path()
from forecaster.value_reader import ValueReader, ValueReaderAttribute, resolve_path  # noqa: E402
from forecaster.settings import Settings  # noqa: E402
from forecaster.canada.settings import SettingsCanada  # noqa: E402
from forecaster.canada.constants import ConstantsCanada  # noqa: E402

MODELS = [dict(module="MCReader", cfg="MCReader.cfg", thorough_cfg="MCReaderT.cfg")]
TRACE = "C24Trace"
ASSUMPTIONS = ["strings that spell numbers are read as numbers, as documented (unless numeric_convert is False)",
               "keys are strings or numbers; no NaN; a file with high-precision numbers of many digits is read in high precision; values are replaced, not changed in place"]


class Sub(ValueReader):
    a = ValueReaderAttribute(3)
    b = ValueReaderAttribute("x")
    c = ValueReaderAttribute()
    d = ValueReaderAttribute({2017: 0.5})
    e = ValueReaderAttribute(0)
    f = ValueReaderAttribute("")
    g = ValueReaderAttribute(False)


DEFS = {"a": 3, "b": "x", "d": {2017: 0.5}, "e": 0, "f": "", "g": False}
CLS = {"sub": Sub, "settings": Settings, "settings_ca": SettingsCanada, "constants": ConstantsCanada}
SHIPPED = {"settings": "settings.json", "settings_ca": "canada.settings.json", "constants": "canada.constants.json"}


def rep(f):
    return enc(f) if f in (float("inf"), float("-inf")) else enc(Fraction(repr(f)))


def exact(s):
    """The number that a string spells, or None."""
    try:
        f = float(s)
    except ValueError:
        return None
    t = s.strip().replace("_", "")
    return f if f in (float("inf"), float("-inf")) and "e" not in t.lower() and "n" in t.lower() else Fraction(t)


def tofloat(x):
    try:
        return float(x)
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def node(x):
    """The node of a Python value."""
    if isinstance(x, bool):
        return {"k": "bool", "s": str(x)}
    if x is None:
        return {"k": "null"}
    if isinstance(x, (int, float, Decimal)):
        f = tofloat(x)
        return {"k": "num", "v": enc(x), "t": "int" if isinstance(x, int) else "float" if isinstance(x, float) else "hp",
                "f": enc(f), "r": rep(f)}
    if isinstance(x, str):
        n = exact(x)
        f = tofloat(n) if n is not None else 0.0
        lit = True
        try:
            int(x)
        except ValueError:
            lit = False
        return {"k": "str", "s": x, "n": "none" if n is None else enc(n), "lit": lit, "f": enc(f), "r": rep(f)}
    if isinstance(x, (list, tuple)):
        return {"k": "list", "c": [node(y) for y in x]}
    if isinstance(x, dict):
        return {"k": "map", "m": [{"key": node(k), "val": node(v)} for k, v in x.items()]}
    return {"k": type(x).__name__}


class Raw(str):
    pass


def filenode(text):
    """The tree of a file's text: floats digit by digit."""
    def go(x):
        if isinstance(x, Raw):
            f = float(x)
            return {"k": "num", "v": enc(f) if abs(f) == float("inf") and "n" in x else enc(Fraction(str(x))), "t": "float",
                    "f": enc(f), "r": rep(f)}
        if isinstance(x, list):
            return {"k": "list", "c": [go(y) for y in x]}
        if isinstance(x, dict):
            return {"k": "map", "m": [{"key": go(k), "val": go(v)} for k, v in x.items()]}
        return node(x)
    return go(json.loads(text, parse_float=Raw, parse_constant=Raw))


def value(n):
    """The Python value of a node."""
    k = n["k"]
    if k == "num":
        v = n["v"]
        if v in ("inf", "-inf"):
            return Decimal(v) if n["t"] == "hp" else float(v)
        q = Fraction(v)
        if n["t"] == "int":
            return int(q)
        if n["t"] == "float":
            return float(q)
        return decimal(q)
    if k == "str":
        return n["s"]
    if k == "bool":
        return n["s"].lower() == "true"
    if k == "null":
        return None
    if k == "list":
        return [value(x) for x in n["c"]]
    return {value(e["key"]): value(e["val"]) for e in n["m"]}


def decimal(q):
    """The exact Decimal of a decimal fraction."""
    e = 0
    d = q.denominator
    while q.denominator != 1:
        q *= 10
        e += 1
        assert e < 2000, d
    s = 1 if q < 0 else 0
    return Decimal((s, tuple(int(c) for c in str(abs(q.numerator))), -e))


# ---- scenarios: values are kept as Python literals through node()
STR = ["", "a", "TFSA", "Constant living expenses", "é\u2028\U0001f600", "a\"b\\c\n", "true", "null", "1/3", "0x10", "2017-01-01", "--1"]
NUMSTR = ["5", "007", "-12", "1e3", "0.1", "1_000", " 4 ", "1e-400", "12345678901234567890", "0.30000000000000000000001", "Infinity", "-inf", "9007199254740993"]
INTS = [0, 1, -1, 2017, 60000, 12345678901234567890, 2 ** 53 + 1, -10 ** 25]
FLOATS = [0.1, 0.5, -2.75, 1e-9, 3.0, 1e22, 1.7976931348623157e308, 5e-324, 25750.55, float("inf"), float("-inf"), 1 / 3]
DECS = ["0.1", "0.5", "-2.75", "3", "3.0", "1E+30", "1E-40", "0.1000000000000000000000000000000001", "12345678901234567.5",
        "123456789012345678901234567890.123", "Infinity", "-Infinity", "1E-400", "99999999999999999999999999999999999999.5"]


def leaf(rng, hp, numstr):
    k = rng.choice(["int", "num", "num", "str", "bool", "null"] + (["numstr"] if numstr else []))
    if k == "int":
        return rng.choice(INTS)
    if k == "num":
        if hp and rng.random() < .85:
            d = Decimal(rng.choice(DECS))
            if rng.random() < .3:
                d = Decimal(rng.randint(-10 ** 40, 10 ** 40)).scaleb(-rng.randint(0, 45)) if False else Decimal(
                    "%dE%d" % (rng.randint(-10 ** rng.randint(1, 40), 10 ** 40), -rng.randint(0, 45)))
            return d
        return rng.choice(FLOATS + [rng.uniform(-1e6, 1e6)])
    if k == "str":
        return rng.choice(STR)
    if k == "numstr":
        return rng.choice(NUMSTR)
    return {"bool": rng.random() < .5, "null": None}[k]


def key(rng, hp):
    k = rng.choice(["year", "num", "str", "str"])
    if k == "year":
        return rng.choice([2017, 2000, 0, 71, 2 ** 53 + 1])
    if k == "num":
        return Decimal(rng.choice(DECS[:1] + DECS[7:9])) if hp else rng.choice([0.5, 46605.5, 0.1, float("inf")])
    return rng.choice(["a", "b", "RRSP", "é", "z z"])


def tree(rng, hp, depth, numstr):
    r = rng.random()
    if depth == 0 or r < .45:
        return leaf(rng, hp, numstr)
    if r < .65:
        return [tree(rng, hp, depth - 1, numstr) for _ in range(rng.randint(0, 3))]
    return {key(rng, hp): tree(rng, hp, depth - 1, numstr) for _ in range(rng.randint(0, 4))}


def table(rng, hp, numstr):
    return {rng.choice("abcdef") if rng.random() < .8 else key(rng, hp): tree(rng, hp, 3, numstr) for _ in range(rng.randint(0, 5))}


def text(rng):
    def go(d):
        r = rng.random()
        if d == 0 or r < .5:
            return rng.choice(["1", "0", "-3", "12345678901234567890", "0.5", "1.10000000000000000000000001", "0.1", "1e-9", "2.0",
                               "1E3", "Infinity", "-Infinity", "true", "false", "null", '"s"', '"0.25"', '"12345678901234567891"', '"é"',
                               '"0.1000000000000000055511151231257827"', '"inf"'])
        if r < .7:
            return "[" + ", ".join(go(d - 1) for _ in range(rng.randint(0, 3))) + "]"
        return "{" + ", ".join('"%s": %s' % (k, go(d - 1)) for k in rng.sample(
            ["a", "b", "2017", "0.5", "71", "46605.123456789012345678", "9007199254740993", "-4", "x y"], rng.randint(0, 3))) + "}"
    return "{" + ", ".join('"%s": %s' % (k, go(3)) for k in rng.sample("abcdefg", rng.randint(0, 5))) + "}"


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCReader", []))
    rng.shuffle(gen)
    for b in gen[:1500 if tier == "quick" else 20000]:
        ops = [{"k": "new", "o": o, "cls": "sub", "hp": o == "hi", "f": "none", "use": True, "conv": True} for o in ("lo", "hi")]
        ops += [{"k": "put", "f": "f", "text": "{}"}]
        for o in b["ops"]:
            o = dict(o)
            if o["k"] == "set":
                o["v"] = node(value(o["v"]))
            if o["k"] in ("read", "write"):
                o.update(f="f", conv=True, form="self")
            ops.append(o)
        for o in ("lo", "hi"):
            ops += [{"k": "write", "o": o, "f": "g", "form": "self"}, {"k": "read", "o": o, "f": "g", "conv": True}]
        out.append({"setup": {}, "ops": ops})
    for c in SHIPPED:
        for hp in (False, True):
            ops = [{"k": "ship", "f": "s", "cls": c}, {"k": "new", "o": "p", "cls": c, "hp": hp, "f": "s", "use": True, "conv": True, "bare": True},
                   {"k": "new", "o": "q", "cls": c, "hp": hp, "f": "s", "use": True, "conv": True},
                   {"k": "set", "o": "p", "a": "RESP_CONTRIBUTION_ROOM" if c == "constants" else "inflation", "v": node(1)},
                   {"k": "write", "o": "q", "f": "t", "form": "self"},
                   {"k": "new", "o": "r", "cls": c, "hp": hp, "f": "t", "use": True, "conv": True},
                   {"k": "write", "o": "r", "f": "s2", "form": "other", "via": "p"},
                   {"k": "read", "o": "q", "f": "s2", "conv": True}]
            out.append({"setup": {}, "ops": ops})
    for _ in range(1500 if tier == "quick" else 25000):
        out.append(rand(rng))
    return out


def rand(rng):
    numstr = rng.random() < .4
    objs, files, ops = {}, {}, []  # files: written in high precision?
    for _ in range(rng.randint(3, 12)):
        k = rng.choice(["new", "put", "set", "set", "del", "write", "write", "read", "read", "dump", "assign"])
        if k == "new" or not objs:
            o = "o%d" % len(objs)
            hp = rng.random() < .5
            f = rng.choice([x for x in sorted(files) if hp or not files[x]] + ["none"])
            if rng.random() < .05:
                f = rng.choice(["missing", "list"])
            if f == "list":
                ops.append({"k": "put", "f": "list", "text": rng.choice(["[1]", "3", '"x"', "null"])})
            ops.append({"k": "new", "o": o, "cls": "sub", "hp": hp, "f": f, "use": rng.random() < .8,
                        "conv": rng.random() < .85, "ser": rng.random() < .3})
            if f not in ("missing", "list"):
                objs[o] = hp
            continue
        if k == "put":
            f = rng.choice("fg")
            ops.append({"k": "put", "f": f, "text": text(rng)})
            files[f] = False
            continue
        o = rng.choice(sorted(objs))
        hp = objs[o]
        if k == "set":
            ops.append({"k": k, "o": o, "a": rng.choice("abcdefg"), "v": node(tree(rng, hp, 2, numstr))})
        elif k == "del":
            ops.append({"k": k, "o": o, "a": rng.choice("abcdefg")})
        elif k == "assign":
            ops.append({"k": k, "o": o, "tree": node(table(rng, hp, numstr))})
        elif k == "dump":
            f = rng.choice("fg")
            ops.append({"k": k, "o": o, "f": f, "tree": node(table(rng, hp, numstr))})
            files[f] = hp
        elif k == "write":
            f = rng.choice("fg")
            via = rng.choice([x for x in objs if objs[x] == hp])
            ops.append({"k": k, "o": o, "f": f, "form": "self" if via == o else "other", "via": via})
            files[f] = hp
        elif [x for x in files if hp or not files[x]]:
            ops.append({"k": k, "o": o, "f": rng.choice([x for x in sorted(files) if hp or not files[x]]), "conv": rng.random() < .85})
    if not re.search(r"(\d\.?){16}", json.dumps(ops)) and rng.random() < .5:
        # (no number of many digits: a conversion that takes no text will do)
        for o in ops:
            if o["k"] == "new":
                o["nostr"] = True
    return {"setup": {}, "ops": ops}


def from_number(x):
    """ A high-precision conversion that takes numbers only. """
    if isinstance(x, str):
        raise TypeError("not a number")
    return Decimal(repr(x)) if isinstance(x, float) else Decimal(x)


def execute(s):
    with tempfile.TemporaryDirectory() as d:
        return run(s, d)


def run(s, d):
    objs, names, ev = {}, {}, []

    def path(f):
        return os.path.join(d, f + ".json")

    def obs(e):
        e["obj"] = {}
        for i, o in objs.items():
            at = {}
            for a in names[i]:
                v, t = attempt(getattr, o, a)
                at[a] = node(v) if t == "ok" else {"k": "none"} if t == "EXC:KeyError" else {"k": t}
            e["obj"][i] = {"vals": node(o.values), "attrs": at}
        ev.append(e)
    for o in s["ops"]:
        k = o["k"]
        e = {"ev": k, "err": "ok"}
        e.update({x: o[x] for x in ("o", "f", "a", "hp", "use", "conv") if x in o})
        if k in ("put", "ship"):
            if k == "ship":
                with open(resolve_path(SHIPPED[o["cls"]]), encoding="utf-8") as g:
                    t = g.read()
            else:
                t = o["text"]
            with open(path(o["f"]), "w", encoding="utf-8") as g:
                g.write(t)
            e.update(ev="put", tree=filenode(t))
        elif k == "new":
            c = CLS[o["cls"]]
            kw = {} if o["f"] == "none" or o.get("bare") else {"filename": path(o["f"])}
            if o["hp"]:
                kw["high_precision"] = from_number if o.get("nostr") else Decimal
                if o.get("ser"):
                    kw["high_precision_serialize"] = lambda x: format(x, "f")
            v, e["err"] = attempt(c, use_defaults=o["use"], numeric_convert=o["conv"], **kw)
            if e["err"] == "ok":
                objs[o["o"]] = v
                names[o["o"]] = "abcdefg" if c is Sub else [n for n in v.values if any(n in m.__dict__ for m in type(v).__mro__)]
            e["defs"] = {a: node(x) for a, x in DEFS.items()} if c is Sub else {}
        elif k == "read":
            _, e["err"] = attempt(objs[o["o"]].read, path(o["f"]), numeric_convert=o["conv"])
        elif k == "write":
            e["from"] = o["o"] if o["form"] == "self" else o["via"]
            a = [] if o["form"] == "self" else [objs[o["via"]]]
            _, e["err"] = attempt(objs[o["o"]].write, path(o["f"]), *a)
        elif k == "dump":
            t = value(o["tree"])
            _, e["err"] = attempt(objs[o["o"]].write, path(o["f"]), t)
            e.update(tree=o["tree"], after=node(t))
        elif k == "assign":
            _, e["err"] = attempt(setattr, objs[o["o"]], "values", value(o["tree"]))
            e["tree"] = o["tree"]
        elif k == "set":
            _, e["err"] = attempt(setattr, objs[o["o"]], o["a"], value(o["v"]))
            e["v"] = o["v"]
        elif k == "del":
            _, e["err"] = attempt(delattr, objs[o["o"]], o["a"])
        obs(e)
    return ev
