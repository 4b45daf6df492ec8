"""C22: figures given for some years extend to every year by indexation."""
import copy
import lib
from lib import attempt, enc, dec
lib.setup_path()
from forecaster.utility.inflation import nearest_year, extend_inflation_adjusted, build_inflation_adjust  # noqa: E402

MODELS = [dict(module="MCExtend", cfg="MCExtend.cfg", thorough_cfg="MCExtendT.cfg")]
TRACE = "C22Trace"
ASSUMPTIONS = ["price indices are positive and cover every queried year; tables of figures have one shape"]
NUMS = ["0", "1", "100", "-20", "1/4", "1/3", "50000", "1/100"]


def fig(rng, shape):
    if shape == "num":
        return {"k": "num", "v": rng.choice(NUMS)}
    if shape == "map":
        return {"k": "map", "v": {k: rng.choice(NUMS) for k in rng.sample(["0", "10", "500", "x", "y"], rng.randint(1, 3))}}
    return {"k": "seq", "v": [rng.choice(NUMS) for _ in range(rng.randint(1, 4))]}


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCExtend", []))
    rng.shuffle(gen)
    for b in gen[: 3000 if tier == "quick" else 60000]:
        tab = [{"y": int(y), "f": {"k": "num", "v": str(v)}} for y, v in b["tab"].items()]
        rng.shuffle(tab)
        idx = {str(2000 + i): str(v) for i, v in enumerate(b["idx"])}
        ys = [int(y) for y in idx]
        ops = [{"k": k, "y": y} for y in ys for k in ("nearest", "extend")]
        out.append({"setup": {"tab": tab, "idx": idx, "kind": rng.choice(["dict", "call"]), "first": 2000}, "ops": ops})
    for _ in range(2000 if tier == "quick" else 25000):
        lo = rng.choice([1990, 2000, 0, -3])
        ys = list(range(lo, lo + rng.randint(1, 14)))
        shape = rng.choice(["num", "map", "seq", "seq"])
        listed = rng.sample(ys, rng.randint(0, min(5, len(ys))))
        tab = [{"y": y, "f": fig(rng, shape)} for y in listed]
        idx = {str(y): rng.choice(["1", "2", "11/10", "1/2", "3/4"]) for y in ys}
        ops = []
        for _ in range(8):
            y = rng.choice(ys)
            k = rng.choice(["nearest", "extend", "extend", "extend", "adjust", "adjust"])
            o = {"k": k, "y": y}
            if k == "adjust":
                o["b"] = rng.choice(ys + [None])
            ops.append(o)
        if rng.random() < .05:
            ops.append({"k": "reject", "v": rng.choice([3, "x", [1]])})
        items = list(idx.items())
        rng.shuffle(items)
        out.append({"setup": {"tab": tab, "idx": dict(items), "kind": rng.choice(["none", "dict", "call"]), "first": lo,
                              "tuple": rng.random() < .5}, "ops": ops})
    return out


def build(f, tup):
    if f["k"] == "num":
        return dec(f["v"])
    if f["k"] == "map":
        return {(k if k in "xy" else dec(k)): dec(v) for k, v in f["v"].items()}
    v = [dec(x) for x in f["v"]]
    return tuple(v) if tup else v


def unbuild(v):
    if isinstance(v, dict):
        return {"k": "map", "v": {(k if isinstance(k, str) else enc(k)): enc(x) for k, x in v.items()}}
    if isinstance(v, (list, tuple)):
        return {"k": "seq", "v": [enc(x) for x in v]}
    return {"k": "num", "v": enc(v)}


def execute(s):
    S = s["setup"]
    tab = {r["y"]: build(r["f"], S.get("tuple")) for r in S["tab"]}
    tab0 = copy.deepcopy(tab)
    idx = {int(k): dec(v) for k, v in S["idx"].items()}
    first = S["first"]
    if S["kind"] == "none":
        adj = build_inflation_adjust()
    elif S["kind"] == "dict":
        adj = build_inflation_adjust(idx)
    else:
        def g(target_year, base_year=None):
            return idx[target_year] / idx[first if base_year is None else base_year]
        adj = build_inflation_adjust(g)
    # the figures the code sees (floats), exactly
    ev = [{"ev": "table", "tab": [{"y": y, "f": unbuild(f)} for y, f in tab.items()]}]
    for o in s["ops"]:
        k = o["k"]
        if k == "nearest":
            v, t = attempt(nearest_year, tab, o["y"])
            ev.append({"ev": k, "y": o["y"], "out": v if isinstance(v, int) else -99999, "none": t == "ok" and v is None,
                       "same": tab == tab0})
        elif k == "extend":
            v, t = attempt(extend_inflation_adjusted, tab, adj, o["y"])
            same_type = t != "ok" or not tab or isinstance(v, type(next(iter(tab.values()))).__mro__[0] if not isinstance(
                next(iter(tab.values())), (int, float)) else (int, float))
            ev.append({"ev": k, "y": o["y"], "out": unbuild(v) if t == "ok" else {"k": "num", "v": "nan"}, "err": t,
                       "type": same_type, "same": tab == tab0})
        elif k == "adjust":
            a = [o["y"]] + ([] if o["b"] is None else [o["b"]])
            v, t = attempt(adj, *a)
            ev.append({"ev": k, "t": o["y"], "b": 0 if o["b"] is None else o["b"], "hasb": o["b"] is not None,
                       "out": enc(v) if t == "ok" else "nan"})
        elif k == "reject":
            ev.append({"ev": k, "out": attempt(build_inflation_adjust, o["v"])[1]})
    return ev
