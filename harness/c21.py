"""C21: scenario growth factors compose and invert."""
import copy
import lib
from lib import attempt, enc, dec
lib.setup_path()
from forecaster.scenario import Scenario  # noqa: E402

MODELS = [dict(module="MCScenario", cfg="MCScenario.cfg", thorough_cfg="MCScenarioT.cfg")]
TRACE = "C21Trace"
ASSUMPTIONS = ["only years for which the series has a rate are queried"]
SER = ["inflation", "stock_return", "bond_return", "other_return", "management_fees"]
RATES = ["0", "1/50", "1/8", "-1/4", "1", "-1/2", "1/3", "3", "-9/10"]


def series(rng, init, n):
    k = rng.choice(["const", "list", "table"])
    if k == "const":
        return {"k": k, "v": rng.choice(RATES)}
    if k == "list":
        return {"k": k, "v": [rng.choice(RATES) for _ in range(n + rng.choice([0, 0, 3]))]}
    lo, hi = init - rng.choice([0, 5]), init + n + rng.choice([0, 5])
    return {"k": k, "v": {str(y): rng.choice(RATES) for y in range(lo, hi)}}


def years_of(s, init):
    if s["k"] == "const":
        return init - 7, init + 50
    if s["k"] == "list":
        return init, init + len(s["v"])
    ys = [int(y) for y in s["v"]]
    return min(ys), max(ys) + 1


def ops_for(rng, setup, m):
    init, n = setup["init"], setup["n"]
    lo, hi = years_of(setup["series"]["inflation"], init)
    hi = min(hi, lo + 60)
    ops = [{"k": "years"}, {"k": "input"}]
    for _ in range(m):
        a, b, c = (rng.randint(lo, hi) for _ in range(3))
        k = rng.choice(["accum", "adjust", "adjust0", "adjustments", "compose", "rate", "discount"])
        if k == "adjustments":
            if not (lo <= init and init + n - 1 <= hi):
                continue
        if k == "adjust0" and not lo <= init <= hi:
            continue
        if k == "rate":
            s = rng.choice(SER)
            l2, h2 = years_of(setup["series"][s], init)
            ops.append({"k": k, "name": s, "y": rng.randrange(l2, h2)})
        elif k == "discount":
            ops.append({"k": k, "y": rng.randrange(lo, hi)})
        else:
            ops.append({"k": k, "a": a, "b": b, "c": c})
    rng.shuffle(ops)
    return ops + [{"k": "input"}]


def scenarios(tier, rng, beh):
    out = []
    for b in beh.get("MCScenario", []):
        n = len(b["rates"])
        setup = {"init": 2000, "n": n, "series": {s: {"k": "list", "v": b["rates"]} for s in SER}}
        ops = [{"k": "years"}] + [{"k": "compose", "a": x, "b": y, "c": z} for x in range(2000, 2001 + n)
                                  for y in range(2000, 2001 + n) for z in range(2000, 2001 + n)]
        ops += [{"k": "accum", "a": x, "b": y, "c": 0} for x in range(2000, 2001 + n) for y in range(2000, 2001 + n)]
        ops += [{"k": "adjustments", "a": x, "b": 0, "c": 0} for x in range(2000, 2001 + n)]
        out.append({"setup": setup, "ops": ops})
    for _ in range(1500 if tier == "quick" else 15000):
        init, n = rng.choice([2000, 2019, 1995, 1]), rng.randint(1, 45)
        setup = {"init": init, "n": n, "series": {s: series(rng, init, n) for s in SER}}
        if rng.random() < .5:
            setup["omit"] = True
            for x in SER:
                if rng.random() < .4:
                    setup["series"][x] = {"k": "const", "v": "0"}
        out.append({"setup": setup, "ops": ops_for(rng, setup, 14)})
    for n in [0, -1, -20]:
        out.append({"setup": {"init": 2000, "n": 1, "series": {s: {"k": "const", "v": "0"} for s in SER}},
                    "ops": [{"k": "bad", "n": n}]})
    return out


def inp(s):
    if s["k"] == "const":
        return dec(s["v"])
    if s["k"] == "list":
        return [dec(x) for x in s["v"]]
    return {int(k): dec(v) for k, v in s["v"].items()}


def num(f, *a):
    v, t = attempt(f, *a)
    return enc(v) if t == "ok" else "nan"


def execute(s):
    S = s["setup"]
    ev = []
    ins = {k: inp(v) for k, v in S["series"].items()}
    if S.get("omit"):  # a series that is not given is zero
        ins = {k: v for k, v in ins.items() if S["series"][k] != {"k": "const", "v": "0"}}
    ins0 = copy.deepcopy(ins)
    sc = Scenario(S["init"], S["n"], **ins)
    adj = sc.inflation_adjust  # kept, as by the objects of a forecast
    sc2 = Scenario(S["init"], S["n"], **dict(ins, inflation=dec("0")))  # another one, in use at the same time
    adj2 = sc2.inflation_adjust
    for o in s["ops"]:
        k = o["k"]
        if k == "years":
            ev.append({"ev": k, "out": list(sc), "len": len(sc)})
        elif k == "accum":
            v, t = attempt(sc.accumulation_function, o["a"], o["b"])
            ev.append({"ev": k, "y1": o["a"], "y2": o["b"], "out": enc(v), "err": t})
        elif k == "adjust":
            ev.append({"ev": k, "target": o["a"], "base": o["b"], "hasbase": True, "out": num(adj, o["a"], o["b"])})
            num(adj2, o["b"], o["a"])
        elif k == "adjust0":
            ev.append({"ev": "adjust", "target": o["a"], "base": 0, "hasbase": False, "out": num(sc.inflation_adjust, o["a"])})
        elif k == "adjustments":
            v, t = attempt(sc.inflation_adjustments, o["a"])
            ev.append({"ev": k, "base": o["a"], "out": {str(y): enc(x) for y, x in v.items()} if t == "ok" else {}})
        elif k == "compose":
            f = sc.accumulation_function if o["a"] % 2 else (lambda y, z: adj(z, y))
            a, b, c = o["a"], o["b"], o["c"]
            ev.append({"ev": k, "ab": num(f, a, b), "bc": num(f, b, c), "ac": num(f, a, c), "ba": num(f, b, a)})
        elif k == "rate":
            ev.append({"ev": k, "name": o["name"], "y": o["y"], "out": num(getattr(sc, o["name"]).__getitem__, o["y"])})
        elif k == "discount":
            ev.append({"ev": k, "y": o["y"], "out": num(sc.discount_rate, o["y"])})
        elif k == "input":
            ev.append({"ev": k, "same": ins == ins0})
        elif k == "bad":
            ev.append({"ev": "error", "out": attempt(Scenario, 2000, o["n"])[1]})
    return ev
