"""C20: asset allocations are always feasible and sum to one."""
import lib
from lib import attempt, enc, dec
lib.setup_path()
from forecaster import Scenario, Person, AllocationStrategy, Account  # noqa: E402
from forecaster.strategy.allocation import AssetAllocation  # noqa: E402
from forecaster.strategy.base import strategy_method  # noqa: E402

MODELS = [dict(module="MCAllocation", cfg="MCAllocation.cfg", thorough_cfg="MCAllocationT.cfg")]
TRACE = "C20Trace"
ASSUMPTIONS = ["ages and retirement ages are whole years or halves; users' own strategies give shares that sum to one"]
NAMES = {"n-age": "n-age", "transition": "Transition to constant"}
PCT = ["0", "1/8", "1/4", "1/3", "1/2", "3/4", "9/10", "1"]


class Own(AllocationStrategy):
    """A user's own strategy."""
    shares = None

    @strategy_method("fixed")
    def fixed(self, age, *args, retirement_age=None, **kwargs):
        return AssetAllocation(*self.shares)


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCAllocation", []))
    rng.shuffle(gen)
    for b in gen[:1200 if tier == "quick" else 100000]:
        ops = [{"k": "alloc", "age": str(a), "ret": b["ret"]} for a in range(20, 95, 5)]
        out.append({"setup": b["p"], "ops": ops})
    for _ in range(2500 if tier == "quick" else 30000):
        lo, hi = sorted([rng.choice(PCT), rng.choice(PCT)], key=lambda x: dec(x))
        kind = rng.choice(["n-age", "transition", "transition", "fixed"])
        fixed = "none"
        if kind == "fixed":
            s = rng.choice(["0", "1/8", "1/2", "3/4", "1"])
            bonds = rng.choice(["0", "1/8", "1/4", "1/2", "3/4", "1"])
            if dec(s) + dec(bonds) > 1:
                bonds = enc(1 - dec(s))
            fixed = {"stocks": s, "bonds": bonds, "other": enc(1 - dec(s) - dec(bonds))}
        p = {"kind": kind, "target": rng.choice(["100", "110", "125", "85", "130", "165"]) if kind == "n-age" else rng.choice(PCT),
             "min": lo, "max": hi, "std": rng.choice(["65", "60", "55"]), "period": rng.choice(["20", "10", "1", "0", "30"]),
             "adjust": rng.random() < .6, "fixed": fixed, "default": rng.random() < .1}
        if p["default"]:
            p.update(min="0", max="1", std="65", period="20", adjust=True)
        ops = []
        for _ in range(6):
            age = rng.choice([str(rng.randint(0, 110)), enc(rng.randint(60, 160) / 2)])
            ret = rng.choice([55, 60, 65, 70, 45, 66])
            if p["adjust"] is False and rng.random() < .3:
                ret = None
            ops.append({"k": "alloc", "age": age, "ret": ret})
        for _ in range(3):
            y0 = rng.choice([2000, 2017])
            ops.append({"k": "rate", "born": "%d-%02d-%02d" % (rng.randint(1920, 1995), rng.randint(1, 12), rng.randint(1, 28)),
                        "ret": rng.randint(45, 75), "later": rng.choice([0, 0, 0, rng.randint(45, 75)]),
                        "via": rng.choice(["call", "call", "account"]), "y0": y0, "years": [y0 + rng.randint(0, 30) for _ in range(3)],
                        "returns": {a: {"k": k, "v": [rng.choice(["1/10", "0", "-1/4", "1/50", "1"]) for _ in range(31)]}
                                    for a, k in zip(["stocks", "bonds", "other"], [rng.choice(["c", "l"]) for _ in range(3)])}})
        if rng.random() < .05:
            ops.append({"k": "bad"})
        rng.shuffle(ops)
        if rng.random() < .4:       # a setting changed in the life of the strategy
            kk = rng.choice(["target", "min", "max", "std", "period", "adjust"])
            v = {"target": p["target"], "min": "0", "max": "1", "std": rng.choice(["65", "58"]), "period": rng.choice(["25", "5"]),
                 "adjust": rng.random() < .5}[kk]
            if kk == "target":
                v = rng.choice(["90", "120", "75"]) if kind == "n-age" else rng.choice(PCT)
            elif kk == "min":
                v = rng.choice([x for x in PCT if dec(x) <= dec(p["max"])])
            elif kk == "max":
                v = rng.choice([x for x in PCT if dec(x) >= dec(p["min"])])
            at = rng.randint(0, len(ops))
            q = dict(p)
            q[kk] = v
            for o in ops[at:]:
                if o["k"] == "alloc" and o["ret"] is None and q["adjust"]:
                    o["ret"] = 62
            ops = ops[:at] + [{"k": "set", "p": kk, "v": v}] + ops[at:]
        out.append({"setup": p, "ops": ops})
    return out


def execute(s):
    p = s["setup"]
    kw = {} if p.get("default") else dict(
        min_equity=dec(p["min"]), max_equity=dec(p["max"]), standard_retirement_age=dec(p["std"]),
        risk_transition_period=dec(p["period"]), adjust_for_retirement_plan=p["adjust"])
    if p["kind"] == "fixed":
        st = Own("fixed", dec(p["target"]), **kw)
        st.shares = [dec(p["fixed"][k]) for k in ("stocks", "bonds", "other")]
    else:
        name = NAMES[p["kind"]]
        st = AllocationStrategy(AllocationStrategy.strategies[name] if p["adjust"] else name, dec(p["target"]), **kw)
    ev = []
    none = {"stocks": "nan", "bonds": "nan", "other": "nan"}
    for o in s["ops"]:
        k = o["k"]
        if k == "alloc":
            v, t = attempt(st, dec(o["age"]), retirement_age=o["ret"])
            ev.append({"ev": k, "age": o["age"], "ret": "65" if o["ret"] is None else str(o["ret"]), "err": t,
                       "out": {"stocks": enc(v.stocks), "bonds": enc(v.bonds), "other": enc(v.other)} if t == "ok" else none})
        elif k == "rate":
            who = Person(o["y0"], "P", o["born"], retirement_date="2060-01-01")
            who.retirement_age = o["ret"]
            rs = {a: (dec(r["v"][0]) if r["k"] == "c" else [dec(x) for x in r["v"]]) for a, r in o["returns"].items()}
            sc = Scenario(o["y0"], 31, stock_return=rs["stocks"], bond_return=rs["bonds"], other_return=rs["other"])
            f = st.rate_function(who, sc)
            years = o["years"]
            if o["via"] == "account":
                acct = Account(who, balance=dec("100"), rate=f)
                years = sorted(set(years))
            for i, y in enumerate(years):
                if o["later"] and i == len(years) - 1:
                    who.retirement_age = o["later"]
                if o["via"] == "account":
                    while acct.this_year < y:
                        acct.next_year()
                    v, t = attempt(lambda: acct.rate)
                else:
                    v, t = attempt(f, y)
                ev.append({"ev": k, "age": enc(who.age(y)), "ret": str(o["later"] if o["later"] and i == len(years) - 1 else o["ret"]), "err": t, "out": enc(v) if t == "ok" else "nan",
                           "returns": {a: r["v"][0 if r["k"] == "c" else y - o["y0"]] for a, r in o["returns"].items()}})
        elif k == "set":
            attr = {"target": "target", "min": "min_equity", "max": "max_equity", "std": "standard_retirement_age",
                    "period": "risk_transition_period", "adjust": "adjust_for_retirement_plan"}[o["p"]]
            _, t = attempt(setattr, st, attr, o["v"] if o["p"] == "adjust" else dec(o["v"]))
            ev.append({"ev": k, "p": o["p"], "v": o["v"], "err": t})
        elif k == "bad":
            ev.append({"ev": k, "out": attempt(AllocationStrategy, "n-age", 100, min_equity=.75, max_equity=.5)[1]})
    return ev
