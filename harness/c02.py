"""C02: balances follow growth and transactions exactly."""
from acct import *  # noqa: F401,F403
import acct

MODELS = [dict(module="MCAccount", cfg="MCAccount.cfg", thorough_cfg="MCAccountT.cfg")]
TRACE = "AccountTrace"
ASSUMPTIONS = ["rates above -100% per period", "nothing is added to transactions that the user gave for a year"]


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCAccount", []))
    rng.shuffle(gen)
    for b in gen[: 3000 if tier == "quick" else 60000]:
        n = b["nper"]
        ops = []
        for o in b["ops"]:
            ops.append(o)
            if o["op"] == "next":
                ops.append({"op": "hist"})
        ops += [{"op": "at", "t": "0"}, {"op": "at", "t": "1"}, {"op": "returns"}, {"op": "reach", "v": "2", "t": "0"},
                {"op": "next"}, {"op": "next"}, {"op": "hist"}]
        out.append({"setup": {"first": 2000, "open": b["open"], "rates": b["rates"], "nper": n,
                              "given": b["given"] or {}, "kind": "account", "dw": {"1/2": "1"}, "lims": dict(FREE)},
                    "cls": "Account", "nper": int(n), "ops": ops})
    for _ in range(2500 if tier == "quick" else 40000):
        out.append(rand(rng))
    for _ in range(60 if tier == "quick" else 1000):
        out.append({"pure": True, "setup": {"first": 2000, "open": "0", "rates": {"*": "0"}, "nper": "1", "given": {},
                                            "kind": "account", "dw": {"1": "1"}, "lims": dict(FREE)},
                    "ops": [rand_pure(rng) for _ in range(12)]})
    return out


def rand_pure(rng):
    n = rng.choice(["C"] + [str(i) for i in (1, 2, 4, 6, 12, 24, 26, 52, 365)])
    return {"t": rng.choice(TIMES + ["-1", "-1/2", "2", "10"]), "n": n,
            "r": rng.choice(["0", "1/16", "1/2", "-1/4", "1", "-1/2", "2"]),
            "v": rng.choice(VALUES), "from": rng.choice(TIMES), "to": rng.choice(TIMES)}


def rand(rng):
    cls = rng.choice(["Account"] * 6 + ["Debt", "Taxable", "RRSP", "TFSA", "House", "Limited"])
    s = rand_setup(rng, cls)
    if cls == "Taxable":    # overdrawing one is outside the property: its cost base is undefined
        s["setup"]["open"] = "100000"
        s["setup"]["given"] = {}
        s["setup"]["rates"] = {"*": "1/16"}
    ops = []
    for _ in range(rng.randrange(4, 18)):
        k = rng.random()
        t = rng.choice(TIMES)
        if cls != "Taxable" and rng.random() < .04:
            ops.append(rand_change(rng))
        elif k < .28:
            o = {"op": "add", "t": t, "v": rng.choice(VALUES)}
            if t == "1" and rng.random() < .5:
                o["word"] = "end"
            if t == "0" and rng.random() < .5:
                o["word"] = "start"
            if t == "1" and rng.random() < .3:
                o["default"] = True
            ops.append(o)
        elif k < .3:
            ops.append({"op": "addbad", "t": rng.choice(["-1/2", "2", "9/8"]), "v": "5"})
        elif k < .34:
            ops.append({"op": "put", "t": t, "v": rng.choice(VALUES)})
        elif k < .37:
            ops.append({"op": "del", "t": t})
        elif k < .38:
            ops.append({"op": "clear"})
        elif k < .40 and cls not in ("Taxable",):
            ops.append({"op": "setopen", "v": rng.choice(["100", "64", "1000"])})
        elif k < .42:
            ops.append({"op": "setrate", "v": "1/4" if cls == "Taxable" else rng.choice(RATES)})
        elif k < .55:
            o = {"op": "at", "t": t, "extra": rand_sched(rng) if rng.random() < .4 else None}
            if t == "1" and rng.random() < .3:
                o["word"] = "end"
            if t == "0" and rng.random() < .3:
                o["word"] = "start"
            ops.append(o)
        elif k < .63:
            ops.append({"op": "returns"})
        elif k < .75:
            ops.append({"op": "reach", "t": t, "v": rng.choice(["0", "100", "200", "-50", "1000", "1500", "64", "150", "90",
                                                               "-200", "2"]),
                        "default": rng.random() < .3 })
        elif k < .8:
            ops.append({"op": "txs", "form": rng.choice(["get", "items", "zip", "item"])})
        elif k < .83:
            ops.append({"op": "sums", "extra": rand_sched(rng) if rng.random() < .5 else None})
        else:
            ops.append({"op": "next"})
    if rng.random() < .4:
        ops = rand_again(rng, ops, cls)
    s["ops"] = ops + [{"op": "returns"}, {"op": "next"}, {"op": "read"}, {"op": "hist"}]
    return s
