"""C09: income tax is the inflation-indexed bracket function of taxable income."""
import copy
import lib
from lib import attempt, enc, dec, encmap
lib.setup_path()
from forecaster import Tax  # noqa: E402

MODELS = [dict(module="MCTax", cfg="MCTax.cfg", thorough_cfg="MCTaxT.cfg", workers=6)]
TRACE = "C09Trace"
ASSUMPTIONS = ["rates and credits are not negative; indexation composes over years (a price index)"]
THR = ["0", "10", "100", "1000", "20000", "45961.23", "100000", "5", "250"]
RATE = ["0", "1/10", "1/5", "1/4", "1/3", "1/2", "1", "3/20"]


def fr(x):
    return enc(float(x)) if "." in x else x


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCTax", []))
    rng.shuffle(gen)
    for b in gen[:800 if tier == "quick" else 20000]:
        ops = []
        for y in b["log"]:
            qs = [{"k": k, "y": y} for k in ("brackets", "accum")]
            qs += [{"k": "tax", "y": y, "x": str(x), "ded": "0", "cred": "0"} for x in (0, 1, 5, 7, 10, 25, 60)]
            qs += [{"k": "marginal", "y": y, "x": str(x)} for x in (0, 5, 7, 10, 20, 60)]
            rng.shuffle(qs)
            ops += qs[:6]
        out.append({"setup": {"tab": b["given"], "ded": {}, "rate": {}, "price": b["price"], "real": False}, "ops": ops})
    for _ in range(1800 if tier == "quick" else 25000):
        out.append(rand(rng))
    return out


def rand(rng):
    lo = rng.choice([2000, 2015])
    ys = list(range(lo, lo + rng.randint(1, 10)))
    tab = {}
    for y in rng.sample(ys, min(len(ys), rng.choice([1, 1, 2, 3]))):
        ks = rng.sample(THR, rng.randint(1, 5))
        if rng.random() < .8 and "0" not in ks:
            ks[0] = "0"
        tab[str(y)] = {fr(k): rng.choice(RATE) for k in ks}
    ded = {str(y): rng.choice(["0", "100", "11635"]) for y in rng.sample(ys, min(len(ys), rng.choice([0, 1, 2])))}
    rate = {str(y): rng.choice(["1/10", "3/20", "1", "0"]) for y in rng.sample(ys, min(len(ys), rng.choice([0, 1, 2])))}
    price = {str(y): rng.choice(["1", "2", "1/2", "4", "5/4", "1.02", "1.331"]) for y in ys}
    price = {k: fr(v) for k, v in price.items()}
    ops = []
    for _ in range(14):
        y = rng.choice(ys)
        if rng.random() < .03:
            ks = rng.sample(THR, rng.randint(1, 4))
            ops.append({"k": "add", "y": y, "b": {fr(t): rng.choice(RATE) for t in ks}})
            continue
        k = rng.choice(["brackets", "accum", "accum1", "bracket1", "deduction", "credit_rate", "marginal", "tax", "tax", "tax", "order", "input"])
        o = {"k": k, "y": y}
        if k in ("marginal", "tax", "order"):
            o["x"] = fr(rng.choice(THR + ["1", "50", "7", "150", "30000", "60000", "1000000", "-5", "17.25"]))
        if k == "tax":
            o["ded"] = rng.choice(["0", "0", "50", "1000", "11635"])
            o["cred"] = rng.choice(["0", "0", "10", "100", "5000"])
            o["via"] = rng.choice(["call", "money"])
        if k == "order":
            o["x2"] = fr(rng.choice(THR + ["1", "60", "1000000"]))
        ops.append(o)
    return {"setup": {"tab": tab, "ded": ded, "rate": rate, "price": price, "real": rng.random() < .1,
                      "call": rng.random() < .5}, "ops": ops}


def execute(s):
    S = s["setup"]
    tab = {int(y): {dec(k): dec(v) for k, v in b.items()} for y, b in S["tab"].items()}
    ded = {int(y): dec(v) for y, v in S["ded"].items()}
    rate = {int(y): dec(v) for y, v in S["rate"].items()}
    price = {int(y): dec(v) for y, v in S["price"].items()}
    orig = copy.deepcopy((tab, ded, rate, price))
    kw = {}
    if ded:
        kw["personal_deduction"] = ded
    if rate:
        kw["credit_rate"] = rate
    if not S["real"]:
        kw["inflation_adjust"] = (lambda t, b: price[t] / price[b]) if S.get("call") else price
    tax = Tax(tab, **kw)
    ev = [{"ev": "tables", "y": 2000, "tab": {str(y): encmap(b) for y, b in tab.items()},
           "ded": {str(y): enc(v) for y, v in ded.items()}, "rate": {str(y): enc(v) for y, v in rate.items()},
           "price": {str(y): enc(v) for y, v in price.items()}}]
    for o in s["ops"]:
        k, y = o["k"], o["y"]
        if k == "add":
            # A year's brackets are added later than the others.
            b = {dec(t): dec(v) for t, v in o["b"].items()}
            _, t = attempt(tax.add_brackets, b, y)
            ev.append({"ev": k, "y": y, "b": encmap(b), "err": t})
        elif k == "brackets":
            v, t = attempt(tax.tax_brackets, y)
            ev.append({"ev": k, "y": y, "out": encmap(v) if t == "ok" else {}, "err": t})
        elif k == "accum":
            v, t = attempt(tax.accum, y)
            ev.append({"ev": k, "y": y, "out": encmap(v) if t == "ok" else {}, "err": t})
        elif k == "bracket1":
            v, t = attempt(lambda: {b: tax.tax_brackets(y, b) for b in list(tax.tax_brackets(y))})
            ev.append({"ev": "brackets", "y": y, "out": encmap(v) if t == "ok" else {}, "err": t})
        elif k == "accum1":
            v, t = attempt(lambda: {b: tax.accum(y, b) for b in list(tax.accum(y))})
            ev.append({"ev": "accum", "y": y, "out": encmap(v) if t == "ok" else {}, "err": t})
        elif k == "deduction":
            v, t = attempt(tax.personal_deduction, y)
            ev.append({"ev": k, "y": y, "out": enc(v), "err": t})
        elif k == "credit_rate":
            v, t = attempt(tax.credit_rate, y)
            ev.append({"ev": k, "y": y, "out": enc(v), "err": t})
        elif k == "marginal":
            v, t = attempt(tax.marginal_bracket, dec(o["x"]), y)
            r, t2 = attempt(tax.marginal_rate, dec(o["x"]), y)
            ev.append({"ev": k, "y": y, "x": o["x"], "out": enc(v), "rate": enc(r), "err": t if t != "ok" else t2})
        elif k == "tax":
            f = tax.tax_money if o.get("via") == "money" else tax
            kw = {}
            if o["ded"] != "0":
                kw["deduction"] = dec(o["ded"])
            if o["cred"] != "0":
                kw["credit"] = dec(o["cred"])
            v, t = attempt(f, dec(o["x"]), y, **kw)
            ev.append({"ev": k, "y": y, "x": o["x"], "ded": o["ded"], "cred": o["cred"], "out": enc(v), "err": t})
        elif k == "order":
            v, t = attempt(tax, dec(o["x"]), y)
            w, t2 = attempt(tax, dec(o["x2"]), y)
            ev.append({"ev": k, "y": y, "x1": o["x"], "x2": o["x2"], "out1": enc(v), "out2": enc(w), "err": t if t != "ok" else t2})
        elif k == "input":
            ev.append({"ev": k, "y": y, "same": (tab, ded, rate, price) == orig, "err": "ok"})
    return ev
