"""C07: retirement plans: conversion, minimum withdrawals and tax facts."""
import lib
from lib import attempt, enc, dec, encmap, decmap
lib.setup_path()
from forecaster import Person  # noqa: E402
from forecaster.canada import RRSP  # noqa: E402
from forecaster.canada.constants import ConstantsCanada  # noqa: E402

MODELS = [dict(module="MCRrsp", cfg="MCRrsp.cfg", thorough_cfg="MCRrspT.cfg")]
TRACE = "C07Trace"
ASSUMPTIONS = ["plans are not overdrawn", "the table of minimum fractions has an entry for every age of the range it covers"]
MLAW = {"last": "71", "least": {"71": "1/8", "72": "1/4"}, "wh": {"2000": {"0": "1/10", "10": "1/5"}}}


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCRrsp", []))
    rng.shuffle(gen)
    price = {str(y): "1" for y in range(1950, 2130)}
    price.update({str(y): "2" for y in range(2001, 2130) if y != 2017})
    for b in gen[:1500 if tier == "quick" else 60000]:
        ops = []
        for o in b["ops"]:
            if o["op"] == "convert":
                ops.append({"op": "convert", "y": str(o["y"]), "how": "set", "w": {}})
            elif o["op"] == "add":
                ops.append({"op": "add", "t": str(o["y"]), "v": o["v"], "w": {}})
            elif o["op"] == "comply":
                ops.append({"op": "comply", "w": {"1/2": "1"}})
            else:
                ops.append({"op": "next", "w": {}})
        out.append({"setup": {"first": 2000, "open": "80", "rates": {"*": "0"}, "nper": "1", "shared": "0"}, "law": MLAW, "price": price,
                    "born": b["born"], "born_c": b["bornc"], "gross": "40000", "room": "10", "conv": "auto", "ops": ops})
    for _ in range(2500 if tier == "quick" else 50000):
        out.append(rand(rng))
    return out


def rand(rng):
    first = rng.choice([2000, 2016, 2017, 2025])
    age = rng.choice([71, 70, 69, 65, 60, 50, 80, 88, 89, 90, 94, 95, 96, 72, 40, 20, rng.randint(18, 100)])
    n = rng.randint(2, 6)
    price = {str(y): rng.choice(["1", "2", "3/2", "5/4", "4/5", "1"]) for y in range(1950, 2130)}
    if rng.random() < .3:
        price = {y: "1" for y in price}
    law = {}
    if rng.random() < .5:
        lo = rng.choice([71, 60, 75])
        hi = lo + rng.randint(0, 10)
        lo = min(lo, 80)
        least = {str(x): rng.choice(["1/8", "1/4", "1/20", "3/100", "1"]) for x in range(lo, hi + 1)}
        if rng.random() < .5:
            least = dict(zip(least, sorted(least.values(), key=lambda v: dec(v))))
        br = rng.sample(["1000", "5000", "15000", "40000"], rng.randint(1, 3))
        law = {"last": rng.choice(["71", "65", "69", "75"]), "least": least,
               "wh": {str(y): dict([("0", "1/10")] + [(b, rng.choice(["1/5", "3/10", "1/2", "1/20"])) for b in br])
                      for y in rng.sample([2000, 2010, 2017, 2018, 2030], rng.randint(1, 2))}}
    rates = {"*": rng.choice(["0", "1/20", "0", "1/10"])}
    for y in range(first, first + n + 1):
        if rng.random() < .3:
            rates[str(y)] = rng.choice(["0", "1/10", "-1/5", "1/4"])
    ops = []
    years = list(range(first - 3, first + 12))

    def w():
        return rng.choice([{}, {}, {"1": "1"}, {"0": "1"}, {"0": "1", "1": "1"}, {"1/2": "1", "1": "3"}])
    for y in range(n):
        for _ in range(rng.randint(0, 4)):
            k = rng.random()
            if k < .2:
                ops.append({"op": "convert", "y": str(rng.choice(years)), "how": rng.choice(["set", "convert", "set_str"]), "w": w()})
            elif k < .27:
                ops.append({"op": "convert", "y": "now", "how": "convert", "w": w()})
            elif k < .33:
                ops.append({"op": "auto", "w": w()})
            elif k < .6:
                ops.append({"op": "comply", "w": w()})
            elif k < .75:
                ops.append({"op": "add", "t": rng.choice(["0", "1/2", "1"]), "v": rng.choice(["500", "2000", "10"]), "w": w()})
            else:
                ops.append({"op": "take", "t": rng.choice(["0", "1/2", "1"]), "w": w(),
                            "v": rng.choice(["1000", "1001", "5000", "15000", "25000", "4999", "300", "100000", "7000"])})
        ops.append({"op": "next", "w": w()})
    return {"setup": {"first": first, "open": rng.choice(["100000", "250000", "1000", "40000", "0"]), "rates": rates,
                      "nper": rng.choice(["1", "1", "4", "C"]), "shared": rng.choice(["0", "0", "0", "3000", "20000", "100000"])},
            "gross": rng.choice(["0", "1000", "40000", "300000"]), "room": rng.choice(["0", "0", "500", "10000"]),
            "law": law, "price": price, "born": first - age, "born_c": first - age if rng.random() < .8 else first - rng.randint(20, 90),
            "conv": rng.choice(["auto", "auto", str(rng.choice(years))]), "ops": ops}


def execute(s):
    S = s["setup"]
    first = S["first"]
    cons = ConstantsCanada()
    law = s["law"]
    if law:
        cons.RRSP_RRIF_CONVERSION_AGE = int(law["last"])
        cons.RRSP_RRIF_WITHDRAWAL_MIN = {int(a): dec(v) for a, v in law["least"].items()}
        cons.RRSP_WITHHOLDING_TAX_RATE = {int(y): {dec(b): dec(r) for b, r in t.items()} for y, t in law["wh"].items()}
    seen = {"last": enc(cons.RRSP_RRIF_CONVERSION_AGE), "least": {str(a): enc(v) for a, v in cons.RRSP_RRIF_WITHDRAWAL_MIN.items()},
            "wh": {str(y): {enc(b): enc(r) for b, r in t.items()} for y, t in cons.RRSP_WITHHOLDING_TAX_RATE.items()}}
    price = {int(y): dec(v) for y, v in s["price"].items()}
    p = Person(first, "p", "%d-06-15" % s["born"], retirement_date="%d-01-01" % (first + 20), gross_income=dec(s["gross"]))
    c = p if s["born_c"] == s["born"] else Person(first, "p", "%d-06-15" % s["born_c"], retirement_date="%d-01-01" % (first + 20),
                                                  gross_income=dec(s["gross"]))
    R = S["rates"]

    def rate(y):
        return dec(R.get(str(y), R["*"]))
    ev = [{"ev": "law", "law": seen, "price": s["price"], "born": s["born"], "bornc": s["born_c"]}]
    k = {"min_outflow_link": (p, "shared"), "min_outflow_limit": dec("-" + S["shared"])} if S["shared"] != "0" else {}
    a, err = attempt(lambda: RRSP(p, balance=dec(S["open"]), rate=rate, nper=S["nper"] if S["nper"] == "C" else int(S["nper"]),
                                  inflation_adjust=price, constants=cons, contributor=c, contribution_room=dec(s["room"]),
                                  rrif_conversion_year=None if s["conv"] == "auto" else int(s["conv"]),
                                  default_timing={dec("1"): dec("1")}, **k))

    def obs(o):
        w = decmap(o["w"]) if o["w"] else None
        return {"w": o["w"], "conv": str(a.rrif_conversion_year), "least": enc(a.minimum_distribution()), "limit": enc(a.min_outflow_limit),
                "must": encmap(a.min_outflows(timing=w)), "taxable": enc(a.taxable_income), "deduction": enc(a.tax_deduction),
                "withheld": enc(a.tax_withheld), "room": enc(a.contribution_room), "offer": encmap(a.max_inflows(timing=w))}
    e = {"ev": "new", "conv": s["conv"], "err": err}
    if err == "ok":
        e["obs"] = obs({"w": {}})
    ev.append(e)
    if err != "ok":
        return ev
    for o in s["ops"]:
        k = o["op"]
        if k == "convert":
            if o["how"] == "convert":
                _, err = attempt(a.convert_to_rrif) if o["y"] == "now" else attempt(a.convert_to_rrif, int(o["y"]))
            else:
                _, err = attempt(setattr, a, "rrif_conversion_year", o["y"] if o["how"] == "set_str" else int(o["y"]))
            e = {"ev": "convert", "y": o["y"], "err": err}
        elif k == "auto":
            _, err = attempt(setattr, a, "rrif_conversion_year", None)
            e = {"ev": "auto", "err": err}
        elif k in ("add", "take"):
            v = dec(o["v"])
            if k == "take":
                v = -min(v, max(0, a.max_outflows(timing={dec(o["t"]): 1}).get(dec(o["t"]), 0) * -1))
                if abs(v) < 1e-9:
                    continue
            elif a.balance_at_time(1) + v < 0:
                continue
            _, err = attempt(a.add_transaction, v, dec(o["t"]))
            e = {"ev": "add", "t": o["t"], "v": enc(v), "err": err}
        elif k == "comply":
            m = {t: v for t, v in a.min_outflows(timing=decmap(o["w"]) if o["w"] else None).items() if v != 0}
            if any(a.get(t, 0) > 0 for t in m):
                continue  # (transactions at one time are a single net one)
            for t, v in m.items():
                a.add_transaction(v, t)
            e = {"ev": "comply", "tx": encmap(m)}
        elif k == "next":
            while p.this_year < a.this_year:
                p.next_year()
            while c.this_year < a.this_year:
                c.next_year()
            y = a.this_year
            _, err = attempt(a.next_year)
            e = {"ev": "next", "err": err, "taxable": enc(a.taxable_income_history[y]), "deduction": enc(a.tax_deduction_history[y]),
                 "withheld": enc(a.tax_withheld_history[y])}
        e["obs"] = obs(o)
        ev.append(e)
    return ev
