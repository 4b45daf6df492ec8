"""C25: people's ages, incomes, marriages and accounts over the years."""
import calendar
from datetime import datetime
import lib
from lib import attempt, enc, dec
lib.setup_path()
from forecaster import Person, Account  # noqa: E402
from forecaster.canada import TaxableAccount  # noqa: E402

MODELS = [dict(module="MCPerson", cfg="MCPerson.cfg", thorough_cfg="MCPersonT.cfg"),
          dict(module="MCAge", cfg="MCAge.cfg", thorough_cfg="MCAgeT.cfg")]
TRACE = "C25Trace"
ASSUMPTIONS = ["raise rates, tax treatments and retirement dates change at the start of a year, before the year's income is read",
               "everybody and every account is advanced together"]
RATES = ["0", "1/10", "-1/4", "1/50", "1", "-1"]
GROSS = ["0", "100", "50000", "250000", "1/3", "80000"]


def date(rng, lo=1900, hi=2010):
    m = rng.choice([1, 2, 2, 2, 3, 6, 12])
    y = rng.randint(lo, hi)
    if rng.random() < .4:
        y -= y % 4
    return {"y": y, "m": m, "d": rng.choice([1, calendar.monthrange(y, m)[1], calendar.monthrange(y, m)[1], rng.randint(1, 28), 28])}


def near(rng, b):
    """Days around birthdays."""
    y = b["y"] + rng.choice([0, 1, 3, 4, 17, 40, 100, rng.randint(-3, 110)])
    if rng.random() < .3:
        return date(rng, 1900, 2120)
    t = datetime(y, b["m"], min(b["d"], calendar.monthrange(y, b["m"])[1])).toordinal() + rng.choice([-2, -1, 0, 0, 1, 2])
    t = datetime.fromordinal(t)
    return {"y": t.year, "m": t.month, "d": t.day}


def clip(b, y):
    return {"y": y, "m": b["m"], "d": min(b["d"], calendar.monthrange(y, b["m"])[1])}


def rate(rng, ys):
    if rng.random() < .4:
        return {"*": rng.choice(RATES)}
    return {str(y): rng.choice(RATES) for y in ys}


def table(rng, ys):
    return {str(y): rng.choice(["0", "1/10", "1/2", "1/4"]) for y in ys} if rng.random() < .7 else {}


def person(rng, pid, first, ys, prior, plain=False):
    b = date(rng, first - 90, first - 1)
    bf = rng.choice(["dt", "iso", "year", "month"])
    if bf == "year":
        b = {"y": b["y"], "m": 1, "d": 1}
    elif bf == "month":
        b["d"] = 1
    rf = rng.choice(["dt", "iso", "year"])
    if rng.random() < .3:
        r = date(rng, b["y"], ys[-1] + 10)
    else:
        r = clip(b, max(b["y"], rng.choice(ys) + rng.choice([0, 0, 0, -1, 5])))
        if rng.random() < .35:          # retiring in a year the run covers, any day of it
            r = {"y": max(b["y"] + 1, rng.choice(ys[:-1] or ys)), "m": rng.randint(1, 12), "d": rng.randint(1, 28)}
    if rng.random() < .05 and not plain:
        r = dict(b, y=b["y"] - 1, d=min(b["d"], 28))
    if plain and (r["y"], r["m"], r["d"]) < (b["y"], b["m"], b["d"]):
        r = clip(b, b["y"] + 1)
    if rf == "year":
        r = clip(b, r["y"])
    inp = {}
    if not plain:
        for q in ("gross_income", "raise_rate", "net_income", "tax_withheld", "taxable_income"):
            if rng.random() < .12:
                inp[q] = {str(y): rng.choice(RATES if q == "raise_rate" else GROSS) for y in rng.sample(ys, rng.randint(1, len(ys)))}
    return {"k": "person", "p": pid, "birth": b, "bf": bf, "ret": r, "rf": rf, "gross": rng.choice(GROSS), "rate": rate(rng, ys),
            "rk": rng.choice(["dict", "call"]), "tax": table(rng, ys), "inp": inp,
            "to": rng.choice(prior) if prior and rng.random() < .4 else "none"}


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCPerson", []))
    rng.shuffle(gen)
    for b in gen[:1200 if tier == "quick" else 30000]:
        first = 2000
        ys = list(range(first, first + 6))
        ops = [dict(person(rng, p, first, ys, [], True)) for p in "pqr"]
        for o in ops:
            o["to"] = "none"
        names = sorted({o["a"] for o in b["ops"] if o["k"] == "owner"} | {"a"})
        ops += [{"k": "account", "a": a, "to": "none", "kind": "plain", "bal": "100"} for a in names]
        for o in b["ops"]:
            o = dict(o)
            if o["k"] == "next":
                o["rate"] = {rng.choice("pqr"): {"*": o["rate"]}}
            ops.append(o)
        out.append({"setup": {"first": first}, "ops": ops})
    gen = list(beh.get("MCAge", []))
    rng.shuffle(gen)
    by = {}
    for g in gen[:4000 if tier == "quick" else 60000]:
        by.setdefault(tuple(g["b"].values()), []).append(g)
    for gs in by.values():
        for i in range(0, len(gs), 12):
            b = gs[0]["b"]
            p = dict(person(rng, "p", 2000, [2000], [], True), birth=b, bf="dt", ret=dict(b, y=b["y"] + 60, d=min(b["d"], 28)), rf="dt")
            out.append({"setup": {"first": 2000}, "ops": [p] + [{"k": "age", "p": "p", "t": g["t"], "f": rng.choice(["dt", "iso"])}
                                                                 for g in gs[i:i + 12]]})
    for _ in range(1500 if tier == "quick" else 25000):
        out.append(rand(rng))
    return out


def rand(rng):
    first = rng.choice([2000, 1999, 2015, 1903])
    n = rng.randint(1, 6)
    ys = list(range(first, first + n))
    ids = list("pqrs")[:rng.randint(1, 4)]
    ops, prior, ret = [], [], {}
    for i in ids:
        o = person(rng, i, first, ys, prior)
        ops.append(o)
        if (o["ret"]["y"], o["ret"]["m"], o["ret"]["d"]) >= (o["birth"]["y"], o["birth"]["m"], o["birth"]["d"]):
            prior.append(i)
            ret[i] = o["birth"]
    if not prior:
        return {"setup": {"first": first}, "ops": ops}
    accs = []
    for i in range(rng.randint(0, 3)):
        accs.append("abc"[i])
        ops.append({"k": "account", "a": "abc"[i], "to": rng.choice(prior + ["none"]), "kind": rng.choice(["plain", "taxable"]),
                    "bal": rng.choice(["0", "1000", "333"]), "rate": rng.choice(["0", "1/10"])})
    for i in range(n):
        if i:
            o = {"k": "next", "rate": {}, "tax": {}, "ret": {}, "retage": {}, "sp": {}}
            for p in prior:
                if rng.random() < .15:
                    o["rate"][p] = rng.choice([rate(rng, ys), {"*": "0"}])
                if rng.random() < .15:
                    o["tax"][p] = table(rng, ys)
                if rng.random() < .15:
                    o["ret"][p] = clip(ret[p], max(ret[p]["y"], rng.choice(ys)))
                elif rng.random() < .1:
                    o["retage"][p] = rng.randint(0, 90)
            o["rform"] = rng.choice(["dt", "iso", "year"])
            o["none"] = rng.random() < .5
            ops.append(o)
        for _ in range(rng.randint(0, 5)):
            k = rng.choice(["spouse", "spouse", "owner", "owner", "age", "age", "badret", "badtax"])
            o = {"k": k, "p": rng.choice(prior)}
            if k == "spouse":
                o["to"] = rng.choice([q for q in prior if q != o["p"]] + ["none", "bad"])
            elif k == "owner":
                if not accs:
                    continue
                o["a"], o["to"] = rng.choice(accs), rng.choice(prior + ["none", "bad"])
            elif k == "age":
                o["t"], o["f"] = near(rng, ret[o["p"]]), rng.choice(["dt", "iso", "year", "yearstr"])
            elif k == "badret":
                b = ret[o["p"]]
                o["t"] = dict(b, y=b["y"] - rng.choice([1, 30]), d=min(b["d"], 28))
                o["how"] = rng.choice(["date", "date", "none", "noage", "age", "text"])
            ops.append(o)
    return {"setup": {"first": first}, "ops": ops}


def mk(t, form):
    if form == "dt":
        return datetime(t["y"], t["m"], t["d"])
    if form == "iso":
        return "%04d-%02d-%02d" % (t["y"], t["m"], t["d"])
    if form == "month":
        return "%04d-%02d" % (t["y"], t["m"])
    return str(t["y"]) if form == "yearstr" else t["y"]


def un(d):
    try:
        return {"y": d.year, "m": d.month, "d": d.day}
    except AttributeError:
        return {"y": -1, "m": 0, "d": 0}


def ratefn(r, kind="dict"):
    if "*" in r:
        return dec(r["*"])
    d = {int(y): dec(v) for y, v in r.items()}
    return d if kind == "dict" else (lambda year: d[year])


def taxfn(t):
    if not t:
        return None
    d = {int(y): dec(v) for y, v in t.items()}
    return lambda gross, year: gross * d[year]


def execute(s):
    first = s["setup"]["first"]
    ppl, acc, ev = {}, {}, []

    def name(table, x):
        if x is None:
            return "none"
        return next((k for k, v in table.items() if v is x), "unknown")

    def obs(e):
        def num(f):
            v, t = attempt(f)
            return enc(v) if t == "ok" else "nan"

        def hist(f):
            v, t = attempt(f)
            return {str(k): enc(x) for k, x in v.items()} if t == "ok" else {"nan": "nan"}
        e["ppl"] = {k: {"year": p.this_year, "spouse": name(ppl, p.spouse), "own": [name(acc, a) for a in p.accounts],
                        "birth": un(p.birth_date), "ret": un(p.retirement_date), "retage": p.retirement_age,
                        "rate": num(lambda: p.raise_rate), "gross": dict(hist(lambda: p.gross_income_history),
                                                                        **{str(p.this_year): num(lambda: p.gross_income)}),
                        "net": dict(hist(lambda: p.net_income_history), **{str(p.this_year): num(lambda: p.net_income)}),
                        "wh": num(lambda: p.tax_withheld), "taxable": num(lambda: p.taxable_income)} for k, p in ppl.items()}
        e["acc"] = {k: {"owner": name(ppl, a.owner), "taxable": num(lambda: a.taxable_income)} for k, a in acc.items()}
        e["gt"] = {k: {j: (p > q) is True for j, q in ppl.items()} for k, p in ppl.items()}
        ev.append(e)
    for o in s["ops"]:
        k = o["k"]
        e = dict(o)
        e.pop("k")
        e["ev"] = k
        if k == "person":
            inp = {q: {int(y): dec(v) for y, v in t.items()} for q, t in o["inp"].items()}
            v, e["err"] = attempt(Person, first, o["p"], mk(o["birth"], o["bf"]), mk(o["ret"], o["rf"]), gross_income=dec(o["gross"]),
                                  raise_rate=ratefn(o["rate"], o["rk"]), spouse=ppl.get(o["to"]), tax_treatment=taxfn(o["tax"]),
                                  inputs=inp or None)
            if e["err"] == "ok":
                ppl[o["p"]] = v
        elif k == "account":
            cls = TaxableAccount if o["kind"] == "taxable" else Account
            v, e["err"] = attempt(lambda: cls(owner=ppl.get(o["to"]), balance=dec(o["bal"]), rate=dec(o.get("rate", "0")),
                                              **({} if o["to"] in ppl else {"initial_year": first})))
            if e["err"] == "ok":
                acc[o["a"]] = v
        elif k == "spouse":
            _, e["err"] = attempt(setattr, ppl[o["p"]], "spouse", 7 if o["to"] == "bad" else ppl.get(o["to"]))
        elif k == "owner":
            _, e["err"] = attempt(setattr, acc[o["a"]], "owner", "me" if o["to"] == "bad" else ppl.get(o["to"]))
        elif k == "badret":
            a, v = {"date": ("retirement_date", mk(o["t"], "dt")), "none": ("retirement_date", None),
                    "noage": ("retirement_age", None), "age": ("retirement_age", -1),
                    "text": ("retirement_date", "at some point")}[o.get("how", "date")]
            _, e["err"] = attempt(setattr, ppl[o["p"]], a, v)
        elif k == "badtax":
            _, e["err"] = attempt(setattr, ppl[o["p"]], "tax_treatment", 3)
        elif k == "age":
            e["year"] = o["f"] in ("year", "yearstr")
            v, e["err"] = attempt(ppl[o["p"]].age, mk(o["t"], o["f"]))
            e["out"] = v if isinstance(v, int) else -9999
        elif k == "next":
            for z in ("rate", "tax", "ret", "retage"):
                e.setdefault(z, {})

            def go():
                for p in ppl.values():
                    p.next_year()
                for i, r in e["rate"].items():
                    ppl[i].raise_rate_callable = None if r == {"*": "0"} and o.get("none") else ratefn(r)
                for i, t in e["tax"].items():
                    ppl[i].tax_treatment = taxfn(t)
                for i, t in e["ret"].items():
                    ppl[i].retirement_date = mk(t, o["rform"])
                for i, t in e["retage"].items():
                    ppl[i].retirement_age = t
                for a in acc.values():
                    a.next_year()
            _, e["err"] = attempt(go)
            for z in ("none", "rform", "sp"):
                e.pop(z, None)
        obs(e)
    return ev
