"""C11: Canadian tax: pension and spousal credits, federal plus provincial."""
import copy
import lib
from lib import attempt, enc, dec
lib.setup_path()
from forecaster import Person, Account  # noqa: E402
from forecaster.canada import RRSP, TaxableAccount, TaxCanada  # noqa: E402
from forecaster.canada.constants import ConstantsCanada  # noqa: E402

MODELS = [dict(module="MCCanada", cfg="MCCanada.cfg", thorough_cfg="MCCanadaT.cfg")]
TRACE = "C11Trace"
ASSUMPTIONS = ["within a year, tax is assessed after the year's transactions (a person's deductions and credits are recorded at first use)",
               "accounts and spouses stay as they are between a year and its assessment",
               "of two spouses with the same income either may receive the credit"]
THR = ["10", "100", "1000", "20000", "100000", "5", "250"]
RATE = ["0", "1/10", "1/5", "1/4", "1/2"]
FACT = {"taxable": "taxable_income", "ded": "tax_deduction", "cred": "tax_credit"}
MJ = [{"tab": {"2000": {"0": "1/10", "20": "1/2"}}, "ded": {"2000": "5"}, "rate": {"2000": "1/2"},
       "pension": {"2000": "4"}, "spousal": {"2000": "12"}},
      {"tab": {"2000": {"0": "1/4"}}, "ded": {"2000": "10"}, "rate": {"2000": "1/5"},
       "pension": {"2000": "8"}, "spousal": {"2000": "6"}}]


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCCanada", []))
    rng.shuffle(gen)
    for b in gen[:500 if tier == "quick" else 14000]:
        f = b["f"]
        ids = sorted(f)
        people = [{"id": p, "gross": str(f[p]["gross"]), "raise": "0", "own": {}} for p in ids]
        accs = [{"owner": p, "kind": "rrsp", "tx": {"2000": [[v, "0"]]}} for p in ids for v in f[p]["wd"] or []]
        spouse = {p: f[p]["spouse"] for p in ids if f[p]["spouse"] != "none"}
        ops = [{"k": "facts"}]
        for j in (0, 1, 2):
            ops += [{"k": "tax", "group": ids, "form": rng.choice(["set", "list"]), "j": j, "y": 2000, "ded": [{}, {}], "cred": [{}, {}]},
                    {"k": "each", "j": j, "y": 2000}]
        ops += [{"k": "credits", "j": 1, "y": 2000}, {"k": "credits", "j": 2, "y": 2000}]
        out.append({"setup": {"first": 2000, "people": people, "accounts": accs, "spouse": spouse, "js": MJ, "prov": "BC",
                              "price": {"2000": "1"}}, "ops": ops})
    for _ in range(1200 if tier == "quick" else 15000):
        out.append(rand(rng))
    return out


def table(rng, ys, choices):
    return {str(y): rng.choice(choices) for y in rng.sample(ys, min(len(ys), rng.choice([1, 1, 2])))}


def jur(rng, ys):
    tab = {}
    for y in rng.sample(ys, min(len(ys), rng.choice([1, 1, 2]))):
        tab[str(y)] = {k: rng.choice(RATE) for k in ["0"] + rng.sample(THR, rng.randint(0, 4))}
    return {"tab": tab, "ded": table(rng, ys, ["0", "100", "11635"]), "rate": table(rng, ys, ["1/10", "1/2", "1", "3/20"]),
            "pension": table(rng, ys, ["0", "100", "2000"]), "spousal": table(rng, ys, ["0", "150", "9614", "50000"])}


def rand(rng):
    real = rng.random() < .3
    first = rng.choice([2016, 2017, 2018, 2025]) if real else rng.choice([2000, 2017])
    n = rng.randint(1, 3)
    ys = list(range(first, first + n))
    ids = list("abcde")[:rng.randint(1, 5)]
    gross = ["0", "150", "5000", "12000", "40000", "250000"]
    if rng.random() < .4:
        gross = rng.sample(gross, 2)
    people = []
    for p in ids:
        own = {}
        for k in FACT:
            if rng.random() < .1 and n > 1:
                own[k] = {str(rng.choice(ys[1:])): rng.choice(["0", "50", "7000", "100000"])}
        people.append({"id": p, "gross": rng.choice(gross), "raise": rng.choice(["0", "1/4"]), "own": own})
    spouse = {}
    q = list(ids)
    rng.shuffle(q)
    while len(q) >= 2 and rng.random() < .85:
        a, b = q.pop(), q.pop()
        spouse[a], spouse[b] = b, a
    accs = []
    for _ in range(rng.randint(0, 6)):
        k = rng.choice(["rrsp", "rrsp", "rrsp", "taxable", "given"])
        a = {"owner": rng.choice(ids), "kind": k}
        if k == "given":
            a["facts"] = {str(y): {f: rng.choice(["0", "10", "500", "20000"]) for f in FACT} for y in ys}
        a["tx"] = {str(y): [[rng.choice(["1000", "-500", "-1500", "-90", "-20000", "300"]), w]
                            for w in rng.sample(["0", "1/2", "1"], rng.randint(0, 3))] for y in ys}
        accs.append(a)
    price = {}
    for y in range(min(first, 2016), first + n + 1):
        price[str(y)] = rng.choice(["1", "2", "1/2", "5/4"])
    ops = []
    for i, y in enumerate(ys):
        if i:
            ops.append({"k": "next"})
        ops.append({"k": "facts"})
        for _ in range(rng.randint(3, 7)):
            k = rng.choice(["tax", "tax", "tax", "each", "each", "credits", "money"])
            o = {"k": k, "y": rng.choice([y, y, rng.randint(first, y)]), "j": rng.choice([0, 0, 1, 2])}
            if k == "credits":
                o["j"] = rng.choice([1, 2])
            if k == "tax":
                o["group"] = rng.sample(ids, rng.randint(0, len(ids)))
                o["form"] = rng.choice(["set", "list", "tuple", "iter"])
                if rng.random() < .3:
                    o["group"], o["form"] = [rng.choice(ids)], "single"
                for z in ("ded", "cred"):
                    o[z] = [{p: rng.choice(["0", "100", "3000"]) for p in o["group"] if rng.random() < .4} for _ in (1, 2)]
            elif k == "money":
                o["x"] = rng.choice(["0", "10", "99", "5000", "46000", "300000"])
                for z in ("ded", "cred"):
                    o[z] = [rng.choice(["0", "0", "100"]) for _ in (1, 2)]
            o["via"] = rng.choice(["named", "multi", "mixed", "none"])
            ops.append(o)
    return {"setup": {"first": first, "people": people, "accounts": accs, "spouse": spouse, "price": price,
                      "js": [] if real else [jur(rng, ys), jur(rng, ys)], "prov": "BC" if real else rng.choice(["BC", "ON"])}, "ops": ops}


def num(t):
    return {int(y): dec(v) for y, v in t.items()}


def constants(js, prov):
    c = ConstantsCanada()
    both = lambda f: {"Federal": f(js[0]), prov: f(js[1]), "XX": f(js[0])}
    c.TAX_BRACKETS = both(lambda j: {int(y): {dec(k): dec(v) for k, v in b.items()} for y, b in j["tab"].items()})
    c.TAX_PERSONAL_DEDUCTION = both(lambda j: num(j["ded"]))
    c.TAX_CREDIT_RATE = both(lambda j: num(j["rate"]))
    c.TAX_PENSION_CREDIT = both(lambda j: num(j["pension"]))
    c.TAX_SPOUSAL_AMOUNT = both(lambda j: num(j["spousal"]))
    return c


def tables(c, name):
    t = lambda d: {str(y): enc(v) for y, v in d[name].items()}
    return {"tab": {str(y): {enc(k): enc(v) for k, v in b.items()} for y, b in c.TAX_BRACKETS[name].items()},
            "ded": t(c.TAX_PERSONAL_DEDUCTION), "rate": t(c.TAX_CREDIT_RATE), "pension": t(c.TAX_PENSION_CREDIT),
            "spousal": t(c.TAX_SPOUSAL_AMOUNT)}


def execute(s):
    S = s["setup"]
    first = S["first"]
    price = {int(y): dec(v) for y, v in S["price"].items()}
    prov = S["prov"]
    cons = ConstantsCanada() if not S["js"] else constants(S["js"], prov)
    ev = [{"ev": "tables", "y": 0, "js": [tables(cons, "Federal"), tables(cons, prov)], "price": S["price"]}]
    tax = TaxCanada(price, prov) if not S["js"] else TaxCanada(price, prov, constants=cons)
    parts = (tax.federal_tax, tax.provincial_tax)
    per = {}
    for p in S["people"]:
        inputs = {FACT[k]: num(d) for k, d in p["own"].items()}
        per[p["id"]] = Person(first, p["id"] if len(s["ops"]) % 3 else "Pat", "1960-01-01", retirement_date="2050-01-01", gross_income=dec(p["gross"]),
                              raise_rate=dec(p["raise"]), inputs=inputs)
    for a, b in S["spouse"].items():
        per[a].spouse = per[b]
    accs = []
    for a in S["accounts"]:
        o = per[a["owner"]]
        if a["kind"] == "given":
            acc = Account(owner=o, balance=0, inputs={FACT[k]: {int(y): dec(f[k]) for y, f in a["facts"].items()} for k in FACT})
        elif a["kind"] == "rrsp":
            acc = RRSP(o, balance=dec("100000"), contribution_room=dec("0"), inflation_adjust=price if not S["js"] else (lambda t, b=None: 1))
        else:
            acc = TaxableAccount(o, acb=dec("2000"), balance=dec("100000"))
        accs.append((a, acc))
    y = first

    def transact():
        for a, acc in accs:
            for v, w in a["tx"].get(str(y), []):
                acc.add_transaction(dec(v), dec(w))
    transact()
    shape = {"set": set, "list": list, "tuple": tuple, "iter": iter}
    for o in s["ops"]:
        k = o["k"]
        if k == "next":
            y += 1
            for x in list(per.values()) + [a for _, a in accs]:
                while x.this_year < y:
                    x.next_year()
            transact()
        elif k == "facts":
            f = {}
            for p in S["people"]:
                q = per[p["id"]]
                f[p["id"]] = {
                    "gross": enc(q.gross_income), "own": {z: d[str(y)] for z, d in p["own"].items() if str(y) in d},
                    "accounts": [{"taxable": enc(acc.taxable_income), "ded": enc(acc.tax_deduction), "cred": enc(acc.tax_credit)}
                                 for a, acc in accs if a["owner"] == p["id"]],
                    "spouse": S["spouse"].get(p["id"], "none"),
                    "wd": [v for a in S["accounts"] if a["owner"] == p["id"] and a["kind"] == "rrsp"
                           for v, _ in a["tx"].get(str(y), [])]}
                q.tax_deduction, q.tax_credit
            ev.append({"ev": "facts", "y": y, "facts": f})
        elif k == "tax":
            g = [per[p] for p in o["group"]]
            j = o["j"]
            single = o["form"] == "single"
            who = g[0] if single else shape[o["form"]](g)
            R = {z: [(lambda d: d.get(g[0]) if single else d)({per[p]: dec(v) for p, v in d.items()}) for d in o[z]] for z in ("ded", "cred")}
            kw = given(tax, parts, R, j, o.get("via"))
            before = snap(kw)
            v, err = attempt(tax if j == 0 else parts[j - 1], who, o["y"], **kw)
            ev.append({"ev": "tax", "y": o["y"], "j": j, "group": o["group"], "ded": o["ded"], "cred": o["cred"], "out": enc(v), "err": err})
            ev.append({"ev": "input", "y": y, "same": snap(kw) == before and (single or o["form"] == "iter" or who == shape[o["form"]](g))})
        elif k == "each":
            t = tax if o["j"] == 0 else parts[o["j"] - 1]
            v, err = attempt(lambda: {p: enc(t(q, o["y"])) for p, q in per.items()})
            ev.append({"ev": "each", "y": o["y"], "j": o["j"], "outs": v if err == "ok" else {}, "err": err, "ded": [{}, {}], "cred": [{}, {}]})
        elif k == "credits":
            t = parts[o["j"] - 1]
            v, err = attempt(lambda: {p: enc(t.credit(q, o["y"])) for p, q in per.items()})
            ev.append({"ev": "credits", "y": o["y"], "j": o["j"], "outs": v if err == "ok" else {}, "err": err, "ded": [{}, {}], "cred": [{}, {}]})
        elif k == "money":
            j = o["j"]
            R = {z: [dec(x) if x != "0" else None for x in o[z]] for z in ("ded", "cred")}
            kw = given(tax, parts, R, j, o.get("via"))
            v, err = attempt(tax if j == 0 else parts[j - 1], dec(o["x"]), o["y"], **kw)
            ev.append({"ev": "money", "y": o["y"], "j": j, "x": o["x"], "ded": o["ded"], "cred": o["cred"], "out": enc(v), "err": err})
    return ev


def snap(kw):
    return {k: copy.copy(v) if not isinstance(v, dict) else {a: copy.copy(b) for a, b in v.items()} for k, v in kw.items()}


def given(tax, parts, R, j, via):
    """Keyword arguments that pass the reliefs R to the assessment."""
    D, C = R["ded"], R["cred"]
    kw = {}
    if j:
        if D[j - 1]:
            kw["deduction"] = D[j - 1]
        if C[j - 1]:
            kw["credit"] = C[j - 1]
    elif via == "multi":
        kw = {"deductions": {t: d for t, d in zip(parts, D) if d}, "credits_": {t: c for t, c in zip(parts, C) if c}}
    else:
        if via == "none":
            kw = {"deductions": None, "credits_": None}
        names = dict(federal_deduction=D[0], federal_credit=C[0], provincial_deduction=D[1], provincial_credit=C[1])
        if via == "mixed":
            kw = {"deductions": {parts[1]: D[1]} if D[1] else {}, "credits_": {parts[0]: C[0]} if C[0] else {}}
            names.pop("provincial_deduction"), names.pop("federal_credit")
        kw.update({n: v for n, v in names.items() if v or via == "none"})
    return kw
