"""C10: household tax is the sum of its parts, with each relief counted once."""
import copy
import lib
from lib import attempt, enc, dec, encmap
lib.setup_path()
from forecaster import Tax, Person, Account  # noqa: E402
from forecaster.tax import TaxMulti  # noqa: E402
from forecaster.canada import RRSP, TaxableAccount  # noqa: E402

MODELS = [dict(module="MCHousehold", cfg="MCHousehold.cfg", thorough_cfg="MCHouseholdT.cfg")]
TRACE = "C10Trace"
ASSUMPTIONS = ["within a year, tax is assessed after the year's transactions (a person's deductions and credits are recorded at first use)",
               "thresholds start at zero in each jurisdiction"]
THR = ["10", "100", "1000", "20000", "100000", "5", "250"]
RATE = ["0", "1/10", "1/5", "1/4", "1/2"]
FACT = {"taxable": "taxable_income", "ded": "tax_deduction", "cred": "tax_credit"}


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCHousehold", []))
    rng.shuffle(gen)
    for b in gen[:600 if tier == "quick" else 20000]:
        ps = sorted(b["income"])
        people = [{"id": p, "gross": str(b["income"][p]), "raise": "0", "own": {}} for p in ps]
        accs = [{"owner": p, "kind": "given", "fact": f} for p in ps for f in
                ({"taxable": "3", "ded": "2", "cred": "1"}, {"taxable": "0", "ded": "1", "cred": "0"})]
        js = [{"tab": {"2000": {"0": "1/10", "10": "1/2"}}, "ded": {"2000": "5"}, "rate": {"2000": "1/2"}},
              {"tab": {"2000": {"0": "0", "4": "1/4"}}, "ded": {}, "rate": {}}]
        g = list(b["group"])
        ops = [{"k": "facts"}]
        for j in (0, 1, 2):
            for form in ("set", "list"):
                rng.shuffle(g)
                ops.append({"k": "group", "group": list(g), "form": form, "j": j, "y": 2000, "ded": [{}, {}], "cred": [{}, {}]})
        ops.append({"k": "couples", "group": list(g), "form": rng.choice(["set", "list"])})
        out.append({"setup": {"first": 2000, "people": people, "accounts": accs, "js": js, "price": {"2000": "1"},
                              "spouse": {p: s for p, s in b["spouse"].items() if s != "none"}}, "ops": ops})
    for _ in range(1500 if tier == "quick" else 20000):
        out.append(rand(rng))
    return out


def jur(rng, ys):
    tab = {}
    for y in rng.sample(ys, min(len(ys), rng.choice([1, 1, 2]))):
        tab[str(y)] = {k: rng.choice(RATE) for k in ["0"] + rng.sample(THR, rng.randint(0, 4))}
    return {"tab": tab, "ded": {str(y): rng.choice(["0", "100", "11635"]) for y in rng.sample(ys, rng.choice([0, 1]))},
            "rate": {str(y): rng.choice(["1/10", "1/2", "1"]) for y in rng.sample(ys, rng.choice([0, 1]))}}


def rand(rng):
    first = rng.choice([2000, 2017])
    n = rng.randint(1, 3)
    ys = list(range(first, first + n))
    ids = list("abcde")[:rng.randint(1, 5)]
    people = []
    for p in ids:
        own = {}
        for k in FACT:
            if rng.random() < .15 and n > 1:
                own[k] = {str(rng.choice(ys[1:])): rng.choice(["0", "50", "7000", "100000"])}
        people.append({"id": p, "gross": rng.choice(["0", "150", "40000", "250000"]), "raise": rng.choice(["0", "1/4"]), "own": own})
    spouse = {}
    q = list(ids)
    rng.shuffle(q)
    while len(q) >= 2 and rng.random() < .7:
        a, b = q.pop(), q.pop()
        spouse[a], spouse[b] = b, a
    accs = []
    for _ in range(rng.randint(0, 6)):
        k = rng.choice(["given", "given", "rrsp", "taxable"])
        a = {"owner": rng.choice(ids), "kind": k}
        if k == "given":
            a["facts"] = {str(y): {f: rng.choice(["0", "10", "500", "20000"]) for f in FACT} for y in ys}
        a["tx"] = rng.choice(["0", "1000", "-500"])
        accs.append(a)
    js = [jur(rng, ys) for _ in range(rng.randint(1, 3))]
    price = {str(y): rng.choice(["1", "2", "1/2", "5/4"]) for y in ys}
    ops = []
    for i, y in enumerate(ys):
        if i:
            ops.append({"k": "next"})
        if rng.random() < .3 and accs:
            ops.append({"k": "own", "i": rng.randrange(len(accs)), "p": rng.choice(ids)})
        if rng.random() < .15:
            ops.append({"k": "divorce", "p": rng.choice(ids)})
        if rng.random() < .15 and len(ids) > 1:
            ops.append({"k": "marry", "ps": rng.sample(ids, 2)})
        if rng.random() < .2:
            ops.append({"k": "juris", "how": rng.choice(["list", "tuple", "iter"])})
        ops.append({"k": "facts"})
        for _ in range(rng.randint(2, 6)):
            k = rng.choice(["group", "group", "group", "money", "couples", "multi", "pd", "reliefs"])
            yy = rng.randint(first, y)
            o = {"k": k, "y": yy, "j": rng.randint(0, len(js)), "group": rng.sample(ids, rng.randint(0, len(ids)))}
            o["form"] = rng.choice(["set", "list", "tuple", "iter"])
            if k == "group":
                if rng.random() < .3:
                    o["group"], o["form"] = [rng.choice(ids)], "single"
                for z in ("ded", "cred"):
                    o[z] = [{p: rng.choice(["0", "100", "3000"]) for p in o["group"] if rng.random() < .4} for _ in js]
                o["via"] = rng.choice(["call", "method", "none"])
                if len(o["group"]) == 2 and o["form"] != "single" and rng.random() < .5:
                    o["via"] = "spouses"
            elif k == "money":
                o["x"] = rng.choice(["0", "10", "99", "5000", "1000000"])
                for z in ("ded", "cred"):
                    o[z] = [rng.choice(["0", "0", "100"]) for _ in js]
                o["via"] = rng.choice(["call", "method"])
            elif k == "multi":
                o["what"] = rng.choice(["combined", "combined1", "accum", "rate"])
                o["x"] = rng.choice(["7", "99", "5001", "1000001"])
            elif k in ("pd", "reliefs"):
                o["group"] = [rng.choice(ids)]
                o["x"] = rng.choice(["7", "99", "5001", "1000001"])
                o["via"] = rng.choice(["none", "known"])
            ops.append(o)
    return {"setup": {"first": first, "people": people, "accounts": accs, "js": js, "price": price, "spouse": spouse}, "ops": ops}


class Joint(Tax):
    """Records which couples are assessed together."""
    def tax_spouses(self, people, year, deduction=None, credit=None):
        self.seen.append([p.vf_id for p in people])
        return super().tax_spouses(people, year, deduction, credit)


def mk(j, price, cls=Tax):
    num = lambda d: {int(y): dec(v) for y, v in d.items()}
    kw = {}
    if j["ded"]:
        kw["personal_deduction"] = num(j["ded"])
    if j["rate"]:
        kw["credit_rate"] = num(j["rate"])
    return cls({int(y): {dec(k): dec(v) for k, v in b.items()} for y, b in j["tab"].items()}, inflation_adjust=price, **kw)


def execute(s):
    S = s["setup"]
    first = S["first"]
    price = {int(y): dec(v) for y, v in S["price"].items()}
    per = {}
    for p in S["people"]:
        inputs = {FACT[k]: {int(y): dec(v) for y, v in d.items()} for k, d in p["own"].items()}
        per[p["id"]] = Person(first, p["id"] if len(s["ops"]) % 3 else "Pat", "1960-01-01", retirement_date="2050-01-01", gross_income=dec(p["gross"]),
                              raise_rate=dec(p["raise"]), inputs=inputs)
        per[p["id"]].vf_id = p["id"]
    for a, b in S["spouse"].items():
        per[a].spouse = per[b]
    accs = []
    for a in S["accounts"]:
        o = per[a["owner"]]
        if a["kind"] == "given":
            facts = a.get("facts") or {str(first): a["fact"]}
            acc = Account(owner=o, balance=0, inputs={FACT[k]: {int(y): dec(f[k]) for y, f in facts.items()} for k in FACT})
        elif a["kind"] == "rrsp":
            acc = RRSP(o, balance=dec("10000"), contribution_room=dec("0"), inflation_adjust=lambda t, b=None: 1)
        else:
            acc = TaxableAccount(o, acb=dec("2000"), balance=dec("10000"))
        accs.append((a, acc))

    def transact():
        for a, acc in accs:
            if a["kind"] != "given" and a["tx"] != "0":
                acc.add_transaction(dec(a["tx"]), "start")
    transact()
    taxes = [mk(j, price) for j in S["js"]]
    multi = TaxMulti(taxes)
    js = list(S["js"])

    def tables():
        return {"ev": "tables", "js": [{"tab": j["tab"], "ded": j["ded"], "rate": j["rate"]} for j in js], "price": S["price"]}
    ev = [tables()]
    y = first
    shape = {"set": set, "list": list, "tuple": tuple, "iter": iter}
    for o in s["ops"]:
        k = o["k"]
        if k == "next":
            y += 1
            # people first, as Forecast does: accounts advance a lagging owner
            for x in list(per.values()) + [a for _, a in accs]:
                while x.this_year < y:
                    x.next_year()
            transact()
        elif k == "own":
            accs[o["i"]][1].owner = per[o["p"]]
        elif k == "divorce":
            per[o["p"]].spouse = None
        elif k == "marry":
            a, b = (per[p] for p in o["ps"])
            if a.spouse is None and b.spouse is None:
                a.spouse = b
        elif k == "juris":      # the jurisdictions, set again (the last one first)
            taxes = taxes[-1:] + taxes[:-1]
            js = js[-1:] + js[:-1]
            multi.jurisdictions = shape[o["how"]](taxes)
            ev.append(tables())
        elif k == "facts":
            f = {}
            for p in S["people"]:
                q = per[p["id"]]
                mine = [acc for _, acc in accs if acc.owner is q]
                f[p["id"]] = {"gross": enc(q.gross_income), "taxable": enc(q.taxable_income), "ded": enc(q.tax_deduction),
                              "cred": enc(q.tax_credit), "own": {z: d[str(y)] for z, d in p["own"].items() if str(y) in d},
                              "accounts": [{"taxable": enc(acc.taxable_income), "ded": enc(acc.tax_deduction),
                                            "cred": enc(acc.tax_credit)} for acc in mine]}
            ev.append({"ev": "facts", "y": y, "facts": f})
        elif k == "group":
            g = [per[p] for p in o["group"]]
            j = o["j"]
            D = [{per[p]: dec(v) for p, v in d.items()} for d in o["ded"]]
            C = [{per[p]: dec(v) for p, v in d.items()} for d in o["cred"]]
            who = g[0] if o["form"] == "single" else shape[o["form"]](g)
            if o["form"] == "single":
                D = [d.get(g[0]) for d in D]
                C = [d.get(g[0]) for d in C]
            kw = {}
            if j == 0:
                t, dn, cn = multi, "deductions", "credits_"
                D2 = {t2: d for t2, d in zip(taxes, D) if d is not None}
                C2 = {t2: d for t2, d in zip(taxes, C) if d is not None}
            else:
                t, dn, cn = taxes[j - 1], "deduction", "credit"
                D2, C2 = D[j - 1], C[j - 1]
            if D2 or o.get("via") == "none":
                kw[dn] = D2 or None
            if C2 or o.get("via") == "none":
                kw[cn] = C2 or None
            f = t
            if o.get("via") == "method":
                f = t.tax_person if o["form"] == "single" else t.tax_people
            elif o.get("via") == "spouses":
                f = t.tax_spouses
            before = (copy.copy(kw.get(dn)), copy.copy(kw.get(cn)), list(who) if o["form"] not in ("single", "iter") else 0)
            v, err = attempt(f, who, o["y"], **kw)
            ev.append({"ev": "group", "y": o["y"], "j": j, "group": o["group"], "ded": o["ded"], "cred": o["cred"],
                       "out": enc(v), "err": err})
            after = (kw.get(dn), kw.get(cn), list(who) if o["form"] not in ("single", "iter") else 0)
            ev.append({"ev": "input", "y": y, "j": 0, "group": [], "same": before == after, "err": "ok"})
        elif k == "money":
            j = o["j"]
            kw = {}
            if j == 0:
                t = multi
                if any(x != "0" for x in o["ded"]):
                    kw["deductions"] = {t2: dec(x) for t2, x in zip(taxes, o["ded"])}
                if any(x != "0" for x in o["cred"]):
                    kw["credits_"] = {t2: dec(x) for t2, x in zip(taxes, o["cred"])}
            else:
                t = taxes[j - 1]
                if o["ded"][j - 1] != "0":
                    kw["deduction"] = dec(o["ded"][j - 1])
                if o["cred"][j - 1] != "0":
                    kw["credit"] = dec(o["cred"][j - 1])
            v, err = attempt(t if o["via"] == "call" else t.tax_money, dec(o["x"]), o["y"], **kw)
            ev.append({"ev": "money", "y": o["y"], "j": j, "group": [], "x": o["x"], "ded": o["ded"], "cred": o["cred"],
                       "out": enc(v), "err": err})
        elif k == "couples":
            t = mk(js[0], price, Joint)
            t.seen = []
            v, err = attempt(t, shape[o["form"]](per[p] for p in o["group"]), y)
            ev.append({"ev": "couples", "y": y, "j": 1, "group": o["group"], "out": t.seen, "err": err,
                       "spouses": [{"p": p, "s": q.spouse.vf_id if q.spouse else "none"} for p, q in per.items()]})
        elif k == "multi":
            w = o["what"]
            if w == "combined":
                v, err = attempt(multi.tax_brackets, o["y"])
            elif w == "combined1":
                v, err = attempt(lambda: {b: multi.tax_brackets(o["y"], b) for b in list(multi.tax_brackets(o["y"]))})
            elif w == "accum":
                v, err = attempt(lambda: {b: multi.accum(o["y"], b) for b in list(multi.tax_brackets(o["y"]))})
            else:
                v, err = attempt(multi.marginal_rate, dec(o["x"]), o["y"])
            ev.append({"ev": w, "y": o["y"], "j": 0, "group": [], "x": o["x"], "err": err,
                       "out": enc(v) if w == "rate" else encmap(v) if err == "ok" else {}})
        elif k == "pd":
            v, err = attempt(multi.deduction, per[o["group"][0]], o["y"])
            ev.append({"ev": "pd", "y": o["y"], "j": 0, "group": o["group"], "out": enc(v), "err": err})
        elif k == "reliefs":
            j = o["j"]
            t, q = taxes[j - 1] if j else multi, per[o["group"][0]]
            e = {"ev": k, "y": o["y"], "j": j, "group": o["group"], "x": o["x"], "err": "ok"}
            kw = {}
            if o["via"] == "known":     # the deductions are known already
                kw["deduction"] = dec("100") if j else {x: dec("100") for x in taxes}
            for n, f in (("deduction", lambda: t.deduction(q, o["y"])), ("credit", lambda: t.credit(q, o["y"], **kw)),
                         ("rate", lambda: t.credit_rate(o["y"])), ("personal", lambda: t.personal_deduction(o["y"])),
                         ("bracket", lambda: t.marginal_bracket(dec(o["x"]), o["y"]))):
                v, err = attempt(f)
                e[n] = enc(v)
                e["err"] = e["err"] if err == "ok" else err
            ev.append(e)
    return ev
