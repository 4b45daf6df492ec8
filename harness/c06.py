"""C06: contribution room of registered plans."""
import lib
from lib import attempt, enc, dec
lib.setup_path()
from forecaster import Person  # noqa: E402
from forecaster.canada import RRSP, TFSA  # noqa: E402
from forecaster.canada.constants import ConstantsCanada  # noqa: E402

MODELS = [dict(module="MCPlan", cfg="MCPlan.cfg", thorough_cfg="MCPlanT.cfg")]
TRACE = "C06Trace"
ASSUMPTIONS = ["the accounts of a plan are in the same year when they are created",
               "room that the user gives for a year is given by one account of the plan, and is not reassigned in that year",
               "outside the table of annual accruals, other than in the known finding, prices are those of the first year"]
MLAW = {"accrual": "1/2", "max": {"2000": "6"}, "last": "71", "tfsa": {"2000": "4", "2001": "7"}, "step": "2", "eligible": "18"}
# The finding: accruals after the table's last year shrink with inflation.
KNOWN = [{"setup": {"law": {"accrual": "9/50", "max": {"2017": "25750"}, "last": "71", "tfsa": {"2009": "5000", "2010": "5000"},
                            "step": "500", "eligible": "18"},
                    "price": {"2009": "1", "2010": "1", "2011": "2", "2012": "2"}, "first": 2010,
                    "people": {"p": {"born": 1970, "gross": "0", "raise": "0"}}},
          "ops": [{"op": "new", "a": "a", "kind": "tfsa", "o": "p", "c": "p", "room": "0", "given": {}},
                  {"op": "next", "a": "a"}]}]


def scenarios(tier, rng, beh):
    out = list(KNOWN)
    gen = list(beh.get("MCPlan", []))
    rng.shuffle(gen)
    for b in gen[:1500 if tier == "quick" else 60000]:
        ops = []
        for a in "abcd":
            k = "tfsa" if a in "ab" else "rrsp"
            ops.append({"op": "new", "a": a, "kind": k, "o": "p", "c": "p", "room": {"a": "5", "c": "2"}.get(a, "none"),
                        "given": {"2002": "3"} if a == "b" else {}})
        for i, o in enumerate(b["ops"]):
            if o["op"] == "add":
                ops.append({"op": "add", "a": o["a"], "t": "0", "v": o["v"]})
            else:
                ops.append({"op": "next", "a": o["a"]})
            ops.append({"op": "offer", "a": o["a"]})
        out.append({"setup": {"law": MLAW, "price": {str(y): "1" for y in range(1995, 2061)}, "first": 2000,
                              "people": {"p": {"born": 1980, "gross": "10", "raise": "1/10"}}}, "ops": ops})
    for _ in range(2500 if tier == "quick" else 40000):
        out.append(rand(rng))
    return out


def rand(rng):
    real = rng.random() < .3
    first = rng.choice([2009, 2012, 2017, 2020]) if real else rng.choice([2000, 2003, 2010])
    n = rng.randint(1, 5)
    last = first + n + 1
    law = {}
    if not real:
        t0 = rng.choice([2000, 2002])
        law = {"accrual": rng.choice(["1/10", "9/50", "1/2", "1"]),
               "max": {str(y): rng.choice(["500", "10000", "25750"]) for y in rng.sample(range(2000, 2012), rng.randint(1, 3))},
               "last": rng.choice(["71", "60", "40"]),
               "tfsa": {str(y): rng.choice(["5000", "5500", "1200", "740"]) for y in range(t0, t0 + rng.randint(1, 8))},
               "step": rng.choice(["500", "100", "1000"]), "eligible": rng.choice(["18", "21", "0"])}
    tab = law["tfsa"] if law else {str(y): 0 for y in range(2009, 2018)}
    ty = sorted(int(y) for y in tab)
    price = {}
    for y in range(1995, 2061):
        price[str(y)] = rng.choice(["1", "2", "3/2", "5/4", "4/5"])
    base = price[str(ty[0])]
    rrsp_only = rng.random() < .3
    for y in range(1995, 2061):
        if str(y) not in tab and not rrsp_only:
            price[str(y)] = base
    people = {}
    for p in "pq"[:rng.randint(1, 2)]:
        age = rng.choice([1, 14, 16, 17, 18, 19, 25, 39, 45, 59, 68, 70, 71, 72, 90])
        people[p] = {"born": first - age, "gross": rng.choice(["0", "1000", "40000", "500000"]), "raise": rng.choice(["0", "1/4", "-1/2"])}
    ps = sorted(people)
    ops, accs, y, seen, given = [], {}, {}, set(), {}
    used, giver = set(), set()
    for _ in range(rng.randint(4, 20)):
        k = rng.random()
        if not accs or (k < .2 and len(accs) < 5):
            a = "abcdefgh"[len(accs)]
            kind = "rrsp" if rrsp_only else rng.choice(["rrsp", "tfsa"])
            c = rng.choice(ps)
            # A token of its own keeps an account out of the usual plan.
            token = rng.choice(["x", "y"]) if rng.random() < .12 else ""
            key = c + ":" + kind + token
            g = {}
            yk = y.get(key, first)
            if rng.random() < .3:
                old = 7 if key not in y and kind == "tfsa" else 2
                for z in rng.sample(range(yk - old, yk + 4), rng.randint(1, 4)):
                    if z != yk and (key, z) not in seen and (z > yk or z >= ty[0]) and (z > yk or key not in y):
                        seen.add((key, z))
                        g[str(z)] = rng.choice(["0", "100", "7000"])
            y.setdefault(key, first)
            accs[a] = key
            if g:
                giver.add(a)
            ops.append({"op": "new", "a": a, "kind": kind, "o": c if rng.random() < .8 else rng.choice(ps), "c": c, "token": token, "form": rng.choice(["usual", "usual", "native", "short"]),
                        "room": "none" if (key, y[key]) in seen else rng.choice(["none", "none", "0", "1000", "20000"]), "given": g})
            continue
        a = rng.choice(sorted(accs))
        key = accs[a]
        if k < .5 and y[key] < first + n:
            y[key] += 1
            used -= {b for b in accs if accs[b] == key}
            ops.append({"op": "next", "a": a})
        elif k < .75:
            used.add(a)
            ops.append({"op": "add", "a": a, "t": rng.choice(["0", "1/2", "1"]), "v": rng.choice(["500", "-300", "2000", "-1", "100"])})
        elif k < .79:
            # To the plan that another contributor has already.
            can = [(b, x) for b, own in accs.items() for x in y
                   if x != own and x[1:] == own[1:] and y[x] == y[own]
                   and b not in used | giver and list(accs.values()).count(own) > 1]
            if can:
                a, to = rng.choice(can)
                accs[a] = to
                ops.append({"op": "contributor", "a": a, "c": accs[a][0]})
        elif k < .84:
            if (key, y[key]) not in seen:
                ops.append({"op": "setroom", "a": a, "v": rng.choice(["0", "3000", "50"])})
        elif k < .89:
            ops.append({"op": "pnext", "p": rng.choice(ps)})
        else:
            ops.append({"op": "offer", "a": a})
    return {"setup": {"law": law, "price": price, "first": first, "people": people}, "ops": ops}


def num(t):
    return {int(y): dec(v) for y, v in t.items()}


def execute(s):
    S = s["setup"]
    first = S["first"]
    cons = ConstantsCanada()
    law = S["law"]
    if law:
        cons.RRSP_ACCRUAL_RATE = dec(law["accrual"])
        cons.RRSP_ACCRUAL_MAX = num(law["max"])
        cons.RRSP_RRIF_CONVERSION_AGE = int(law["last"])
        cons.TFSA_ANNUAL_ACCRUAL = num(law["tfsa"])
        cons.TFSA_ACCRUAL_ROUNDING_FACTOR = int(law["step"])
        cons.TFSA_ELIGIBILITY_AGE = int(law["eligible"])
    seen = {"accrual": enc(cons.RRSP_ACCRUAL_RATE), "max": {str(y): enc(v) for y, v in cons.RRSP_ACCRUAL_MAX.items()},
            "last": enc(cons.RRSP_RRIF_CONVERSION_AGE), "tfsa": {str(y): enc(v) for y, v in cons.TFSA_ANNUAL_ACCRUAL.items()},
            "step": enc(cons.TFSA_ACCRUAL_ROUNDING_FACTOR), "eligible": enc(cons.TFSA_ELIGIBILITY_AGE)}
    price = {int(y): dec(v) for y, v in S["price"].items()}
    per = {p: Person(first, p if len(s["ops"]) % 3 else "Pat", "%d-06-15" % d["born"], retirement_date="2090-01-01", gross_income=dec(d["gross"]),
                     raise_rate=dec(d["raise"])) for p, d in S["people"].items()}
    ev = [{"ev": "law", "law": seen, "price": S["price"], "born": {p: d["born"] for p, d in S["people"].items()}}]
    accs, key, contrib = {}, {}, {}

    def report(e):
        e["rooms"] = {a: enc(x.contribution_room) for a, x in accs.items()}
        e["years"] = {a: x.this_year for a, x in accs.items()}
        ev.append(e)
    for o in s["ops"]:
        k = o["op"]
        if k == "new":
            ck = o["c"] + ":" + o["kind"] + o.get("token", "")
            y = next((accs[a].this_year for a in accs if key[a] == ck), first)
            cls = RRSP if o["kind"] == "rrsp" else TFSA
            form = o.get("form", "usual")
            kw = {} if o["room"] == "none" else {"max_inflow_limit" if form == "native" else "contribution_room": dec(o["room"])}
            if o.get("token") and form == "native":
                kw["max_inflow_link"] = (per[o["c"]], o["kind"] + o["token"])
            else:
                if o.get("token"):
                    kw["max_inflow_token"] = o["kind"] + o["token"]
                # The owner is the contributor unless another is named.
                if form != "short" or o["o"] != o["c"]:
                    kw["contributor"] = per[o["c"]]
            if o["given"]:
                kw["inputs"] = {"contribution_room": num(o["given"])}
            v, err = attempt(lambda: cls(per[o["o"]], balance=dec("10000"), rate=dec("0"), inflation_adjust=price, constants=cons,
                                         initial_year=y, **kw))
            if err == "ok":
                accs[o["a"]], key[o["a"]], contrib[o["a"]] = v, ck, o["c"]
            report({"ev": "new", "a": o["a"], "key": ck, "kind": o["kind"], "c": o["c"], "room": o["room"], "given": o["given"],
                    "y": y, "err": err})
            if err != "ok":
                break
        elif k == "next":
            a = accs[o["a"]]
            c = per[contrib[o["a"]]]
            while c.this_year < a.this_year:
                c.next_year()
            gross = c.gross_income_history[a.this_year]
            _, err = attempt(a.next_year)
            report({"ev": "next", "a": o["a"], "c": contrib[o["a"]], "gross": enc(gross), "err": err})
        elif k == "pnext":
            p = per[o["p"]]
            mine = [a.this_year for n, a in accs.items() if contrib[n] == o["p"] or a.owner is p]
            if mine and p.this_year <= min(mine):
                _, err = attempt(p.next_year)
                report({"ev": "pnext", "err": err})
        elif k == "add":
            _, err = attempt(accs[o["a"]].add_transaction, dec(o["v"]), dec(o["t"]))
            report({"ev": "add", "a": o["a"], "t": o["t"], "v": o["v"], "err": err})
        elif k == "contributor":
            a = o["a"]
            _, err = attempt(setattr, accs[a], "contributor", per[o["c"]])
            key[a], contrib[a] = o["c"] + key[a][1:], o["c"]
            report({"ev": "contributor", "a": a, "c": o["c"], "key": key[a], "err": err})
        elif k == "setroom":
            _, err = attempt(setattr, accs[o["a"]], "contribution_room", dec(o["v"]))
            report({"ev": "setroom", "a": o["a"], "v": o["v"], "err": err})
        elif k == "offer":
            v, err = attempt(lambda: sum(accs[o["a"]].max_inflows().values()))
            report({"ev": "offer", "a": o["a"], "out": enc(v), "err": err})
    return ev
