"""C19: living expenses follow the chosen strategy and are never negative."""
import lib
from lib import attempt, enc, dec
lib.setup_path()
from forecaster import Person, Account, LivingExpensesStrategy, LivingExpensesStrategySchedule  # noqa: E402

MODELS = [dict(module="MCExpenses", cfg="MCExpenses.cfg", thorough_cfg="MCExpensesT.cfg")]
TRACE = "C19Trace"
ASSUMPTIONS = ["at least one person; nobody owns a debt", "rules that refer to retirement are asked for a retirement year on record"]
RULES = ["Constant contribution", "Constant living expenses", "Percentage of net income", "Percentage of gross income",
         "Percentage of earnings growth", "Percentage of principal at retirement",
         "Percentage of net income at retirement", "Percentage of gross income at retirement"]


def rule(rng):
    return {"rule": rng.choice(RULES), "base": rng.choice(["0", "100", "2500", "50000", "1000000"]),
            "rate": rng.choice(["0", "1/10", "1/2", "1", "6/5", "1/25"]), "real": rng.random() < .7}


def scenarios(tier, rng, beh):
    out = []
    for _ in range(2500 if tier == "quick" else 30000):
        first = rng.choice([2000, 2018])
        n = rng.randint(1, 6)
        people = [{"gross": rng.choice(["0", "1000", "64000", "100000"]), "raise": rng.choice(["0", "1/10", "-1/2", "1"]),
                   "retire": first + rng.randint(0, n + 2), "tax": rng.choice(["0", "1/4", "1/2", "1", "5/4"]),
                   "accounts": [{"open": rng.choice(["0", "100", "12000", "-300"]), "rate": rng.choice(["0", "1/10", "-1/4"]),
                                 "with": rng.choice([0, 0, 0, 1, 2])}
                                for _ in range(rng.randint(0, 3))]}
                  for _ in range(rng.randint(1, 3))]
        price, x = {}, 1.0
        for y in range(first - 1, first + n + 1):
            price[str(y)] = enc(x)
            x *= rng.choice([1, 1.5, 2, .5])
        ops = []
        pool = [rule(rng) for _ in range(3)]
        plans = []  # plans asked again (of one object, for another year or year of retirement)

        def some(names=RULES):
            r = rng.choice(pool) if rng.random() < .5 else rule(rng)
            return dict(r) if r["rule"] in names else dict(rule(rng), rule=rng.choice(names))

        def group():
            return sorted(rng.sample(range(1, len(people) + 1), rng.randint(1, len(people)))) if rng.random() < .3 \
                else list(range(1, len(people) + 1))
        for y in range(first, first + n):
            ops.append({"k": "year", "y": y})
            for _ in range(rng.randint(1, 5)):
                if rng.random() < .5:
                    ops.append({"k": "spend", "y": y, "rule": some(), "again": rng.random() < .2, "ret": rng.randint(first, y), "who": group()})
                else:
                    ret = rng.choice([0, y - 1, y, y + 1, rng.randint(first, first + n), rng.randint(first, y)])
                    if ret and ret < first:
                        ret = 0
                    names = RULES if first <= ret <= y else RULES[:5]
                    low = some(names) if rng.random() < .7 else \
                        {"working": some(names), "retirement": some(names), "minimum": []}
                    p = {"working": some(names), "retirement": some(names), "minimum": [low] if rng.random() < .5 else []}
                    again = [q for q, full in plans if full == (names is RULES) or not full]
                    if again and rng.random() < .5:
                        p = rng.choice(again)
                    else:
                        plans.append((p, names is RULES))
                    ops.append({"k": "plan", "y": y, "plan": p, "again": rng.random() < .2, "ret": ret, "who": group()})
        out.append({"setup": {"first": first, "price": price, "people": people}, "ops": ops})
    return out


def execute(s):
    S = s["setup"]
    first = S["first"]
    price = {int(k): dec(v) for k, v in S["price"].items()}

    def adj(year, base_year=first):
        return price[year] / price[base_year]
    people, accs = [], []
    for i, p in enumerate(S["people"]):
        t = dec(p["tax"])
        who = Person(first, "P%d" % (i if len(s["ops"]) % 3 else 0), "1950-01-01", retirement_date="%d-06-01" % p["retire"], gross_income=dec(p["gross"]),
                     raise_rate=dec(p["raise"]), tax_treatment=lambda income, year, t=t: income * t)
        people.append(who)
        accs += [Account(owner=who, balance=dec(a["open"]), rate=dec(a["rate"])) for a in p["accounts"]]
    for a, x in zip([a for p in S["people"] for a in p["accounts"]], accs):
        if a["with"]:       # an account of two people
            people[(people.index(x.owner) + a["with"]) % len(people)].accounts.add(x)

    made, form = {}, len(s["ops"]) % 2

    def again(r):
        """One object that is given other settings each time."""
        if "working" in r:
            x = made.setdefault("schedule", LivingExpensesStrategySchedule(None, None))
            x.working, x.retirement = mk(r["working"]), mk(r["retirement"])
            x.minimum = mk(r["minimum"][0]) if r["minimum"] else None
            return x
        x = made.setdefault("rule", LivingExpensesStrategy(RULES[0], inflation_adjust=adj))
        x.strategy, x.base_amount, x.rate = r["rule"], dec(r["base"]), dec(r["rate"])
        return x

    def mk(r):
        key = repr(sorted(r.items()))
        if "working" in r:
            if key not in made:
                made[key] = LivingExpensesStrategySchedule(mk(r["working"]), mk(r["retirement"]), *[mk(m) for m in r["minimum"]])
            return made[key]
        if key not in made:
            # (A rule is named, or given as the method itself.)
            named = LivingExpensesStrategy.strategies[r["rule"]] if form else r["rule"]
            made[key] = LivingExpensesStrategy(named, base_amount=dec(r["base"]), rate=dec(r["rate"]),
                                               **({"inflation_adjust": adj} if r["real"] else {}))
        return made[key]
    ev, y, mag = [], first, 10 ** 6
    for o in s["ops"]:
        k = o["k"]
        if k == "year":
            if o["y"] > y:
                for a in accs + people:
                    a.next_year()
                y = o["y"]
            e = {"ev": "year", "y": y, "gross": [enc(p.gross_income) for p in people],
                 "net": [enc(p.net_income) for p in people], "principal": [enc(a.balance) for a in accs],
                 "by": [[i + 1 for i, p in enumerate(people) if a in p.accounts] for a in accs]}
            mag = max(mag, *(abs(p.gross_income) * 10 for p in people))
            ev.append(e)
            continue
        who = {people[i - 1] for i in o["who"]}
        if k == "spend":
            v, t = attempt((again if o["again"] and o["rule"]["real"] else mk)(o["rule"]), people=who, year=y, retirement_year=o["ret"])
            ev.append({"ev": k, "y": y, "rule": o["rule"], "ret": o["ret"], "who": o["who"], "out": enc(v), "err": t, "mag": enc(mag)})
        elif k == "plan":
            kw = {} if o["ret"] == 0 else {"retirement_year": o["ret"]}
            v, t = attempt((again if o["again"] else mk)(o["plan"]), people=who, year=y, **kw)
            ev.append({"ev": k, "y": y, "plan": o["plan"], "ret": o["ret"], "who": o["who"], "out": enc(v), "err": t, "mag": enc(mag)})
    return ev
