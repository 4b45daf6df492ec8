"""C15: strategies group accounts and order debts as named."""
import lib
from lib import attempt, enc, dec
lib.setup_path()
from forecaster.strategy.transaction import TransactionStrategy  # noqa: E402
from forecaster.strategy.debt_payment import DebtPaymentStrategy  # noqa: E402
from forecaster.accounts import Account, Debt  # noqa: E402
from forecaster.accounts.linked_limit import LinkedLimitAccount  # noqa: E402
from forecaster.canada.accounts import RRSP, TFSA, TaxableAccount, PrincipleResidence  # noqa: E402
from forecaster.person import Person  # noqa: E402
from alloc import state_of, sums, rand_avail  # noqa: E402

MODELS = [dict(module="MCStrategy", cfg="MCStrategy.cfg", thorough_cfg="MCStrategyT.cfg")]
TRACE = "C15Trace"
ASSUMPTIONS = ["debts that are ordered together differ in the figure they are ordered by",
               "the weights of an ordered strategy differ from each other",
               "accounts are as they are at the start of a year"]
YEAR = 2000


class Mortgage(Debt):
    """ A user's own kind of debt. """


class Savings(TaxableAccount):
    """ A user's own kind of taxable account. """


CLASSES = {"Account": Account, "TaxableAccount": TaxableAccount, "PrincipleResidence": PrincipleResidence,
           "Savings": Savings, "LinkedLimitAccount": LinkedLimitAccount}
DEBTS = {"Debt": Debt, "Mortgage": Mortgage}


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCStrategy", []))
    rng.shuffle(gen)
    for b in gen[: 700 if tier == "quick" else 12000]:
        A = []
        for a in b["A"]:
            r = {"cls": a["cls"], "bal": a["bal"], "rate": a["rate"], "who": 1}
            if a["cls"] in DEBTS:
                r.update(minpay=a["lo"], accel="inf")
            if a["cls"] in ("RRSP", "TFSA"):
                r["room"] = a["hi"]
            A.append(r)
        out.append(scn(A, [{"k": "strategy", "S": b["S"]}], [["1/2", b["total"]]], rng))
    for _ in range(900 if tier == "quick" else 12000):
        out.append(rand(rng))
    for _ in range(350 if tier == "quick" else 6000):
        out.append(rand(rng, years=True))
    return out


def scn(A, ops, avail, rng, **kw):
    groups = {}
    gmax = []
    Gmax = []
    for a in A:
        if a["cls"] in ("RRSP", "TFSA"):
            k = (a["cls"], a["who"])
            if k not in groups:
                Gmax.append(a["room"])
                groups[k] = len(Gmax)
            a["room"] = Gmax[groups[k] - 1]
            gmax.append(groups[k])
        else:
            gmax.append(0)
    order = list(range(len(A)))
    rng.shuffle(order)
    return {"setup": dict({"A": A, "gmax": gmax, "Gmax": Gmax, "avail": avail, "order": order}, **kw), "ops": ops}


def rand(rng, years=False):
    A = []
    rates = rng.sample(["1/100", "1/50", "1/20", "51/1000", "54/1000", "2/25", "1/10", "101/1000", "3/20", "1/5", "1/4"], 8)
    bals = rng.sample(["1", "3", "8", "20", "33/2", "16", "75", "752/10", "200", "1000"], 8)
    for i in range(rng.randint(3, 7) if years else rng.randint(1, 8)):
        c = rng.choice(["Debt", "Debt", "Mortgage", "TFSA", "RRSP", "Account"] if years else ["Account", "RRSP", "TFSA", "TaxableAccount", "Savings", "PrincipleResidence", "LinkedLimitAccount",
                        "Debt", "Debt", "Debt", "Mortgage"])
        a = {"cls": c, "bal": rng.choice(["0", "10", "250", "40/3"]), "rate": rates[i], "who": rng.choice([1, 2])}
        if c in DEBTS:
            a.update(bal="-" + bals[i], minpay=rng.choice(["0", "2", "10"]), accel="inf" if years else rng.choice(["0", "5", "inf", "inf"]))
            if rng.random() < .1:
                a["bal"] = "0"
        if c in ("RRSP", "TFSA"):
            a["room"] = rng.choice(["0", "6", "50", "1000"])
        A.append(a)
    if sum(a["bal"] == "0" for a in A if a["cls"] in DEBTS) > 1:
        for i, a in enumerate(A):
            if a["cls"] in DEBTS and a["bal"] == "0":
                a["bal"] = "-" + bals[i]
    ops = []
    # (years: the strategies are used again in later years)
    for _ in range(rng.choice([3, 5, 7]) if years else rng.choice([1, 1, 2])):
        if years and ops and ops[-1]["k"] != "year":
            t = rng.choice([1, 1, 1, -1]) * rng.choice([2, 5, 20, 60, 150, 1000])
            ops.append({"k": "year", "avail": rand_avail(rng, t, rng.random() < .1), "apply": rng.random() < .5})
        elif years and ops and rng.random() < .8:
            # an earlier one again, perhaps with settings of its changed
            prior = [i for i, o in enumerate(ops) if o["k"] in ("strategy", "pay")]
            i = rng.choice(prior)
            o = dict(ops[i], use=ops[i].get("use", i))
            S = [x for x in ops if x["k"] == "strategy" and (x is ops[o["use"]] or x.get("use") == o["use"])]
            if o["k"] == "strategy":
                o["S"] = dict(S[-1]["S"])
                if rng.random() < .4:
                    o["S"].update({k: v for k, v in strat(rng).items() if k != "kind" and rng.random() < .5})
                    if o["S"]["kind"] == "Ordered" and rng.random() < .2:
                        o["S"]["kind"] = "Weighted"
                    if o["S"]["kind"] == "Ordered":
                        ws = list(o["S"]["ws"].values())
                        if len(set(ws)) < len(ws):
                            o["S"]["ws"] = S[-1]["S"]["ws"]
            ops.append(o)
        elif rng.random() < .7:
            ops.append({"k": "strategy", "S": strat(rng, years)})
        else:
            ds = [i + 1 for i, a in enumerate(A) if a["cls"] in DEBTS]
            ds = [d for d in ds if rng.random() < .9]
            if ds:
                rng.shuffle(ds)
                ops.append({"k": "pay", "debts": ds, "debt": rng.choice(["Avalanche", "Snowball"]),
                            "form": rng.choice(["list", "set", "tuple"])})
    if not ops:
        ops.append({"k": "strategy", "S": strat(rng, years)})
    if years:
        for i, a in enumerate(A):
            a["later"] = []
        cur = [a["rate"] for a in A]
        for _ in range(8):
            if rng.random() < .6:
                cur = rng.sample(rates, len(A))
            for a, r in zip(A, cur):
                a["later"].append(r)
    total = rng.choice([1, 1, 1, -1]) * rng.choice([2, 5, 20, 60, 150, 1000])
    return scn(A, ops, rand_avail(rng, total, rng.random() < .1), rng)


def strat(rng, debts=False):
    names = ["Account", "RRSP", "TFSA", "RegisteredAccount", "LinkedLimitAccount", "TaxableAccount", "Debt", "Mortgage",
             "Savings", "PrincipleResidence"]
    ks = rng.sample(names, rng.randint(1, 5))
    if debts and "Debt" not in ks:
        ks[0] = "Debt"
    ws = rng.sample(["1", "2", "3", "5/4", "3/2", "1/2", "1/4", "0", "10", "25", "100"], len(ks))
    kind = rng.choice(["Ordered", "Weighted"])
    if kind == "Weighted":
        ws = [rng.choice(["1", "1", "2", "3/5", "0"] if rng.random() < .3 else ["1", "1", "2", "3/5"]) for _ in ks]
    return {"kind": kind, "ws": dict(zip(ks, ws)), "debt": rng.choice(["Avalanche", "Snowball"]),
            "high": rng.choice(["none", "none", "1/20", "1/10", "3/20", "0"])}


def make(S):
    kw = {}
    if S["high"] != "none":
        kw["high_interest_threshold"] = dec(S["high"])
    # (A strategy is named, or given as the method itself.)
    form = len(S["ws"]) % 2
    if S["debt"] != "Avalanche" or form:
        kw["debt_strategy"] = S["debt"]
    return TransactionStrategy(TransactionStrategy.strategies[S["kind"]] if form else S["kind"], {k: dec(v) for k, v in S["ws"].items()}, **kw)


def execute(s):
    S = s["setup"]
    people = {1: Person(YEAR, "A", "1960-05-05", retirement_date="2030-01-01"),
              2: Person(YEAR, "A", "1964-05-05", retirement_date="2030-01-01")}
    accts = [None] * len(S["A"])
    for i in S["order"]:
        a = S["A"][i]
        c = a["cls"]
        own = people[a["who"]]
        rate = dec(a["rate"])
        if "later" in a:
            rate = {YEAR + n: dec(r) for n, r in enumerate([a["rate"]] + a["later"])}
        kw = dict(balance=dec(a["bal"]), rate=rate)
        if c in DEBTS:
            accts[i] = DEBTS[c](own, minimum_payment=dec(a["minpay"]), accelerated_payment=dec(a["accel"]), **kw)
        elif c in ("RRSP", "TFSA"):
            accts[i] = {"RRSP": RRSP, "TFSA": TFSA}[c](own, inflation_adjust=lambda *x: 1, contribution_room=dec(a["room"]), **kw)
        else:
            accts[i] = CLASSES[c](own, **kw)
    made = []
    for o in s["ops"]:
        made.append(None if o["k"] == "year" else made[o["use"]] if "use" in o
                    else make(o["S"]) if o["k"] == "strategy" else DebtPaymentStrategy(
                        DebtPaymentStrategy.strategies[o["debt"]] if len(o["debts"]) % 2 else o["debt"]))
    firsts = [next(a for a, g in zip(accts, S["gmax"]) if g == k + 1) for k in range(len(S["Gmax"]))]
    ev = []

    def state(avail):
        total = sum(avail.values())
        out = total < 0
        d = "outflow" if out else "inflow"
        ev.append({"ev": "state", "bal": [enc(a.balance) for a in accts], "rate": [enc(a.rate) for a in accts],
                   "lo": [enc(sums(getattr(a, "min_" + d + "s")(timing=avail))) for a in accts],
                   "hi": [enc(sums(getattr(a, "max_" + d + "s")(timing=avail))) for a in accts],
                   "room": [enc(a.contribution_room) for a in firsts],
                   "total": enc(abs(total)), "out": out})
        return avail, total, out

    avail, total, out = state({dec(t): dec(v) for t, v in S["avail"]})
    last = {}
    for o, st in zip(s["ops"], made):
        if o["k"] == "year":
            for a, txns in last.items():
                for when, v in txns.items():
                    if o["apply"]:
                        a.add_transaction(v, when)
            last = {}
            for x in list(people.values()) + accts:
                y = people[1].this_year if x is not people[1] else x.this_year + 1
                while x.this_year < y:
                    x.next_year()
            avail, total, out = state({dec(t): dec(v) for t, v in o["avail"]})
            continue
        before = [state_of(a) for a in accts]
        which = o["S"]["debt"] if o["k"] == "strategy" else o["debt"]
        among = range(len(accts)) if o["k"] == "strategy" else [x - 1 for x in o["debts"]]
        fig = sorted(accts[x].rate if which == "Avalanche" else abs(accts[x].balance)
                     for x in among if S["A"][x]["cls"] in DEBTS)
        if any(abs(x - y) < dec("1/1000000") for x, y in zip(fig, fig[1:])):
            continue                     # (debts which tie: see the assumptions)
        if o["k"] == "strategy":
            if "use" in o:
                st.strategy = o["S"]["kind"]
                st.weights = {k: dec(v) for k, v in o["S"]["ws"].items()}
                st.debt_strategy = o["S"]["debt"]
                st.high_interest_threshold = None if o["S"]["high"] == "none" else dec(o["S"]["high"])
            v, tag = attempt(st, avail, set(accts) if S["order"][0] % 2 else list(accts))
            # (the threshold as the code sees it: a float)
            high = o["S"]["high"]
            e = {"ev": "strategy", "S": dict(o["S"], high=high if high == "none" else enc(dec(high)))}
        else:
            if out:
                continue
            form = {"list": list, "set": set, "tuple": tuple}[o["form"]]
            v, tag = attempt(st, form(accts[x - 1] for x in o["debts"]), avail)
            e = {"ev": "pay", "debts": o["debts"], "debt": o["debt"], "total": enc(abs(total))}
        v = v if tag == "ok" else {}
        last = v
        e.update(err=tag, got=[enc(sum(v.get(a, {}).values())) for a in accts], extra=len([k for k in v if k not in accts]),
                 same=before == [state_of(a) for a in accts])
        ev.append(e)
    return ev
