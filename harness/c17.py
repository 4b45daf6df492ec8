"""C17: the parts of a forecast report what they moved."""
from collections import defaultdict
import lib
from lib import attempt, enc, dec
lib.setup_path()
from forecaster.forecast import (  # noqa: E402
    IncomeForecast, LivingExpensesForecast, SavingForecast, WithdrawalForecast, TaxForecast)
from forecaster.accounts import Account, Debt  # noqa: E402
from forecaster.canada.accounts import TFSA, RRSP, TaxableAccount  # noqa: E402
from forecaster.ledger import recorded_property  # noqa: E402
from forecaster.person import Person  # noqa: E402
from forecaster.strategy import TransactionStrategy, LivingExpensesStrategy  # noqa: E402
from forecaster.tax import Tax  # noqa: E402
from forecaster.utility import Timing  # noqa: E402
from c16 import tidy, rec, CODES  # noqa: E402

MODELS = [dict(module="MCParts", cfg="MCParts.cfg", thorough_cfg="MCPartsT.cfg")]
TRACE = "C17Trace"
ASSUMPTIONS = ["payment schedules have positive weights; accounts give withheld tax as a positive amount",
               "people's figures are read after the start of the year's changes"]
YEAR = 2000
NAMES = ["income", "living", "saving", "withdrawal", "tax"]
FIELDS = [["gross_income", "tax_withheld", "net_income", "carryover"], ["living_expenses"],
          ["total", "retirement_savings", "debt_repayment"], ["gross_withdrawals", "tax_withheld", "net_withdrawals"],
          ["tax_withheld", "tax_owing", "tax_adjustment"]]
KEPT = FIELDS[:3] + [["gross_withdrawals", "net_withdrawals"]] + FIELDS[4:]  # those with a history
PLANS = {(0,): [[2, "1", [["1/2", "1"]]]], (1,): [[3, "1/2", [["0", "1"]]], [2, "1/2", [["1/2", "1"], ["1", "1"]]]]}


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCParts", []))
    rng.shuffle(gen)
    for b in gen[: 800 if tier == "quick" else 15000]:
        D = b["D"]
        people = []
        for p in D["people"]:
            f = lib.Fraction(p["withheld"]) / lib.Fraction(p["gross"]) if p["gross"] != "0" else 0
            people.append({"gross": p["gross"], "tax": [["0", str(f)]], "w": p["w"], "retire": 2030})
        accts = [{"cls": "Held", "own": [0], "open": "3", "rate": "0", "code": "A", "held": "1/4", "tx": {}},
                 {"cls": "Debt", "own": [0], "open": "-8", "rate": "0", "code": "A", "tx": {}}]
        out.append(finish({"people": people, "accts": accts, "living": {"k": "fixed", "base": D["living"], "step": "0", "ret": "0"},
                           "saving": {"k": "plan", "parts": PLANS[(D["n"],)]}, "taking": {"k": "plan", "cap": True, "parts": [[2, "1", [["1/2", "1"]]]]},
                           "retire": [2], "debts": [3], "assets": [2], "tax": [["0", "1/5"]], "cash": {}, "plain": False},
                          [dict(h, k=h["op"], carry="sum") for h in b["hist"]] + [{"k": "hist"}]))
    for _ in range(500 if tier == "quick" else 10000):
        out.append(rand(rng))
    return out


def finish(s, ops):
    mag = 100
    for p in s["people"]:
        mag += 4 * float(lib.frac(p["gross"]))
    for a in s["accts"]:
        mag += 4 * abs(float(lib.frac(a["open"])))
    stores = [{"kind": "cash", "open": "0", "rate": "0", "nper": "1", "limit": "inf", "exact": False,
               "tx": {enc(dec(t)): enc(dec(v)) for t, v in s["cash"].items()}}]
    for a in s["accts"]:
        a["tx"] = {enc(dec(t)): enc(dec(v)) for t, v in a["tx"].items()}
        stores.append({"kind": "account", "open": enc(dec(a["open"])), "rate": enc(dec(a["rate"])), "nper": CODES[a["code"]],
                       "limit": "0" if a["cls"] == "Debt" else "inf", "exact": False, "tx": a["tx"]})
    return {"setup": {"stores": stores, "retire": s["retire"], "debts": s["debts"], "assets": s["assets"], "mag": str(int(mag))},
            "case": s, "ops": ops}


AMTS = ["0", "1", "25", "100", "100/3", "250", "400", "1000", "1234/10"]
TIMES = ["0", "1/4", "1/2", "3/4", "1", "1/3", "1/12", "9/10", "2/3"]


def rand_w(rng):
    return [[t, rng.choice(["1", "1", "2", "1/2", "7/3"])] for t in rng.sample(TIMES, rng.choice([1, 1, 2, 3]))]


def rand_plan(rng, stores):
    n = rng.choice([0, 1, 1, 2, 3]) if stores else 0
    ks = rng.sample(stores, min(n, len(stores)))
    return [[k, rng.choice(["1", "1", "1/2", "1/3", "1/4", "3/5", "99999/100000", "999999/1000000"]), rand_w(rng)] for k in ks]


def rand_inputs(rng):
    f = rng.choice(["net_income", "tax_withheld", "gross_income"])
    return {f: {str(YEAR + rng.choice([0, 1, 1])): "0" if f == "tax_withheld" else rng.choice(AMTS)}}


def rand(rng):
    n = rng.choice([1, 1, 2, 2, 3])
    people = []
    for _ in range(n):
        people.append({"gross": rng.choice(AMTS), "tax": rng.choice([[], [["0", "1/4"]], [["0", "1/10"], ["100", "1/3"]], [["0", "5/4"]]][:4 if rng.random() < .3 else 3]),
                       "w": rand_w(rng), "retire": rng.choice([2000, 2001, 2001, 2002, 2030]), "raise": rng.choice(["0", "1/10", "-1/5"]),
                       "inputs": {} if rng.random() < .75 else rand_inputs(rng)})
    accts = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        c = rng.choice(["Account", "RRSP", "RRSP", "TFSA", "Taxable", "Held", "Debt", "Debt"])
        a = {"cls": c, "own": [rng.randrange(n)], "open": rng.choice(AMTS + ["5000", "20000"]), "rate": rng.choice(["0", "1/20", "1/10", "-1/10", "1/100"]),
             "code": rng.choice(["C", "A", "A", "M", "D"]), "tx": {}}
        if c == "Debt":
            a["open"] = "-" + rng.choice(AMTS[1:])
            if rng.random() < .4:  # payments made elsewhere
                a["tx"] = {rng.choice(TIMES): str(-lib.Fraction(a["open"]) / rng.choice([3, 4, 8]))}
            if rng.random() < .4:
                a["pay"] = [rng.choice(["0", "10", "40"]), rng.choice(["0", "25", "inf"])]
        if c == "Held":
            a["held"] = rng.choice(["1/4", "1/10", "0"])
            a["own"] = rng.sample(range(n), rng.randint(1, n))
        if rng.random() < .3 and c != "Debt":
            a["tx"] = {rng.choice(TIMES): rng.choice(["10", "55"] + (["-30", "-100"] if lib.Fraction(a["open"]) >= 1000 else []))}
        accts.append(a)
    idx = [i + 2 for i in range(len(accts))]
    debts = [i for i in idx if accts[i - 2]["cls"] == "Debt"]
    assets = [i for i in idx if i not in debts]
    retire = assets if rng.random() < .6 else [i for i in assets if rng.random() < .6]
    real = rng.random() < .5
    case = {"people": people, "accts": accts, "retire": retire, "debts": debts, "assets": assets,
            "tax": rng.choice([[["0", "1/5"]], [["0", "1/10"], ["200", "1/2"]]]),
            "living": rng.choice([{"k": "fixed", "base": rng.choice(AMTS), "step": rng.choice(["0", "10", "-7"]), "ret": rng.choice(["0", "1", "5"])},
                                  {"k": "real", "name": rng.choice(["strategy_const_living_expenses", "strategy_gross_percent", "strategy_net_percent"]),
                                   "base": rng.choice(AMTS), "rate": rng.choice(["1/2", "1", "5/4"])}]),
            "saving": {"k": "plan", "parts": rand_plan(rng, sorted(set(retire + debts)))},
            "taking": {"k": "plan", "cap": rng.random() < .7, "parts": rand_plan(rng, assets)},
            "cash": {t: rng.choice(["", "-"]) + rng.choice(AMTS) for t in rng.sample(TIMES, rng.choice([0, 0, 1, 3]))},
            "plain": rng.random() < .3}
    if real:
        w = ["Ordered", "Weighted"][rng.random() < .4]
        case["saving"] = {"k": "real", "how": w, "order": rng.sample(range(1, 7), 6)}
        case["taking"] = {"k": "real", "how": w, "order": rng.sample(range(1, 7), 6)}
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < .7:
            seq = [{"k": "call", "p": p} for p in range(1, 6)]
            for _ in range(rng.choice([0, 0, 1, 2])):
                seq.insert(rng.randrange(len(seq) + 1), {"k": rng.choice(["call", "undo"]), "p": rng.randint(1, 5)})
        else:
            seq = [{"k": rng.choice(["call", "call", "call", "undo"]), "p": rng.randint(1, 5)} for _ in range(rng.randint(1, 7))]
        ops += seq + [{"k": "year", "carry": rng.choice(["sum", "sum", "250", "-120", "0"])}]
        if rng.random() < .5:
            ops.append({"k": "hist"})
    if rng.random() < .5:
        ops += [{"k": "call", "p": p} for p in range(1, 6)]
    ops.append({"k": "hist"})
    return finish(case, ops)


class Held(Account):
    """ An account that withholds a share of what is withdrawn. """
    share = 0

    @recorded_property
    def tax_withheld(self):
        return -self.share * self.outflows()


class Recorder:
    """ A strategy that notes what it was asked and what it answered. """

    def __init__(self, fn, accounts):
        self.fn, self.accounts, self.calls = fn, accounts, []

    def __call__(self, available, *args, accounts=None, **kwargs):
        accounts = accounts if accounts is not None else (args[0] if args else set())
        held = [abs(a.tax_withheld) for a in self.accounts]
        pool = sum(available.values())
        plan = self.fn(available, accounts=accounts, **kwargs)
        self.calls.append({"offered": [i + 2 for i, a in enumerate(self.accounts) if any(a is x for x in accounts)],
                           "held": held, "pool": pool, "plan": [(a, dict(t)) for a, t in plan.items()]})
        return plan


def stub(spec, accounts, taking):
    def fn(available, accounts=None, **_):
        total = sum(available.values())
        plan = {}
        for k, share, w in spec["parts"]:
            a = all_accounts[k - 2]
            if not any(a is x for x in accounts):
                continue
            v = total * dec(share)
            if taking and spec.get("cap"):
                v = -min(-v, max(a.balance_at_time("end"), 0))
            tot = sum(dec(x) for _, x in w)
            if v:
                plan[a] = {dec(t): v * dec(x) / tot for t, x in w}
        return plan
    all_accounts = accounts
    return fn


def make(s, wrap=lambda c: c):
    people = []
    for i, p in enumerate(s["people"]):
        t = Tax(tax_brackets={YEAR: {dec(k): dec(r) for k, r in p["tax"]}}) if p["tax"] else None
        people.append(wrap(Person)(YEAR, "ABC"[i if len(s["cash"]) != 1 else 0], "19%d-05-05" % (60 + i), retirement_date="%d-06-30" % p["retire"],
                             gross_income=dec(p["gross"]), tax_treatment=t, raise_rate=dec(p.get("raise", "0")),
                             payment_timing={dec(a): dec(b) for a, b in p["w"]},
                             inputs={f: {int(y): dec(v) for y, v in d.items()} for f, d in p.get("inputs", {}).items()} or None))
    accts = []
    for a in s["accts"]:
        own = people[a["own"][0]]
        kw = dict(balance=dec(a["open"]), rate=dec(a["rate"]), nper=a["code"])
        c = a["cls"]
        if c in ("RRSP", "TFSA"):
            x = wrap({"TFSA": TFSA, "RRSP": RRSP}[c])(own, inflation_adjust=lambda *_: 1, contribution_room=dec("1000"), **kw)
        else:
            if "pay" in a:
                kw.update(minimum_payment=dec(a["pay"][0]), accelerated_payment=dec(a["pay"][1]))
            x = wrap({"Account": Account, "Held": Held, "Taxable": TaxableAccount, "Debt": Debt}[c])(own, **kw)
        if c == "Held":
            x.share = dec(a["held"])
        for i in a["own"][1:]:
            people[i].accounts.add(x)  # an account of several people
        for t, v in a["tx"].items():
            x.add_transaction(dec(v), dec(t))
        accts.append(x)
    return people, accts


def living_strategy(s, people):
    L = s["living"]
    if L["k"] == "fixed":
        def fn(year, people, retirement_year=None, **_):
            return dec(L["base"]) + dec(L["step"]) * (year - YEAR) + dec(L["ret"]) * (retirement_year - YEAR) + len(people)
        def plain(year=None, people=None, retirement_year=None, **_):
            return dec(L["base"])
        return plain if L["step"] == L["ret"] == "0" else lambda *a, **k: max(fn(*a, **k), 0)
    return LivingExpensesStrategy(strategy=getattr(LivingExpensesStrategy, L["name"]), base_amount=dec(L["base"]),
                                  rate=dec(L["rate"]), inflation_adjust=lambda *_: 1)


def transaction_strategy(S, accts, taking):
    if S["k"] == "plan":
        return Recorder(stub(S, accts, taking), accts)
    names = sorted({type(a).__name__ for a in accts})
    w = {n: S["order"][i % len(S["order"])] for i, n in enumerate(names)}
    if taking:
        w = {n: v for n, v in w.items() if n != "Debt"} or {"Account": 1}
    return Recorder(TransactionStrategy(S["how"], w), accts)


def planned_form(plan, accts):
    out = []
    for a, txs in plan:
        k = [i + 2 for i, x in enumerate(accts) if x is a]
        out.append({"k": k[0] if k else 0, "txs": [[enc(t), enc(v)] for t, v in txs.items()]})
    return out


def overdrawn(a):
    for t in sorted(set(a) | {0}):
        if a.balance_at_time(t) < 0 or a.balance_at_time(t) - a.get(t, 0) < 0:
            return True
        # withdrawn from nothing
        if a.get(t, 0) < 0 and a.balance_at_time(t) - a.get(t, 0) <= 0:
            return True
    return False


def execute(scn):
    s = scn["case"]
    people, accts = make(s)
    folk = set(people)
    cash = {} if s["plain"] else defaultdict(lambda: 0)
    cash.update({dec(t): dec(v) for t, v in s["cash"].items()})
    stores = [cash] + accts
    pick = lambda ks: {accts[k - 2] for k in ks}  # noqa: E731
    living = living_strategy(s, people)
    save, take = transaction_strategy(s["saving"], accts, False), transaction_strategy(s["taking"], accts, True)
    tax = Tax(tax_brackets={YEAR: {dec(k): dec(r) for k, r in s["tax"]}}, refund_timing=Timing({dec("1/4"): dec("1"), dec("1/2"): dec("2")}),
              payment_timing=Timing(dec("3/4")))
    parts = [IncomeForecast(YEAR, folk), LivingExpensesForecast(YEAR, folk, living),
             SavingForecast(YEAR, pick(s["retire"]), pick(s["debts"]), save),
             WithdrawalForecast(YEAR, folk, pick(s["assets"]), take), TaxForecast(YEAR, folk, tax)]
    year = [YEAR]
    ev = []

    def report(p):
        return {f: enc(getattr(parts[p - 1], f)) for f in FIELDS[p - 1]}

    def snap():
        return {"stores": [tidy(x) for x in stores], "recs": [rec(q.transactions, stores) for q in parts]}

    def given():
        return [{"gross": enc(x.gross_income), "withheld": enc(x.tax_withheld), "net": enc(x.net_income),
                 "w": [[enc(dec(a)), enc(dec(b))] for a, b in q["w"]]} for x, q in zip(people, s["people"])]

    for o in scn["ops"]:
        k = o["k"]
        if any(isinstance(a, TaxableAccount) and overdrawn(a) for a in accts):
            break  # (gains on money that is not there are not defined)
        if k == "call":
            p = o["p"]
            for r in (save, take):
                r.calls = []
            tag = attempt(parts[p - 1], cash)[1]
            e = {"ev": "call", "p": p, "err": tag, "real": s["saving"]["k"] == "real", "times": True}
            reps, t2 = attempt(report, p)
            e["rep"] = reps or {}
            e["err"] = tag if tag != "ok" else t2
            e.update(snap())
            e["found"] = enc(parts[p - 1].total_available)
            d = {"people": given(), "living": "0", "plan": [], "held": ["0"] * len(stores), "accheld": [], "owing": "0"}
            if p == 2:
                d["living"] = enc(living(year=year[0], people=folk, retirement_year=min(x.retirement_date.year for x in people)))
            calls = {3: save, 4: take}[p].calls if p in (3, 4) else []
            e["planned"] = bool(calls)
            e["pool"], e["offered"], e["kept"] = "0", [], []
            if calls:
                c = calls[-1]
                d["plan"] = planned_form(c["plan"], accts)
                e["pool"], e["offered"] = enc(c["pool"]), c["offered"]
                if p == 4:
                    d["held"] = ["0"] + [enc(abs(a.tax_withheld) - h) for a, h in zip(accts, c["held"])]
            if p in (3, 4):
                e["kept"] = planned_form([(a, t) for a, t in parts[p - 1].account_transactions.items()], accts)
            if p == 5:
                d["accheld"] = [enc(a.tax_withheld) for a in accts]
                d["owing"] = enc(tax(folk, year[0]))
                e["times"] = (parts[4].tax_refund_timing == tax.refund_timing
                              and parts[4].tax_payment_timing == tax.payment_timing)
            e["d"] = d
            ev.append(e)
        elif k == "undo":
            p = o["p"]
            tag = attempt(parts[p - 1].undo_transactions)[1]
            reps, t2 = attempt(report, p)
            ev.append(dict(snap(), ev="undo", p=p, err=tag if tag != "ok" else t2, rep=reps or {}))
        elif k == "year":
            left = sum(cash.values())
            tag = "ok"
            for q in parts + people + accts:
                t = attempt(q.next_year)[1] if q.this_year == year[0] else "ok"
                tag = tag if tag != "ok" else t
            year[0] += 1
            cash.clear()
            carry = left if o["carry"] == "sum" else dec(o["carry"])
            if carry:
                cash[0] = carry
            fresh = [dict(st, tx=tidy(x)) for st, x in zip(scn["setup"]["stores"], stores)]
            for f, a in zip(fresh[1:], accts):
                f["open"] = enc(a.balance)
            reps, t2 = attempt(lambda: [report(q) if q in (3, 4) else {} for q in range(1, 6)])
            ev.append(dict(snap(), ev="year", err=tag if tag != "ok" else t2, fresh=fresh, reps=reps or [{}] * 5))
        elif k == "hist":
            hist, past = [], []
            for p, q in enumerate(parts):
                ys = range(YEAR, year[0])
                hist.append([{f: enc(getattr(q, f + "_history").get(y)) for f in KEPT[p]} for y in ys])
                past.append([rec(q.transactions_history[y], stores) for y in ys])
            ev.append({"ev": "hist", "hist": hist, "past": past})
    return ev
