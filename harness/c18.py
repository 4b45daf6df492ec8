"""C18: a forecast carries cash and tax from year to year."""
import lib
from lib import attempt, enc, dec
lib.setup_path()
from forecaster.forecast import (  # noqa: E402
    Forecast, IncomeForecast, LivingExpensesForecast, SavingForecast, WithdrawalForecast, TaxForecast)
from forecaster.accounts import Account  # noqa: E402
from forecaster.person import Person  # noqa: E402
from forecaster.scenario import Scenario  # noqa: E402
from forecaster.tax import Tax, TaxMulti  # noqa: E402
from forecaster.utility import Timing  # noqa: E402
import c17  # noqa: E402
from c17 import YEAR, tidy  # noqa: E402

MODELS = [dict(module="MCCarry", cfg="MCCarry.cfg", thorough_cfg="MCCarryT.cfg")]
TRACE = "C18Trace"
ASSUMPTIONS = ["all objects start in the forecast's first year; the accounts saved to are among those withdrawn from",
               "payment schedules have positive weights; taxable accounts are not overdrawn"]


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCCarry", []))
    rng.shuffle(gen)
    for b in gen[: 300 if tier == "quick" else 6000]:
        n = len(b["flows"]) // 5
        out.append(dummy([[f or {} for f in b["flows"][5 * i:5 * i + 5]] for i in range(n)],
                         [a[0] if a else "none" for a in b["adjs"]] + ["none"], b["refund"], b["payment"], rng))
    for _ in range(150 if tier == "quick" else 3000):
        out.append(rand_dummy(rng))
    for _ in range(300 if tier == "quick" else 6000):
        out.append(rand(rng))
    return out


AMTS = c17.AMTS[1:]


def rand_flow(rng):
    return {t: rng.choice(["", "-"]) + rng.choice(AMTS) for t in rng.sample(c17.TIMES, rng.choice([0, 1, 1, 2, 3]))}


def rand_dummy(rng):
    n = rng.choice([1, 2, 2, 3, 4, 6])
    return dummy([[rand_flow(rng) for _ in range(5)] for _ in range(n)],
                 [rng.choice(["none", "0", "100", "-100", "1/3", "-250"]) for _ in range(n)],
                 c17.rand_w(rng), c17.rand_w(rng), rng)


def schedule(w):
    return [[enc(dec(t)), enc(dec(x))] for t, x in w]


def dummy(flows, adjs, refund, payment, rng):
    n = len(flows)
    timed = [rng.random() < .8, rng.random() < .8]
    more = rng.randint(0, n - 1) if rng.random() < .3 else 0
    mag = 100 + sum(abs(float(lib.frac(v))) for y in flows for f in y for v in f.values()) + 300 * n
    return {"kind": "dummy", "flows": [[{enc(dec(t)): enc(dec(v)) for t, v in f.items()} for f in y] for y in flows],
            "adjs": [a if a == "none" else enc(dec(a)) for a in adjs], "timed": timed, "more": more, "n": n, "w": [refund, payment],
            "twice": rng.random() < .2,
            "setup": {"first": YEAR, "objs": 7, "accts": 1, "assets": [1], "real": False, "mag": str(int(mag)),
                      "refund": schedule(refund) if timed[0] else [["0", "1"]],
                      "payment": schedule(payment) if timed[1] else [["0", "1"]]}}


def rand(rng):
    while True:
        s = c17.rand(rng)
        if s["case"]["assets"] and not (s["case"]["taking"]["k"] == "plan" and any(a["cls"] == "Taxable" for a in s["case"]["accts"])):
            break
    c = s["case"]
    for a in c["accts"]:
        if a["cls"] == "Taxable":
            a["tx"] = {}
    for p in c["people"]:
        if rng.random() < .5:
            p["gross"] = rng.choice(["1000", "2500"])
    n = rng.choice([1, 2, 3, 3, 5])
    refund, payment = c17.rand_w(rng), c17.rand_w(rng)
    return {"kind": "real", "case": c, "n": n, "more": rng.randint(0, n - 1) if rng.random() < .3 else 0, "w": [refund, payment],
            "taxes": rng.choice(["one", "one", "multi", "set"]),
            "setup": {"first": YEAR, "objs": 5 + len(c["people"]) + len(c["accts"]), "accts": len(c["accts"]),
                      "assets": [k - 1 for k in c["assets"]], "real": True,
                      "mag": str(4 * int(s["setup"]["mag"])), "refund": schedule(refund), "payment": schedule(payment)}}


class Log:
    def __init__(self):
        self.ev, self.objs, self.accts = [], [], []


def balances(log):
    return [enc(a.balance) for a in log.accts]


def flows(log):
    return [enc(sum(dict(a).values())) for a in log.accts]


def watched(cls, part=None):
    """ A class whose objects note when they are advanced (and called). """
    given, cls = cls, lib.real(cls)
    def next_year(self, *a, **k):
        e = {"ev": "next", "k": self.w_k, "adj": []}
        if self.w_k == 5:
            v, tag = attempt(lambda: self.tax_adjustment)
            e["adj"] = [enc(v)] if tag == "ok" else []
        cls.next_year(self, *a, **k)
        e["to"] = self.this_year
        self.w_log.ev.append(e)

    def __call__(self, available, *a, **k):
        log = self.w_log
        e = {"ev": "call", "p": part, "before": tidy(available), "years": [x.this_year for x in log.objs], "bal": balances(log),
             "flow0": flows(log), "flow1": flows(log), "moved": {}, "after": {}, "err": "ok"}
        log.ev.append(e)
        try:
            cls.__call__(self, available, *a, **k)
        except Exception as x:
            e["err"] = lib.exc(x)
            raise
        finally:
            e["after"] = tidy(available)
            e["flow1"] = flows(log)
        e["moved"] = tidy(self.moved(available))

    def moved(self, available):
        return self.transactions[available]

    d = {"next_year": next_year}
    if part:
        d["__call__"] = __call__
        if cls is not Dummy:
            d["moved"] = moved
    return lib.derive(given, d)


class Dummy:
    """ Something that acts as a part of a forecast. """

    def __init__(self, s, p):
        self.s, self.p = s, p
        self.this_year = self.initial_year = YEAR
        self.past = {}

    def flow(self):
        return {dec(t): dec(v) for t, v in self.s["flows"][self.this_year - YEAR][self.p - 1].items()}

    def __call__(self, available):
        for t, v in self.flow().items():
            if t in available:
                available[t] += v
            else:
                available[t] = v

    def moved(self, available):
        return self.flow()

    def next_year(self):
        self.this_year += 1

    def __getattr__(self, name):
        # What such a part reports, where it reports it at all.
        if name in ("s", "p", "this_year"):
            raise AttributeError(name)
        p, s = self.p, self.s
        total = sum(self.flow().values())
        adj = s["adjs"][self.this_year - YEAR]
        if p == 1 and name == "net_income":
            return total
        if p == 2 and name == "living_expenses":
            return -total
        if p == 4 and name == "gross_withdrawals":
            return total
        if p == 5:
            if name == "tax_owing":
                return 600
            if name == "tax_adjustment" and adj != "none":
                return dec(adj)
            for i, n in enumerate(["tax_refund_timing", "tax_payment_timing"]):
                if name == n and s["timed"][i]:
                    return Timing({dec(a): dec(b) for a, b in s["w"][i]})
        raise AttributeError(name)


def execute(scn):
    log = Log()
    S = scn["setup"]
    if scn["kind"] == "dummy":
        person = watched(Person)(YEAR, "A", "1960-05-05", retirement_date="2030-01-01")
        people, accts = [person], [watched(Account)(person, balance=dec("100"), rate=dec("1/20"))]
        parts = [watched(Dummy, p)(scn, p) for p in range(1, 6)]
        parts[0].people = set(people)
        parts[2].debt_accounts = set()
        parts[3].accounts = set(accts)
    else:
        s = scn["case"]
        people, accts = c17.make(s, watched)
        folk = set(people)
        pick = lambda ks: {accts[k - 2] for k in ks}  # noqa: E731
        living = c17.living_strategy(s, people)
        save, take = (c17.transaction_strategy(s[k], accts, k == "taking") for k in ("saving", "taking"))
        when = {k: Timing({dec(a): dec(b) for a, b in w}) for k, w in zip(("refund_timing", "payment_timing"), scn["w"])}
        form = scn.get("taxes", "one")
        tax = Tax(tax_brackets={YEAR: {dec(k): dec(r) for k, r in s["tax"]}}, **({} if form == "set" else when))
        if form != "one":  # one that taxes nothing is added
            tax = TaxMulti([tax, Tax(tax_brackets={YEAR: {dec("0"): dec("0")}})])
        if form == "set":
            for k, w in when.items():
                setattr(tax, k, w)
        parts = [watched(IncomeForecast, 1)(YEAR, folk), watched(LivingExpensesForecast, 2)(YEAR, folk, living),
                 watched(SavingForecast, 3)(YEAR, pick(s["retire"]), pick(s["debts"]), save),
                 watched(WithdrawalForecast, 4)(YEAR, folk, pick(s["assets"]), take), watched(TaxForecast, 5)(YEAR, folk, tax)]
    log.accts = accts
    log.objs = parts + people + accts
    for k, x in enumerate(log.objs):
        x.w_log, x.w_k = log, k + 1
    n, more = scn["n"], scn["more"]
    f, tag = attempt(Forecast, *parts, Scenario(YEAR, n - more, inflation=dec("0"), stock_return=dec("1/20"), bond_return=dec("3/100")))
    for _ in range(more):
        if tag == "ok":
            tag = attempt(f.next_year)[1]
        if tag == "ok":
            tag = attempt(f.call_subforecasts)[1]
    e = {"ev": "end", "err": tag, "years": n, "year": 0, "figs": [], "members": True}
    if tag == "ok":
        e["err"] = attempt(finish, scn, f, people, accts, parts, e)[1]
    for x in log.ev:
        x.pop("_", None)
    return log.ev + [e]


def finish(scn, f, people, accts, parts, e):
    e["year"] = f.this_year
    real = scn["kind"] == "real"
    assets = {accts[k - 1] for k in scn["setup"]["assets"]}
    e["members"] = (set(f.people) == set(people) and set(f.assets) == assets and set(f.debts) == set(accts) - assets
                    and f.retirement_year == max(x.retirement_date.year for x in people))
    for y in range(YEAR, f.this_year + 1):
        g = {k: enc(getattr(f, k + "_history").get(y)) for k in ("income", "living_expenses", "savings", "principal", "withdrawals", "tax")}
        if real:
            g.update({k: enc(getattr(parts[0], k + "_history").get(y)) for k in ("net_income", "carryover", "gross_income")},
                     folk_net=enc(sum(x.net_income_history[y] for x in people)),
                     folk_held=enc(sum(x.gross_income_history[y] - x.net_income_history[y] for x in people)))
            g.update(net_withdrawals=enc(parts[3].net_withdrawals_history[y]), total=enc(parts[2].total_history[y]),
                     tax_withheld=enc(parts[4].tax_withheld_history[y]), returns=[enc(a.returns_history[y]) for a in accts])
        else:
            a = scn["adjs"][y - YEAR]
            g.update(tax_withheld=enc(600 + (0 if a == "none" else dec(a))))
        e["figs"].append(g)
