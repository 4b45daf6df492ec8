"""C23: a Forecaster's runs leave what they are given alone, and repeat."""
import copy
import lib
from lib import attempt, canon, enc, dec
lib.setup_path()
from forecaster.forecaster import Forecaster, Parameter  # noqa: E402
from forecaster.canada.forecaster import ForecasterCanada  # noqa: E402
from forecaster.forecast import (  # noqa: E402
    Forecast, IncomeForecast, LivingExpensesForecast, SavingForecast, WithdrawalForecast, TaxForecast)
from forecaster.accounts import Account, Debt, LinkedLimitAccount  # noqa: E402
from forecaster.accounts.link import LinkRecord  # noqa: E402
from forecaster.canada.accounts import RRSP, TFSA, TaxableAccount  # noqa: E402
from forecaster.canada.settings import SettingsCanada  # noqa: E402
from forecaster.canada.tax import TaxCanada  # noqa: E402
from forecaster.ledger import Ledger  # noqa: E402
from forecaster.person import Person  # noqa: E402
from forecaster.scenario import Scenario  # noqa: E402
from forecaster.settings import Settings  # noqa: E402
from forecaster.strategy import AllocationStrategy, LivingExpensesStrategy, TransactionStrategy  # noqa: E402
from forecaster.strategy.transaction import TransactionTraversal  # noqa: E402
from forecaster.tax import Tax  # noqa: E402
from forecaster.utility import Timing  # noqa: E402

MODELS = [dict(module="MCRuns", cfg="MCRuns.cfg"),
          dict(module="MCRuns", cfg="MCRunsT.cfg", name="deeper", tiers=("thorough",))]
TRACE = "C23Trace"
ASSUMPTIONS = ["people and scenarios start in the same year; accounts' opening balances are distinct",
               "parameters are handed to a forecaster as objects or built by it; a memo is not used with a given inflation adjustment"]
Y0 = 2017
SC, LIV, SAV, WIT, ALL, TAX = ("scenario", "living_expenses_strategy", "saving_strategy", "withdrawal_strategy",
                               "allocation_strategy", "tax_treatment")
NEEDED = [SC, LIV, SAV, WIT, TAX]
KEYS = ["initial_year", "num_years", "inflation", "stock_return", "bond_return", "other_return", "management_fees",
        "living_expenses_strategy", "living_expenses_base_amount", "living_expenses_rate", "saving_strategy", "saving_weights",
        "withdrawal_strategy", "withdrawal_weights", "allocation_strategy", "allocation_target", "allocation_min_equity",
        "allocation_max_equity", "allocation_std_retirement_age", "allocation_risk_trans_period", "allocation_adjust_retirement",
        "tax_brackets", "tax_personal_deduction", "tax_credit_rate", "tax_payment_timing", "tax_province"]


# --- what the user may choose (descriptions, and the values they stand for) -----
def value(key, d):
    """ The value that description d of a setting or field stands for. """
    if key.endswith("weights"):
        return {k: dec(v) for k, v in d.items()}
    if key == "tax_brackets":
        return {Y0: {dec(k): dec(v) for k, v in d.items()}}
    if key in ("tax_personal_deduction", "tax_credit_rate", "personal_deduction", "credit_rate"):
        return {Y0: dec(d)}
    if key in ("tax_payment_timing", "payment_timing", "refund_timing"):
        return d if isinstance(d, str) and d in ("start", "end") else {dec(k): dec(v) for k, v in d.items()}
    if key == "inflation_adjust":
        return Scenario(Y0, 1, inflation=dec(d)).inflation_adjust
    if key == "tax_province" or key == "province" or key.endswith("strategy"):
        return d
    if isinstance(d, bool):
        return d
    return dec(d)


def timing(x):
    """ A schedule as the shares of its times. """
    t = dict(x) if isinstance(x, dict) else dict(Timing(x))
    n = sum(t.values())
    return canon({k: lib.Fraction(v) / lib.Fraction(n) for k, v in t.items()})


def show(key, v):
    """ The canonical string of a value of a setting or field. """
    if key == "tax_brackets":
        return canon(v[Y0])
    if key in ("tax_personal_deduction", "tax_credit_rate", "personal_deduction", "credit_rate"):
        return canon(v[Y0])
    if key in ("tax_payment_timing", "payment_timing", "refund_timing"):
        return timing(v)
    if key == "inflation_adjust":
        return enc(v(Y0 + 1, Y0))
    if hasattr(v, "strategy_key"):
        return canon(v.strategy_key)
    return canon(v)


def tags(accts):
    return {enc(a.balance_history[a.initial_year]): k for k, a in enumerate(accts)}


def seen(p, x, world=None):
    """ The fields of a parameter, as they can be observed. """
    if p == SC:
        d = {k: show(k, getattr(x, k)[Y0]) for k in KEYS[2:7]}
        return dict(d, initial_year=canon(x.initial_year), num_years=canon(x.num_years))
    if p == LIV:
        return {k: show(k, getattr(x, k)) for k in ("strategy", "base_amount", "rate", "inflation_adjust")}
    if p in (SAV, WIT):
        if isinstance(x, TransactionTraversal):
            def of(n):
                if isinstance(n, Account):
                    return "a%s" % enc(n.balance_history[n.initial_year])
                n = getattr(n, "children", n)
                if isinstance(n, dict):
                    return "{%s}" % ",".join(sorted(of(c) + ":" + enc(w) for c, w in n.items()))
                return "[%s]" % ",".join(of(c) for c in n)
            return {"priority": of(x.priority)}
        return {k: show(k, getattr(x, k)) for k in ("strategy", "weights")}
    if p == ALL:
        return {k: show(k, getattr(x, k)) for k in ("strategy", "target", "min_equity", "max_equity", "standard_retirement_age",
                                                    "risk_transition_period", "adjust_for_retirement_plan")}
    d = {k: show(k, getattr(x, k)) for k in ("payment_timing", "refund_timing")}
    if isinstance(x, TaxCanada):
        return dict(d, province=canon(x.province), inflation_adjust=show("inflation_adjust", x.federal_tax.inflation_adjust))
    return dict(d, tax_brackets=canon(x.tax_brackets(Y0)), personal_deduction=canon(x.personal_deduction(Y0)),
                credit_rate=canon(x.credit_rate(Y0)), inflation_adjust=show("inflation_adjust", x.inflation_adjust))


def again(p, x, accts):
    """ Another parameter like x, for other accounts. """
    if p == SC:
        return Scenario(x.initial_year, x.num_years, **{k: getattr(x, k)[Y0] for k in KEYS[2:7]})
    if p == ALL:
        return None
    if p in (SAV, WIT):
        if isinstance(x, TransactionTraversal):
            by = tags(accts)

            def of(n):
                if isinstance(n, Account):
                    return accts[by[enc(n.balance_history[n.initial_year])]]
                n = getattr(n, "children", n)
                if isinstance(n, dict):
                    return {of(c): w for c, w in n.items()}
                return [of(c) for c in n]
            return TransactionTraversal(of(x.priority))
        return TransactionStrategy(x.strategy, dict(x.weights))
    infl = Scenario(Y0, 1, inflation=(x.federal_tax if isinstance(x, TaxCanada) else x).inflation_adjust(Y0 + 1, Y0) - 1).inflation_adjust
    if p == LIV:
        return LivingExpensesStrategy(x.strategy, x.base_amount, x.rate, infl)
    when = dict(payment_timing=Timing(dict(x.payment_timing)), refund_timing=Timing(dict(x.refund_timing)))
    if isinstance(x, TaxCanada):
        return TaxCanada(infl, x.province, **when)
    return Tax({Y0: dict(x.tax_brackets(Y0))}, {Y0: x.personal_deduction(Y0)}, {Y0: x.credit_rate(Y0)}, infl, **when)


class Sampler(Scenario):
    """ A scenario that draws its own rate of inflation. """
    drawn = 0

    def __init__(self, initial_year, num_years, inflation=0, stock_return=0, bond_return=0, other_return=0, management_fees=0):
        Sampler.drawn += 1
        super().__init__(initial_year, num_years, inflation=dec("%d/1024" % (Sampler.drawn * 7 % 32)), stock_return=stock_return,
                         bond_return=bond_return, other_return=other_return, management_fees=management_fees)


class Linked(LinkedLimitAccount):
    pass


# --- what the user supplies -----------------------------------------------------
def world(s, edits=()):
    """ The people and accounts (and debts) of description s. """
    sc = Scenario(Y0, 10, **{k: dec(v) for k, v in s["scenario"].items()})
    tax = [Tax({Y0: {0: dec(r)}}) if r != "canada" else TaxCanada(sc.inflation_adjust) for r in s["taxes"]]
    people, accts = [], []
    for i, d in enumerate(s["people"]):
        raises = {Y0 + k: dec(v) for k, v in enumerate(d["raises"])} if d["raises"] else 0
        p = Person(Y0, "P%d" % i, "%d-03-04" % d["born"], retirement_date="%d-06-30" % d["retire"], gross_income=dec(d["gross"]),
                   raise_rate=raises, tax_treatment=tax[d["tax"]] if d["tax"] >= 0 else None,
                   spouse=people[d["spouse"]] if d["spouse"] >= 0 else None, payment_timing=value("payment_timing", d["when"]))
        people.append(p)
    alloc = AllocationStrategy("n-age", 100, 0, 1, 65, 10, False)
    for d in s["accts"]:
        o = people[d["own"]]
        rate = alloc.rate_function(o, sc) if d["rate"] == "alloc" else dec(d["rate"])
        k = dict(balance=dec(d["open"]), rate=rate, nper=d["nper"])
        if d["cls"] in ("RRSP", "TFSA"):
            a = (RRSP if d["cls"] == "RRSP" else TFSA)(o, inflation_adjust=sc.inflation_adjust, contributor=people[d["by"]],
                                                       **({} if d["room"] == "" else {"contribution_room": dec(d["room"])}), **k)
        elif d["cls"] == "Taxable":
            a = TaxableAccount(o, acb=dec(d["open"]) / 2, **k)
        elif d["cls"] == "Debt":
            a = Debt(o, minimum_payment=dec(d["min"]), accelerated_payment=dec(d["acc"]), **k)
        elif d["cls"] == "Linked":
            a = Linked(o, max_inflow_link=(people[d["by"]], "shared"), max_inflow_limit=dec(d["room"]), **k)
        else:
            a = Account(o, **k)
        for t, v in d["tx"].items():
            a.add_transaction(dec(v), dec(t))
        accts.append(a)
    for e in edits:
        edit(people, accts, e)
    return people, accts


def edit(people, accts, e):
    k, i, v = e
    if k == "gross":
        people[i % len(people)].gross_income = dec(v)
    elif k == "retire":
        people[i % len(people)].retirement_date = "%d-01-31" % (Y0 + i % 3)
    elif k == "born":
        people[i % len(people)].birth_date = "%d-01-31" % (1950 + i % 20)
    elif k == "tx":
        a = accts[i % len(accts)]
        a.add_transaction(dec(v), .25)
    elif k == "rate":
        accts[i % len(accts)].rate_callable = dec(v) / 1000
    elif k == "raise":
        people[i % len(people)].raise_rate_callable = dec(v) / 1000
    elif k == "when":
        people[i % len(people)].payment_timing = Timing({dec("3/4"): dec("1")})


def scribble(f, k):
    """ Change the results of a run. """
    for p in f.people:
        p.gross_income = 1
        p.data.clear()
        p.accounts.clear()
        p.payment_timing[.125] = 5
        p.inputs["gross_income"] = {Y0 + 1: 3}
    for a in list(f.assets) + list(f.debts):
        a.add_transaction(17, .5)
        a.default_timing[.125] = 5
        a.rate_callable = 1
        for x in ("max_inflow_link", "min_inflow_link", "max_outflow_link"):
            if getattr(a, x, None) is not None:
                attempt(getattr(a, x).unlink_account, a)
    for x in (f.saving_forecast.transaction_strategy, f.withdrawal_forecast.transaction_strategy):
        if k % 2 and hasattr(x, "weights"):
            x.weights.clear()


def relations(people, accts):
    """ How the people and accounts are related. """
    who = {id(p): "p" + p.name[1:] for p in people}
    what = {id(a): "a" + enc(a.balance_history[a.initial_year]) for a in accts}
    name = {**who, **what}
    of = lambda x: "none" if x is None else name.get(id(x), "other")  # noqa: E731
    out = []
    for p in people:
        out.append(of(p) + " spouse " + of(p.spouse))
        out += [of(p) + " holds " + of(a) for a in p.accounts]
        out += [of(p) + " taxed-as " + of(q) for q in people if q.tax_treatment is p.tax_treatment]
    for a in accts:
        out.append(of(a) + " owner " + of(a.owner))
        for g in ("max_inflow", "min_inflow", "max_outflow", "min_outflow"):
            link = getattr(a, g + "_link", None)
            if link is not None:
                out.append(of(a) + " " + g + "-by " + of(link.owner))
                out += [of(a) + " " + g + " " + of(b) for b in link.group]
        if hasattr(a, "contributor"):
            out.append(of(a) + " contributor " + of(a.contributor))
        r = getattr(a.rate_callable, "person", None)
        if r is not None:
            out.append(of(a) + " rated-by " + of(r))
    return sorted(set(out))


def walk(roots):
    """ The people, accounts and shared records within reach. """
    out, todo, done = {}, list(roots), set()
    while todo:
        x = todo.pop()
        if id(x) in done or isinstance(x, (str, int, float, type(None), type)):
            continue
        done.add(id(x))
        if isinstance(x, (Person, Account, LinkRecord)):
            out[id(x)] = x
        if isinstance(x, dict):
            todo += list(x.keys()) + list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo += list(x)
        elif hasattr(x, "__self__") and not isinstance(x, type(len)):
            todo.append(x.__self__)
        elif type(x).__module__.split(".")[0] in ("forecaster", "c23"):
            todo += list(vars(x).values()) if hasattr(x, "__dict__") else []
    return out


SKIP = {"constants", "strategies"}


def observe(people, accts):
    """ All that can be read from people and accounts, without changing them. """
    people, accts = copy.deepcopy((people, accts))
    out = {}
    for k, x in list(enumerate(people)) + list(enumerate(accts)):
        for n in dir(x):
            if n.startswith("_") or n in SKIP:
                continue
            v, tag = attempt(getattr, x, n)
            if tag != "ok":
                out[type(x).__name__, k, n] = tag
            elif not callable(v):
                out[type(x).__name__, k, n] = canon(v)
    for e in relations(people, accts):
        out["relation", e] = "yes"
    return out


def figures(f, people, accts, accounts):
    """ The figures of a forecast: its own, then those of its people and accounts. """
    out = []
    for y in range(Y0, f.this_year + 1):
        for k in ("income", "living_expenses", "savings", "withdrawals", "tax", "principal"):
            h = getattr(f, k + "_history")
            out.append(enc(h[y] if y in h else getattr(f, k)))
    by = {p.name: p for p in f.people}
    for i in range(len(people)):
        p = by["P%d" % i]
        for y in range(Y0, f.this_year + 1):
            out += [enc(p.gross_income_history[y]), enc(p.net_income_history[y])]
    all_ = {enc(a.balance_history[a.initial_year]): a for a in accounts}
    for a in accts:
        b = all_[enc(a.balance_history[a.initial_year])]
        for y in range(Y0, f.this_year + 1):
            out.append(enc(b.balance_history[y]))
        out.append(enc(b.balance_at_time("end")))
        for t in sorted(b.transactions):
            if abs(b.transactions[t]) > 1e-3:
                out += [enc(t), enc(b.transactions[t])]
    return out


def by_hand(people, accts, params):
    """ The forecast as it is put together by hand. """
    sc, living, saving, taking, tax = (again(p, x, accts) for p, x in zip(NEEDED, params))
    folk = set(people)
    debts = {a for a in accts if isinstance(a, Debt)}
    assets = set(accts) - debts
    y = sc.initial_year
    return Forecast(IncomeForecast(y, folk), LivingExpensesForecast(y, folk, living), SavingForecast(y, assets, debts, saving),
                    WithdrawalForecast(y, folk, assets, taking), TaxForecast(y, folk, tax), sc)


def parts(f):
    return [f.scenario, f.living_expenses_forecast.living_expenses_strategy, f.saving_forecast.transaction_strategy,
            f.withdrawal_forecast.transaction_strategy, f.tax_forecast.tax_treatment]


class Session:
    def __init__(self, scn):
        self.s = scn["world"]
        self.edits = []
        self.settings = (SettingsCanada if scn["canada"] else Settings)()
        for k, d in scn["set"].items():
            setattr(self.settings, k, value(k, d))
        Sampler.drawn = 0
        self.fs = []
        self.kinds = scn["kinds"]
        for kind in scn["kinds"]:
            f = (Forecaster if kind == "base" else ForecasterCanada)(settings=self.settings)
            if scn["sampler"]:
                f.default_types[SC] = Sampler
            self.fs.append(f)
        self.memos = {}
        self.last = None
        self.people, self.accts = world(self.s)

    def setting(self):
        return {k: show(k, getattr(self.settings, k)) for k in KEYS if hasattr(self.settings, k)}

    def kept(self):
        a, b = observe(self.people, self.accts), observe(*world(self.s, self.edits))
        return sorted({" ".join(map(str, k)) for k in set(a) | set(b) if a.get(k) != b.get(k)})[:5]

    def run(self, k):
        f = self.fs[k - 1]
        debts = {a for a in self.accts if isinstance(a, Debt)}
        e = {"ev": "run", "f": k, "params": [], "figs": [], "ref": [], "ref_err": "ok", "copy": [], "shared": 0}
        r, e["err"] = attempt(f.run_forecast, set(self.people), set(self.accts) - debts, debts)
        e["diff"], e["set"] = self.kept(), self.setting()
        w = world(self.s, self.edits)
        if e["err"] != "ok":
            params = [f.get_param(p) for p in NEEDED]
            e["ref_err"] = attempt(by_hand, *w, params)[1]
            self.last = None
            return e
        params = parts(r)
        e["params"] = [seen(p, x) for p, x in zip(NEEDED, params)]
        ref, e["ref_err"] = attempt(by_hand, *w, params)
        accounts = list(r.assets) + list(r.debts)
        e["copy"] = relations(list(r.people), accounts)
        e["shared"] = len(set(walk([self.people, self.accts])) & set(walk([r, r.people, accounts])))
        e["figs"] = figures(r, self.people, self.accts, accounts)
        if ref is not None:
            e["ref"] = figures(ref, self.people, self.accts, list(ref.assets) + list(ref.debts))
        self.last = (r, ref)
        return e

    def more(self):
        r, ref = self.last
        e = {"ev": "more", "figs": [], "ref": []}

        def on(f):
            f.next_year()
            f.call_subforecasts()
            return figures(f, self.people, self.accts, list(f.assets) + list(f.debts))
        a, e["err"] = attempt(on, r)
        b, e["ref_err"] = attempt(on, ref)
        e["figs"], e["ref"] = a or [], b or []
        if e["err"] != "ok" or e["ref_err"] != "ok":
            self.last = None
        e["diff"], e["set"] = self.kept(), self.setting()
        return e

    def op(self, o):
        k = o["k"]
        if k == "set":
            v = value(o["key"], o["v"])
            if o["inside"] and isinstance(v, dict) and isinstance(getattr(self.settings, o["key"]), dict):
                d = getattr(self.settings, o["key"])
                d.clear()
                d.update(v)
            else:
                setattr(self.settings, o["key"], v)
            return {"ev": "set", "key": o["key"], "val": show(o["key"], getattr(self.settings, o["key"]))}
        if k == "edit":
            self.edits.append(o["e"])
            edit(self.people, self.accts, o["e"])
            return {"ev": "edit", "diff": self.kept(), "set": self.setting(), "graph": relations(*world(self.s, self.edits))}
        if k == "run":
            return self.run(o["f"])
        if k == "scribble":
            if self.last is None:
                return None
            scribble(self.last[0], o["n"])
            self.last = None
            return {"ev": "scribble", "diff": self.kept(), "set": self.setting()}
        if k == "more":
            return None if self.last is None or self.last[1] is None else self.more()
        f, p = self.fs[o["f"] - 1], o["p"]
        if k == "tweak":
            x = getattr(f, p)
            if not hasattr(x, "weights"):
                return None
            x.weights.clear()
            x.weights.update(value("weights", o["v"]))
            return {"ev": k, "f": o["f"], "p": p, "key": "weights", "val": show("weights", x.weights), "diff": self.kept(), "set": self.setting()}
        if k == "default":
            f.default_values[p][o["x"]] = "settings." + o["key"]
            return {"ev": k, "f": o["f"], "p": p, "x": o["x"], "key": o["key"]}
        if k == "clear":
            setattr(f, p, None)
            return {"ev": k, "f": o["f"], "p": p}
        e = {"ev": k, "f": o["f"], "p": p, "err": "ok", "got": {}, "kw": {}, "memo": 1}
        if k == "give":
            v, fields = self.gift(o)
            e["kw"] = fields
            e["err"] = attempt(setattr, f, p, v)[1]
            e["got"] = seen(p, getattr(f, p))
            return e
        memo = None if o["memo"] == 1 else self.memos.setdefault(o["memo"], {})
        e["memo"] = o["memo"]
        if k == "get":
            x, e["err"] = attempt(f.get_param, p, memo)
        else:
            kw = {n: value(n, d) for n, d in o["kw"].items()}
            e["kw"] = {n: show(n, v) for n, v in kw.items()}
            args = []
            if o["pos"]:  # by position
                names = {LIV: "strategy", SAV: "strategy", WIT: "strategy", ALL: "strategy", SC: "initial_year", TAX: "tax_brackets"}
                if names[p] in kw:
                    args.append(kw.pop(names[p]))
            if "inflation_adjust" in e["kw"]:
                e["kw"]["inflation_adjust"] = enc(1 + dec(o["kw"]["inflation_adjust"]))
            if k == "assign":
                x, e["err"] = attempt(f.set_param, Parameter(p) if o["pos"] else p, *args, memo=memo, **kw)
                x = getattr(f, p)
            elif p == ALL and o["memo"] == 1:
                x, e["err"] = attempt(f.build_allocation_strategy, *args, **kw)
            else:
                x, e["err"] = attempt(f.build_param, p, *args, memo=memo, **kw)
        if e["err"] == "ok":
            e["got"] = seen(p, x)
        return e

    def gift(self, o):
        p, d = o["p"], o["d"]
        if p in (SAV, WIT):
            def of(n):
                if isinstance(n, int):
                    return self.accts[n]
                if isinstance(n, dict):
                    return {of(c): dec(w) for c, w in n["w"]}
                return [of(c) for c in n]

            def at(n):
                if isinstance(n, int):
                    return "a%s" % enc(self.accts[n].balance_history[Y0])
                if isinstance(n, dict):
                    return "{%s}" % ",".join(sorted(at(c) + ":" + enc(dec(w)) for c, w in n["w"]))
                return "[%s]" % ",".join(at(c) for c in n)
            return TransactionTraversal(of(d)), {"priority": at(d)}
        if p == SC:
            kw = {k: dec(v) for k, v in d.items()}
            return Scenario(**kw), {k: canon(v) for k, v in kw.items()}
        kw = {k: value(k, v) for k, v in d.items()}
        e = {k: show(k, v) for k, v in kw.items()}
        return LivingExpensesStrategy(**kw), e


def execute(scn):
    s = Session(scn)
    out = [{"ev": "start", "set": s.setting(), "graph": relations(s.people, s.accts)}]
    for o in scn["ops"]:
        e = s.op(o)
        if e is not None:
            out.append(e)
    return out


# --- scenarios --------------------------------------------------------------------
RATES = ["0", "1/64", "1/32", "-1/64", "3/128"]
LIVINGS = ["Constant contribution", "Constant living expenses", "Percentage of net income", "Percentage of gross income",
           "Percentage of earnings growth"]
CHOICES = {
    "num_years": ["1", "2", "3"], "inflation": RATES, "stock_return": RATES, "bond_return": RATES, "other_return": RATES,
    "management_fees": ["0", "1/256"], "living_expenses_strategy": LIVINGS,
    "living_expenses_base_amount": ["5000", "20000", "60000", "0"], "living_expenses_rate": ["1/2", "1/4", "1", "3/4"],
    "saving_strategy": ["Ordered", "Weighted"], "withdrawal_strategy": ["Ordered", "Weighted"],
    "saving_weights": [{"RRSP": "2", "TFSA": "1", "TaxableAccount": "3"}, {"Account": "1", "Debt": "2"}, {"Debt": "1", "TFSA": "3", "RRSP": "4", "Linked": "2"},
                       {"Account": "1"}],
    "withdrawal_weights": [{"RRSP": "1", "TFSA": "2"}, {"Account": "1"}, {"TFSA": "2", "RRSP": "4", "Linked": "1"}],
    "allocation_strategy": ["n-age", "Transition to constant"], "allocation_target": ["100", "1/2", "110"],
    "allocation_min_equity": ["0", "1/4"], "allocation_max_equity": ["1", "1/2"], "allocation_std_retirement_age": ["60", "65"],
    "allocation_risk_trans_period": ["10", "20"], "allocation_adjust_retirement": [True, False],
    "tax_brackets": [{"0": "1/4"}, {"0": "1/8", "30000": "1/2"}, {"0": "0"}], "tax_personal_deduction": ["0", "1000"],
    "tax_credit_rate": ["1", "1/4"], "tax_payment_timing": ["start", "end", {"1/2": "1"}, {"1/4": "1", "3/4": "3"}],
    "tax_province": ["BC"]}
FIELDS = {
    SC: {"inflation": RATES, "stock_return": RATES, "num_years": ["1", "2", "4"], "bond_return": RATES, "initial_year": [str(Y0)]},
    LIV: {"strategy": LIVINGS, "base_amount": CHOICES["living_expenses_base_amount"], "rate": CHOICES["living_expenses_rate"],
          "inflation_adjust": RATES},
    SAV: {"strategy": ["Ordered", "Weighted"], "weights": CHOICES["saving_weights"]},
    WIT: {"strategy": ["Ordered", "Weighted"], "weights": CHOICES["withdrawal_weights"]},
    ALL: {"strategy": CHOICES["allocation_strategy"], "target": CHOICES["allocation_target"], "min_equity": CHOICES["allocation_min_equity"],
          "standard_retirement_age": ["60", "66"], "adjust_for_retirement_plan": [True, False]},
    TAX: {"payment_timing": CHOICES["tax_payment_timing"], "refund_timing": CHOICES["tax_payment_timing"], "inflation_adjust": RATES}}
FIELDS_BASE = {"tax_brackets": CHOICES["tax_brackets"], "credit_rate": ["1", "1/4"], "personal_deduction": ["0", "500"]}


DEBT_RATES = ["1/64", "0", "1/32", "3/64", "1/256"]


def rand_world(rng, canada):
    n = rng.choice([1, 2, 2, 3])
    taxes = [rng.choice(["0", "1/4", "1/8"]), "canada" if canada else "1/2"]
    people = []
    for i in range(n):
        people.append({"born": rng.randint(1945, 1985), "retire": rng.choice([2017, 2018, 2019, 2030]), "gross": str(rng.choice([0, 30000, 55000, 90000]) + 777 * i),
                       "raises": rng.choice([[], [rng.choice(RATES) for _ in range(8)]]), "tax": rng.choice([0, 1, 1]),
                       "spouse": 0 if i == 1 and rng.random() < .7 else -1, "when": rng.choice(["start", {"1/2": "1"}, {"0": "1", "1/2": "1"}])})
    accts = []
    for i in range(rng.choice([1, 2, 3, 4, 5])):
        c = rng.choice(["RRSP", "RRSP", "TFSA", "TFSA", "Taxable", "Account", "Debt", "Linked", "Linked"])
        o = rng.randrange(n)
        a = {"cls": c, "own": o, "by": rng.randrange(n) if c == "Linked" or rng.random() < .4 else o,
             "open": str(rng.choice([500, 8000, 120000]) + 13 * i + 1), "rate": rng.choice(["alloc"] + RATES[:4]),
             "nper": rng.choice([1, 1, 12, "C"]), "room": rng.choice(["3000", "20000"]), "min": rng.choice(["0", "100"]), "acc": rng.choice(["0", "1000"]), "tx": {}}
        if c == "TFSA":
            a["by"] = o
        if c == "RRSP" and rng.random() < .3:
            a["room"] = ""
        if c == "Debt":
            a["rate"] = DEBT_RATES[i]  # which of two debts at the same rate comes first is not specified
        if rng.random() < .3 and c in ("Account", "Linked"):
            a["tx"] = {rng.choice(["0", "1/2", "1"]): rng.choice(["10", "150"])}
        accts.append(a)
    return {"scenario": {"inflation": rng.choice(RATES), "stock_return": "1/16", "bond_return": "1/32"}, "taxes": taxes, "people": people, "accts": accts}


def apart(rng, kinds):
    """ A parameter made from settings, either of which then changes. """
    f = rng.randint(1, len(kinds))
    p, key = rng.choice([(SAV, "saving_weights"), (WIT, "withdrawal_weights"), (TAX, "tax_brackets")])
    made = {"k": "assign", "f": f, "p": p, "memo": 1, "kw": {}, "pos": False}
    if rng.random() < .5 or p == TAX:
        then = {"k": "set", "key": key, "v": rng.choice(CHOICES[key]), "inside": True}
    else:
        then = {"k": "tweak", "f": f, "p": p, "v": rng.choice(CHOICES[key])}
    return [made, then, {"k": "get", "f": f, "p": p, "memo": 1, "kw": {}, "pos": False}]


SETTINGS = {SC: ["inflation", "num_years"], LIV: ["living_expenses_base_amount", "living_expenses_rate"], SAV: ["saving_weights"],
            WIT: ["withdrawal_weights"], TAX: ["tax_brackets"]}


def afresh(rng, kinds):
    """ A parameter built (by one Forecaster) before and after a setting changes. """
    f, p = rng.randint(1, len(kinds)), rng.choice(sorted(SETTINGS))
    key = rng.choice([k for k in SETTINGS[p] if k in CHOICES])
    make = {"k": rng.choice(["build", "build", "assign", "get"]), "f": f, "p": p, "memo": 1, "kw": {}, "pos": False}
    return [make] + ([{"k": "clear", "f": f, "p": p}] if make["k"] == "assign" else []) \
        + [{"k": "set", "key": key, "v": rng.choice(CHOICES[key]), "inside": False}, dict(make)]


def rand_kw(rng, p, kind, memo):
    f = dict(FIELDS[p], **(FIELDS_BASE if p == TAX and kind == "base" else {}))
    if memo != 1:
        f.pop("inflation_adjust", None)
    ks = rng.sample(sorted(f), rng.choice([0, 1, 1, 2, min(3, len(f))]))
    return {k: rng.choice(f[k]) for k in ks}


def priority(rng, ks, depth=0):
    ks = list(ks)
    rng.shuffle(ks)
    if len(ks) > 2 and depth == 0 and rng.random() < .5:
        return [priority(rng, ks[:2], 1)] + ks[2:]
    return {"w": [[k, rng.choice(["1", "2", "1/2"])] for k in ks]} if rng.random() < .4 else ks


EDITS = [("gross", "40321"), ("gross", "0"), ("retire", "0"), ("born", "0"), ("tx", "250"), ("rate", "40"), ("raise", "30"), ("when", "0")]


def rand_op(rng, kinds, w):
    f = rng.randint(1, len(kinds))
    kind = kinds[f - 1]
    k = rng.choice(["set", "set", "assign", "assign", "clear", "tweak", "apart", "build", "get", "give", "edit", "run", "run", "more", "scribble", "default", "afresh"])
    if k == "set":
        key = rng.choice([x for x in CHOICES if x != "tax_province"])
        return {"k": k, "key": key, "v": rng.choice(CHOICES[key]), "inside": rng.random() < .4}
    if k == "tweak":
        return {"k": k, "f": f, "p": rng.choice([SAV, WIT]), "v": rng.choice(CHOICES["saving_weights"])}
    if k == "edit":
        e = rng.choice(EDITS)
        return {"k": k, "e": [e[0], rng.randrange(6), e[1]]}
    if k == "run":
        return {"k": k, "f": f}
    if k == "more":
        return {"k": k}
    if k == "scribble":
        return {"k": k, "n": rng.randrange(4)}
    if k == "default":
        return {"k": k, "f": f, "p": LIV, "x": rng.choice(["base_amount", "rate"]), "key": rng.choice(["inflation", "living_expenses_rate", "num_years"])}
    if k in ("apart", "afresh"):
        return {"k": k}
    p = rng.choice([SC, LIV, SAV, WIT, ALL, TAX])
    memo = rng.choice([1, 1, 2, 3]) if k in ("build", "get", "assign") else 1
    if k == "clear":
        return {"k": k, "f": f, "p": p}
    if k == "give":
        p = rng.choice([SC, SAV, WIT, SAV, WIT, LIV])
        idx = [i for i, a in enumerate(w["accts"])]
        if p == SC:
            return {"k": k, "f": f, "p": p, "d": {"initial_year": str(Y0), "num_years": rng.choice(["1", "3"]), "inflation": rng.choice(RATES),
                                                  "stock_return": rng.choice(RATES), "bond_return": "0", "other_return": "1/64", "management_fees": "0"}}
        if p == LIV:
            return {"k": k, "f": f, "p": p, "d": {"strategy": rng.choice(LIVINGS), "base_amount": "12345", "rate": "1/3"}}
        if p == WIT:
            idx = [i for i in idx if w["accts"][i]["cls"] != "Debt"]
        ks = rng.sample(idx, rng.randint(1, len(idx))) if idx else []
        return {"k": k, "f": f, "p": p, "d": priority(rng, ks)} if ks else {"k": "run", "f": f}
    return {"k": k, "f": f, "p": p, "memo": memo, "kw": rand_kw(rng, p, kind, memo) if k != "get" else {}, "pos": rng.random() < .3}


def finish(canada, kinds, w, sets, ops, sampler=False):
    scn = {"canada": canada, "kinds": kinds, "world": w, "set": sets, "ops": ops, "sampler": sampler}
    mag = 1000 + sum(4 * dec(p["gross"]) for p in w["people"]) + sum(4 * dec(a["open"]) for a in w["accts"]) + 300000
    scn["setup"] = {"kinds": kinds, "memos": 3, "sampler": sampler, "mag": str(int(mag))}
    return scn


START = {"num_years": "3", "saving_weights": {"RRSP": "2", "TFSA": "1", "TaxableAccount": "3", "Debt": "4", "Linked": "5"},
         "withdrawal_weights": {"RRSP": "1", "TFSA": "2", "Linked": "3"}, "living_expenses_base_amount": "20000"}


def rand(rng):
    canada = rng.random() < .6
    kinds = ["canada" if canada and rng.random() < .7 else "base" for _ in range(rng.choice([1, 2, 2]))]
    w = rand_world(rng, canada)
    sets = dict(START)
    for key in CHOICES:
        if rng.random() < .3 and key != "tax_province":
            sets[key] = rng.choice(CHOICES[key])
    ops = []
    for o in [rand_op(rng, kinds, w) for _ in range(rng.randint(1, 6))]:
        ops += apart(rng, kinds) if o["k"] == "apart" else afresh(rng, kinds) if o["k"] == "afresh" else [o]
    ops.append({"k": "run", "f": rng.randint(1, len(kinds))})
    if rng.random() < .5:
        ops += [{"k": rng.choice(["scribble", "edit", "more"]), "n": rng.randrange(4), "e": ["rate", rng.randrange(5), "33"]},
                {"k": rng.choice(["more", "run"]), "f": rng.randint(1, len(kinds))}, {"k": "run", "f": rng.randint(1, len(kinds))}]
    return finish(canada, kinds, w, sets, ops, sampler=rng.random() < .25)


V = {"inflation": {"0": "1/64", "1": "1/32"}, "living_expenses_base_amount": {"0": "20000", "1": "9000"}}
KW = {"inflation": ("inflation", "3/64"), "base_amount": ("base_amount", "15000"), "inflation_adjust": ("inflation_adjust", "1/16")}


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCRuns", []))
    rng.shuffle(gen)
    for b in gen[: 60 if tier == "quick" else 1500]:
        w = rand_world(rng, True)
        at = {k: "0" for k in V}
        ops = []
        for h in b["hist"]:
            if h[0] == "set":
                at[h[1]] = "1" if at[h[1]] == "0" else "0"
                ops.append({"k": "set", "key": h[1], "v": V[h[1]][at[h[1]]], "inside": False})
            elif h[0] == "assign":
                kw = dict(KW[x] for x in (h[3] or {}))
                ops.append({"k": "assign", "f": h[1], "p": h[2], "kw": kw, "memo": 1, "pos": False})
            elif h[0] == "give":
                ops.append({"k": "give", "f": h[1], "p": h[2], "d": priority(rng, range(len(w["accts"])))})
            elif h[0] == "default":
                ops.append({"k": "default", "f": h[1], "p": LIV, "x": "base_amount", "key": "inflation"})
            elif h[0] == "clear":
                ops.append({"k": "clear", "f": h[1], "p": h[2]})
            elif h[0] == "build":
                ops.append({"k": "build", "f": h[1], "p": h[2], "memo": h[3], "kw": {}, "pos": False})
            elif h[0] == "edit":
                e = rng.choice(EDITS)
                ops.append({"k": "edit", "e": [e[0], rng.randrange(6), e[1]]})
            else:
                ops.append({"k": "run", "f": h[1]})
        ops += [{"k": "run", "f": 1}, {"k": "run", "f": 2}]
        sets = dict(START, **{k: V[k]["0"] for k in V})
        out.append(finish(True, ["base", "canada"], w, sets, ops))
    for _ in range(300 if tier == "quick" else 4000):
        out.append(rand(rng))
    return out
