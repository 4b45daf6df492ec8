"""Drives accounts and debts for C02-C04: an abstract op list is executed on a
real account, and what it reports is recorded for AccountTrace."""
import copy
import lib
from lib import attempt, enc, dec, encmap, decmap
lib.setup_path()
from forecaster.accounts import Account, Debt  # noqa: E402
from forecaster.person import Person  # noqa: E402
from forecaster.utility import Timing  # noqa: E402
from forecaster.canada.accounts import RRSP, TFSA, TaxableAccount, PrincipleResidence  # noqa: E402
from forecaster.accounts.util import (  # noqa: E402
    accumulation_function, accumulation_function_inverse, value_at_time)

YEAR = 2000
CODES = {"C": "C", "D": "365", "W": "52", "BW": "26", "SM": "24", "M": "12", "BM": "6", "Q": "4", "SA": "2",
         "A": "1"}


class Limited(Account):
    """An account with limits of the driver's choosing."""
    lims = None

    @property
    def max_inflow_limit(self):
        return dec(self.lims["max_in"])

    @property
    def min_inflow_limit(self):
        return dec(self.lims["min_in"])

    @property
    def max_outflow_limit(self):
        return dec(self.lims["max_out"])

    @property
    def min_outflow_limit(self):
        return dec(self.lims["min_out"])


FREE = {"max_in": "inf", "min_in": "0", "max_out": "-inf", "min_out": "0"}


def build(s):
    st = s["setup"]
    rates = st["rates"]
    form = s.get("rate_form", "callable")
    if form == "scalar":
        rate = dec(rates["*"])
    elif form == "dict":
        rate = {y: dec(rates.get(str(y), rates["*"])) for y in range(YEAR - 1, YEAR + 40)}
    else:
        def rate(year):
            return dec(rates.get(str(year), rates["*"]))
    inputs = {p: {int(y): decmap(v) if isinstance(v, dict) else dec(v) for y, v in (d or {}).items()}
              for p, d in (st["given"] or {}).items()}
    kw = dict(balance=dec(st["open"]), rate=rate, nper=s["nper"] if isinstance(s["nper"], str) else s["nper"],
              inputs=inputs or None)
    if s.get("default_timing") is not None:
        kw["default_timing"] = Timing(decmap(s["default_timing"]))
    owner = Person(YEAR, "A", "1960-05-05", retirement_date="2030-01-01") if s.get("owner") else None
    if owner is None:
        kw["initial_year"] = YEAR
    c = s["cls"]
    if c == "Limited":
        a = Limited(owner, **kw)
        a.lims = dict(st["lims"])
    elif c == "Account":
        a = Account(owner, **kw)
    elif c == "Debt":
        a = Debt(owner, minimum_payment=dec(st["lims"]["minpay"]), accelerated_payment=dec(st["lims"]["accel"]), **kw)
    else:
        owner = Person(YEAR, "A", "1960-05-05", retirement_date="2030-01-01")
        kw.pop("initial_year", None)
        if c in ("RRSP", "TFSA"):
            def unit(val, this, target):
                return val
            a = {"RRSP": RRSP, "TFSA": TFSA}[c](owner, inflation_adjust=lambda *x: 1, **kw)
        else:
            a = {"Taxable": TaxableAccount, "House": PrincipleResidence}[c](owner, **kw)
    return a


def later(rate, year, v):
    return lambda y: v if y > year else rate(y)


def num(f, *a, **k):
    v, t = attempt(f, *a, **k)
    return enc(v) if t == "ok" else "nan"


def sched(f, *a, **k):
    v, t = attempt(f, *a, **k)
    if t != "ok":
        return {}, t
    return encmap(v), "ok"


def extra_of(o):
    e = o.get("extra")
    return None if e is None else decmap(e)


def view(a, form):
    """The account's transactions, read as a mapping in one of several ways."""
    if form == "items":
        return list(a.items())
    if form == "zip":
        return list(zip(a.keys(), a.values()))
    if form == "item":
        return [(t, a[t]) for t in a]
    return [(t, a.get(t)) for t in a]


def execute(s):
    if s.get("pure"):
        return pure(s)
    a = build(s)
    st = s["setup"]
    ev = [{"ev": "read", "balance": num(lambda: a.balance), "rate": num(lambda: a.rate)}]
    if s["cls"] in ("Account", "Limited", "Debt"):
        ev.append({"ev": "limits", "lims": {"max_in": num(lambda: a.max_inflow_limit),
                                            "min_in": num(lambda: a.min_inflow_limit),
                                            "max_out": num(lambda: a.max_outflow_limit),
                                            "min_out": num(lambda: a.min_outflow_limit)}})
    mine = (st["given"] or {}).get("transactions", {})
    for o in s["ops"]:
        k = o["op"]
        if str(a.this_year) in mine and k in ("add", "addbad", "put", "del", "clear"):
            continue
        if k == "add":
            w = o.get("word", None)
            tag = attempt(a.add_transaction, dec(o["v"]), w if w else dec(o["t"]))[1] if not o.get("default") \
                else attempt(a.add_transaction, dec(o["v"]))[1]
            ev.append({"ev": "add", "t": o["t"], "v": o["v"], "err": tag})
        elif k == "addbad":
            ev.append({"ev": "addbad", "err": attempt(a.add_transaction, dec(o["v"]), dec(o["t"]))[1]})
        elif k == "put":
            ev.append({"ev": "put", "t": o["t"], "v": o["v"],
                       "err": attempt(a.__setitem__, dec(o["t"]), dec(o["v"]))[1]})
        elif k == "del":
            t = dec(o["t"])
            if t in a:
                ev.append({"ev": "del", "t": o["t"], "err": attempt(a.__delitem__, t)[1]})
        elif k == "clear":
            ev.append({"ev": "clear", "err": attempt(a.clear)[1]})
        elif k == "txs":
            ev.append({"ev": "txs", "out": encmap(a.transactions),
                       "view": {enc(t): enc(v) for t, v in view(a, o.get("form"))},
                       "len": len(a), "has": [enc(t) for t in a if t in a]})
        elif k == "sums":
            x = extra_of(o)
            ev.append({"ev": "sums", "extra": o.get("extra") or {}, "inn": num(a.inflows, x), "out": num(a.outflows, x)})
        elif k == "setopen":
            ev.append({"ev": "setopen", "v": o["v"], "err": attempt(setattr, a, "balance", dec(o["v"]))[1]})
        elif k == "setrate":
            ev.append({"ev": "setrate", "v": o["v"], "err": attempt(setattr, a, "rate", dec(o["v"]))[1]})
        elif k == "setlims":
            if s["cls"] == "Limited":
                a.lims = dict(o["lims"])
            elif s["cls"] == "Debt":
                a.minimum_payment = dec(o["lims"]["minpay"])
                a.accelerated_payment = dec(o["lims"]["accel"])
            else:
                continue
            ev.append({"ev": "setlims", "lims": o["lims"]})
        elif k == "read":
            ev.append({"ev": "read", "balance": num(lambda: a.balance), "rate": num(lambda: a.rate)})
        elif k == "at":
            x = extra_of(o)
            ev.append({"ev": "at", "t": o["t"], "extra": o.get("extra") or {},
                       "out": num(a.balance_at_time, o.get("word") or dec(o["t"]), transactions=x)
                       if x is not None else num(a.balance_at_time, o.get("word") or dec(o["t"]))})
        elif k == "returns":
            ev.append({"ev": "returns", "out": num(lambda: a.returns)})
        elif k == "setfn":
            # A rate for the years to come.
            ev.append({"ev": "setfn", "v": o["v"],
                       "err": attempt(setattr, a, "rate_callable", later(a.rate_callable, a.this_year, dec(o["v"])))[1]})
        elif k == "setnper":
            ev.append({"ev": "setnper", "n": o["n"], "err": attempt(setattr, a, "nper", o["as"])[1]})
        elif k == "setdt":
            w = decmap(o["w"])
            if o["form"] == "del":
                tag = attempt(delattr, a, "default_timing")[1]
            else:
                tag = attempt(setattr, a, "default_timing", Timing(w) if o["form"] == "timing" else w)[1]
            ev.append({"ev": "setdt", "w": {"1/2": "1"} if o["form"] == "del" else o["w"], "err": tag})
        elif k == "next":
            tag = attempt(a.next_year)[1]
            if "nper" in o:
                # (Before the opening balance is read)
                tag = attempt(setattr, a, "nper", o["nper"])[1] if tag == "ok" else tag
            ev.append({"ev": "next", "err": tag, "year": a.this_year, "balance": num(lambda: a.balance),
                       "out": encmap(a.transactions)})
            if "nper" in o:
                ev.append({"ev": "setnper", "n": o["n"], "err": "ok"})
        elif k == "hist":
            ev.append({"ev": "hist", "balance": {str(y): enc(v) for y, v in a.balance_history.items()},
                       "tx": {str(y): encmap(v) for y, v in a.transactions_history.items()},
                       "ret": {str(y): enc(v) for y, v in a.returns_history.items()}})
        elif k == "reach":
            if o.get("default"):
                v, t = attempt(a.time_to_balance, dec(o["v"]))
                ev.append({"ev": "reach", "v": o["v"], "t": "0", "err": t, "out": enc(v) if t == "ok" else "nan"})
            else:
                v, t = attempt(a.time_to_balance, dec(o["v"]), dec(o["t"]))
                ev.append({"ev": "reach", "v": o["v"], "t": o["t"], "err": t, "out": enc(v) if t == "ok" else "nan"})
        elif k in ("prop", "tobal"):
            before = (encmap(a.transactions), num(lambda: a.balance), num(lambda: a.rate), dict(a.default_timing))
            x = extra_of(o)
            x0 = copy.copy(x)
            w = o["w"]
            timing = None if w is None else decmap(w)
            if timing is not None and o.get("as_timing"):
                raw = timing
                timing = Timing(raw)
                if o.get("raw") and raw:
                    timing.clear()
                    timing.update(raw)
            t0 = copy.copy(timing)
            if k == "prop":
                f = {"max_in": a.max_inflows, "min_in": a.min_inflows, "max_out": a.max_outflows,
                     "min_out": a.min_outflows}[o["kind"]]
                kw = {}
                if timing is not None or o.get("explicit_none"):
                    kw["timing"] = timing
                if o["tl"] != "none":
                    kw["transaction_limit"] = dec(o["tl"])
                if o["bl"] != "none":
                    kw["balance_limit"] = dec(o["bl"])
                if x is not None:
                    kw["transactions"] = x
                out, tag = sched(f, **kw)
                e = {"ev": "prop", "kind": o["kind"], "tl": o["tl"], "bl": o["bl"]}
            else:
                kw = {}
                if o["maxt"] != "none":
                    kw["max_total"] = dec(o["maxt"])
                if o["mint"] != "none":
                    kw["min_total"] = dec(o["mint"])
                if x is not None:
                    kw["transactions"] = x
                out, tag = sched(a.transactions_to_balance, dec(o["target"]), timing=timing, **kw)
                e = {"ev": "tobal", "target": o["target"], "maxt": o["maxt"], "mint": o["mint"]}
            after = (encmap(a.transactions), num(lambda: a.balance), num(lambda: a.rate), dict(a.default_timing))
            e.update({"w": w or {}, "extra": o.get("extra") or {}, "out": out, "err": tag,
                      "same": before == after and x == x0 and timing == t0})
            ev.append(e)
        elif k == "oneoff":
            t = dec(o["t"])
            ev.append({"ev": "oneoff", "t": o["t"], "maxout": num(a.max_outflow, t), "maxin": num(a.max_inflow, t),
                       "minin": num(a.min_inflow, t), "minout": num(a.min_outflow, t)})
        else:
            raise ValueError(k)
    return ev


def pure(s):
    """The interest functions on their own."""
    ev = []
    for o in s["ops"]:
        n = None if o["n"] == "C" else dec(o["n"])
        t, r = dec(o["t"]), dec(o["r"])
        acc, tag = attempt(accumulation_function, t, r, n)
        inv = "skip"
        if tag == "ok" and dec(o["r"]) != 0:
            inv = num(accumulation_function_inverse, acc, r, n)
        ev.append({"ev": "accum", "t": o["t"], "r": o["r"], "n": o["n"], "out": enc(acc) if tag == "ok" else "nan",
                   "inv": inv, "v": o["v"], "from": o["from"], "to": o["to"],
                   "val": num(value_at_time, dec(o["v"]), r, dec(o["from"]), dec(o["to"]), n)})
    return ev


# --- random scenarios ---------------------------------------------------------
TIMES = ["0", "1", "1/2", "1/4", "3/4", "1/8", "5/8", "15/16"]
RATES = ["0", "1", "-1/2", "1/16", "1/4", "-1/8", "3", "-15/16", "1/128"]
VALUES = ["100", "-50", "1", "-1", "1/4", "2000", "-750", "64", "-3/2"]


def rand_sched(rng, n=3, neg=True):
    d = {}
    for _ in range(rng.randrange(1, n + 1)):
        v = rng.choice(VALUES)
        d[rng.choice(TIMES)] = v if neg else v.lstrip("-")
    return d


def rand_nper(rng):
    if rng.random() < .7:
        code = rng.choice(list(CODES) + ["A", "A"])
        return code, CODES[code]
    nper = rng.choice([None, 1, 2, 3, 4, 12, 1, 2, 12, 400])
    return nper, "1" if nper is None else str(nper)


def rand_change(rng):
    """A change of the account itself."""
    k = rng.random()
    if k < .35:
        return {"op": "setfn", "v": rng.choice(RATES)}
    if k < .7:
        nper, n = rand_nper(rng)
        while nper is None:
            nper, n = rand_nper(rng)
        return {"op": "setnper", "as": nper, "n": n} if k < .55 else {"op": "next", "nper": nper, "n": n}
    return {"op": "setdt", "form": rng.choice(["del", "timing", "dict"]),
            "w": {t: rng.choice(["1", "2", "1/4", "3"]) for t in rng.sample(TIMES, rng.randrange(1, 4))}}


def rand_setup(rng, cls):
    kind = "debt" if cls == "Debt" else "account"
    opens = ["0", "100", "-100", "1000", "-64", "1/8", "4096"]
    rates = {"*": rng.choice(RATES)}
    form = rng.choice(["scalar", "dict", "callable"])
    if form != "scalar":
        for y in range(YEAR, YEAR + 4):
            if rng.random() < .6:
                rates[str(y)] = rng.choice(RATES)
    nper, snper = rand_nper(rng)
    given = {}
    if rng.random() < .25:
        given["balance"] = {str(YEAR + rng.randrange(1, 4)): rng.choice(opens)}
    if rng.random() < .2:
        given["rate"] = {str(YEAR + rng.randrange(1, 4)): rng.choice(RATES)}
    if rng.random() < .1:
        given["transactions"] = {str(YEAR + rng.randrange(0, 4)): rand_sched(rng)}
    if kind == "debt":
        lims = rand_debt_lims(rng)
    elif cls == "Limited":
        lims = rand_lims(rng)
    else:
        lims = dict(FREE)
    dt = None
    if rng.random() < .4:
        dt = {t: rng.choice(["1", "2", "1/4", "3"]) for t in rng.sample(TIMES, rng.randrange(1, 4))}
    return {"setup": {"first": YEAR, "open": rng.choice(opens), "rates": rates, "nper": snper, "given": given,
                      "kind": kind, "dw": dt or {"1/2": "1"}, "lims": lims},
            "cls": cls, "nper": nper, "rate_form": form, "default_timing": dt, "owner": rng.random() < .5}


def rand_lims(rng):
    return {"max_in": rng.choice(["inf", "0", "50", "100", "1000", "3000"]),
            "min_in": rng.choice(["0", "0", "10", "100", "500"]),
            "max_out": rng.choice(["-inf", "0", "-50", "-100", "-1000"]),
            "min_out": rng.choice(["0", "0", "-10", "-100", "-500"])}


def rand_debt_lims(rng):
    return {"minpay": rng.choice(["0", "10", "100", "500", "5000"]),
            "accel": rng.choice(["inf", "0", "0", "50", "1000"])}


def rand_weights(rng):
    k = rng.random()
    if k < .15:
        return None
    if k < .22:
        return {}
    if k < .3:
        return {t: "0" for t in rng.sample(TIMES, rng.randrange(1, 4))}
    return {t: rng.choice(["1", "2", "1/4", "0", "5"]) for t in rng.sample(TIMES, rng.randrange(1, 5))}


def rand_prop(rng, debt=False):
    k = rng.choice(["max_in", "min_in", "max_out", "min_out"])
    sgn = "" if k.endswith("in") else "-"
    tl = "none"
    if rng.random() < .4:
        tl = rng.choice(["0", sgn + "1", sgn + "60", sgn + "700", sgn + "inf"])
        if rng.random() < .05:
            tl = rng.choice(["30", "-30"])
    bl = "none"
    if rng.random() < .35:
        bl = rng.choice(["0", "50", "-50", "1000", "3000", "-2000"])
    return {"op": "prop", "kind": k, "w": rand_weights(rng), "tl": tl, "bl": bl,
            "extra": rand_sched(rng) if rng.random() < .4 else None, "as_timing": rng.random() < .4,
            "explicit_none": rng.random() < .5, "raw": rng.random() < .5}


ASKS = ("at", "returns", "reach", "sums", "prop", "tobal", "oneoff", "txs")


def rand_again(rng, ops, cls):
    """What was asked is asked again after a change that is easy to overlook."""
    at = [i for i, o in enumerate(ops) if o["op"] in ASKS]
    if not at:
        return ops
    i = rng.choice(at)
    v = rng.choice([x for x in VALUES if x[0] != "-"])
    t1, t2 = rng.sample(TIMES, 2)
    move = [{"op": "add", "t": t1, "v": v}, {"op": "add", "t": t2, "v": "-" + v}]
    k = rng.choice(["move", "move", "put", "rate", "twice", "order"])
    if cls == "Taxable" and k in ("move", "put", "order"):
        k = "twice"
    if k == "move":     # (nothing more or less in the year, in all)
        seq = [ops[i]] + move + [ops[i]]
    elif k == "order":  # (there and elsewhere, then at other times)
        seq = move + [ops[i], {"op": "put", "t": t1, "v": "-" + v}, {"op": "put", "t": t2, "v": v}, ops[i]]
    elif k == "put":
        seq = [{"op": "put", "t": t1, "v": v}, ops[i], {"op": "put", "t": t1, "v": v + "0" if "/" not in v else "7"}, ops[i]]
    elif k == "rate":
        seq = [ops[i], {"op": "setrate", "v": "1/4" if cls == "Taxable" else rng.choice(RATES)}, ops[i]]
    else:
        seq = [ops[i], ops[i]]
    return ops[:i] + seq + ops[i + 1:]
