"""C08: adjusted cost base and capital gains of taxable accounts."""
import lib
from lib import attempt, enc, dec
lib.setup_path()
from forecaster import Person  # noqa: E402
from forecaster.canada.accounts import TaxableAccount  # noqa: E402

MODELS = [dict(module="MCCostBase", cfg="MCCostBase.cfg", thorough_cfg="MCCostBaseT.cfg")]
TRACE = "C08Trace"
ASSUMPTIONS = ["accounts are not overdrawn: no withdrawal exceeds the balance at its time",
               "a user-supplied figure for the first year is not contradicted by a constructor argument"]
NONE = {"given": {}, "acbs": {}, "gains": {}, "taxables": {}}
FIRST = 2000


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCCostBase", []))
    rng.shuffle(gen)
    for b in gen[:1500 if tier == "quick" else 60000]:
        ops = [dict(o, obs=rng.random() < .6) for o in b["ops"]]
        out.append({"setup": dict(NONE, first=2000, open="16", rates={"*": b["rate"]}, nper="2", acb=b["acb"]), "ops": ops})
    for _ in range(3000 if tier == "quick" else 60000):
        out.append(rand(rng))
    return out


def rand(rng):
    n = rng.randint(1, 5)
    rates = {"*": rng.choice(["0", "1/20", "1/10", "-1/10", "1"])}
    for y in range(FIRST, FIRST + n + 1):
        if rng.random() < .4:
            rates[str(y)] = rng.choice(["0", "1/10", "-1/5", "1/4", "1/2"])
    opening = rng.choice(["100", "1000", "250", "0", "50000"])
    setup = dict(NONE, first=FIRST, open=opening, rates=rates, nper=rng.choice(["1", "1", "4", "12", "C"]),
                 acb=rng.choice(["none", "none", "0", "50", "400", "1000"]))

    def some(vals, lo, p=.2):
        return {str(y): rng.choice(vals) for y in range(lo, FIRST + n + 1) if rng.random() < p}
    if rng.random() < .3:
        setup["acbs"] = some(["0", "75", "500"], FIRST + 1)
    if rng.random() < .2:
        setup["gains"] = some(["0", "100", "-30"], FIRST)
    if rng.random() < .15:
        setup["taxables"] = some(["0", "60"], FIRST)
    if rng.random() < .2:
        setup["given"] = {"balance": some(["500", "90"], FIRST + 1)}
    ops = []
    T = ["0", "1/4", "1/2", "3/4", "1"]
    for y in range(n):
        for _ in range(rng.randint(0, 6)):
            k = rng.random()
            t = rng.choice(T)
            obs = rng.random() < .5
            if k < .4:
                ops.append({"op": "add", "t": t, "v": rng.choice(["10", "100", "37", "1000"]), "obs": obs})
            elif k < .8:
                # a share of what can be taken
                ops.append({"op": "take", "t": t, "share": rng.choice(["1/4", "1/2", "1", "1/10", "9/10"]), "obs": obs})
            elif k < .86:
                ops.append({"op": "put", "t": t, "v": rng.choice(["50", "20"]), "obs": obs})
            elif k < .92:
                ops.append({"op": "del", "t": t, "obs": obs})
            else:
                ops.append({"op": "setacb", "v": rng.choice(["0", "80", "600"]), "obs": obs})
        ops.append({"op": "next", "obs": rng.random() < .6})
    return {"setup": setup, "ops": ops}


def sound(a):
    """ No withdrawal takes the account below zero or from nothing, and there
    are no amounts that rounding could turn from deposit to withdrawal. """
    for t in list(a.keys()) + [1]:
        b = a.balance_at_time(t)
        if b < -1e-7:
            return False
        v = a.get(t, 0)
        if (t in a and abs(v) < .5) or (v < 0 and b - v < .5):
            return False
    return True


def execute(s):
    S = s["setup"]
    first = S["first"]
    p = Person(first, "p", "1970-06-15", retirement_date="2040-01-01")
    R = S["rates"]

    def rate(y):
        return dec(R.get(str(y), R["*"]))
    inputs = {}
    for name, key in (("acb", "acbs"), ("capital_gain", "gains"), ("taxable_income", "taxables")):
        if S[key]:
            inputs[name] = {int(y): dec(v) for y, v in S[key].items()}
    for name, t in S["given"].items():
        if t:
            inputs[name] = {int(y): dec(v) for y, v in t.items()}
    a, err = attempt(lambda: TaxableAccount(p, balance=dec(S["open"]), rate=rate, nper="C" if S["nper"] == "C" else int(S["nper"]),
                                            inputs=inputs or None, **({} if S["acb"] == "none" else {"acb": dec(S["acb"])})))
    ev = []

    def report(e, obs):
        e["obs"] = {"acb": enc(a.acb), "gain": enc(a.capital_gain), "taxable": enc(a.taxable_income),
                    "balance": enc(a.balance)} if obs else {}
        ev.append(e)
    report({"ev": "new", "err": err}, err == "ok" and S["open"] != "0")
    if err != "ok":
        return ev
    for o in s["ops"]:
        k = o["op"]
        if k in ("add", "take"):
            t = dec(o["t"])
            if k == "take":
                room = min(a.balance_at_time(u) for u in list(a.keys()) + [1] if u >= t)
                room = min(room, a.balance_at_time(t))
                # what is left at a later time has grown since
                for u in list(a.keys()) + [1]:
                    if u > t:
                        g = a.balance_at_time(u, {t: 1}) - a.balance_at_time(u)
                        room = min(room, a.balance_at_time(u) / g)
                v = -room * dec(o["share"])
                if v > -1:
                    continue
            else:
                v = dec(o["v"])
            a.add_transaction(v, t)
            ok = sound(a)
            if not ok:
                a.add_transaction(-v, t)
                continue
            report({"ev": "add", "t": o["t"], "v": enc(v), "err": "ok"}, o["obs"])
        elif k == "put":
            t = dec(o["t"])
            old = a.get(t, None)
            _, err = attempt(a.__setitem__, t, dec(o["v"]))
            if not sound(a):
                if old is None:
                    del a[t]
                else:
                    a[t] = old
                continue
            report({"ev": "put", "t": o["t"], "v": o["v"], "err": err}, o["obs"])
        elif k == "del":
            t = dec(o["t"])
            if t not in a:
                continue
            old = a[t]
            del a[t]
            if not sound(a):
                a[t] = old
                continue
            report({"ev": "del", "t": o["t"], "err": "ok"}, o["obs"])
        elif k == "setacb":
            _, err = attempt(setattr, a, "acb", dec(o["v"]))
            report({"ev": "setacb", "v": o["v"], "err": err}, o["obs"])
        elif k == "next":
            y = a.this_year
            _, err = attempt(a.next_year)
            report({"ev": "next", "err": err, "acb": enc(a.acb_history[y]), "gain": enc(a.capital_gain_history[y]),
                    "taxable": enc(a.taxable_income_history[y])}, o["obs"])
    return ev
