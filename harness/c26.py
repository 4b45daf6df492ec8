"""C26: the same plan in high precision and in ordinary numbers."""
import copy
import importlib
import inspect
import random
import re
import sys
from decimal import Decimal
from fractions import Fraction
import lib
from lib import attempt, dec
lib.setup_path()
from forecaster.accounts import Account, Debt  # noqa: E402
from forecaster.ledger import Ledger  # noqa: E402
from forecaster.person import Person  # noqa: E402
from forecaster.scenario import Scenario  # noqa: E402
from forecaster.strategy import AllocationStrategy, LivingExpensesStrategy, TransactionStrategy  # noqa: E402
from forecaster.strategy.transaction.node import TransactionNode  # noqa: E402
from forecaster.utility import (  # noqa: E402
    HighPrecisionOptional, HighPrecisionOptionalProperty, HighPrecisionOptionalPropertyCached)

MODELS = [dict(module="MCPrecision", cfg="MCPrecision.cfg", thorough_cfg="MCPrecisionT.cfg")]
TRACE = "C26Trace"
ASSUMPTIONS = ["numbers are given to high-precision objects in the high-precision type (or as whole numbers); the type is Decimal",
               "sets of accounts are gone through in one order in both runs",
               "amounts that differ by a few EPSILON (1e-5) in how money is divided over accounts count as equal"]
# The drivers whose plans are worked out twice: how many in quick, and whether
# what they do includes differences of up to EPSILON.
TWINS = {"c02": (60, 0), "c03": (40, 0), "c04": (40, 0), "c05": (30, 0), "c06": (30, 0), "c07": (40, 0), "c08": (40, 0), "c09": (50, 0),
         "c10": (30, 0), "c11": (30, 0), "c12": (40, 0), "c13": (50, 1), "c14": (50, 1), "c15": (60, 1), "c16": (80, 1), "c17": (60, 1),
         "c18": (40, 1), "c19": (30, 0), "c20": (30, 0), "c21": (30, 0), "c22": (20, 0), "c23": (30, 1), "c25": (30, 0)}


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCPrecision", []))
    rng.shuffle(gen)
    for i, b in enumerate(gen[: 300 if tier == "quick" else 8000]):
        kind = KINDS[i % len(KINDS)]
        f, g = rng.sample(FIELDS[kind], 2) if len(FIELDS[kind]) > 1 else (FIELDS[kind][0], FIELDS[kind][0])
        ops = [dict(e, **({"f": f if e["f"] == "a" else g} if "f" in e else {})) for e in b["ops"]]
        out.append({"kind": kind, "ops": ops, "setup": {"objs": 2, "fields": {x: kind not in PLAIN for x in {f, g}}, "eps": "0", "mag": "1"}})
    for name, (n, noisy) in TWINS.items():
        m = importlib.import_module(name)
        them = m.scenarios("quick", random.Random(rng.random()), {})
        if name in ("c17", "c18"):
            # (withdrawals of all there is until a time may or may not wait for that time)
            them = [s for s in them if not s.get("case", s).get("taking", {}).get("cap")]
        if name == "c08":
            # (nor is it certain that nothing is left of an account that was emptied)
            them = [s for s in them if not any(o.get("share") == "1" for o in s["ops"])]
        for s in rng.sample(them, min(len(them), n if tier == "quick" else 25 * n)):
            s = round_numbers(s)
            if name == "c16":
                # (nor is it certain that a movement of all there is need not wait)
                s = copy.deepcopy(s)
                them_ = [m for x in s["setup"]["scripts"] for m in x] + [m for o in s["ops"] for m in o.get("mvs", [])]
                for k, mv in enumerate(them_):
                    if mv["v"] not in ("0", "inf", "-inf"):
                        v = Fraction(mv["v"])
                        mv["v"] = str(v + Fraction((k + 1) * (1 if v > 0 else -1), 1024))
            if name == "c21":
                # (a rate that is not given is an ordinary number)
                s = dict(s, setup={k: v for k, v in s["setup"].items() if k != "omit"})
            if name == "c09":
                # (which bracket is the one at its threshold is a question of rounding)
                s = dict(s, ops=[dict(o, x=str(Fraction(o["x"]) + Fraction(1, 128))) if o["k"] == "marginal" and o["x"] != "0" else o for o in s["ops"]])
            out.append({"kind": "both", "of": name, "scn": s,
                        "setup": {"objs": 1, "fields": {}, "eps": "1/2000" if noisy else "0", "mag": magnitude(s)}})
    return out


def round_numbers(x):
    """ A scenario with 1/3 for the floating-point number next to it, and so on. """
    if isinstance(x, dict):
        return {round_numbers(k): round_numbers(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [round_numbers(v) for v in x]
    if isinstance(x, str) and NUM.match(x) and len(x) > 15:
        f = Fraction(x)
        g = f.limit_denominator(10**5)
        return str(g) if abs(f - g) <= abs(f) / 10**14 else x
    return x


def magnitude(s):
    """ How large the numbers of a scenario are. """
    big = Fraction(1)

    def look(x):
        nonlocal big
        if isinstance(x, dict):
            for k, v in x.items():
                look(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                look(v)
        elif isinstance(x, str) and NUM.match(x):
            big = max(big, abs(Fraction(x)))
    look(s)
    return str(int(big) * 4 + 1)


NUM = re.compile(r"-?\d+(/\d+)?$")


# --- fields of two objects -----------------------------------------------------
class Cached(HighPrecisionOptional):
    a, b = HighPrecisionOptionalPropertyCached(), HighPrecisionOptionalPropertyCached()


class Live(HighPrecisionOptional):
    a, b = HighPrecisionOptionalProperty(), HighPrecisionOptionalProperty()


def person():
    return Person(2000, "A", "1960-05-05", retirement_date="2030-01-01")


MAKE = {"Cached": Cached, "Live": Live,
        "Living": lambda: LivingExpensesStrategy(LivingExpensesStrategy.strategy_const_contribution),
        "Allocation": lambda: AllocationStrategy("n-age", 100), "Transaction": lambda: TransactionStrategy("Ordered", {}),
        "Debt": lambda: Debt(None, initial_year=2000), "Person": person, "Account": lambda: Account(None, initial_year=2000)}
FIELDS = {"Cached": ["a", "b"], "Live": ["a", "b"], "Living": ["base_amount", "rate"], "Allocation": ["min_equity", "max_equity", "target"],
          "Transaction": ["high_interest_threshold"], "Debt": ["minimum_payment", "accelerated_payment"],
          "Account": ["balance", "rate"], "Person": ["gross_income", "raise_rate"]}
KINDS = sorted(MAKE)
PLAIN = {"Debt", "Account", "Person"}


def to_dec(x):
    return Decimal(x.numerator) / Decimal(x.denominator) if isinstance(x, Fraction) else Decimal(x)


TYPES = {"ord": None, "dec": to_dec, "frac": Fraction}


def typed(x):
    if x is None:
        return {"v": "none", "ty": "none"}
    t = {float: "ord", Decimal: "dec", Fraction: "frac"}.get(type(x), "ord" if isinstance(x, int) else type(x).__name__)
    return {"v": lib.enc(x), "ty": t}


def fields(s):
    objs = [MAKE[s["kind"]]() for _ in range(s["setup"]["objs"])]
    names = sorted(s["setup"]["fields"])
    plain = s["kind"] in PLAIN

    def got():
        return [{f: typed(attempt(getattr, x, f)[0]) for f in names} for x in objs]
    if not plain:
        for x in objs:
            for f in names:
                setattr(x, f, None)
    g = got()
    ev = [{"ev": "start", "val": g, "mode": ["ord"] * len(objs), "got": g, "err": "ok"}]
    for o in s["ops"]:
        e = {k: v for k, v in o.items() if k != "op"}
        e["ev"] = o["op"]
        x = objs[o["o"] - 1]
        if o["op"] == "clear" and plain:
            continue
        if o["op"] == "set":
            v = float(dec(o["v"])) if o["ty"] == "ord" else to_dec(Fraction(o["v"]))
            e["err"] = attempt(setattr, x, o["f"], v)[1]
        elif o["op"] == "clear":
            e["err"] = attempt(setattr, x, o["f"], None)[1]
        elif o["op"] == "mode":
            if plain and o["m"] == "frac":
                continue
            e["err"] = attempt(setattr, x, "high_precision", TYPES[o["m"]])[1]
        else:
            y, e["err"] = attempt(copy.deepcopy, x)
            objs[o["to"] - 1] = y
        e["got"] = got()
        ev.append(e)
    return ev


# --- one plan, twice -----------------------------------------------------------
def takes(o):
    """ Whether a class or function can be handed a high-precision type. """
    if inspect.isclass(o):
        if issubclass(o, HighPrecisionOptional):
            return True
        try:
            return "high_precision" in inspect.signature(o.__init__).parameters
        except (TypeError, ValueError):
            return False
    return inspect.isfunction(o) and o.__module__.startswith("forecaster") and "high_precision" in inspect.signature(o).parameters


def play(m, s, high):
    """ What driver m reports for its scenario s. """
    lib.HP = None
    Count.n = 0
    if not high:
        return m.execute(s)
    saved = []
    for mod in {id(x): x for x in [m] + [sys.modules[n] for n in ("acct", "alloc", "c17") if n in sys.modules]}.values():
        for n, o in list(vars(mod).items()):
            if not n.startswith("__") and not isinstance(o, lib.HighPrecision) and takes(o):
                saved.append((mod, n, o))
                setattr(mod, n, lib.HighPrecision(o))
            elif isinstance(o, dict) and o and all(map(takes, o.values())):
                saved.append((mod, n, o))
                setattr(mod, n, {k: lib.HighPrecision(v) for k, v in o.items()})
    lib.HP = Decimal
    try:
        return m.execute(s)
    finally:
        lib.HP = None
        for mod, n, o in saved:
            setattr(mod, n, o)


class Count:
    n = 0


def steady(cls):
    """ Have sets of objects of cls gone through in an order that only depends on when they were made. """
    def h(self):
        v = self.__dict__.get("vf_no")
        if v is None:
            Count.n += 1
            v = self.__dict__["vf_no"] = Count.n
        return v
    cls.__hash__ = h


def number(x):
    return isinstance(x, str) and (x in ("inf", "-inf") or NUM.match(x))


def flat(x, tiny, nums, texts):
    """ The numbers and the texts of a report, in an order that doesn't depend on number types. """
    if isinstance(x, dict):
        if x and all(number(k) for k in x):
            it = sorted(x.items(), key=lambda kv: lib.dec(kv[0]))
            if all(number(v) for v in x.values()):
                # (several transactions at one time, up to rounding, are one)
                got = []
                for k, v in it:
                    nums[1].append(getattr(k, "ty", "none"))
                    nums[1].append(getattr(v, "ty", "none"))
                    if got and close(got[-1][0], k) and "inf" not in v and "inf" not in got[-1][1]:
                        got[-1][1] = str(Fraction(got[-1][1]) + Fraction(v))
                    else:
                        got.append([str(k), str(v)])
                for k, v in got:
                    if "inf" in v or abs(Fraction(v)) > tiny:
                        nums[0].extend([k, v])
            else:
                for k, v in it:
                    flat(k, tiny, nums, texts)
                    flat(v, tiny, nums, texts)
        elif set(x) == {"k", "txs"}:
            # (what is planned for one account)
            n = len(nums[0])
            flat(merged(x["txs"]), tiny, nums, texts)
            if len(nums[0]) > n:
                texts.append(str(x["k"]))
        else:
            for k in sorted(x, key=str):
                texts.append(str(k))
                flat(x[k], tiny, nums, texts)
    elif isinstance(x, (list, tuple)):
        texts.append("[")
        if x and all(isinstance(v, dict) and "k" in v for v in x):
            x = sorted(x, key=lambda v: v["k"])
        if x and all(isinstance(v, str) and not number(v) for v in x):
            x = sorted(x)
        for v in x:
            flat(v, tiny, nums, texts)
        texts.append("]")
    elif number(x):
        nums[0].append(str(x))
        nums[1].append(getattr(x, "ty", "none"))
    else:
        texts.append(str(x))


def merged(txs):
    d = {}
    for t, v in txs:
        d[t] = v if t not in d else str(Fraction(d[t]) + Fraction(v))
    return d


def close(a, b):
    return a == b or abs(Fraction(a) - Fraction(b)) < Fraction(1, 10**9)


def tame(of, scn, e):
    """ A report without what may be one way or another where it makes no difference. """
    if of == "c11" and e.get("ev") in ("each", "credits", "tax"):
        # (either of a couple may have a relief)
        wed = scn["setup"]["spouse"]
        if e["ev"] == "tax":
            rel = any(d for d in e["ded"] + e["cred"])
            return e if all(wed.get(p, p) in ([p] if rel else e["group"]) for p in e["group"]) else {"ev": "tax"}
        return dict(e, outs={p: v for p, v in e["outs"].items() if p not in wed})
    if of == "c07" and "obs" in e:
        # (amounts at a threshold may be on either side of it)
        e = {k: v for k, v in e.items() if k != "withheld"}
        x, y = Fraction(e["obs"]["taxable"]), Fraction(e["obs"]["least"])
        if any(abs(z / 10 - round(z / 10)) < Fraction(1, 10**7) for z in (x, x - y)):
            return dict(e, obs={k: v for k, v in e["obs"].items() if k != "withheld"})
    if of == "c23":
        return {k: v for k, v in e.items() if k in ("ev", "err", "figs", "diff")}
    if of == "c17":
        # (whether there's anything to plan for is a question of rounding when all money is spent)
        return {k: v for k, v in e.items() if k not in ("planned", "offered", "pool")}
    return e


def both(s):
    m = importlib.import_module(s["of"])
    steady(Ledger)
    steady(TransactionNode)
    lo = play(m, s["scn"], False)
    hi = play(m, s["scn"], True)
    ev = together(s, lo, hi)
    bad = next((i for i, e in enumerate(ev) if not alike(s, e)), None)
    for k in range(4 if bad is not None else 0):
        # (where amounts that differ by next to nothing lead elsewhere in ordinary numbers, rounding may too)
        lib.JITTER = random.Random(k)
        try:
            near = play(m, s["scn"], False)
        except TimeoutError:
            raise
        except Exception:  # pylint: disable=broad-except
            continue
        finally:
            lib.JITTER = None
        if not all(alike(s, e) for e in together(s, lo, near)[:bad + 1]):
            return ev[:bad]
    return ev


def alike(s, e):
    if not e["shape"] or e["tlo"] != e["thi"] or len(e["lo"]) != len(e["hi"]):
        return False
    tol, mag = Fraction(s["setup"]["eps"]), Fraction(s["setup"]["mag"]) / 10**10
    for a, b in zip(e["lo"], e["hi"]):
        if a != b and ("inf" in a + b or "nan" in a + b):
            return False
        if a != b:
            a, b = Fraction(a), Fraction(b)
            if abs(a - b) > max(tol, mag, max(abs(a), abs(b)) / 10**7):
                return False
    return True


def together(s, lo, hi):
    tiny = Fraction(s["setup"]["mag"]) / 10**10 if s["setup"]["eps"] == "0" else Fraction(s["setup"]["eps"])
    ev = []
    # (c17 ends a plan that overdraws an account, be it by rounding)
    for i in range((min if s["of"] == "c17" else max)(len(lo), len(hi))):
        e = {"ev": "both", "shape": i < len(lo) and i < len(hi), "lo": [], "hi": [], "tlo": [], "thi": [], "types": []}
        ev.append(e)
        if not e["shape"]:
            break
        a, b, ta, tb = ([], []), ([], []), [], []
        la, hb = (tame(s["of"], s["scn"], x) for x in (lo[i], hi[i]))
        flat(la, tiny, a, ta)
        flat(hb, tiny, b, tb)
        e["lo"], e["hi"], e["tlo"], e["thi"] = a[0], b[0], ta, tb
        e["types"] = sorted({t for t in b[1] if t != "none"})
        e["shape"] = len(ta) == len(tb)
    return ev


def execute(s):
    return both(s) if s["kind"] == "both" else fields(s)
