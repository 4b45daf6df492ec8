"""C01: yearly records are append-only and complete."""
import lib
from lib import attempt, canon
lib.setup_path()
from forecaster.ledger import Ledger, recorded_property, recorded_property_cached  # noqa: E402
from forecaster.accounts import Account, Debt  # noqa: E402
from forecaster.person import Person  # noqa: E402
from forecaster.canada.accounts import RRSP, TFSA, TaxableAccount, PrincipleResidence  # noqa: E402
from forecaster.forecast import SubForecast  # noqa: E402

MODELS = [dict(module="MCLedger", cfg="MCLedger.cfg", thorough_cfg="MCLedgerT.cfg")]
TRACE = "C01Trace"
ASSUMPTIONS = ["single-threaded use of each object", "inputs are given at construction"]


class Box(Ledger):
    """A ledger with one quantity of each kind, computed from `src`."""

    def __init__(self, initial_year, src, inputs=None):
        super().__init__(initial_year, inputs=inputs)
        self.src = dict(src)

    @recorded_property
    def plain(self):
        return self.src["plain"]

    @recorded_property_cached
    def cached(self):
        return self.src["cached"]

    @recorded_property
    def custom(self):
        return self.src["custom"]

    @custom.setter
    def custom(self, val):
        self.src["custom"] = val

    @recorded_property_cached
    def ccustom(self):
        return self.src["ccustom"]

    @ccustom.setter
    def ccustom(self, val):
        self.src["ccustom"] = val


class SubBox(Box):
    """The same quantities inherited, one overridden, one added."""

    @recorded_property_cached
    def cached(self):
        return self.src["cached"]

    @recorded_property
    def extra(self):
        return self.src["extra"]


KINDS = {"plain": "plain", "cached": "cached", "custom": "custom", "ccustom": "ccustom"}


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCLedger", []))
    rng.shuffle(gen)
    for b in gen[: 12000 if tier == "quick" else 200000]:
        out.append({"setup": {"mode": "ledger", "year": 2000,
                              "kinds": {p: p for p in ("plain", "cached", "ccustom")},
                              "inputs": b["inputs"] or {},
                              "src": {p: "10" for p in ("plain", "cached", "ccustom")}},
                    "ops": b["ops"], "sub": False})
    for _ in range(2500 if tier == "quick" else 20000):
        out.append(rand_ledger(rng))
    for _ in range(700 if tier == "quick" else 8000):
        out.append(rand_objects(rng))
    return out


def rand_ledger(rng):
    sub = rng.random() < 0.4
    props = list(KINDS) + (["extra"] if sub else [])
    kinds = dict(KINDS, **({"extra": "plain"} if sub else {}))
    year = rng.choice([0, 1999, 2000, 2015])
    inputs = {}
    for p in props:
        if rng.random() < 0.3:
            inputs[p] = {str(year + rng.randrange(0, 4)): str(rng.randrange(1000, 2000))
                         for _ in range(rng.randrange(1, 3))}
    n = rng.randrange(5, 25)
    ops = []
    for i in range(n):
        k = rng.random()
        v = str(100 + i)
        p = rng.choice(props)
        ops.append({"op": "read", "p": p} if k < .2 else {"op": "record", "p": p} if k < .35 else
                   {"op": "assign", "p": p, "v": v} if k < .6 else {"op": "source", "v": v} if k < .72 else
                   {"op": "clear"} if k < .8 else {"op": "next"})
    return {"setup": {"mode": "ledger", "year": year, "kinds": kinds, "inputs": inputs,
                      "src": {p: "10" for p in props}}, "ops": ops, "sub": sub}


def exec_ledger(s):
    st = s["setup"]
    inputs = {p: {int(y): int(v) for y, v in d.items()} for p, d in st["inputs"].items()}
    src = {p: int(v) for p, v in st["src"].items()}
    src.setdefault("custom", 10)
    box = (SubBox if s["sub"] else Box)(st["year"], src, inputs=inputs or None)
    ev = []
    props = sorted(st["kinds"])
    ops = list(s["ops"]) + [{"op": "next"}] + [{"op": "record", "p": p} for p in props]
    for o in ops:
        e = dict(o, ev="op")
        k = o["op"]
        if k == "read":
            v, t = attempt(getattr, box, o["p"])
            e["out"] = canon(v) if t == "ok" else t
        elif k == "record":
            v, t = attempt(getattr, box, o["p"] + "_history")
            e["out"] = {str(y): canon(x) for y, x in v.items()} if t == "ok" else {"error": t}
        elif k == "assign":
            e["out"] = attempt(setattr, box, o["p"], int(o["v"]))[1]
        elif k == "source":
            for p in box.src:
                box.src[p] = int(o["v"])
        elif k == "clear":
            e["out"] = attempt(box.clear_cache)[1]
        elif k == "next":
            e["out"] = attempt(box.next_year)[1]
            e["year"] = box.this_year
        ev.append(e)
    return ev


# --- real objects -----------------------------------------------------------
def rand_objects(rng):
    year = 2000
    ops = []
    names = ["p0", "p1", "a", "d", "rrsp", "tfsa", "tax", "house", "sub"]
    for _ in range(rng.randrange(4, 14)):
        k = rng.random()
        n = rng.choice(names)
        if k < .35:
            ops.append({"op": "tx", "o": rng.choice(names[2:8]), "v": rng.choice(["100", "-50", "1/4", "2000"]),
                        "w": rng.choice(["0", "1/2", "1", "1/4"])})
        elif k < .5:
            ops.append({"op": "move", "v": rng.choice(["100", "-50"]), "w": rng.choice(["0", "1/2", "1"]),
                        "f": rng.choice(names[2:8] + ["cash"]), "t": rng.choice(names[2:8] + ["cash"])})
        elif k < .56:
            ops.append({"op": "set", "o": rng.choice(["a", "p0", "tax"]), "v": str(rng.randrange(1, 5000))})
        elif k < .62:
            ops.append({"op": "clear", "o": n})
        elif k < .68:
            ops.append({"op": "sub", "undo": rng.random() < .5})
        elif k < .85:
            ops.append({"op": "next", "o": n})
        else:
            ops.append({"op": "nextall"})
    inputs = {}
    for n in names[:-1]:
        if rng.random() < .35:
            p = {"p0": "gross_income", "p1": "net_income"}.get(n, rng.choice(["balance", "rate"]))
            inputs[n] = {p: {str(year + rng.randrange(1, 4)): str(rng.randrange(1, 900))}}
            if p == "rate":
                inputs[n][p] = {y: "1/8" for y in inputs[n][p]}
    if rng.random() < .2:
        inputs["tax"] = {"acb": {str(year + 1): "40"}}
    return {"setup": {"mode": "objects"}, "ops": ops, "inputs": inputs, "cacheall": rng.random() < .5}


def exec_objects(s):
    inp = {n: {p: {int(y): lib.dec(v) for y, v in d.items()} for p, d in ps.items()}
           for n, ps in s["inputs"].items()}
    p0 = Person(2000, "A", "1960-03-04", retirement_date="2003-01-01", gross_income=50000, raise_rate=.05,
                inputs=inp.get("p0"))
    p1 = Person(2000, "B", "1970-03-04", retirement_date="2035-01-01", gross_income=30000,
                raise_rate={y: (y % 10) / 16 for y in range(1990, 2050)}, spouse=p0, inputs=inp.get("p1"))
    rates = {y: (y % 7) / 32 for y in range(1990, 2050)}
    o = {"p0": p0, "p1": p1,
         "a": Account(owner=p0, balance=1000, rate=rates, inputs=inp.get("a")),
         "d": Debt(owner=p1, balance=-500, rate=.125, minimum_payment=10, inputs=inp.get("d")),
         "rrsp": RRSP(owner=p0, balance=5000, rate=.0625, contribution_room=9000, inputs=inp.get("rrsp"),
                      inflation_adjust=lambda year, base_year=None: 1),
         "tfsa": TFSA(owner=p1, balance=800, rate=.0625, contribution_room=4000, inputs=inp.get("tfsa"),
                      inflation_adjust=lambda year, base_year=None: 1),
         "tax": TaxableAccount(owner=p0, balance=900, acb=600, rate=.25, inputs=inp.get("tax")),
         "house": PrincipleResidence(owner=p1, balance=100000, rate=.03125, inputs=inp.get("house")),
         "sub": SubForecast(2000)}
    cash = {}
    ids = {id(v): "@" + n for n, v in o.items()}
    ids[id(cash)] = "@cash"

    def ctx(v):
        """Canonical form, naming the objects of the graph."""
        if id(v) in ids:
            return ids[id(v)]
        if isinstance(v, dict):
            return "{" + ",".join(sorted(ctx(k) + ":" + ctx(v[k]) for k in iter(v))) + "}"
        return canon(v)

    def props(x):
        return sorted(n[:-8] for n in dir(type(x)) if n.endswith("_history") and not n.startswith("_")
                      and isinstance(getattr(type(x), n), property))

    def value(x, p):
        v, t = attempt(getattr, x, p)
        return ctx(v) if t == "ok" else t

    def snap(n, closing):
        x = o[n]
        hist, cur = {}, {}
        for p in props(x):
            if s["cacheall"]:
                cur[p] = value(x, p)
            h, t = attempt(getattr, x, p + "_history")
            if t != "ok":
                hist[p] = {"error": t}
                cur[p] = value(x, p)
                continue
            hist[p] = {str(y): ctx(h[y]) for y in sorted(h)}
            cur[p] = value(x, p)
        return {"ev": "snap", "obj": n, "snap": {
            "first": x.initial_year, "year": x.this_year, "hist": hist, "cur": cur, "closing": closing,
            "inputs": {p: {str(y): canon(v) for y, v in d.items()} for p, d in inp.get(n, {}).items()}}}
    last = {}

    def snaps(target):
        """Snapshots of the objects whose visible record changed."""
        for n in o:
            e = snap(n, n in target)
            if e["snap"] != last.get(n):
                last[n] = e["snap"]
                yield e
    ev = list(snaps([]))
    for k in s["ops"]:
        target = []
        if k["op"] == "tx":
            attempt(o[k["o"]].add_transaction, lib.dec(k["v"]), when=lib.dec(k["w"]))
        elif k["op"] == "move":
            f = cash if k["f"] == "cash" else o[k["f"]]
            t = cash if k["t"] == "cash" else o[k["t"]]
            attempt(o["sub"].add_transaction, lib.dec(k["v"]), lib.dec(k["w"]), f, t)
        elif k["op"] == "set":
            x = o[k["o"]]
            attempt(setattr, x, "gross_income" if k["o"] == "p0" else "balance", lib.dec(k["v"]))
        elif k["op"] == "clear":
            # (an opening figure is assigned, not computed: dropping it in the
            # first year leaves nothing to compute it from)
            x = o[k["o"]]
            if k["o"] not in ("p0", "p1") and x.this_year > x.initial_year:
                attempt(o[k["o"]].clear_cache)
        elif k["op"] == "sub":
            attempt(o["sub"].undo_transactions) if k["undo"] else attempt(o["sub"], cash)
        elif k["op"] == "next":
            target = [k["o"]]
            attempt(o[k["o"]].next_year)
        elif k["op"] == "nextall":
            m = max(x.this_year for x in o.values())
            for n in ("p0", "p1", "a", "d", "rrsp", "tfsa", "tax", "house", "sub"):
                while o[n].this_year <= m:
                    y = o[n].this_year
                    attempt(o[n].next_year)
                    if o[n].this_year <= y:
                        break
        ev += snaps(target)
    return ev


def execute(s):
    return exec_ledger(s) if s["setup"]["mode"] == "ledger" else exec_objects(s)
