"""C16: money moved within a forecast is conserved and can be undone."""
from collections import defaultdict
import lib
from lib import attempt, enc, dec
lib.setup_path()
from forecaster.forecast import SubForecast  # noqa: E402
from forecaster.accounts import Account, Debt  # noqa: E402
from forecaster.canada.accounts import TFSA, RRSP, TaxableAccount  # noqa: E402
from forecaster.person import Person  # noqa: E402
from forecaster.utility import Timing  # noqa: E402
from acct import Limited, FREE  # noqa: E402

MODELS = [dict(module="MCMoves", cfg="MCMoves.cfg", thorough_cfg="MCMovesT.cfg")]
TRACE = "C16Trace"
ASSUMPTIONS = ["schedules have positive weights; amounts are finite"]
YEAR = 2000
CODES = {"C": "C", "D": "365", "W": "52", "BW": "26", "SM": "24", "M": "12", "Q": "4", "SA": "2", "A": "1"}
WORDS = {"start": "0", "end": "1"}


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCMoves", []))
    rng.shuffle(gen)
    for b in gen[: 2000 if tier == "quick" else 40000]:
        stores = []
        for s in b["stores"]:
            s["tx"] = s["tx"] or {}
            stores.append(s)
        ops = []
        for h in b["hist"]:
            if h["op"] == "move":
                ops.append({"k": "moves", "mvs": [h["mv"]]})
            else:
                ops.append({"k": h["op"], "p": h["p"]})
        ops.append({"k": "past", "p": 1})
        out.append(finish(stores, 2, [b["script"], []], ops, rng))
    for _ in range(2500 if tier == "quick" else 40000):
        out.append(rand(rng))
    return out


def finish(stores, parts, scripts, ops, rng):
    st = []
    mag = 1
    for s in stores:
        s = dict(s)
        s["tx"] = {enc(dec(t)): enc(dec(v)) for t, v in s["tx"].items()}
        s["open"], s["rate"] = enc(dec(s["open"])), enc(dec(s["rate"]))
        if s["kind"] == "account":
            s.setdefault("cls", "Account" if s["limit"] == "inf" else "Limited")
            s.setdefault("code", s["nper"])
            r = abs(float(lib.frac(s["rate"])))
            mag = max(mag, 3 ** (1 + r))
        mag_s = abs(float(lib.frac(s["open"]))) + sum(abs(float(lib.frac(v))) for v in s["tx"].values())
        mag = max(mag, mag_s * 4)
        st.append(s)
    mvs = [m for sc in scripts for m in sc] + [m for o in ops for m in o.get("mvs", [])]
    exact = all(whole(v) for s in st for v in [s["open"]] + list(s["tx"].values())) and all(pieces_whole(m) for m in mvs)
    for s in st:
        s["exact"] = exact
    return {"setup": {"stores": st, "parts": parts, "scripts": [[num(m) for m in sc] for sc in scripts],
                      "mag": str(int(mag) + 4000)},
            "ops": [dict(o, mvs=[num(m) for m in o["mvs"]]) if "mvs" in o else o for o in ops]}


def whole(v):
    """ Sums of such numbers are exact in floating point. """
    f = lib.Fraction(v)
    return abs(f) < 2 ** 20 and (f * 1024).denominator == 1


def pieces_whole(m):
    w = [dec(x) for _, x in m["w"]]
    return all(lib.Fraction(dec(m["v"]) * (x / sum(w))) == lib.Fraction(m["v"]) * lib.Fraction(x) / sum(map(lib.Fraction, w))
               and whole(lib.Fraction(dec(m["v"]) * (x / sum(w)))) for x in w)


def num(m):
    return dict(m, v=enc(dec(m["v"])), w=[[enc(dec(t)), enc(dec(x))] for t, x in m["w"]])


TIMES = ["0", "1/4", "1/2", "3/4", "1", "1/3", "1/12", "9/10", "2/3"]
AMTS = ["1", "2", "5", "10", "10", "25", "100/3", "100", "120", "250", "1/10", "0"]


def rand_w(rng, form):
    if form in ("word", "when"):
        return [[rng.choice(["0", "1"]) if form == "word" else rng.choice(TIMES), "1"]]
    n = rng.choice([1, 2, 2, 3])
    ts = rng.sample(TIMES, n)
    return [[t, rng.choice(["1", "1", "2", "1/2", "7/3"])] for t in ts]


def rand_mv(rng, stores, parts):
    n = len(stores)
    f, t = rng.choice(range(n + 1)), rng.choice(range(n + 1))
    form = rng.choice(["word", "when", "when", "dict", "dict", "timing", "freq", "default", "many"])
    if form == "freq":
        c = rng.choice(["SA", "Q", "A", "BM"])
        k = {"SA": 2, "Q": 4, "A": 1, "BM": 6}[c]
        w = [[enc((i + 0.5) / k), enc(1 / k)] for i in range(k)]
        m = {"w": w, "code": c}
    elif form == "default":
        m = {"w": [["1/2", "1"]]}
    else:
        m = {"w": rand_w(rng, form)}
    v = rng.choice(AMTS)
    if f and rng.random() < .6:
        v = near(rng, stores[f - 1])
        if rng.random() < .3 and form != "word":
            m["w"] = [["0", "1"]] if form != "default" else m["w"]
            form = "default" if form == "default" else "when"
    if form == "many":
        m["w"] = m["w"][:1]
    if rng.random() < .2 and v != "0":
        v = "-" + v
    m.update(p=rng.randint(1, parts), v=v, to=t, strict=rng.random() < .15, form=form)
    m["from"] = f
    return m


def near(rng, st):
    """ An amount close to what a store can pay at some time. """
    F = lib.frac
    t = rng.choice([0, .2, .25, .5, .7, 1])
    bal = 0
    for w, v in [("0", st["open"])] + list(st["tx"].items()):
        if F(w) <= t or rng.random() < .3:
            r, d = float(F(st["rate"])), t - float(F(w))
            g = 1 if st["kind"] == "cash" else 2.718281828 ** (r * d) if st["nper"] == "C" \
                else (1 + r / int(st["nper"])) ** (int(st["nper"]) * d)
            bal += float(F(v)) * g
    if rng.random() < .4:
        bal = round(bal)
    bal = lib.Fraction(round(bal * rng.choice([1, 1, 1, .5, .99, 1.01]), rng.choice([0, 1, 3])))
    if rng.random() < .15:      # hardly too much, hardly too little
        bal += rng.choice([1, -1]) * lib.Fraction(1, 250)
    return str(bal) if bal > 0 else rng.choice(AMTS)


def rand_tx(rng, n):
    return {t: rng.choice(["", "", "-"]) + rng.choice(AMTS[:-1]) for t in rng.sample(TIMES, rng.randint(0, n))}


def rand(rng):
    stores = [{"kind": "cash", "open": "0", "rate": "0", "nper": "1", "limit": "inf", "tx": rand_tx(rng, 5),
               "plain": rng.random() < .3}]
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = rng.choice(["cash", "Account", "Account", "Limited", "Debt", "TFSA", "RRSP", "Taxable"])
        if c == "cash":
            stores.append({"kind": "cash", "open": "0", "rate": "0", "nper": "1", "limit": "inf", "tx": rand_tx(rng, 4),
                           "plain": True})
            continue
        code = rng.choice(["C", "A", "A", "M", "Q", "D"])
        s = {"kind": "account", "cls": c, "open": rng.choice(["0", "10", "95", "100", "250", "1/10"]),
             "rate": rng.choice(["0", "1/20", "1/10", "1/10", "1", "1", "3", "-1/10", "-3/4", "1/1000"]), "code": code, "nper": CODES[code],
             "limit": "inf", "tx": rand_tx(rng, 2)}
        if c in ("Account", "Limited") and rng.random() < .15:
            s["open"] = "-20"
        if c == "Limited":
            s["limit"] = rng.choice(["0", "5", "50", "1000"])
        if c == "Debt":
            s["open"], s["limit"] = "-" + s["open"] if s["open"] != "0" else "0", "0"
        if c in ("RRSP", "TFSA", "Taxable"):
            s["rate"] = rng.choice(["0", "1/20", "1/10", "-1/10"])
        stores.append(s)
    parts = rng.choice([1, 1, 2])
    scripts = []
    for p in range(parts):
        mvs = []
        for _ in range(rng.choice([1, 2, 3])):
            m = rand_mv(rng, stores, parts)
            m["p"] = p + 1
            mvs.append(m)
        scripts.append(mvs)
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        k = rng.choice(["moves", "moves", "moves", "call", "call", "undo", "year", "past"])
        o = {"k": k, "p": rng.randint(1, parts)}
        if k == "call" and rng.random() < .3:
            o["pool"] = rng.randint(1, len(stores))
        if k == "moves":
            o["mvs"] = [rand_mv(rng, stores, parts)]
            if o["mvs"][0]["form"] == "many":
                a = o["mvs"][0]
                w = rand_w(rng, "dict")
                o["mvs"] = [dict(a, w=[[t, "1"]], v=rng.choice(["", "-"]) + rng.choice(AMTS[:-1])) for t, _ in w]
        ops.append(o)
    for m in [m for o in ops for m in o.get("mvs", [])] + [m for sc in scripts for m in sc]:
        if len(m["w"]) > 3 and rng.random() < .5:
            m["strict"] = True
    for sc in scripts:
        for m in sc:
            if m["form"] == "many":
                m["form"] = "when"
    return finish(stores, parts, scripts, ops, rng)


def make_store(s):
    if s["kind"] == "cash":
        d = {} if s.get("plain") else defaultdict(lambda: 0)
        d.update({dec(t): dec(v) for t, v in s["tx"].items()})
        return d
    own = Person(YEAR, "A", "1960-05-05", retirement_date="2030-01-01")
    kw = dict(balance=dec(s["open"]), rate=dec(s["rate"]), nper=s["code"] if s["code"] in CODES else int(s["code"]))
    c = s["cls"]
    if c == "Account":
        a = Account(own, **kw)
    elif c == "Limited":
        a = Limited(own, **kw)
        a.lims = dict(FREE, max_out="-" + s["limit"] if s["limit"] != "0" else "0")
    elif c == "Debt":
        a = Debt(own, **kw)
    elif c == "Taxable":
        a = TaxableAccount(own, **kw)
    else:
        a = {"TFSA": TFSA, "RRSP": RRSP}[c](own, inflation_adjust=lambda *x: 1, contribution_room=1000, **kw)
    for t, v in s["tx"].items():
        a.add_transaction(dec(v), dec(t))
    return a


def tidy(m):
    return {enc(t): enc(v) for t, v in m.items()}


def rec(r, stores):
    out = []
    for k in [None] + stores:
        out.append({})
        for key in list(r):
            if key is k:
                out[-1] = tidy(r[key])
    return out


class Part(SubForecast):
    """ A part whose call makes given movements. """
    script = ()
    stores = ()

    def do(self, m):
        ends = {"from_account": None if not m["from"] else self.stores[m["from"] - 1],
                "to_account": None if not m["to"] else self.stores[m["to"] - 1]}
        if m["strict"]:
            ends["strict_timing"] = True
        form = m.get("form", "dict")
        w = {dec(t): dec(x) for t, x in m["w"]}
        t0 = dec(m["w"][0][0])
        v = dec(m["v"])
        if form == "default":
            self.add_transaction(v, **ends)
        else:
            tm = {"word": {0: "start", 1: "end"}.get(t0, t0), "when": t0, "dict": w, "timing": None,
                  "freq": m.get("code")}[form]
            self.add_transaction(v, timing=Timing(w) if tm is None else tm, **ends)

    def __call__(self, available):
        super().__call__(available)
        for m in self.script:
            self.do(m)


def execute(s):
    S = s["setup"]
    stores = [make_store(x) for x in S["stores"]]
    parts = []
    for i in range(S["parts"]):
        p = Part(YEAR)
        p.stores, p.script = stores, S["scripts"][i]
        parts.append(p)
    ev = []
    year = YEAR

    def snap(**kw):
        keys = True
        for p in parts:
            ks, tag = attempt(lambda: list(p.transactions.keys()))
            keys = keys and tag == "ok" and len(ks) == len(list(p.transactions)) and all(
                k is None or any(k is x for x in stores) for k in ks)
        ev.append(dict(kw, stores=[tidy(x) for x in stores], recs=[rec(p.transactions, stores) for p in parts], keys=keys))

    for o in s["ops"]:
        k = o["k"]
        if k == "moves":
            p = parts[o["mvs"][0]["p"] - 1]
            if o["mvs"][0].get("form") == "many":
                m = o["mvs"][0]
                tag = attempt(p.add_transactions, {dec(x["w"][0][0]): dec(x["v"]) for x in o["mvs"]},
                              None if not m["from"] else stores[m["from"] - 1], None if not m["to"] else stores[m["to"] - 1],
                              m["strict"])[1]
            else:
                tag = attempt(lambda: [p.do(m) for m in o["mvs"]])[1]
            snap(ev="moves", mvs=o["mvs"], err=tag, group=o["mvs"][0].get("form") == "many")
        elif k == "call":
            p = parts[o["p"] - 1]
            tag = attempt(p, stores[o.get("pool", 1) - 1])[1]
            snap(ev="call", p=o["p"], pool=o.get("pool", 1), err=tag, avail=enc(p.total_available))
        elif k == "undo":
            snap(ev="undo", p=o["p"], err=attempt(parts[o["p"] - 1].undo_transactions)[1])
        elif k == "year":
            snap(ev="year", p=o["p"], err=attempt(parts[o["p"] - 1].next_year)[1])
        elif k == "past":
            h = parts[o["p"] - 1].transactions_history
            ys = sorted(y for y in h if y < parts[o["p"] - 1].this_year)
            ev.append({"ev": "past", "p": o["p"], "past": [rec(h[y], stores) for y in ys]})
    return ev
