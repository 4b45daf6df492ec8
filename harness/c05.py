"""C05: linked accounts share one limit per direction."""
import lib
from lib import attempt, enc, dec, encmap, decmap
lib.setup_path()
from forecaster.accounts import LinkedLimitAccount  # noqa: E402
from forecaster.accounts.link import AccountLink, LinkTuple  # noqa: E402
from forecaster.person import Person  # noqa: E402

MODELS = [dict(module="MCLink", cfg="MCLink.cfg", thorough_cfg="MCLinkT.cfg")]
TRACE = "C05Trace"
ASSUMPTIONS = ["a token is used for one direction only", "linked accounts of one group are in the same year when offers are made, "
               "or each counts its own current year"]
DIRS = ["max_in", "min_in", "max_out", "min_out"]
ATTR = {"max_in": "max_inflow", "min_in": "min_inflow", "max_out": "max_outflow", "min_out": "min_outflow"}
TOK = {"max_in": ["x", "X"], "min_in": ["mi"], "max_out": ["y", "Y"], "min_out": ["mo"]}
INWARD = set(TOK["max_in"] + TOK["min_in"])
TIMES = ["0", "1/2", "1", "1/4"]
VALS = ["3", "10", "-4", "-10", "1/2", "100"]


class Saver(LinkedLimitAccount):
    pass


class Other:
    """Anything with a `data` attribute may own a link."""
    def __init__(self):
        self.data = {}


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCLink", []))
    rng.shuffle(gen)
    for b in gen[: 2500 if tier == "quick" else 40000]:
        ops = []
        for a in sorted(b["slot"]):
            ops.append({"op": "new", "a": a, "open": "10", "rate": "0", "links": b["slot"][a],
                        "lims": {d: "none" for d in DIRS}})
        for a in sorted(b["slot"]):
            for d, v in (("max_in", "5"), ("max_out", "-4")):
                if b["slot"][a][d] != "none":
                    ops.append({"op": "setlimit", "a": a, "d": d, "v": v})
        for o in b["ops"]:
            if o["op"] == "take":
                ops.append({"op": "offer", "a": o["a"], "d": o["d"], "w": {"1": "1"},
                            "tl": "3" if o["d"] == "max_in" else "-3", "bl": "none", "own": None, "group": {}})
                ops.append({"op": "add", "a": o["a"], "t": o["t"], "v": o["v"]})
            else:
                ops.append(o)
            for a in sorted(b["slot"]):
                ops.append({"op": "limit", "a": a, "d": "max_in"})
        out.append({"ops": ops})
    for _ in range(3000 if tier == "quick" else 40000):
        out.append(rand(rng))
    return out


def rkey(rng, d):
    return rng.choice(["p", "q", "o"]) + ":" + rng.choice(TOK[d])


def rand(rng):
    ops, names = [], []
    full = set()

    def new():
        a = "abcdefgh"[len(names)]
        names.append(a)
        links, lims = {}, {}
        for d in DIRS:
            links[d] = rkey(rng, d) if rng.random() < .7 else "none"
            lims[d] = "none"
            if links[d] != "none" and (links[d] not in full or rng.random() < .3):
                lims[d] = rng.choice({"max_in": ["20", "100", "0", "inf"], "min_in": ["0", "10", "50"],
                                      "max_out": ["-20", "-100", "0", "-inf"], "min_out": ["0", "-10", "-50"]}[d])
                full.add(links[d])
        ops.append({"op": "new", "a": a, "open": rng.choice(["0", "50", "1000", "-20"]),
                    "rate": rng.choice(["0", "1", "-1/2"]), "links": links, "lims": lims,
                    "form": {x: rng.choice(["pair", "pair", "list", "named", "link", "relink"]) for x in DIRS}})
    for _ in range(rng.randrange(1, 4)):
        new()
    for _ in range(rng.randrange(5, 16)):
        k = rng.random()
        a = rng.choice(names)
        d = rng.choice(DIRS)
        if k < .08 and len(names) < 6:
            new()
        elif k < .18:
            ops.append({"op": "setlimit", "a": a, "d": d, "v": rng.choice(
                {"max_in": ["20", "100"], "min_in": ["0", "10"], "max_out": ["-20", "-100"], "min_out": ["0", "-10"]}[d])})
        elif k < .27:
            ops.append({"op": "limit", "a": a, "d": d})
        elif k < .45:
            ops.append({"op": "add", "a": a, "t": rng.choice(TIMES), "v": rng.choice(VALS)})
        elif k < .5:
            ops.append({"op": "next", "a": a})
        elif k < .55:
            ops.append({"op": "group", "k": rkey(rng, d), "via": d})
        elif k < .58:
            ops.append({"op": "member", "k": rkey(rng, d), "a": a})
        elif k < .61:
            ops.append({"op": "join", "k": rkey(rng, d), "a": a})
        elif k < .64:
            ops.append({"op": "leave", "k": rkey(rng, d), "a": a})
        elif k < .67:
            ops.append({"op": "same", "k": rkey(rng, d), "k2": rkey(rng, rng.choice(DIRS))})
        elif k < .70:
            key = rng.choice(sorted(full)) if full else None
            if key and rng.random() < .3:
                ops.append({"op": "data", "k": key, "v": rng.choice(["20", "100", "0"] if key.split(":")[1] in INWARD
                                                                    else ["-20", "-100", "0"])})
            elif key:
                ops.append({"op": "getdata", "k": key})
        elif k < .715:
            ops.append({"op": "balance", "a": a})
        elif k < .78 and k >= .75:   # asked plainly, and again after a payment (by anyone)
            plain = {"op": "offer", "a": a, "d": d, "w": {}, "tl": "none", "bl": "none", "own": None, "group": {}}
            ops += [plain, {"op": "add", "a": rng.choice(names), "t": rng.choice(TIMES), "v": rng.choice(VALS)}, plain]
        elif k < .73:
            key = rng.choice(sorted(full)) if full else rkey(rng, d)
            full.discard(key)
            ops.append({"op": "renew", "k": key})
        else:
            g = {}
            for b in names:
                if rng.random() < .4:
                    g[b] = {rng.choice(TIMES): rng.choice(VALS) for _ in range(rng.randrange(1, 3))}
            ops.append({"op": "offer", "a": a, "d": d,
                        "w": rng.choice([{}, {"1": "1"}, {"0": "1", "1/2": "3"}, {"1/4": "1"}]),
                        "tl": rng.choice(["none", "none", "7" if d.endswith("in") else "-7"]),
                        "bl": rng.choice(["none", "none", "25"]),
                        "own": {"1/2": rng.choice(VALS)} if rng.random() < .25 else None,
                        "group": g if rng.random() < .6 else {}})
    return {"ops": ops}


def execute(s):
    owners = {"p": Person(2000, "P", "1960-01-01", retirement_date="2030-01-01"),
              "q": Person(2000, "P", "1960-01-01", retirement_date="2030-01-01"), "o": Other()}
    acc, ev = {}, []
    name = {}
    nolimit = set()

    def key(k):
        o, t = k.split(":")
        return (owners[o], t)

    def asked(k, form):
        """A link may be given as any pair, or as a link."""
        if form == "list":
            return list(key(k))
        if form == "named":
            return LinkTuple(*key(k))
        if form == "link":
            return AccountLink(key(k), default_factory=lambda: None)
        if form == "relink":
            return AccountLink(AccountLink(key(k), default_factory=lambda: None))
        return key(k)
    slots, has = {}, {}
    for o in s["ops"]:
        k = o["op"]
        if k == "new":
            kw = {}
            for d in DIRS:
                if o["links"][d] != "none":
                    kw[ATTR[d] + "_link"] = asked(o["links"][d], o.get("form", {}).get(d))
                    if o["lims"][d] != "none":
                        kw[ATTR[d] + "_limit"] = dec(o["lims"][d])
                        has[o["links"][d]] = True
            owner = Person(2000, "Z", "1960-01-01", retirement_date="2030-01-01")
            # Accounts may share a limit whatever their types.
            made = Saver if o["a"] in "bd" and len(s["ops"]) % 2 else LinkedLimitAccount
            a, tag = attempt(made, owner, balance=dec(o["open"]), rate=dec(o["rate"]), **kw)
            ev.append({"ev": "new", "a": o["a"], "open": o["open"], "rate": o["rate"], "links": o["links"],
                       "lims": o["lims"], "err": tag})
            if tag != "ok":
                return ev
            acc[o["a"]] = a
            name[a] = o["a"]
            slots[o["a"]] = o["links"]
        elif k == "limit":
            v, tag = attempt(getattr, acc[o["a"]], ATTR[o["d"]] + "_limit")
            ev.append({"ev": "limit", "a": o["a"], "d": o["d"],
                       "out": tag if tag != "ok" else "none" if v is None else enc(v)})
        elif k == "setlimit":
            tag = attempt(setattr, acc[o["a"]], ATTR[o["d"]] + "_limit", dec(o["v"]))[1]
            if slots[o["a"]][o["d"]] != "none":
                has[slots[o["a"]][o["d"]]] = True
            ev.append({"ev": "setlimit", "a": o["a"], "d": o["d"], "v": o["v"], "err": tag})
        elif k == "group":
            al = AccountLink(key(o["k"]), default_factory=lambda: None)
            ev.append({"ev": "group", "k": o["k"], "out": sorted(name.get(x, "?") for x in al.group)})
        elif k == "member":
            al = AccountLink(key(o["k"]), default_factory=lambda: None)
            v, tag = attempt(al.is_linked, acc[o["a"]])
            ev.append({"ev": "member", "k": o["k"], "a": o["a"], "out": v if isinstance(v, bool) else tag})
        elif k in ("join", "leave"):
            al = AccountLink(key(o["k"]), default_factory=lambda: None)
            f = al.link_account if k == "join" else al.unlink_account
            ev.append({"ev": k, "k": o["k"], "a": o["a"], "err": attempt(f, acc[o["a"]])[1]})
        elif k == "renew":
            al = AccountLink(key(o["k"]), default_factory=lambda: None)
            state = [al.is_registered()]
            tag = attempt(al.unregister)[1]
            state.append(al.is_registered())
            if tag == "ok":
                tag = attempt(al.register)[1]
            state.append(al.is_registered())
            has.pop(o["k"], None)
            ev.append({"ev": "renew", "k": o["k"], "state": state, "err": tag})
        elif k == "same":
            l1, l2 = AccountLink(key(o["k"]), lambda: None), AccountLink(key(o["k2"]), lambda: None)
            ev.append({"ev": "same", "k": o["k"], "k2": o["k2"], "out": bool(l1 == l2), "hash": hash(l1) == hash(l2)})
        elif k == "data":
            al = AccountLink(key(o["k"]), default_factory=lambda: None)
            ev.append({"ev": "data", "k": o["k"], "v": o["v"], "err": attempt(setattr, al, "data", dec(o["v"]))[1]})
        elif k == "getdata":
            al = AccountLink(key(o["k"]), default_factory=lambda: None)
            v = al.data
            ev.append({"ev": "getdata", "k": o["k"], "out": "none" if v is None else enc(v)})
        elif k == "add":
            acc[o["a"]].add_transaction(dec(o["v"]), dec(o["t"]))
            ev.append({"ev": "add", "a": o["a"], "t": o["t"], "v": o["v"]})
        elif k == "next":
            ev.append({"ev": "next", "a": o["a"], "err": attempt(acc[o["a"]].next_year)[1]})
        elif k == "balance":
            v, tag = attempt(acc[o["a"]].balance_at_time, "end")
            ev.append({"ev": "balance", "a": o["a"], "out": enc(v) if tag == "ok" else "nan"})
        elif k == "offer":
            sl = slots[o["a"]][o["d"]]
            if sl != "none" and sl not in has:
                continue    # nobody has given this group a limit
            a = acc[o["a"]]
            kw = {}
            if o["w"]:
                kw["timing"] = decmap(o["w"])
            if o["tl"] != "none":
                kw["transaction_limit"] = dec(o["tl"])
            if o["bl"] != "none":
                kw["balance_limit"] = dec(o["bl"])
            if o["own"] is not None:
                kw["transactions"] = decmap(o["own"])
            if o["group"]:
                kw["group_transactions"] = {acc[b]: decmap(x) for b, x in o["group"].items()}
            before = {n: (encmap(x.transactions), enc(x.balance)) for n, x in acc.items()}
            v, tag = attempt(getattr(a, ATTR[o["d"]] + "s"), **kw)
            after = {n: (encmap(x.transactions), enc(x.balance)) for n, x in acc.items()}
            ev.append({"ev": "offer", "a": o["a"], "d": o["d"], "w": o["w"], "tl": o["tl"], "bl": o["bl"],
                       "hasown": o["own"] is not None, "own": o["own"] or {}, "group": o["group"],
                       "out": encmap(v) if tag == "ok" else {}, "err": tag, "same": before == after})
    return ev
