"""C12: timings turn scalars and cash flows into well-formed schedules."""
import lib
from lib import attempt, enc, dec, encmap, decmap
lib.setup_path()
from forecaster.utility import Timing, when_conv, frequency_conv, add_transactions  # noqa: E402
from forecaster.utility import timing as tm  # noqa: E402

MODELS = [dict(module="MCTiming", cfg="MCTiming.cfg", thorough_cfg="MCTimingT.cfg"),
          dict(module="MCTiming", cfg="MCTimingF.cfg", name="freq")]
TRACE = "C12Trace"
ASSUMPTIONS = ["amounts are sums of powers of two, so that running totals are exact in floating point"]
N = {"D": 365, "W": 52, "BW": 26, "SM": 24, "M": 12, "BM": 6, "Q": 4, "SA": 2, "A": 1}
TIMES = ["0", "1/8", "1/4", "3/8", "1/2", "5/8", "3/4", "7/8", "1", "1/16", "15/16", "1/32"]


def chunk(ops, n=20):
    return [{"ops": ops[i:i + n]} for i in range(0, len(ops), n)]


def scenarios(tier, rng, beh):
    ops = []
    for b in beh.get("MCTiming", []):
        f = b["f"] or {}
        items = list(f.items())
        rng.shuffle(items)          # storage order must not matter
        ops.append({"k": "flows", "f": dict(items)})
    big = tier != "quick"
    for _ in range(40000 if big else 4000):
        n = rng.randrange(1, 9)
        f = {t: rng.choice(["1", "-1", "5", "-5", "1/4", "-1/4", "0", "100", "-64", "7/2"]) for t in rng.sample(TIMES, n)}
        ops.append({"k": "flows", "f": f})
    for c, n in N.items():
        ops.append({"k": "code", "code": c})
        for w in ["start", "end", "0", "1/2", "1", "1/4", "3/4", None]:
            ops.append({"k": "freq", "when": w, "freq": c})
            ops.append({"k": "freq", "when": w, "freq": n})
        ops.append({"k": "freq", "when": "CODE", "freq": c})
    for n in list(range(1, 32)) + [365, 100]:
        ops.append({"k": "freq", "when": rng.choice(["0", "1/2", "1", "1/8"]), "freq": n})
    for w in ["start", "end", "0", "1/2", "1", "1/4", None]:
        ops.append({"k": "freq", "when": w, "freq": None})
    for v in ["start", "end", "0", "1", "1/2", "-1/8", "9/8", "2"]:
        ops.append({"k": "when", "v": v})
    for v in ["1", "2", "365", "0", "-1", "3/2", "zz", "None"]:
        ops.append({"k": "conv", "v": v})
    for _ in range(30000 if big else 3000):
        w = {t: rng.choice(["1", "2", "1/4", "0", "5", "3"]) for t in rng.sample(TIMES, rng.randrange(1, 7))}
        if all(v == "0" for v in w.values()):
            w[list(w)[0]] = "1"
        keys = []
        if rng.random() < .4:
            keys = [t for t in w if rng.random() < .6]
            if not any(w[t] != "0" for t in keys):
                keys = []
        x = rng.choice(["7", "-3", "100", "0", "1/8", "100000"])
        k = rng.choice(["norm", "series", "txs", "copy", "combine"])
        if k == "combine":
            g = {t: rng.choice(["1", "-2", "1/4"]) for t in rng.sample(TIMES, rng.randrange(0, 5))}
            ops.append({"k": k, "op": rng.choice(["add", "sub"]), "f": w, "g": g})
        else:
            ops.append({"k": k, "w": w, "keys": keys, "x": x, "plain": rng.random() < .5})
    for _ in range(8000 if big else 900):
        ops.append(life(rng))
    rng.shuffle(ops)
    return chunk(ops)


def life(rng):
    """ One timing, used and changed, with copies of it. """
    ws = ["1", "2", "1/4", "5", "3"]
    w = {t: rng.choice(ws) for t in rng.sample(TIMES, rng.randrange(1, 6))}
    have, steps = [dict(w)], []
    for _ in range(rng.randint(3, 9)):
        i = rng.randrange(len(have))
        f = have[i]
        k = rng.choice(["norm", "norm", "series", "series", "txs", "set", "set", "del", "copy", "keys", "all"])
        if k == "set":
            t = rng.choice(TIMES)
            f[t] = rng.choice(ws)
            steps.append({"k": k, "i": i, "t": t, "v": f[t]})
        elif k == "del":
            if len(f) > 1:
                t = rng.choice(sorted(f))
                del f[t]
                steps.append({"k": k, "i": i, "t": t})
        elif k == "all":
            have[i] = {t: rng.choice(ws) for t in rng.sample(TIMES, rng.randrange(1, 6))}
            steps.append({"k": k, "i": i, "w": dict(have[i])})
        elif k == "copy":
            have.append(dict(f))
            steps.append({"k": k, "i": i})
        else:
            keys = rng.sample(sorted(f), rng.randint(1, len(f))) if k == "keys" else []
            steps.append({"k": "norm" if k == "keys" and rng.random() < .5 else "series" if k == "keys" else k, "i": i,
                          "w": dict(f), "keys": keys, "x": rng.choice(["7", "-3", "100", "0", "1/8"]),
                          "form": rng.choice(["list", "set", "tuple"]), "spoil": rng.random() < .5})
    return {"k": "life", "w": w, "steps": steps}


def lead(o, ev):
    have = [Timing(Timing(decmap(o["w"])))]
    for d in o["steps"]:
        k, a = d["k"], have[d["i"]]
        if k == "set":
            a[dec(d["t"])] = dec(d["v"])
        elif k == "del":
            del a[dec(d["t"])]
        elif k == "all":
            a.clear()
            a.update(decmap(d["w"]))
        elif k == "copy":
            have.append(Timing(a))
        else:
            kw = {} if not d["keys"] else {"keys": {"list": list, "set": set, "tuple": tuple}[d["form"]](dec(x) for x in d["keys"])}
            before = dict(a)
            if k == "norm":
                v, t = attempt(a.normalized, **kw)
            elif k == "series":
                v, t = attempt(a.time_series, dec(d["x"]), **kw)
            else:
                v, t = attempt(tm.transactions_from_timing, a, dec(d["x"]))
            ev.append({"ev": k, "w": d["w"], "keys": d["keys"], "x": d["x"], "plain": False, "out": out(v, t), "err": t,
                       "same": dict(a) == before})
            if t == "ok" and d["spoil"]:     # what is returned is the caller's own
                for x in list(v):
                    v[x] = dec("99")


def out(v, tag):
    return encmap(v) if tag == "ok" else {}


def execute(s):
    ev = []
    for o in s["ops"]:
        k = o["k"]
        if k == "flows":
            d = decmap(o["f"])
            d0 = dict(d)
            v, t = attempt(Timing, d)
            ev.append({"ev": "flows", "f": o["f"], "out": out(v, t), "err": t, "same": d == d0})
        elif k == "life":
            lead(o, ev)
        elif k == "copy":
            v, t = attempt(lambda: Timing(Timing(decmap(o["w"]))))
            ev.append({"ev": "copy", "w": o["w"], "out": out(v, t), "err": t})
        elif k == "freq":
            w = o["when"]
            kw = {}
            if o["freq"] is not None:
                kw["frequency"] = o["freq"]
            if w == "CODE":
                v, t = attempt(Timing, o["freq"])
                wn = "1/2"
            else:
                if w is not None:
                    kw["when"] = w if w in ("start", "end") else dec(w)
                v, t = attempt(Timing, **kw)
                wn = {"start": "0", "end": "1", None: "1/2"}.get(w, w)
            n = o["freq"] if isinstance(o["freq"], int) else 1 if o["freq"] is None else N[o["freq"]]
            ev.append({"ev": "freq", "when": wn, "n": n, "out": out(v, t), "err": t})
        elif k in ("norm", "series"):
            tmg = Timing(decmap(o["w"]))
            before = dict(tmg)
            a = {} if not o["keys"] else {"keys": [dec(x) for x in o["keys"]]}
            if k == "norm":
                v, t = attempt(tmg.normalized, **a)
            else:
                v, t = attempt(tmg.time_series, dec(o["x"]), **a)
            ev.append({"ev": k, "w": o["w"], "keys": o["keys"], "x": o["x"], "out": out(v, t), "err": t,
                       "same": dict(tmg) == before})
        elif k == "txs":
            w = decmap(o["w"])
            v, t = attempt(tm.transactions_from_timing, w if o["plain"] else Timing(w), dec(o["x"]))
            ev.append({"ev": "txs", "w": o["w"], "plain": o["plain"], "x": o["x"], "out": out(v, t), "err": t})
        elif k == "combine":
            f, g = decmap(o["f"]), decmap(o["g"])
            (add_transactions if o["op"] == "add" else tm.subtract_transactions)(f, g)
            ev.append({"ev": "combine", "op": o["op"], "f": o["f"], "g": o["g"], "out": encmap(f), "g2": encmap(g)})
        elif k == "when":
            v, t = attempt(when_conv, o["v"] if o["v"] in ("start", "end") else dec(o["v"]))
            want = {"start": "0", "end": "1"}.get(o["v"], o["v"] if 0 <= (dec(o["v"]) if o["v"][0] not in "se" else 0) <= 1
                                                  else "EXC:ValueError")
            ev.append({"ev": "when", "out": enc(v) if t == "ok" else t, "want": want})
        elif k == "conv":
            a = {"zz": "zz", "None": None}.get(o["v"]) if o["v"] in ("zz", "None") else dec(o["v"])
            v, t = attempt(frequency_conv, a)
            want = {"0": "EXC:ValueError", "-1": "EXC:ValueError", "3/2": "EXC:TypeError", "zz": "EXC:ValueError",
                    "None": "None"}.get(o["v"], o["v"])
            ev.append({"ev": "conv", "out": t if t != "ok" else "None" if v is None else enc(v), "want": want})
        elif k == "code":
            v, t = attempt(frequency_conv, o["code"])
            ev.append({"ev": "code", "code": o["code"], "out": enc(v) if t == "ok" else t})
    return ev
