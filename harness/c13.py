"""C13: allocating money respects every limit and uses all it can."""
import alloc
from alloc import rand_tree, rand_avail, stub, add_groups, node

MODELS = [dict(module="MCAlloc", cfg="MCAlloc.cfg", thorough_cfg="MCAllocT.cfg")]
TRACE = "C13Trace"
ASSUMPTIONS = ["what the members of a group must move does not add up to more than the group may move",
               "node limits are not claimed where an account occurs twice in the tree",
               "some member of each group could use all of its shared limit (see K02 for the rest)"]
execute = alloc.execute
KNOWN = [{"setup": {"T": [node("ord", kids=[2, 3]), node("leaf", 1), node("leaf", 2)],
                    "accts": [{"kind": "Linked", "groups": {"max_outflow": 1}, "balance": b, "min_inflow": "0",
                               "max_inflow": "inf", "min_outflow": "0", "max_outflow": "inf"} for b in ("40", "80")],
                    "groups": [{"max_inflow": "0", "min_inflow": "0", "max_outflow": "100", "min_outflow": "0"}],
                    "sgn": 1, "wrap": False, "avail": [["1/2", "-100"]], "total": "none"}, "ops": []}]


def scenarios(tier, rng, beh):
    out = list(KNOWN)
    gen = list(beh.get("MCAlloc", []))
    rng.shuffle(gen)
    for b in gen[: 500 if tier == "quick" else 8000]:
        out.append(of_model(b["Q"], rng))
    for _ in range(1300 if tier == "quick" else 16000):
        out.append(rand(rng))
    return out


def of_model(Q, rng):
    d, o = ("outflow", "inflow") if Q["out"] else ("inflow", "outflow")
    T = [node(n["k"], n["leaf"], n["kids"], n["ws"],
              {f + "_" + d: n[k] for f, k in (("min", "mn"), ("max", "mx")) if n[k] != "inf"}) for n in Q["T"]]
    acc = [{"kind": "stub", "groups": {"max_" + d: g} if g else {}, "min_" + d: lo, "max_" + d: hi,
            "min_" + o: "0", "max_" + o: "7"} for lo, hi, g in zip(Q["lo"], Q["hi"], Q["gmax"])]
    G = [{"max_" + d: g, "min_" + d: "0", "max_" + o: "0", "min_" + o: "0"} for g in Q["Gmax"]]
    return {"setup": {"T": T, "accts": acc, "groups": G, "sgn": rng.choice([1, -1]), "wrap": rng.random() < .3,
                      "avail": [["1/2", ("-" if Q["out"] else "") + Q["total"]]], "total": "none", "perm": True,
                      "twice": rng.random() < .2}, "ops": []}


def rand(rng):
    lim = rng.choice([0, 0, .4])
    if rng.random() < .15:
        T, n = rand_tree(rng, rng.choice([6, 8]), rng.choice([4, 5, 6]), lim, rng.random() < .2, rng.choice(["o", "ow"]), True)
    else:
        T, n = rand_tree(rng, 6, rng.choice([0, 1, 2, 2, 3]), lim, rng.random() < .3)
    if len(T) > 3 and rng.random() < .2:
        alloc.share_node(rng, T)
    total = rng.choice([1, -1]) * rng.choice([1, 5, 10, 30, 50, 100, 300, 1000])
    kind = rng.choice(["stub", "stub", "named", "acct"])
    groups = []
    txs = []
    if kind != "acct":
        accts = [stub(rng, kind) for _ in range(n)]
        if rng.random() < .5 and n > 1:
            xs = list(range(1, n + 1))
            rng.shuffle(xs)
            k = rng.randint(2, n)
            sets = [xs[:k]] + ([xs[k:]] if len(xs) - k > 1 else [])
            groups = add_groups(rng, accts, sets, mins=rng.random() < .3)
    else:
        accts, groups, txs = real(rng, n)
    if not lim and n > 1 and rng.random() < .15 and not groups:
        a, b = rng.sample(range(1, n + 1), 2)
        for d in T:
            if d["leaf"] == a:
                d["leaf"] = b
    avail = rand_avail(rng, total, rng.random() < .15)
    tot = rng.choice(["none"] * 5 + [str(total // 2 if total % 2 == 0 else total)])
    if rng.random() < .04:      # hardly any money
        tot = rng.choice(["1/100", "1/125"])
        tot = tot if total > 0 else "-" + tot
    if rng.random() < .04:      # no money at all
        avail, tot = rng.choice([(avail, "0"), ([], "none"), ([["1/2", "0"]], "none"),
                                 ([["0", "10"], ["1", "-10"]], "none"), ([["0", "0"], ["1", "0"]], "0")])
    scn = {"setup": {"T": T, "accts": accts, "groups": groups, "sgn": rng.choice([1, -1]), "wrap": rng.random() < .3,
                      "avail": avail, "total": tot,
                      "perm": rng.random() < .3, "twice": rng.random() < .2, "txs": txs}, "ops": []}
    if rng.random() < .25:
        scn["setup"]["more"] = alloc.more(rng, scn["setup"])
    return scn


def real(rng, n):
    """ Accounts of the library; those that share a limit do so through their links. """
    fam = rng.choice(["Limited", "Linked", "mixed", "mixed"])
    accts, groups, txs = [], [], []
    room = {"RRSP": rng.choice(["0", "20", "500"]), "TFSA": rng.choice(["0", "35", "100"])}
    for i in range(n):
        k = fam if fam != "mixed" else rng.choice(["Account", "Debt", "RRSP", "TFSA", "Limited"])
        a = {"kind": k, "groups": {}, "balance": rng.choice(["0", "15", "100", "1000"]), "min_inflow": "0", "max_inflow": "inf",
             "min_outflow": "0", "max_outflow": "inf"}
        if k == "Limited":
            a.update(stub(rng), kind=k)
        elif k == "Debt":
            a.update(balance=rng.choice(["0", "-20", "-500"]), min_inflow=rng.choice(["0", "5", "30"]),
                     accel=rng.choice(["0", "10", "inf"]))
        elif k in room:
            a.update(room=room[k], who=1, groups={"max_inflow": 1 if k == "RRSP" else 2})
        accts.append(a)
    if fam == "mixed":
        groups = [{"max_inflow": room[k], "min_inflow": "0", "max_outflow": "0", "min_outflow": "0"} for k in ("RRSP", "TFSA")]
    if fam == "Linked":
        g = {"max_inflow": rng.choice(["5", "40", "200"]), "max_outflow": rng.choice(["5", "10"]), "min_inflow": "0",
             "min_outflow": "0"}
        groups = [g]
        fs = rng.choice([["max_inflow"], ["max_outflow"], ["max_inflow", "max_outflow"]])
        for a in accts:
            if rng.random() < .7:
                a["groups"] = {f: 1 for f in fs}
                if a["balance"] == "0":
                    a["balance"] = "15"
    return accts, groups, txs
