"""C14: allocation follows the order and the weights of the priority tree."""
import alloc
from alloc import rand_tree, rand_avail, stub, add_groups
from c13 import of_model, real

MODELS = [dict(module="MCAlloc", cfg="MCAllocOrder.cfg", thorough_cfg="MCAllocOrderT.cfg")]
TRACE = "C14Trace"
ASSUMPTIONS = ["accounts that share a limit are leaves directly below one node of the tree, of positive weight",
               "priority trees are not changed in place without being set again"]
execute = alloc.execute


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCAlloc", []))
    rng.shuffle(gen)
    for b in gen[: 700 if tier == "quick" else 10000]:
        out.append(of_model(b["Q"], rng))
    for _ in range(1100 if tier == "quick" else 16000):
        out.append(rand(rng))
    return out


def rand(rng):
    if rng.random() < .25:
        T, n = rand_tree(rng, rng.choice([6, 8]), rng.choice([4, 5, 6]), rng.choice([0, 0, 0, .3]), rng.random() < .2,
                         rng.choice(["o", "oow", "ow"]), True)
    else:
        T, n = rand_tree(rng, rng.choice([3, 5, 7]), rng.choice([1, 1, 2, 2, 3]), rng.choice([0, 0, .4]), rng.random() < .3)
    total = rng.choice([1, -1]) * rng.choice([1, 5, 10, 30, 50, 100, 300, 1000])
    kind = rng.choice(["stub", "stub", "named", "acct"])
    groups = []
    if kind == "acct":
        accts, groups, _ = real(rng, n)
        for a in accts:             # separate contribution room
            if a["kind"] in ("RRSP", "TFSA", "Linked"):
                a.update(kind="Account", groups={})
        groups = []
    else:
        accts = [stub(rng, kind) for _ in range(n)]
        if rng.random() < .5:
            sets = []
            for d in T:
                ls = [T[k - 1]["leaf"] for k in d["kids"]]
                if len(ls) > 1 and all(ls):
                    rng.shuffle(ls)
                    k = rng.randint(2, len(ls))
                    sets.append(ls[:k])
                    if len(ls) - k > 1:
                        sets.append(ls[k:])
                    if d["k"] == "wt":
                        d["ws"] = ["1" if w == "0" else w for w in d["ws"]]
            groups = add_groups(rng, accts, sets, mins=rng.random() < .3)
    scn = {"setup": {"T": T, "accts": accts, "groups": groups, "sgn": rng.choice([1, -1]), "wrap": rng.random() < .3,
                      "avail": rand_avail(rng, total, rng.random() < .1), "total": "none", "perm": True,
                      "twice": rng.random() < .2, "txs": []}, "ops": []}
    if rng.random() < .25:
        scn["setup"]["more"] = alloc.more(rng, scn["setup"])
    return scn
