"""C03: account limits bound every generated set of transactions."""
from acct import *  # noqa: F401,F403
import acct

MODELS = [dict(module="MCAccount", cfg="MCProposal1.cfg", thorough_cfg="MCProposal.cfg", name="prop", workers=8)]
TRACE = "AccountTrace"
ASSUMPTIONS = ["rates above -100% per period", "limits are those the account reports"]


def scenarios(tier, rng, beh):
    return [rand(rng) for _ in range(4000 if tier == "quick" else 60000)]


def rand(rng, cls=None):
    s = rand_setup(rng, cls or rng.choice(["Limited"] * 4 + ["Account", "Account", "Debt"]))
    ops = []
    for _ in range(rng.randrange(5, 14)):
        k = rng.random()
        if rng.random() < .03:
            ops.append(rand_change(rng))
        elif k < .25:
            ops.append({"op": "add", "t": rng.choice(TIMES), "v": rng.choice(VALUES)})
        elif k < .75:
            ops.append(rand_prop(rng))
        elif k < .83:
            ops.append({"op": "tobal", "target": rng.choice(["0", "100", "-50", "2000"]), "w": rand_weights(rng),
                        "maxt": rng.choice(["none", "none", "30", "0", "-10"]),
                        "mint": rng.choice(["none", "none", "-30", "0", "-100"]),
                        "extra": rand_sched(rng) if rng.random() < .3 else None, "as_timing": rng.random() < .5})
        elif k < .9:
            ops.append({"op": "oneoff", "t": rng.choice(TIMES)})
        elif k < .93 and s["cls"] in ("Limited", "Debt"):
            ops.append({"op": "setlims", "lims": (rand_debt_lims if s["cls"] == "Debt" else rand_lims)(rng)})
        else:
            ops.append({"op": "next"})
    if rng.random() < .3:
        ops = rand_again(rng, ops, s["cls"])
    s["ops"] = ops + [rand_prop(rng), {"op": "txs"}]
    return s
