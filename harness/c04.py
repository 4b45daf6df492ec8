"""C04: debts are never overpaid nor a source of cash."""
from acct import *  # noqa: F401,F403
import acct
import c03

MODELS = [dict(module="MCDebt", cfg="MCDebt.cfg", thorough_cfg="MCDebtT.cfg")]
TRACE = "AccountTrace"
ASSUMPTIONS = ["rates above -100% per period"]


def scenarios(tier, rng, beh):
    out = []
    gen = list(beh.get("MCDebt", []))
    rng.shuffle(gen)
    for b in gen[: 2500 if tier == "quick" else 30000]:
        ops = []
        for o in b["ops"]:
            ops.append(o)
            for kind in ("max_in", "min_in", "max_out"):
                ops.append({"op": "prop", "kind": kind, "w": None, "tl": "none", "bl": "none", "extra": None})
        out.append({"setup": {"first": 2000, "open": b["open"], "rates": b["rates"], "nper": "1", "given": {},
                              "kind": "debt", "dw": {"1/2": "1"}, "lims": b["lims"]},
                    "cls": "Debt", "nper": 1, "ops": ops})
    for _ in range(2500 if tier == "quick" else 40000):
        out.append(c03.rand(rng, "Debt"))
    return out
