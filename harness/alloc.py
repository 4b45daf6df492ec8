"""Builds priority trees over accounts and runs TransactionTraversal on them (C13, C14)."""
import lib
from lib import attempt, enc, dec
lib.setup_path()
from forecaster.strategy.transaction import TransactionTraversal, TransactionNode  # noqa: E402
from forecaster.accounts import Account, Debt, LimitTuple  # noqa: E402
from forecaster.accounts.linked_limit import LinkedLimitAccount  # noqa: E402
from forecaster.canada.accounts import RRSP, TFSA  # noqa: E402
from forecaster.person import Person  # noqa: E402
from acct import Limited  # noqa: E402

FIELDS = ("min_inflow", "max_inflow", "min_outflow", "max_outflow")


class Link:
    """ A stand-in for a link: it only needs a group. """
    def __init__(self):
        self.group = set()


def split(timing, total):
    """ An amount over the times of `timing`, by weight. """
    w = {t: abs(v) for t, v in timing.items()}
    s = sum(w.values())
    if not s:
        return {dec("1/2"): total}
    if total in (float("inf"), float("-inf")):
        return {t: total for t in w if w[t]}
    return {t: total * (x / s) for t, x in w.items()}


class Stub:
    """ Something with limits, which is all that an account need be. """
    def __init__(self, name, own):
        self.name = name
        self.own = own
        for f in FIELDS:
            setattr(self, f + "_link", None)

    def __repr__(self):
        return self.name

    def _flows(self, field, timing, limit):
        v = self.own[field]
        if limit is not None:
            v = min(v, abs(limit))
        return split(timing, v if "inflow" in field else -v)

    def min_inflows(self, timing=None, transaction_limit=None):
        return self._flows("min_inflow", timing, transaction_limit)

    def max_inflows(self, timing=None, transaction_limit=None):
        return self._flows("max_inflow", timing, transaction_limit)

    def min_outflows(self, timing=None, transaction_limit=None):
        return self._flows("min_outflow", timing, transaction_limit)

    def max_outflows(self, timing=None, transaction_limit=None):
        return self._flows("max_outflow", timing, transaction_limit)


class Linked(LinkedLimitAccount):
    """ An account all of whose limits may be shared. """


YEAR = 2000


def leaves_of(s, order):
    """ Creates the accounts, in the given order of creation. """
    S = s["setup"]
    made = {}
    groups = {}
    owner = Person(YEAR, "A", "1960-05-05", retirement_date="2030-01-01")
    other = Person(YEAR, "B", "1962-05-05", retirement_date="2030-01-01")
    for i in order:
        a = S["accts"][i - 1]
        k = a["kind"]
        own = {f: dec(a[f]) for f in FIELDS}
        if k in ("stub", "named"):
            leaf = Stub("a%d" % i, own)
            for f in FIELDS:
                g = a["groups"].get(f, 0)
                if g:
                    link = groups.setdefault((f, g), Link())
                    setattr(leaf, f + "_link", link)
                    link.group.add(leaf)
        elif k == "Limited":
            leaf = Limited(owner, balance=dec(a["balance"]))
            leaf.lims = {"max_in": enc(own["max_inflow"]), "min_in": enc(own["min_inflow"]),
                         "max_out": enc(-own["max_outflow"]), "min_out": enc(-own["min_outflow"])}
        elif k == "Linked":
            kw = {}
            for f in FIELDS:
                g = a["groups"].get(f, 0)
                if g:
                    kw[f + "_link"] = (owner, "%s%d" % (f, g))
                    v = dec(S["groups"][g - 1][f])
                    kw[f + "_limit"] = v if "inflow" in f else -v
            leaf = Linked(owner, balance=dec(a["balance"]), **kw)
        elif k == "Account":
            leaf = Account(owner, balance=dec(a["balance"]))
        elif k == "Debt":
            leaf = Debt(owner, balance=dec(a["balance"]), minimum_payment=own["min_inflow"],
                        accelerated_payment=dec(a["accel"]))
        else:
            who = owner if a["who"] == 1 else other
            leaf = {"RRSP": RRSP, "TFSA": TFSA}[k](
                who, balance=dec(a["balance"]), inflation_adjust=lambda *x: 1,
                contribution_room=dec(a["room"]))
        made[i] = leaf
    return [made[i] for i in range(1, len(S["accts"]) + 1)]


def tree_of(T, leaves, sgn, perm, wrap):
    """ A priority tree: lists, tuples, dicts and TransactionNodes. """
    shared = {}
    kids = [k for d in T for k in d["kids"]]

    def build(n, inside):
        if kids.count(n) > 1:           # one node, below several others
            if n not in shared:
                v = make(n, inside)
                shared[n] = v if isinstance(v, TransactionNode) else TransactionNode(v)
            return shared[n]
        return make(n, inside)

    def make(n, inside):
        d = T[n - 1]
        if d["k"] == "leaf":
            src = leaves[d["leaf"] - 1]
        elif d["k"] == "ord":
            src = [build(k, inside) for k in d["kids"]]
        else:
            items = [(build(k, True), dec(w)) for k, w in zip(d["kids"], d["ws"])]
            if perm:
                items.reverse()
            src = dict(items)
        lim = d["lim"]
        if lim:
            kw = {f: (dec(v) if "inflow" in f else sgn * dec(v)) for f, v in lim.items()}
            return TransactionNode(src, limits=LimitTuple(**kw))
        if inside and d["k"] == "ord" and not wrap:
            return tuple(src)
        if (inside and d["k"] != "leaf") or wrap:
            return TransactionNode(src)
        return src
    return build(1, False)


def named_methods(leaves):
    """ Trees over plain names, with the methods given to the traversal. """
    by = {l.name: l for l in leaves}
    tm = LimitTuple(*[lambda n, f=f: getattr(by[n], f + "s") for f in FIELDS])

    def group(n, f):
        link = getattr(by[n], f + "_link")
        return None if link is None else {x.name for x in link.group}
    gm = LimitTuple(*[lambda n, f=f: group(n, f) for f in FIELDS])
    return tm, gm


def sums(d):
    return abs(sum(d.values()))


def state_of(leaf):
    if isinstance(leaf, Stub):
        return repr(sorted(leaf.own.items()))
    return repr((leaf.balance, sorted(leaf.transactions.items()), leaf.max_inflows(), leaf.max_outflows(),
                 leaf.min_inflows(), leaf.min_outflows()))


def run(s, perm):
    S = s["setup"]
    order = list(range(1, len(S["accts"]) + 1))
    if perm:
        order.reverse()
    leaves = leaves_of(s, order)
    for o in S.get("txs") or []:
        leaves[o["x"] - 1].add_transaction(dec(o["v"]), dec(o["t"]))
    named = S["accts"][0]["kind"] == "named"
    keys = [l.name for l in leaves] if named else leaves
    tree = tree_of(S["T"], keys, S["sgn"], perm, S["wrap"])
    before = [state_of(l) for l in leaves]
    kw = {}
    if named:
        kw["transaction_methods"], kw["group_methods"] = named_methods(leaves)
    tr, tag = attempt(TransactionTraversal, tree, **kw)
    ev = []
    for n, c in enumerate([S] + (S.get("more") or [])):
        avail = {dec(t): dec(v) for t, v in c["avail"]}
        total = dec(c["total"]) if c["total"] != "none" else sum(avail.values())
        out = total < 0
        d = "outflow" if out else "inflow"
        avail0 = dict(avail)
        ev.append({"ev": "caps", "out": out, "total": enc(abs(total)),
                   "lo": [enc(sums(getattr(l, "min_" + d + "s")(timing=avail))) for l in leaves],
                   "hi": [enc(sums(getattr(l, "max_" + d + "s")(timing=avail))) for l in leaves]})
        if tag != "ok":
            return ev + [{"ev": "alloc", "err": tag, "got": [], "perm": perm, "extra": 0, "same": True, "times": True}]
        if n and "T" in c:
            ev[-1]["T"] = c["T"]
            new = tree_of(c["T"], keys, S["sgn"], perm, S["wrap"])
            # (Often the same list or table, with other contents)
            if type(new) is type(tree) is list:
                tree[:] = new
            elif type(new) is type(tree) is dict:
                tree.clear()
                tree.update(new)
            else:
                tree = new
            _, e = attempt(setattr, tr, "priority", tree)
            if e != "ok":
                return ev + [{"ev": "alloc", "err": e, "got": [], "perm": perm, "extra": 0, "same": True, "times": True}]
        for rep in range(2 if S.get("twice") and not perm else 1):
            a = (avail,) if c["total"] == "none" else (avail, total)
            v, t1 = attempt(tr, *a)
            v = v if t1 == "ok" else {}
            ev.append({"ev": "alloc", "err": t1, "perm": perm,
                       "got": [enc(sum(v.get(k, {}).values())) for k in keys],
                       "pure": all(x * y >= 0 for tx in v.values() for x in tx.values() for y in tx.values()),
                       "extra": len([k for k in v if k not in keys]),
                       "times": all(t in avail for tx in v.values() for t, x in tx.items() if x),
                       "same": before == [state_of(l) for l in leaves] and avail == avail0})
    return ev


def execute(s):
    ev = run(s, False)
    if s["setup"].get("perm"):
        ev += run(s, True)
    return ev


# ---------------------------------------------------------------- scenarios
NOLIM = {}


def node(k, leaf=0, kids=(), ws=(), lim=None):
    return {"k": k, "leaf": leaf, "kids": list(kids), "ws": list(ws), "lim": lim or {}}


def rand_tree(rng, nl, depth, lim, zw, kinds="ow", spine=False):
    """ A tree over accounts 1..n (n <= nl). """
    T = []
    cnt = [0]
    amounts = ["5", "10", "20", "50", "100/3"]

    def lims():
        d = {}
        if rng.random() < lim:
            if rng.random() < .7:
                d["max_inflow"] = rng.choice(amounts)
            if rng.random() < .7:
                d["max_outflow"] = rng.choice(amounts)
            if rng.random() < .25:
                d["min_inflow"] = rng.choice(["0", "3", "10"])
            if rng.random() < .25:
                d["min_outflow"] = rng.choice(["0", "3", "10"])
        return d

    def make(d):
        T.append(None)
        me = len(T)
        if cnt[0] >= nl - 1 or d == 0 or (me > 1 and not spine and rng.random() < .4):
            cnt[0] += 1
            T[me - 1] = node("leaf", cnt[0], lim=lims())
            return me
        k = rng.choice([1, 2, 2, 3, 3, 4]) if rng.random() > .04 else 0
        if spine:                       # leaves alongside one part that goes deeper
            k = rng.choice([1, 2, 2, 2, 3])
            at = rng.choice([0, k - 1, k - 1])
            kids = [make(d - 1 if i == at else 0) for i in range(k)]
        else:
            kids = [make(d - 1) for _ in range(k)]
        if rng.choice(kinds) == "o":
            T[me - 1] = node("ord", kids=kids, lim=lims())
        else:
            ws = [rng.choice(["1", "1", "2", "3", "1/2", "7/10"] + (["0"] if zw else [])) for _ in kids]
            T[me - 1] = node("wt", kids=kids, ws=ws, lim=lims())
        return me
    make(depth)
    return T, max(cnt[0], 1)


def share_node(rng, T):
    """ Hangs a node of the tree from another one too. """
    def below(n):
        return {n} | {m for k in T[n - 1]["kids"] for m in below(k)}
    n = rng.randint(2, len(T))
    ps = [p for p in range(1, len(T) + 1) if T[p - 1]["k"] != "leaf" and p not in below(n) and n not in T[p - 1]["kids"]]
    if ps:
        d = T[rng.choice(ps) - 1]
        d["kids"].append(n)
        if d["k"] == "wt":
            d["ws"].append(rng.choice(["1", "2", "1/2"]))


def rand_avail(rng, total, mixed):
    n = rng.choice([1, 1, 2, 3])
    ts = rng.sample(["0", "1/4", "1/2", "3/4", "1", "1/10"], n)
    ws = [rng.choice([1, 1, 2, 3]) for _ in ts]
    out = [[t, "%d/%d" % (total * w, sum(ws))] for t, w in zip(ts, ws)]
    if mixed:
        t = rng.choice([x for x in ["0", "1/3", "2/3", "1"] if x not in ts])
        v = abs(total) // 2 + 1
        out = out + [[t, str(-v if total > 0 else v)]]
        out[0][1] = "%d/%d" % (total * ws[0] + (v if total > 0 else -v) * sum(ws), sum(ws))
    return out


def stub(rng, kind="stub"):
    mi = rng.choice([0, 0, 0, 2, 10])
    mo = rng.choice([0, 0, 0, 2, 10])
    return {"kind": kind, "groups": {}, "min_inflow": str(mi), "min_outflow": str(mo),
            "max_inflow": rng.choice([str(mi + x) for x in (0, 5, 10, 30, 100)] + ["inf"]),
            "max_outflow": str(mo + rng.choice([0, 5, 10, 30, 100]))}


def add_groups(rng, accts, sets, mins=False):
    """ Shares limits between the accounts of each set. """
    out = []
    for g, xs in enumerate(sets, 1):
        lim = {"max_inflow": rng.choice(["5", "20", "60"]), "max_outflow": rng.choice(["5", "20", "60"]),
               "min_inflow": "0", "min_outflow": "0"}
        out.append(lim)
        shared = {f: rng.random() < .7 for f in ("max_inflow", "max_outflow") if rng.random() < .6}
        alone = {f: rng.choice(xs) for f in FIELDS}
        for f in ("max_inflow", "max_outflow"):
            m = "min" + f[3:]
            for x in xs:
                a = accts[x - 1]
                a["groups"][f] = g
                own = lib.Fraction(lim[f]) if x == alone[f] or a[f] == "inf" else min(
                    lib.Fraction(a[f]), lib.Fraction(lim[f]))
                a[f] = enc(own)
                if mins and f in shared:    # a shared minimum, which each could meet alone
                    a["groups"][m] = g
                    a[f] = lim[f]
                    a[m] = lim[m] = "3" if shared[f] else "0"
                    continue
                # what each must move does not add up to more than they may
                a[m] = enc(min(lib.Fraction(a[m]), own, lib.Fraction(lim[f]) / len(xs)))
    return out


def max_groups(accts):
    """ The number of the group of each account, by direction. """
    return {f: [a["groups"].get(f, 0) for a in accts] for f in FIELDS}


def more(rng, S):
    """ The same traversal used again: other amounts, the other direction, another tree. """
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        total = rng.choice([1, -1]) * rng.choice([1, 5, 10, 30, 50, 100, 300, 1000])
        c = {"avail": rand_avail(rng, total, rng.random() < .1), "total": "none"}
        if rng.random() < .4 and not S["groups"]:
            for _ in range(20):
                T, n = rand_tree(rng, len(S["accts"]), rng.choice([1, 2, 2, 3]), rng.choice([0, 0, .4]), rng.random() < .3)
                if n <= len(S["accts"]):
                    c["T"] = T
                    break
        elif out and "T" in out[-1]:
            c["T"] = out[-1]["T"]
        out.append(c)
    return out
