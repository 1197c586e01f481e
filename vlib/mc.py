"""Exhaustive exploration of the specification over small universes, and replay of what it found."""
import json, os, re

from .gen import *
from .build import InfraError


def universe(name, big=False):
    """Requests over which all reachable states are explored."""
    T = {"f": "text", "s": "_this"}

    def pol(pid, a="_this", b="_this", restr=None):
        return struct(policy(pid, [resource("u"), resource("d", [relation("a", {"f": "text", "s": a}, restr), relation("b", {"f": "text", "s": b})])]))

    A, B = S("d", "1", "a"), S("d", "1", "b")
    A2, B2 = S("d", "2", "a"), S("d", "2", "b")
    U, V = E("u", "x"), E("u", "y")
    if name == "graph":         # all graphs of six possible edges under five policies
        es = [(A, U), (B, U), (A, B), (B, A2), (A2, B), (A2, W("u"))]
        muts = [create(pol("p", "_this + b")), update(pol("p", "_this & b")), update(pol("p", "_this - b")), update(pol("p", "b->a + _this", "_this")),
                update(pol("p", "b", "_this + a"))]
        muts += [setrel("p", *e) for e in es]
        reads = [matrix("p", [(n, x) for n in (A, B, A2, B2) for x in (U, V)]), find("p")]
        checks = [check("p", n, x) for n in (A, B, A2, B2) for x in (U, V)]
        if big:
            es += [(B, W("u")), (B2, A), (A2, A2), (B, E("d", "2"))]
            muts += [setrel("p", *e) for e in es[6:]] + [update(pol("p", "(_this - b) + b->b", "_this & a"))]
        return muts, reads, checks, 12
    if name == "cycle":         # policies which refer to each other, and relationships which do
        es = [(A, B), (B, A), (A, A), (A2, A), (B, A2), (A2, U), (B, U)]
        muts = [create(pol("p", "_this + b", "_this + a")), update(pol("p", "_this & b", "_this + a")), update(pol("p", "_this + (a & b)", "_this")),
                update(pol("p", "a->a + _this", "_this + b"))]
        if big:
            es += [(A, E("d", "2")), (A2, E("d", "1")), (B2, B)]
            muts += [update(pol("p", "_this - b", "_this")), update(pol("p", "b->a & _this", "_this + b->b"))]
        muts += [setrel("p", *e) for e in es]
        reads = [matrix("p", [(n, x) for n in (A, B, A2, B2) for x in (U, V)])]
        return muts, reads, [check("p", n, U) for n in (A, B, A2, B2)], 12
    if name == "life":
        muts = [create(pol("p"), "01"), create(pol("p/"), "02"), create(pol("p", "b")), update(pol("p", "_this + b"), "03"), delpol("p"), delpol("p/"),
                setrel("p", A, U, "aa"), setrel("p/", A, U, "bb"), setrel("p", A, B, "cc"), delrel("p", A, U), delrel("p/", A, U), delrels("p"),
                create(struct(policy("p", [resource("u"), resource("u")])))]
        reads = [listpol(), getpol("p"), getpol("p/"), find("p"), find("p/"), getrel("p", A, U), getrel("p/", A, U), matrix("p", [(A, U), (B, U)]),
                 dump("p/")]
        return muts, reads, [check("p", A, U), check("p/", A, U)], 9
    if name == "rels":
        es = [(A, U), (A, W("u")), (A, B), (A2, U), (B, U)]
        sels = [ANY, dict(ANY, o=["res", "d"]), dict(ANY, o=["obj", "d", "1"]), dict(ANY, r=["name", "a"]), dict(ANY, s=["res", "u"]),
                dict(ANY, s=["subj", U]), dict(ANY, s=["subj", W("u")]), dict(ANY, s=["subj", B]), {"o": ["obj", "d", "1"], "r": ["name", "a"], "s": ["res", "u"]},
                dict(ANY, r=["name", "zz"]), dict(ANY, o=["x"])]
        muts = [create(pol("p"))] + [setrel("p", *e, "0%d" % k) for k, e in enumerate(es)] + [delrel("p", *e) for e in es[:3]] + \
            [delrels("p", x) for x in sels] + [setrel("p", A, E("zz", "1")), setrel("p", S("d", "1", "zz"), U)]
        reads = [find("p", x) for x in sels] + [getrel("p", *e) for e in es[:3]] + [matrix("p", [(A, U), (A, V), (B, U), (A2, U), (A2, V)]), dump("p")]
        if big:
            es += [(B2, W("d")), (A, S("d", "2", "a")), (S("d", "1/", "a"), E("u", "/x"))]
            muts += [setrel("p", *e, "0%d" % k) for k, e in enumerate(es[5:])]
        return muts, reads, [], 10
    if name == "admit":
        rs = [{"f": "universal"}, {"f": "none"}, {"f": "set", "es": []}, {"f": "set", "es": [["e", "u"]]}, {"f": "set", "es": [["s", "d", "b"]]},
              {"f": "set", "es": [["s", "d", "a"], ["e", "d"]]}, {"f": "set", "es": [["e", "zz"]]}, {"f": "set", "es": [["s", "d", "zz"]]}, {"f": "unset"}]
        subs = [U, W("u"), E("d", "1"), W("d"), A2, B2, S("d", "2", "zz"), S("u", "x", "a"), E("zz", "1"), W("zz"), E("u", ""), ["x"]]
        muts = [create(pol("p", restr=rs[1]))] + [update(pol("p", restr=x)) for x in rs] + [setrel("p", A, x) for x in subs] + \
            [setrel("p", S("zz", "1", "a"), U), setrel("p", S("d", "", "a"), U), setrel("p", S("d", "1", ""), U), delrels("p")]
        reads = [find("p"), getpol("p")]
        return muts, reads, [], 6 if big else 4
    if name == "define":
        def d(*rels, pid="p", res=("u", "d"), extra=()):
            return struct(policy(pid, [resource(r, rels if r == "d" else []) for r in res] + list(extra)))

        def R(n, e="_this", restr=None):
            return relation(n, {"f": "text", "s": e}, restr)

        def X(t):
            return relation("a", {"f": "tree", "tree": t})
        bad = {"k": "x"}
        defs = [d(R("a")), d(R("a"), R("a")), d(R("a"), R("b"), R("a", "b")), d(R("")), d(R("a", "")), d(R("a", "zz")), d(R("a", "zz->a")), d(R("a", "a->zz")),
                d(R("a", "_this - zz")), d(R("a", "a + (a & zz)")), d(R("a", "(a")), d(R("a"), pid=""), d(R("a"), res=("d", "d")), d(R("a"), res=("", "d")),
                d(R("a"), res=("d",)), d(res=()), d(R("a", restr={"f": "unset"})), d(R("a", restr={"f": "none"})), d(R("a", restr={"f": "set", "es": []})),
                d(R("a", restr={"f": "set", "es": [["e", "u"], ["x"]]})), d(R("a", restr={"f": "set", "es": [["e", "u"], ["e", "zz"]]})),
                d(R("a", restr={"f": "set", "es": [["s", "d", "a"], ["s", "d", "b"]]})), d(R("a", restr={"f": "set", "es": [["s", "u", "a"]]})),
                d(R("a", restr={"f": "set", "es": [["s", "d", "a"], ["e", "d"], ["e", "u"]]})), d(X(THIS)), d(X(bad)), d(X(op("+", THIS, bad))), d(X(op("&", bad, THIS))),
                d(X(op("?", THIS, THIS))), d(X(cu("zz"))), d(X(ttu("a", "zz"))), d(X(ttu("zz", "a"))), d(X(op("-", THIS, cu("zz")))),
                d(R("a"), extra=[resource("e", [R("b"), R("c", "b")])]), d(R("a"), extra=[resource("e", [R("b"), R("c", "a")])]),
                d(R("a"), extra=[resource("e", [R("b"), R("c", "b->zz + zz")])]), d(R("b")), {"f": "none"}]
        muts = [c(x, "0%d" % k) for k, c in enumerate((create, update)) for x in defs] + [delpol("p"), setrel("p", A, U)]
        reads = [listpol(), getpol("p"), find("p")]
        return muts, reads, [], 4 if big else 3
    if name == "faults":        # two policies with relationships, and every request which changes something
        p, q = pol("p"), pol("p1")
        muts = [create(p, "01"), create(q, "02"), update(pol("p", "_this + b"), "03"), delpol("p"), setrel("p", A, U, "aa"), setrel("p", A, B, "bb"),
                setrel("p1", A, U, "cc"), setrel("p", B, U, "dd"), delrel("p", A, U), delrels("p"), delrels("p", dict(ANY, r=["name", "a"]))]
        reads = [getpol("p"), find("p"), matrix("p", [(A, U), (B, U), (A, V)]), getrel("p", A, U), getrel("p", A, B), dump("p"),
                 getpol("p1"), find("p1"), matrix("p1", [(A, U)]), listpol()]
        return muts, reads, [check("p", A, U), check("p1", A, U)], 9
    raise KeyError(name)


def explore(run, name, big=False):
    """Explores a universe with TLC. Returns the requests leading to each of its states, and the universe."""
    muts, reads, checks, d = universe(name, big)
    strs = run.harness("texts", [script("x", muts + reads + checks)])["strs"]
    f = run.path("reqs.json")
    json.dump({"strs": strs, "muts": muts, "reads": [q for q in reads + checks if q["op"] != "CheckMatrix"], "depth": d}, open(f, "w"))
    out = run.model("MCZanzi.tla", "MCZanzi.cfg", "universe %s, %d changing requests, depth %d" % (name, len(muts), d), env={"REQS": f}, timeout=2400)
    os.remove(f)
    states = []
    for m in re.finditer(r'<<"PATH", <<([0-9, \n]*)>>>>', out):
        states.append([muts[int(x) - 1] for x in m.group(1).split(",")] if m.group(1).strip() else [])
    if len(states) != run.cov["mc"][-1]["states"]:
        raise InfraError("TLC printed %d of %d states" % (len(states), run.cov["mc"][-1]["states"]))
    return states, muts, reads


def transitions(run, name, big=False, reads=None, limit=None, g=None):
    """Scripts which together take every transition of a universe and observe the state after it."""
    states, muts, rs = explore(run, name, big)
    rs = reads or rs
    out = [script("mc-" + name, base + rs) for base in states]
    out += [script("mc-" + name, base + [q] + rs) for base in states for q in muts]
    run.cov["mc"][-1]["replayed"] = len(out)
    if limit and len(out) > limit:
        out = g.sample(out, limit)
        run.cov["mc"][-1]["replayed"] = limit
    return out


def pictures(run, name, big, g, limit, reads=None):
    """Scripts which ask for documents in the states of a universe."""
    states, muts, _ = explore(run, name, big)
    nodes = [S("d", i, a) for i in "12" for a in "ab"]
    out = []
    for base in states:
        rs = reads or [explain("p", n, u, f) for n in nodes for u in (E("u", "x"), E("u", "y")) for f in ("json", "dot")] + \
            [expand("p", n, f) for n in nodes for f in ("json", "dot")]
        out.append(script("doc-" + name, base + rs))
    run.cov["mc"][-1]["replayed"] = min(limit, len(out))
    return g.sample(out, limit) if len(out) > limit else out


def faults(run, g, limit):
    """Every request in every state of a universe, failing at each of its storage operations."""
    states, muts, reads = explore(run, "faults")
    out = []
    p = muts[0]
    for base in states:
        for q in muts:
            for kind, scope, stick in (("crash", "write", False), ("err", "any", False), ("err", "write", True)):
                steps = base + [q] + ([reopen()] if kind == "crash" else []) + reads
                steps = steps + g.choice([[q] + reads, [delrels("p")] + reads, [delpol("p"), p] + reads])
                out.append(script("fault-mc", steps, sweep={"step": len(base), "kind": kind, "scope": scope, "stick": stick, "max": 60}))
    run.cov["mc"][-1]["replayed"] = min(limit, len(out))
    return g.sample(out, limit) if len(out) > limit else out


def restarts(run, g, limit):
    out = []
    for name in ("life", "rels", "graph"):
        states, muts, reads = explore(run, name)
        for base in states:
            for b in ("ord", "mem", "leveldb"):
                q = g.choice(muts)
                out.append(script("restart-" + name, base + [reopen()] + reads + [q, reopen()] + reads, backend=b))
            out.append(script("backend-" + name, base + [q] + reads, backend="default"))
        run.cov["mc"][-1]["replayed"] = "a sample"
    return g.sample(out, limit) if len(out) > limit else out


def remote(run, g, limit):
    out = []
    for name in ("life", "rels"):
        states, muts, reads = explore(run, name)
        for base in states:
            for q in muts:
                vs = ["grpc", "grpc2", "direct"]
                out.append(script("net-" + name, [dict(x, via=g.choice(vs)) for x in base] + [dict(q, via=g.choice(vs[:2]))] +
                                  [dict(x, via=g.choice(vs)) for x in reads]))
        run.cov["mc"][-1]["replayed"] = "a sample"
    return g.sample(out, limit) if len(out) > limit else out


def words(run, n, g, limit):
    """All sequences of up to n words which are sentences, or can become one, or whose last word ruins them."""
    out = run.model("MCExpr.tla", "MCExpr.cfg", "sequences of %d words" % n, env={"WORDS": str(n)}, timeout=2400)
    good, bad = [], []
    for m in re.finditer(r'<<"WORDS", (TRUE|FALSE), <<([^<>]*(?:->[^<>]*)*)>>>>', out):
        ws = re.findall(r'"([^"]*)"', m.group(2))
        (good if m.group(1) == "TRUE" else bad).append(ws)
    if len(good) + len(bad) != run.cov["mc"][-1]["states"]:
        raise InfraError("TLC printed %d of %d states" % (len(good) + len(bad), run.cov["mc"][-1]["states"]))
    if len(bad) > limit:
        bad = g.sample(bad, limit)
    if len(good) > limit:
        good = g.sample(good, limit)
    run.cov["mc"][-1]["replayed"] = len(good) + len(bad)
    from .suites import text_scripts, table_scripts, spell
    return text_scripts(g, "word", [spell(g, w) for w in bad], 60) + table_scripts("sentence", [spell(g, w) for w in good])


def store(run):
    """The algorithm on the key-value store refines the service, and would not if it were less careful."""
    size = {} if run.quick else {"Calls = 4": "Calls = 6", "Faults = 1": "Faults = 2"}
    run.variant("ZanziKV.tla", "ZanziKV.cfg", size, "requests as operations of a store, with failures and crashes", timeout=2400)
    for a, e in (("Locked", ["Refines", "Settled"]), ("SafeOrder", ["Listed", "Refines"]), ("PolicyLast", ["Owned", "Refines"])):
        run.variant("ZanziKV.tla", "ZanziKV.cfg", {a + " = TRUE": a + " = FALSE"}, "without " + a, expect=e)
