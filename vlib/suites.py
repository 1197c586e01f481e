"""Scripts per property, made of the generators in gen.py."""
import re

from .gen import *


def pid_of(x):
    if "pid" in x:
        return x["pid"]
    if "id" in x:
        return x["id"]
    d = x.get("def")
    if d:
        return d["p"]["id"] if d["f"] == "struct" else d["doc"].get("id") if d["f"] == "yaml" else None
    return None


def this_policy(pid, res, rels, **kw):
    return policy(pid, [resource(r, [relation(q, {"f": "text", "s": "_this"} if i % 2 else {"f": "tree", "tree": THIS})
                                     for i, q in enumerate(rels)]) for r in res], **kw)


# ---- C01 ----
def graph_script(g, i, w=None, **kw):
    """A random policy and relationship graph, checked at several moments."""
    w = w or World(g, wild=g.chance(.2))
    pid = "p"
    kw.setdefault("partial", g.choice([0, 0, 0, .15]))
    kw.setdefault("depth", g.choice([1, 2, 2, 3]))
    p = w.make(pid, **kw)
    steps = [create(struct(p))]
    es = w.edges(g.randint(3, 24))
    qs = w.queries(48)
    for j, (o, s) in enumerate(es):
        steps.append(setrel(pid, o, s, g.app()))
        if g.chance(.06):
            steps.append(setrel(pid, o, s, g.app()))
        if g.chance(.1):
            steps.append(matrix(pid, g.sample(qs, min(6, len(qs)))))
    steps.append(matrix(pid, qs))
    for o, s in g.sample(es, min(len(es), g.randint(0, 3))):
        steps.append(delrel(pid, o, s))
    if g.chance(.5):
        steps.append(update(struct(w.make(pid, **kw))))
    steps.append(matrix(pid, g.sample(qs, min(16, len(qs)))))
    steps.append(check("nope", *qs[0]))
    steps.append(check(pid, S(w.res[0], w.ids[0], "undefined"), qs[0][1]))
    steps.append(check(pid, S("undefined", w.ids[0], w.rels[0]), qs[0][1]))
    return script("graph%d" % i, steps)


def bit_world(g, leaves=("a", "b", "c", "d")):
    """Sixteen users, each in another combination of four relations of doc:1, directly, by group or by everyone."""
    steps = []
    for j, r in enumerate(leaves):
        for u in range(16):
            if u >> j & 1:
                if g.chance(.15):
                    steps.append(setrel("p", S("doc", "1", r), S("group", "g%d%d" % (j, u), "member")))
                    steps.append(setrel("p", S("group", "g%d%d" % (j, u), "member"), E("user", "u%d" % u)))
                else:
                    steps.append(setrel("p", S("doc", "1", r), E("user", "u%d" % u)))
        if g.chance(.05):
            steps.append(setrel("p", S("doc", "1", r), W("user")))
    return steps


def operator_script(g, i, xs=3):
    """Expressions over relations whose members are all combinations."""
    base = [relation(r, {"f": "text", "s": "_this"}) for r in "abcd"] + [relation("up", {"f": "text", "s": "_this"})]
    leaves = [cu(r) for r in "abcd"] * 2 + [ttu("up", r) for r in "abcd"] + [THIS]
    rs = []
    for k in range(xs):
        t = g.tree(g.choice([2, 3, 3, 4]), leaves, "+&-")
        rs.append(relation("x%d" % k, g.expr(t)))
        leaves = leaves + [cu("x%d" % k)]
    p = policy("p", [resource("user"), resource("group", [relation("member", {"f": "text", "s": "_this"})]), resource("doc", base + rs)])
    steps = [create(struct(p))] + bit_world(g)
    if g.chance(.8):
        steps.append(setrel("p", S("doc", "1", "up"), E("doc", "2")))
        for u in range(16):
            for r in "abcd":
                if g.chance(.3):
                    steps.append(setrel("p", S("doc", "2", r), E("user", "u%d" % u)))
    for u in g.sample(range(16), 4):
        steps.append(setrel("p", S("doc", "1", "x%d" % g.randrange(xs)), E("user", "u%d" % u)))
    steps.append(matrix("p", [(S("doc", "1", "x%d" % k), E("user", "u%d" % u)) for k in range(xs) for u in range(16)]))
    return script("op%d" % i, steps)


# ---- C02 ----
def cyclic_script(g, i):
    w = World(g)
    w.res = w.res[:1] if g.chance(.6) else w.res
    w.ids = w.ids[:g.randint(1, 3)]
    w.uids = w.uids[:2]
    ops = g.choice(["+", "+&", "++&-", "+&-", "+-"])
    p = w.make("p", depth=g.choice([1, 2, 2]), ops=ops, partial=0)
    nodes = w.nodes()
    es = []
    shape = g.randrange(4)
    if shape == 0:          # one long cycle with grants hanging off it
        ring = g.sample(nodes, len(nodes))
        es += [(ring[j], ring[(j + 1) % len(ring)]) for j in range(len(ring))]
    elif shape == 1:        # self references
        es += [(n, n) for n in nodes if g.chance(.6)]
    elif shape == 2:        # objects which are each other's tupleset
        for t in sorted(w.tuplesets):
            for a, b in w.objects():
                x = g.choice(w.objects())
                es.append((S(a, b, t), E(*x)))
    for _ in range(g.randint(3, 10)):
        es.append((g.choice(nodes), g.choice(nodes)))
    for _ in range(g.randint(1, 4)):
        n = g.choice([n for n in nodes if n[3] not in w.tuplesets] or nodes)
        es.append((n, g.choice([E(w.user, u) for u in w.uids] * 3 + [W(w.user)])))
    es = [e for j, e in enumerate(es) if e not in es[:j]]
    qs = w.queries(40)
    steps = [create(struct(p))] + [setrel("p", *e) for e in es] + [matrix("p", qs)]
    if g.chance(.4):
        # the same relationships written in another order
        steps += [delpol("p"), create(struct(p))] + [setrel("p", *e) for e in g.sample(es, len(es))] + [matrix("p", qs)]
    else:
        for e in g.sample(es, min(3, len(es))):
            steps += [delrel("p", *e), matrix("p", g.sample(qs, min(len(qs), 12)))]
    return script("cycle%d" % i, steps)


def shared_scripts(g, deep):
    out = []
    U = E("user", "u")

    def pol(*rels):
        return struct(policy("p", [resource("user"), resource("g", [relation(n, {"f": "text", "s": t}) for n, t in rels])]))

    # 2^levels paths
    for text in ("_this", "_this + other", "_this & ok", "_this - other"):
        levels = 34 if deep else 26
        steps = [create(pol(("m", text), ("other", "_this"), ("ok", "_this")))]
        for l in range(levels):
            for a in "xy":
                for b in "xy":
                    steps.append(setrel("p", S("g", a + str(l), "m"), S("g", b + str(l + 1), "m")))
                if "ok" in text:
                    steps.append(setrel("p", S("g", a + str(l), "ok"), W("user")))
        qs = [(S("g", "x0", "m"), U), (S("g", "y%d" % (levels // 2), "m"), U)]
        steps.append(matrix("p", qs))
        steps.append(setrel("p", S("g", "y%d" % (levels), "m"), U))
        if "ok" in text:
            steps.append(matrix("p", qs))
            steps.append(setrel("p", S("g", "y%d" % levels, "ok"), U))
        steps.append(matrix("p", qs))
        steps.append(setrel("p", S("g", "y%d" % (levels - 1), "m"), S("g", "x0", "m")))
        steps.append(matrix("p", qs))
        out.append(script("ladder " + text, steps))
    # the same by computed usersets
    for o in "+&-":
        n = 24
        rels = [("r%d" % k, "r%d %s r%d" % (k + 1, o, k + 1) if o != "-" else "r%d - (r%d & z)" % (k + 1, k + 1)) for k in range(n)]
        steps = [create(pol(*(rels + [("r%d" % n, "_this"), ("z", "_this")])))]
        qs = [(S("g", "1", "r0"), U), (S("g", "1", "r5"), U)]
        steps += [matrix("p", qs), setrel("p", S("g", "1", "r%d" % n), U), matrix("p", qs)]
        out.append(script("computed " + o, steps))
    # tuple to userset ladder
    n = 20
    steps = [create(pol(("up", "_this"), ("v", "_this + up->v")))]
    for l in range(n):
        for a in "xy":
            for b in "xy":
                steps.append(setrel("p", S("g", a + str(l), "up"), E("g", b + str(l + 1))))
    qs = [(S("g", "x0", "v"), U)]
    steps += [matrix("p", qs), setrel("p", S("g", "x%d" % n, "v"), U), matrix("p", qs), setrel("p", S("g", "x%d" % n, "up"), E("g", "x0")), matrix("p", qs)]
    out.append(script("tupleset ladder", steps))
    # depth
    for n in (2500, 6000) if deep else (1500,):
        chain = [(S("g", str(k), "m"), S("g", str(k + 1), "m")) for k in range(n)]
        qs = [(S("g", "0", "m"), U), (S("g", str(n // 2), "m"), U), (S("g", str(n), "m"), U)]
        steps = [create(pol(("m", "_this"))), setmany("p", g.sample(chain, n) if g.chance(.5) else chain)]
        steps += [matrix("p", qs[:1]), setrel("p", S("g", str(n), "m"), U), matrix("p", qs), delrel("p", S("g", str(n), "m"), U),
                  setrel("p", S("g", str(n), "m"), S("g", "0", "m")), matrix("p", qs[:1])]
        out.append(script("chain", steps))
        n //= 2
        qs = [(S("g", "0", "v"), U), (S("g", str(n), "v"), U), (S("g", "0", "w"), U)]
        steps = [create(pol(("up", "_this"), ("v", "_this + up->v"), ("w", "v & v"))), setmany("p", [(S("g", str(k), "up"), E("g", str(k + 1))) for k in range(n)]),
                 matrix("p", qs), setrel("p", S("g", str(n), "v"), U), matrix("p", qs)]
        out.append(script("tupleset chain", steps))
        n = min(n, 700)
        steps = [create(pol(*[("r%d" % k, "r%d" % (k + 1)) for k in range(n)] + [("r%d" % n, "_this")])),
                 matrix("p", [(S("g", "0", "r0"), U)]), setrel("p", S("g", "0", "r%d" % n), U), matrix("p", [(S("g", "0", "r0"), U), (S("g", "1", "r0"), U)])]
        out.append(script("computed chain", steps))
    # a wide node
    for n in (1500, 5000) if deep else (1500,):
        qs = [(S("g", "hub", "m"), E("user", "u%d" % k)) for k in (0, 63, 64, 127, 255, 256, 511, 999, 1000, 1023, n - 1)]
        hub = [(S("g", "hub", "m"), S("g", "%d" % k, "m")) for k in range(n)]
        leaf = [(S("g", "%d" % k, "m"), E("user", "u%d" % k)) for k in range(n)]
        steps = [create(pol(("m", "_this")))]
        steps += [setmany("p", g.sample(hub, n)), matrix("p", qs[:2]), setmany("p", leaf), matrix("p", qs), matrix("p", qs[::-1])]
        out.append(script("wide", steps))
        up = [(S("g", "hub", "up"), E("g", "%d" % k)) for k in range(n)]
        steps = [create(pol(("m", "_this"), ("up", "_this"), ("x", "up->m"))), setmany("p", up), setmany("p", leaf),
                 matrix("p", [(S("g", "hub", "x"), u) for _, u in qs] + [(S("g", "hub", "x"), U)])]
        out.append(script("wide tupleset", steps))
        users = [(S("g", "hub", "m"), E("user", "u%d" % k)) for k in range(n)]
        steps = [create(pol(("m", "_this"))), setmany("p", g.sample(users, n)), matrix("p", qs + [(S("g", "hub", "m"), U)])]
        out.append(script("wide users", steps))
    qs = [(S("g", "0", "m"), U)]
    # a deeply nested expression
    for n in ((60,) if not deep else (60, 200)):
        t = cu("z")
        for k in range(n):
            t = op("+&"[k % 2], t, THIS) if k % 3 else op("+", THIS, t)
        p = policy("p", [resource("user"), resource("g", [relation("m", g.expr(t)), relation("z", g.expr(THIS))])])
        steps = [create(struct(p)), matrix("p", qs), setrel("p", S("g", "0", "z"), U), matrix("p", qs), setrel("p", S("g", "0", "m"), U), matrix("p", qs)]
        out.append(script("nested", steps))
    return out


# ---- C03 ----
def observe(g, w, pid, qs, es, full=False):
    out = [getpol(pid), find(pid), matrix(pid, qs)]
    if full or g.chance(.3):
        out.append(dump(pid))
    if full or g.chance(.3):
        out += [getrel(pid, *g.choice(es)) for _ in range(2)]
    if full or g.chance(.25):
        o, u = g.choice(qs)
        out.append(g.choice([explain(pid, o, u, g.choice(["json", "dot"])), expand(pid, o, "json")]))
    return out


def isolation_script(g, i, pair):
    w = World(g)
    w.ids, w.rels = w.ids[:2], w.rels[:2]
    kw = dict(depth=1, ops="+", partial=0)
    ps = {pid: w.make(pid, **kw) for pid in pair}
    if g.chance(.5):
        other = copy.deepcopy(ps[pair[0]])
        other["id"] = pair[1]
        ps[pair[1]] = other
    es = w.edges(5)
    es = [e for e in es if e[1][0] != "w"] or es
    qs = w.queries(6)
    steps = [create(struct(ps[pid]), g.app()) for pid in pair]
    for pid in pair:
        for e in g.sample(es, g.randint(1, len(es))):
            steps.append(setrel(pid, *e, g.app()))
    for pid in pair:
        steps += observe(g, w, pid, qs, es, True)
    for _ in range(g.randint(4, 7)):
        a = g.choice(pair)
        b = pair[1] if a == pair[0] else pair[0]
        x = g.randrange(10)
        if x < 3:
            steps.append(setrel(a, *g.choice(es), g.app()))
        elif x < 5:
            steps.append(delrel(a, *g.choice(es)))
        elif x == 5:
            steps.append(delrels(a, g.choice([ANY, dict(ANY, o=["res", w.res[0]]), dict(ANY, s=["res", w.user])])))
        elif x < 8:
            steps.append(delpol(a))
        elif x == 8:
            steps.append(create(struct(ps[a]), g.app()))
        else:
            steps.append(update(struct(ps[a]), g.app()))
        steps += observe(g, w, b, qs, es, True) + observe(g, w, a, qs, es)
        if g.chance(.5):
            steps.append(listpol())
    steps += [delpol(pair[0])] + observe(g, w, pair[1], qs, es, True) + [delpol(pair[1]), listpol()]
    return script("pair%d" % i, steps)


def near_ids(g):
    """Two policy ids which some careless treatment takes for the same or for related ones."""
    a = g.choice(["p", "ab", "a/b", "Policy", "1", "\u00e9", "x" * 64, "x" * 256, "a.b", "a:b"])
    b = near(g, a) if g.chance(.8) else g.choice([a.replace("/", ":"), a.replace(".", "_"), a + "1/", a + "-1"])
    if a == b:
        b = a + "1"
    return [enc(x) for x in g.sample([a, b], 2)]


def project_policies(s, at):
    pids = sorted({pid_of(x) for x in s["steps"]} - {None})
    return [dict(s, steps=[x for x in s["steps"] if pid_of(x) in (None, p)]) for p in pids]


# ---- C04 ----
LONG = "x" * 300
COLLIDE_RES = [["a", "ab", "a/b"], ["doc", "do", "doc/"], ["u", "us", "*"], ["e", "s", "w"], ["A", "a", enc("å")],
               ["r:", "r", "r:x"], ["(r", "r", "r)"], [enc("a\x00"), "a", enc("a\x00b")]]
COLLIDE_IDS = [["c", "bc", "b/c", "/c"], ["1", "01", "1/", "/1"], ["*", "x", "", "**"], ["a, b", "a", "b", ", "], ["x:y", "y", "x", ":y"],
               [enc("é"), enc("é"), "e", "E"], [enc("\n"), enc("\r"), enc("\x00"), " "], [LONG, LONG + "x", LONG[:-1], "x"],
               [enc("\u00ff"), enc("\U0001f600"), enc("\ufffd"), enc("\u0100")], ["0", "1", "00", "-1"]]
COLLIDE_RELS = [["r", "cr", "c/r", "/r"], ["owner", "own", "er", "ownerx"], ["*", "r", "*r", "r*"], ["_this", "this", "_thi", "s"],
                ["r,", "r", ", r", "r)"], [enc("r\x00"), "r", enc("\x00r"), enc("r\x00r")]]


def map_script(g, i):
    res = g.choice(COLLIDE_RES)
    ids = [x for x in g.choice(COLLIDE_IDS) if x]
    rels = g.choice(COLLIDE_RELS)[:g.randint(2, 4)]
    if g.chance(.3):
        long = g.choice(["", "", "q" * 31, "q" * 127, "q" * 255, "q" * 1023])
        res, ids, rels = nears(g, "doc" + long, 3), nears(g, g.choice(["alice", "1", "a/e"]) + long, 4), nears(g, "reader" + long, 2)
    p = this_policy("p", res, rels)
    objs = [(a, b) for a in res for b in ids]
    subjects = [E(*o) for o in objs] + [S(*o, r) for o in objs for r in rels] + [W(a) for a in res]
    pool = []
    while len(pool) < 9:
        o = S(*g.choice(objs), g.choice(rels))
        for _ in range(g.randint(1, 3)):
            pool.append((o, g.choice(subjects)))
    # neighbours: the same but for one part
    for o, s in g.sample(pool, 3):
        k = g.randrange(1, 4)
        o2 = list(o)
        o2[k] = g.choice([res, ids, rels][k - 1])
        pool.append((o2, s))
        if s[0] != "w":
            pool.append((o, E(s[1], s[2]) if s[0] == "s" else S(s[1], s[2], g.choice(rels))))
    us = [E(*o) for o in g.sample(objs, min(3, len(objs)))] + [s for _, s in pool if s[0] == "e"][:3]
    steps = [create(struct(p))]
    qs = [(o, u) for o in sorted({tuple(o) for o, _ in pool}) for u in us]
    if len(qs) > 24:
        qs = g.sample(qs, 24)
    for _ in range(g.randint(10, 22)):
        o, s = g.choice(pool)
        x = g.random()
        via = {"via": "wire"} if g.chance(.2) else {"bld": True} if g.chance(.1) else {}
        if x < .6:
            steps.append(dict(setrel("p", o, s, g.app()), **via))
        elif x < .85:
            steps.append(dict(delrel("p", o, s), **via))
        else:
            steps.append(dict(getrel("p", o, s), **via))
        if g.chance(.35):
            steps.append(find("p"))
        if g.chance(.15):
            steps.append(g.choice([dump("p"), matrix("p", g.sample(qs, min(8, len(qs)))), explain("p", *g.choice(qs)), expand("p", list(qs[0][0])),
                                   getpol("p"), listpol()]))
        if g.chance(.04):
            steps.append(reopen())
    steps += [find("p"), matrix("p", qs), dump("p")] + [getrel("p", *e) for e in pool] + [find("p")]
    return script("map%d" % i, steps)


# ---- C05 ----
def admission_script(g, i):
    w = World(g, wild=g.choice([False, False, False, True, "collide"]))
    w.ids, w.uids = w.ids[:2], w.uids[:1]
    if len(w.res) == 1:
        w.res = ["doc", "group"]
    kw = dict(depth=1, ops="+", restr=entity_restr, leaves=[THIS], partial=.2)
    steps = []
    for _ in range(12):
        p = w.make("p", **kw)
        ks = {(r["name"], q["name"]) for r in p["resources"] for q in r["relations"]}
        for r in p["resources"]:
            for q in r["relations"]:
                if q["restr"]["f"] == "set":
                    q["restr"]["es"] = [e for e in q["restr"]["es"] if e[0] == "e" or (e[1], e[2]) in ks or g.chance(.02)]
        break
    steps = [create(struct(p), g.app())]
    und = ["zz", "", w.user + "x"]
    objs = [S(a, g.choice(w.ids), b) for a in w.res + [w.user, g.choice(und)] for b in w.rels + [g.choice(und)]]
    objs += [S(w.res[0], "", w.rels[0]), ["s", "", "", ""]]
    subs = [E(w.user, w.uids[0]), W(w.user)] + [E(a, w.ids[0]) for a in w.res] + [W(a) for a in w.res] + \
        [S(a, w.ids[0], b) for a in w.res for b in w.rels]
    odd = [E(g.choice(und), "x"), W(g.choice(und)), S(g.choice(und), "x", w.rels[0]), S(w.res[0], w.ids[0], g.choice(und)),
           E(w.user, ""), S(w.res[0], "", w.rels[0]), S(w.user, w.uids[0], w.rels[0]), ["x"]]
    pairs = [(o, s) for o in objs for s in subs + odd]
    g.shuffle(pairs)

    def batch(n):
        for _ in range(n):
            o, s = pairs.pop()
            st = setrel("p", o, s, g.app())
            st["v"] = g.randrange(1000000)
            if g.chance(.2):
                st["via"] = "wire"
            yield st
            if g.chance(.3):
                yield find("p")

    steps += list(batch(min(len(pairs) // 2, 30)))
    steps += [find("p"), getpol("p")]
    if g.chance(.7):
        q = copy.deepcopy(p)
        for r in q["resources"]:
            for x in r["relations"]:
                if g.chance(.6):
                    x["restr"] = g.choice([{"f": "universal"}, {"f": "none"}, {"f": "set", "es": [["e", w.user]]},
                                           {"f": "set", "es": [["s", r["name"], x["name"]]]}])
        if g.chance(.3) and len(q["resources"]) > 1:
            q["resources"].pop()
        steps.append(update(struct(q), g.app()))
        steps += list(batch(min(len(pairs), 18)))
    elif g.chance(.5):
        steps += [delpol("p")] + list(batch(3)) + [create(struct(p))] + list(batch(min(len(pairs), 8)))
    steps += [setrel("other", *g.choice([(o, s) for o in objs for s in subs])), find("p"), getpol("p")]
    return script("admit%d" % i, steps)


def large_admission(g, sizes):
    """Long restriction lists: the entry which admits a subject at every place in them."""
    out = []
    for n in sizes:
        for kind in "esx":
            names = ["t%d" % k for k in range(n)]
            entry = {"e": lambda k: ["e", names[k]], "s": lambda k: ["s", names[k], "a"], "x": lambda k: ["e", names[k]] if k % 2 else ["s", names[k], "a"]}[kind]
            order = g.sample(range(n), n)
            if n > 60 and kind != "x":
                order = order[:n - 3]
            mk = lambda es, es2: struct(policy("p", [resource(x, [relation("a", {"f": "text", "s": "_this"}),
                                                                  relation("b", {"f": "text", "s": "a"}, {"f": "set", "es": es2 if j == n // 2 else []})]) for j, x in enumerate(names)]
                                               + [resource("doc", [relation("r", g.expr(THIS), {"f": "set", "es": es}), relation("q", g.expr(THIS), {"f": "set", "es": es[:1]})])]))
            es = [entry(k) for k in order]
            steps = [create(mk(es, es[n // 2:]))]
            ks = sorted({0, 1, n // 2, n - 1, n - 2, n - 3} | set(g.sample(range(n), min(12, n))) | {x for x in (15, 16, 31, 32, 63, 64, 65, 99, 100, 127, 128, 255, 256) if x < n})

            def tries(some):
                for k in some:
                    for s in (E(names[k], "1"), S(names[k], "1", "a"), W(names[k]), S(names[k], "1", "b")):
                        yield setrel("p", S("doc", "1", g.choice("rrrq")), s, g.app())
                        if g.chance(.3):
                            yield setrel("p", S(names[n // 2], "1", "b"), s, g.app())
            steps += list(tries(ks)) + [find("p"), getpol("p")]
            steps += [update(mk(es[n // 2:], es[:n // 2]))] + list(tries(g.sample(ks, min(len(ks), 12)))) + [find("p")]
            steps += [update(mk(g.sample(es, len(es)) + es[:3], es))] + list(tries(g.sample(ks, min(len(ks), 12)))) + [find("p")]
            out.append(script("admit %d %s" % (n, kind), steps))
    return out


def large_documents(g, sizes):
    """Long YAML documents."""
    out = []
    for n in sizes:
        for k in range(3):
            m = [2, n // 2, 3][k]
            res = ["t%d" % j for j in range([n, 3, n // 2][k])]
            rels = ["a%d" % j for j in range(m)]
            rs = [resource("user")]
            for x in res:
                qs = []
                for j, q in enumerate(rels):
                    t = THIS if j == 0 else g.tree(g.choice([1, 1, 3]), [THIS, cu(g.choice(rels[:j])), ttu(rels[0], g.choice(rels[:j]))], "+&-")
                    es = [["e", "user"]] + [g.choice([["e", g.choice(res)], ["s", g.choice(res), g.choice(rels)]]) for _ in range(g.choice([0, 1, 4]))]
                    qs.append(relation(q, {"f": "text", "s": enc(g.text_of(t))}, {"f": "set", "es": es}, g.choice(["", "text %d" % j, "long text " * 30])))
                rs.append(resource(x, g.sample(qs, len(qs)), g.choice(["", "d"])))
            p = policy("p", rs, attrs=[("k%d" % j, "v%d" % j) for j in range(n)])
            some = g.sample([(a, b) for a in res for b in rels], min(14, len(res) * len(rels)))
            subs = lambda: g.choice([E("user", "u"), E(g.choice(res), "1"), S(g.choice(res), "1", g.choice(rels)), W("user")])
            steps = [create(yaml_def(g, yaml_from_policy(g, p)), "01"), getpol("p")]
            steps += [setrel("p", S(a, "1", b), E("user", "u")) for a, b in some[:8]] + [setrel("p", S(a, "1", b), subs()) for a, b in some]
            steps += [matrix("p", [(S(a, "1", b), E("user", "u")) for a, b in some]), listpol()]
            q = copy.deepcopy(p)
            gone = g.randrange(1, len(q["resources"]))
            q["resources"][gone]["relations"] = q["resources"][gone]["relations"]
            g.shuffle(q["resources"])
            steps += [update(yaml_def(g, yaml_from_policy(g, q)), "02"), getpol("p"), find("p"), matrix("p", [(S(a, "1", b), E("user", "u")) for a, b in some])]
            # the last thing said is wrong
            bad = copy.deepcopy(p)
            bad["resources"][-1]["relations"][-1]["expr"] = {"f": "text", "s": enc(g.choice(BAD_EXPRS))}
            steps += [update(yaml_def(g, yaml_from_policy(g, bad)), "03"), getpol("p")]
            bad = copy.deepcopy(p)
            bad["resources"][-1]["relations"][-1]["restr"]["es"].append(g.choice([["e", "undefined"], ["s", res[0], "undefined"]]))
            steps += [update(yaml_def(g, yaml_from_policy(g, bad)), "03"), getpol("p")]
            out.append(script("document %d %d" % (n, k), steps))
    return out


SEPS = ["/", ":", "#", ".", ",", ", ", "->", "", "_", "-", "|", "@", ";", "=", "%", "\x00", "\x1f", "::", "//", " ", "\t", "\n", "~", "\"", "\\", "/a/", "(", ")"]


def joined_scripts(g):
    """Names which become the same once they are joined by a separator, one of them defined and the other not."""
    out = []
    for n, x in enumerate(SEPS):
        a, ab, c, bc, b = "a", enc("a" + x + "b"), "c", enc("b" + x + "c"), "b"
        for k, (on, off) in enumerate([((ab, c), (a, bc)), ((a, bc), (ab, c))]):
            rel = {"name": on[1], "expr": {"f": "tree", "tree": THIS}, "restr": {"f": "universal"}, "desc": ""}
            own = {"name": "own", "expr": {"f": "tree", "tree": THIS}, "restr": {"f": "set", "es": [["s", on[0], on[1]], ["e", a]]}, "desc": ""}
            p = {"id": "p", "name": "", "desc": "", "attrs": [], "resources": [
                {"name": "u", "desc": "", "relations": []}, {"name": on[0], "desc": "", "relations": [rel]},
                {"name": off[0], "desc": "", "relations": []}, {"name": "z", "desc": "", "relations": [own]}]}
            u = E("u", "x")
            subs = [S(on[0], "i", on[1]), S(off[0], "i", off[1]), E(a, "i"), E(ab, "i"), W(a), W(ab), S(a, "i", c), S(ab, "i", bc), S(a, enc("b" + x + "i"), on[1])]
            steps = [create(struct(p), g.app())]
            steps += [setrel("p", S(*o), u) for o in ((on[0], "i", on[1]), (off[0], "i", off[1]), (a, "i", c), (ab, "i", bc), (off[0], "i", "own"))]
            steps += [setrel("p", S("z", "i", "own"), s) for s in subs] + [setrel("p", S(on[0], "i", on[1]), s) for s in subs]
            steps += [find("p"), getpol("p")]
            out.append(script("joined%d-%d" % (n, k), steps))
    return out


def joined_graphs(g, pictures=False):
    """Pairs of nodes whose names become the same once they are joined by a separator: one leads to the user, the other does not."""
    out = []
    for n, x in enumerate(SEPS):
        for k in range(3):
            a, ab, b, bc, c = "a", enc("a" + x + "b"), "b", enc("b" + x + "c"), "c"
            # joined, the parts of both are a x b x c
            on, off = [(S(ab, c, "m"), S(a, bc, "m")), (S("z", ab, c), S("z", a, bc)), (S(a, b, "m"), S(enc("a" + x + "b"), "m", "m"))][k]
            if g.chance(.5):
                on, off = off, on
            U = E("u", "x")
            res = {"u": set(), "top": {"m", "y", "w", "v"}}
            for q in (on, off):
                res.setdefault(q[1], set()).add(q[3])
            rs = []
            for r, qs in sorted(res.items()):
                rels = [relation(q, {"f": "tree", "tree": THIS}) for q in sorted(qs)]
                for q in rels:
                    if q["name"] == "y":
                        q["expr"] = {"f": "tree", "tree": op("&", cu("m"), cu("w"))}
                    elif q["name"] == "v":
                        q["expr"] = {"f": "tree", "tree": op("-", cu("m"), cu("w"))}
                rs.append(resource(r, rels))
            d = struct(policy("p", rs))
            top = [S("top", "1", q) for q in "mywv"]
            qs = [(o, U) for o in top + [on, off]]
            es = [(top[0], off), (top[0], on), (top[2], off), (on, U)]
            look = [matrix("p", qs)] if not pictures else \
                [explain("p", o, u, f) for o, u in qs for f in ("json", "dot")] + [expand("p", o, f) for o, _ in qs[:4] for f in ("json", "dot")]
            steps = [create(d)] + [setrel("p", *e) for e in g.sample(es, 4)] + look
            steps += [setrel("p", top[2], on)] + look + [delrel("p", top[2], off), delrel("p", top[0], on)] + look
            out.append(script("joined graph %d-%d" % (n, k), steps))
    return out


def twin_scripts(g, kind, long=""):
    """Pairs of names which are almost the same, in every place of a relationship: what is said about one is not said about the other."""
    out = []
    bases = [x + long for x in ("Usera", "Groupe", "Made", "Alicea", "Bobae")]
    places = [list(zip(bases, names)) for names in zip(*map(all_near, bases))]
    if not long:
        places += [[HASH_TWINS[(k + j) % len(HASH_TWINS)] for j in range(5)] for k in range(len(HASH_TWINS))]
    for n, pairs in enumerate(places):
        us, gs, ms, js, os = [[enc(a), enc(b)] if g.chance(.5) else [enc(b), enc(a)] for a, b in pairs]
        rels = [relation(m, {"f": "tree", "tree": THIS}) for m in ms] + \
            [relation("up", g.expr(THIS)), relation("v", {"f": "tree", "tree": ttu("up", ms[0])}), relation("w", {"f": "tree", "tree": op("-", cu(ms[0]), cu(ms[1]))})]
        steps = [create(struct(policy("p", [resource(u) for u in us] + [resource(x, rels) for x in gs])), "01")]
        objs = [S(a, o, m) for a in gs for o in os for m in ms]
        subs = [E(u, j) for u in us for j in js]
        top = S(gs[0], "top", ms[0])

        def look(*_):
            if kind == "check":
                return [matrix("p", [(o, s) for o in objs + [S(a, o, q) for a in gs for o in os for q in "vw"] + [top] for s in subs])]
            if kind == "explain":
                return [explain("p", o, s, f) for o, s, f in [(g.choice(objs + [top] * 8), g.choice(subs), g.choice(["json", "dot"])) for _ in range(5)]] + \
                    [expand("p", top, "json"), expand("p", g.choice(objs), "dot")]
            if kind == "dump":
                return [dump("p")]
            some = g.sample([(o, s) for o in objs for s in subs + [W(u) for u in us] + objs], 6)
            sels = [{"o": g.choice([["any"], ["obj", g.choice(gs), g.choice(os)], ["res", g.choice(gs)]]), "r": g.choice([["any"], ["name", g.choice(ms)]]),
                     "s": g.choice([["any"], ["res", g.choice(us + gs)], ["subj", g.choice(subs + objs)], ["subj", W(g.choice(us))]])} for _ in range(6)]
            return [getrel("p", *e) for e in some] + [find("p", x) for x in sels + [ANY]]

        def only(*es):
            for e in es:
                yield setrel("p", *e, g.app())
            yield from look()
            for e in g.sample(es, len(es)):
                if g.chance(.3):
                    # its twin is not there
                    yield delrel("p", *g.choice([(o, s) for o in objs for s in subs if (o, s) not in es]))
                yield delrel("p", *e)

        for u in us:
            steps += only((objs[g.randrange(8)], W(u)))
        for s in subs:
            steps += only((objs[g.randrange(8)], s))
        for o in g.sample(objs, 4):
            x = g.choice(objs)
            steps += only((top, o), (x, g.choice(subs)), (top, x) if g.chance(.3) else (g.choice(objs), g.choice(subs)))
        for _ in range(3):
            a, b = g.choice(objs), g.choice(objs)
            steps += only((S(a[1], a[2], "up"), E(b[1], b[2])), (S(gs[0], os[0], ms[0]), subs[0]), (S(gs[1], os[1], ms[g.randrange(2)]), subs[-1]))
        steps += only(*g.sample([(o, s) for o in objs for s in subs + objs + [W(us[0])]], 12))
        steps += look()
        out.append(script("twins %d" % n, steps))
    return out


# ---- C06 ----
BAD_EXPRS = ["", "+", "a b", "_this +", "(_this", "_this)", "_this ^ _this", "a->", "->a", "()", "_this->a", "a->_this", "a->b->c", "_this _this",
             "a - > b", "a->(b)", "1 +", "_this;", "a.b", "a/b", "& a"]


def defect(g, p):
    """Changes one thing; the result may or may not be well formed."""
    rs = p["resources"]
    qs = [(r, q) for r in rs for q in r["relations"]]
    r = g.choice(rs) if rs else None
    pick = g.choice(qs) if qs else None
    k = g.randrange(26)
    names = [x["name"] for x in rs]
    if k == 0:
        p["id"] = ""
    elif k == 1 and r:
        r["name"] = ""
    elif k == 2 and pick:
        pick[1]["name"] = ""
    elif k == 3 and r:
        rs.insert(g.randint(0, len(rs)), copy.deepcopy(r))
    elif k == 4 and r:
        rs.append(resource(r["name"], [], "again"))
    elif k == 5 and pick:
        pick[0]["relations"].insert(g.randint(0, len(pick[0]["relations"])), copy.deepcopy(pick[1]))
    elif k == 6 and pick:
        pick[0]["relations"].append(relation(pick[1]["name"], {"f": "text", "s": "_this"}))
    elif k == 7 and pick:
        pick[1]["expr"] = {"f": "none"}
    elif k in (8, 9) and pick:
        pick[1]["expr"] = {"f": "text", "s": enc(g.choice(BAD_EXPRS))}
    elif k in (10, 11, 12) and pick:
        # an undefined relation somewhere in the expression
        other = [q["name"] for x in rs for q in x["relations"] if q["name"] not in [y["name"] for y in pick[0]["relations"]]]
        bad = g.choice(["undefined"] * 2 + other)
        leaf = g.choice([cu(bad), ttu(bad, pick[1]["name"]), ttu(pick[1]["name"], bad)])
        t = THIS
        for _ in range(g.randint(0, 3)):
            o = g.choice("+&-")
            l2 = g.choice([THIS, cu(pick[1]["name"]), ttu(pick[1]["name"], "any")])
            t = op(o, t, l2) if g.chance(.5) else op(o, l2, t)
        t = op(g.choice("+&-"), t, leaf) if g.chance(.5) else op(g.choice("+&-"), leaf, t) if g.chance(.7) else leaf
        pick[1]["expr"] = g.expr(t)
    elif k in (13, 14) and pick:
        # an incomplete tree
        t = {"k": "x"}
        for _ in range(g.randint(0, 3)):
            t = op(g.choice("+&-"), t, THIS) if g.chance(.5) else op(g.choice("+&-"), THIS, t)
        if g.chance(.25):
            t = op("?", THIS, THIS)
        pick[1]["expr"] = {"f": "tree", "tree": t}
    elif k == 15 and pick:
        pick[1]["restr"] = {"f": "unset"}
    elif k in (16, 17, 18) and pick:
        good = [["e", n] for n in names] + [["s", a["name"], b["name"]] for a, b in qs]
        es = g.sample(good, min(len(good), g.randint(0, 3)))
        bad = g.choice([["e", "undefined"], ["e", ""], ["s", "undefined", pick[1]["name"]], ["s", pick[0]["name"], "undefined"],
                        ["s", pick[0]["name"], ""], ["s", "", ""], ["x"], ["s", g.choice(names), pick[1]["name"]]])
        es.insert(g.randint(0, len(es)), bad)
        pick[1]["restr"] = {"f": "set", "es": es}
    elif k == 19 and pick:
        pick[1]["restr"] = {"f": "none"}
    elif k == 20 and pick:
        pick[1]["restr"] = {"f": "set", "es": [["e", n] for n in names] * 2}
    elif k == 21 and r:
        rs.remove(r)          # others may refer to it
    elif k == 22 and pick:
        pick[0]["relations"].remove(pick[1])
    elif k == 23 and pick:
        pick[1]["name"] = g.choice(WILD_RELS)
    elif k == 24:
        p["resources"] = []
    elif k == 25 and pick:
        pick[1]["expr"] = g.expr(g.tree(4, [THIS, cu(pick[1]["name"]), ttu(pick[1]["name"], "whatever")], "+&-"))
    return p


def twin_policies(g, long=""):
    """Pairs of policy ids which are almost the same."""
    out = []
    base = "Policye" + long
    for n, (x, y) in enumerate([(base, y) for y in all_near(base)] + ([] if long else HASH_TWINS)):
        a, b = g.sample([enc(x), enc(y)], 2)
        steps = [listpol()]
        U, o = E("user", "1"), S("doc", "1", "a")

        def ask(x):
            qs = [getpol(x), find(x), check(x, o, U), expand(x, o), explain(x, o, U), dump(x), getrel(x, o, U), setrel(x, o, U, g.app()), delrel(x, o, U),
                  delrels(x, dict(ANY, r=["name", "a"])), update(struct(this_policy(x, ["user", "doc"], ["a"])), g.app()), matrix(x, [(o, U), (S("doc", "1", "b"), U)])]
            return g.sample(qs, len(qs))

        def fill(x, rel):
            return [create(struct(this_policy(x, ["user", "doc"], ["a", "b"])), g.app()), setrel(x, S("doc", "1", rel), U, g.app())]
        steps += fill(a, "a") + ask(b) + [listpol()] + ask(a)
        steps += fill(b, "b") + [getpol(a), getpol(b), listpol()] + ask(b) + ask(a) + fill(b, "b") + [setrel(a, o, U, "07"), setrel(b, o, U, "08")]
        steps += [find(a), find(b), delpol(a), listpol()] + ask(a) + [find(b)] + ask(b) + [delpol(b), getpol(b), listpol()]
        out.append(script("twinpol%d" % n, steps))
    return out


def repeated_exprs(g, i):
    """The same expression in several places, in some of which it may mean nothing."""
    steps = []
    names = g.sample(["a", "b", "c", "d", "e"], 4)
    pool = [t for t in [THIS, cu(names[0]), cu(names[1]), op("+", THIS, cu(names[2])), op("-", cu(names[0]), cu(names[3])), ttu(names[1], names[0]), ttu(names[2], names[3]),
                        op("&", cu(names[1]), ttu(names[0], names[1]))]]
    texts = {k: enc(g.text_of(t)) for k, t in enumerate(pool)}
    for _ in range(12):
        rs = [resource("user")]
        bad = g.choice([0, 0, .1, .3])
        for r in g.sample(["f", "g", "h", "i"], g.randint(2, 4)):
            have = g.sample(names, g.choice([1, 2, 3, 4, 4]))
            qs = []
            for q in have:
                ks = [k for k, t in enumerate(pool) if g.chance(bad) or all(x["k"] == "this" or x.get("r" if x["k"] == "cu" else "t") in have for x in rules(t))]
                k = g.choice(ks) if ks else 0
                qs.append(relation(q, {"f": "text", "s": texts[k]} if g.chance(.8) else {"f": "tree", "tree": copy.deepcopy(pool[k])}))
            rs.append(resource(r, qs))
        g.shuffle(rs)
        steps += [create(struct(policy("p", rs)), "01"), getpol("p")]
        qs = [(S(r["name"], "1", q["name"]), E("user", "1")) for r in rs for q in r["relations"]]
        steps += [setrel("p", *x) for x in qs[:2]] + [matrix("p", qs), update(struct(policy("p", rs[::-1])), ""), delpol("p")]
    return script("same%d" % i, steps)


def defect_script(g, i):
    w = World(g, wild=g.chance(.15))
    w.res = (w.res + ["r3", "r4"])[:g.randint(1, 4)]
    kw = dict(partial=.1, restr=entity_restr)
    steps = [create(struct(this_policy("other", [w.user] + w.res, w.rels)), g.app()), setrel("other", S(w.res[0], "1", w.rels[0]), E(w.user, "1"))]
    base = w.make("p", **kw)
    if g.chance(.5):
        base = this_policy("p", [w.user] + w.res, w.rels)
    if g.chance(.7):
        steps.append(create(struct(base), g.app()))
        steps.append(setrel("p", S(w.res[0], "1", w.rels[0]), E(w.user, "1"), g.app()))
    for _ in range(g.randint(4, 9)):
        p = copy.deepcopy(base) if g.chance(.7) else w.make("p", **kw)
        for _ in range(g.choice([0, 1, 1, 1, 1, 2])):
            p = defect(g, p)
        if g.chance(.3):
            g.shuffle(p["resources"])
        if g.chance(.5):
            p["id"] = g.choice(["p", "p", "q%d" % g.randrange(3)]) if p["id"] else ""
        q = g.choice([create, update])(struct(p), g.app())
        q["v"] = g.randrange(1000000)
        if g.chance(.2):
            q["via"] = "wire"
        steps += [q, getpol(p["id"] or "p"), listpol()]
        if g.chance(.4):
            steps += [find("p"), find("other")]
    steps += [find("p"), find("other"), getpol("p"), getpol("other")]
    return script("defect%d" % i, steps)


def large_defects(g, sizes, per):
    """Large definitions, and one thing wrong at some place in them."""
    out = []
    for n in sizes:
        for i in range(per):
            m = g.choice([1, 2, 3])
            if g.chance(.3):
                n, m = max(2, n // 20), max(3, n // 4)
            names = ["r%d" % k for k in range(n)]
            rels = ["a%d" % k for k in range(m)]
            base = this_policy("p", ["user"] + names, rels)
            for r in base["resources"][1:]:
                for q in r["relations"]:
                    if g.chance(.3):
                        q["expr"] = g.expr(g.tree(2, [THIS, cu(g.choice(rels)), ttu(g.choice(rels), g.choice(rels))], "+&-"))
                    if g.chance(.3):
                        q["restr"] = {"f": "set", "es": [g.choice([["e", g.choice(names)], ["s", g.choice(names), g.choice(rels)]])
                                                         for _ in range(g.choice([1, 3, 3, n]))]}
            last = base["resources"][-1]["relations"]
            t = THIS
            for _ in range(g.choice([5, 20, 60, 120])):
                l = g.choice([THIS, cu(rels[0]), ttu(rels[0], rels[-1])])
                t = op(g.choice("+&-"), t, l) if g.chance(.5) else op(g.choice("+&-"), l, t)
            last.append(relation("deep", {"f": "tree", "tree": t}))
            other = struct(this_policy("p", ["user", "doc"], ["a"]))
            steps = [create(other, "01"), setrel("p", S("doc", "1", "a"), E("user", "1")), update(struct(base), "02"), getpol("p")]
            for _ in range(4):
                d = copy.deepcopy(base)
                if g.chance(.6):
                    d = defect(g, d)
                else:
                    bad = g.choice([cu("undefined"), ttu("undefined", "a0"), ttu("a0", "undefined"), {"k": "x"}, op("?", THIS, THIS), cu("")])
                    at = d["resources"][-1]["relations"][-1]["expr"]
                    at = at["tree"]
                    while at["k"] == "op" and g.chance(.97):
                        up, side = at, g.choice("lr")
                        at = up[side] if up[side]["k"] == "op" or up["lr".replace(side, "")]["k"] != "op" else up["lr".replace(side, "")]
                    at_new = copy.deepcopy(bad)
                    at.clear()
                    at.update(at_new)
                x = g.choice([create, update, update])(struct(d), "03")
                x["v"] = g.randrange(1000000)
                if g.chance(.3):
                    x["via"] = "wire"
                steps += [x, getpol("p")]
            steps += [delpol("p"), create(struct(base), "04"), getpol("p")]
            out.append(script("big-def%d-%d" % (n, i), steps))
    return out


# ---- C07 ----
def thin(g, p):
    """A definition with less in it, for which relationships may already be stored."""
    rs = p["resources"]
    k = g.randrange(6)
    if k == 0:
        rs = []
    elif k == 1:
        rs = [dict(r, relations=[]) for r in rs]
    elif k == 2:
        rs = rs[:1]
    else:
        n = g.randrange(len(rs))
        if k == 3 and rs[n]["relations"]:
            q = g.choice(rs[n]["relations"])
            rs = rs[:n] + [dict(rs[n], relations=[x for x in rs[n]["relations"] if x is not q])] + rs[n + 1:]
        else:
            rs = rs[:n] + rs[n + 1:]
    names = {r["name"] for r in rs}
    have = {(r["name"], q["name"]) for r in rs for q in r["relations"]}
    out = []
    for r in rs:
        qs = []
        for q in r["relations"]:
            q = copy.deepcopy(q)
            if q["restr"]["f"] == "set":
                q["restr"]["es"] = [e for e in q["restr"]["es"] if e[1] in names and (e[0] == "e" or (e[1], e[-1]) in have)]
            if k > 2 and g.chance(.8):
                q["expr"] = {"f": "text", "s": "_this"}
            qs.append(q)
        out.append(dict(r, relations=qs))
    return dict(p, resources=out)


def lifecycle_script(g, i):
    w = World(g, wild=g.chance(.2))
    w.ids, w.rels = w.ids[:2], w.rels[:2]
    pids = g.sample(PIDS, 3) if g.chance(.6) else ["p", "q", "r"]
    es = w.edges(6)
    qs = w.queries(6)
    kw = dict(depth=1, partial=g.choice([0, .3]))
    steps = []
    less = g.choice([0, .2, .5])

    def some(pid):
        p = w.make(pid, **kw)
        return struct(thin(g, p) if g.chance(less) else p)
    for _ in range(g.randint(12, 24)):
        pid = g.choice(pids)
        x = g.randrange(14)
        if x < 3:
            steps.append(create(some(pid), g.app()))
        elif x < 5:
            steps.append(update(some(pid), g.app()))
            if g.chance(.3):
                steps += [getpol(pid), update(copy.deepcopy(steps[-1]["def"]), g.app()), getpol(pid)]
        elif x < 7:
            steps.append(delpol(pid))
        elif x < 12:
            steps.append(setrel(pid, *g.choice(es), g.app()))
        elif x < 13:
            steps.append(delrel(pid, *g.choice(es)))
        else:
            steps.append(delrels(pid, ANY))
        if g.chance(.1):
            steps[-1] = dict(steps[-1], via="wire")
        if g.chance(.4):
            steps.append(getpol(g.choice(pids + [pid])))
        if g.chance(.3):
            steps.append(listpol())
        if g.chance(.4):
            steps.append(find(g.choice(pids + [pid] * 2)))
        if g.chance(.1):
            steps.append(matrix(pid, qs))
        if g.chance(.03):
            steps.append(reopen())
    for pid in pids:
        steps += [getpol(pid), find(pid), delpol(pid), getpol(pid), find(pid), delpol(pid), listpol()]
        if g.chance(.5):
            steps += [create(some(pid), g.app()), find(pid), matrix(pid, qs), getpol(pid), listpol()]
    return script("life%d" % i, steps)


def part_scripts(g, count):
    """Updates which change one part of the definition."""
    out = []
    for i in range(count):
        b, c = g.sample(["b", "c", "B", "b "], 2)
        p = policy("p", [resource("user", [], g.about()),
                         resource("doc", [relation("a", g.expr(THIS), {"f": "set", "es": [["e", "user"], ["s", "doc", b]]}, "d"),
                                          relation(b, g.expr(op("+", THIS, cu("a"))), None, g.about()), relation(c, g.expr(ttu("a", b)))], "r"),
                         resource("team", [relation("a", {"f": "text", "s": "_this"}, {"f": "set", "es": [["e", "user"]]})])], "n", "t", [("k", "v"), ("a", ""), ("z", "1")])

        def parts(x, path=()):
            """Changed copies: with a part left out, emptied, repeated, moved or replaced."""
            if isinstance(x, dict):
                for k in x:
                    if k not in ("f", "k"):
                        for y in parts(x[k], path + (k,)):
                            yield dict(x, **{k: y})
                if x.get("f") in ("set", "universal"):
                    yield {"f": "universal"}
                    yield {"f": "set", "es": [["e", "user"]]}
                    yield {"f": "set", "es": []}
                if x.get("f") in ("text", "tree") and "restr" not in path:
                    yield {"f": "tree", "tree": THIS}
                    yield {"f": "text", "s": g.choice(["a", enc(" a"), "_this + a", "_this"])}
            elif isinstance(x, list):
                if path and path[-1] in ("attrs", "resources", "relations", "es"):
                    yield []
                    yield x[::-1]
                    for j in range(len(x)):
                        yield x[:j] + x[j + 1:]
                        for y in parts(x[j], path + (j,)):
                            yield x[:j] + [y] + x[j + 1:]
                elif len(path) > 1 and path[-2] == "attrs":
                    yield [x[0], x[1] + "x"]
                    yield [x[0] + "x", x[1]]
            elif isinstance(x, str) and path[-1] != "id":
                yield ""
                yield x + "x"
                yield enc(dec(x).upper()) if enc(dec(x).upper()) != x else x + " "

        all_ = [dict(q, attrs=sorted(q["attrs"])) for q in parts(p)]
        g.shuffle(all_)
        steps = [create(struct(p), "01"), setrel("p", S("doc", "1", "a"), E("user", "u"), "02"), setrel("p", S("team", "1", "a"), E("user", "u"))]
        qs = [(S("doc", "1", x), E("user", "u")) for x in ("a", b, c)] + [(S("team", "1", "a"), E("user", "u"))]
        for q in all_[:g.choice([30, 60])]:
            steps += [update(struct(q), g.app()), getpol("p")]
            if g.chance(.2):
                steps += [matrix("p", qs), find("p")]
            if g.chance(.05):
                steps += [reopen(), getpol("p"), listpol()]
            if g.chance(.1):
                steps += [delpol("p"), create(struct(p), g.app()), find("p"), matrix("p", qs), setrel("p", S("doc", "1", "a"), E("user", "u"), "02"),
                          setrel("p", S("team", "1", "a"), E("user", "u"))]
            elif g.chance(.7):
                steps += [update(struct(p), g.app()), getpol("p")]
        out.append(script("part%d" % i, steps + [find("p"), matrix("p", qs), listpol()]))
    return out


# ---- C08 ----
def selector_script(g, i):
    w = World(g, wild=g.choice([False, False, True, "collide"]))
    w.ids = w.ids[:3]
    if len(w.res) == 1:
        w.res = ["doc", "group"]
    res = [w.user] + w.res
    p = this_policy("p", res, w.rels)
    if g.chance(.6):
        # not every relation on every resource
        for r in p["resources"]:
            r["relations"] = [q for q in r["relations"] if g.chance(.7)]
        keep = g.choice([r for r in p["resources"] if r["name"] in w.res])
        keep["relations"] = keep["relations"] or [relation(w.rels[0], {"f": "tree", "tree": THIS})]
        g.shuffle(p["resources"])
    known = [(r["name"], q["name"]) for r in p["resources"] for q in r["relations"]]
    es = []
    for _ in range(g.randint(6, 14)):
        def node():
            if known and not g.chance(.05):
                a, b = g.choice(known)
                return S(a, g.choice(w.ids), b)
            return S(g.choice(w.res), g.choice(w.ids), g.choice(w.rels))
        o = node()
        s = g.choice([E(g.choice(res), g.choice(w.ids + w.uids)), W(g.choice(res)), node()])
        if (o, s) not in es:
            es.append((o, s))
    other = g.chance(.3)
    steps = [create(struct(p))] + [setrel("p", *e, g.app()) for e in es]
    if other:
        q = copy.deepcopy(p)
        q["id"] = "p2"
        steps += [create(struct(q))] + [setrel("p2", *e, g.app()) for e in g.sample(es, len(es) // 2)]

    def sel(wrong=0.08):
        k = g.random()
        if k < .3:
            o = ["any"]
        elif k < .6:
            o = ["res", g.choice(res)]
        else:
            o = ["obj", g.choice(res), g.choice(w.ids + w.ids + w.uids)]
        if g.chance(.35) and es:
            o = ["obj"] + g.choice(es)[0][1:3]
        r = ["any"] if g.chance(.45) else ["name", g.choice(w.rels)]
        k = g.random()
        if k < .3:
            s = ["any"]
        elif k < .55:
            s = ["res", g.choice(res)]
        else:
            s = ["subj", g.choice(es)[1] if g.chance(.6) else
                 g.choice([E(g.choice(res), g.choice(w.ids + w.uids)), W(g.choice(res)), S(g.choice(w.res), g.choice(w.ids), g.choice(w.rels))])]
        if g.chance(wrong):
            z = g.randrange(6)
            bad = g.choice(["undefined", "undefined", ""])
            if z == 0:
                o = ["res", bad]
            elif z == 1:
                o = ["obj", bad, "1"]
            elif z == 2:
                r = ["name", bad]
            elif z == 3:
                s = ["res", bad]
            elif z == 4:
                s = ["subj", g.choice([E(bad, "1"), W(bad), S(bad, "1", w.rels[0]), S(w.res[0], "1", bad)])]
            else:
                k = g.choice("ors")
                o, r, s = (["x"] if k == "o" else o), (["x"] if k == "r" else r), (["x"] if k == "s" else s)
        return {"o": o, "r": r, "s": s}

    def way(x):
        k = g.random()
        if k < .3:
            x["via"] = "wire"
        elif k < .5:
            x["bld"] = True
        return x

    for _ in range(g.randint(8, 16)):
        steps.append(way(find("p", sel())))
    for _ in range(g.randint(2, 4)):
        x = sel(.12)
        if g.chance(.5):
            steps.append(way(find("p", x)))
        steps += [way(delrels("p", x)), find("p")]
        if other:
            steps.append(find("p2"))
        if g.chance(.4):
            steps.append(setrel("p", *g.choice(es), g.app()))
    steps += [getrel("p", *e) for e in g.sample(es, min(4, len(es)))]
    steps += [find("q"), delrels("q"), delrels("p"), find("p")]
    return script("sel%d" % i, steps)


# ---- many relationships ----
def large_script(g, i, n, tail):
    """tail: which observations and deletions follow"""
    p = this_policy("p", ["u", "d", "e"], ["a", "b"])
    p["resources"][1]["relations"][1]["expr"] = {"f": "text", "s": "_this + a"}
    q = copy.deepcopy(p)
    q["id"] = "p2"
    hub = S("d", "hub", "a")
    es = []
    for k in range(n):
        z = g.randrange(10)
        o = hub if z < 6 else S("d", "o%d" % (k % 40), "b") if z < 9 else S("e", "o%d" % k, "a")
        s = E("u", "u%d" % k) if z < 7 else S("e", "o%d" % k, "a") if z < 9 else W("u") if k % 7 == 0 else E("d", "x%d" % k)
        es.append((o, s))
    users = [s for o, s in es if o == hub and s[0] == "e"]
    qs = [(hub, x) for x in users[:2] + users[-2:] + [E("u", "nobody")]] + [(S("d", "hub", "b"), users[len(users) // 2]), (S("d", "o1", "b"), users[0])]
    steps = [create(struct(p)), create(struct(q)), setrel("p2", *es[0], "01"), setmany("p", es[:n // 2], "aa"), setmany("p", es[n // 3:], "bb")]
    sels = [dict(ANY, o=["obj", "d", "hub"]), dict(ANY, r=["name", "b"]), dict(ANY, s=["res", "u"]), dict(ANY, o=["res", "e"]), dict(ANY, s=["subj", es[-1][1]])]
    look = [find("p"), find("p2"), matrix("p", qs)] + [getrel("p", *e) for e in (es[0], es[n // 2], es[-1])]
    if tail == "find":
        steps += [find("p", x) for x in sels] + [find("p"), delrels("p", g.choice(sels)), find("p"), delrels("p"), find("p"), find("p2")]
    elif tail == "map":
        steps += look + [delrel("p", *e) for e in (es[1], es[-1])] + [find("p"), reopen(), find("p"), dump("p"), delrels("p"), find("p"), find("p2")]
    elif tail == "life":
        steps += [find("p"), delpol("p"), create(struct(p)), find("p"), matrix("p", qs), find("p2"), delpol("p"), listpol()]
    elif tail == "check":
        steps += [matrix("p", qs)]
    elif tail == "dump":
        steps += [dump("p"), delrels("p", g.choice(sels)), dump("p"), dump("p2")]
    elif tail == "restart":
        steps += look + [reopen()] + look + [delpol("p"), reopen(), find("p2"), create(struct(p)), find("p")]
    return script("large%d" % i, steps)


def big_scripts(g, via=(), restarts=False):
    """Data, texts and answers which are large."""
    out = []
    way = lambda x: dict(x, via=g.choice(via)) if via else x
    for n in (1 << 10, 4 << 10, 64 << 10, (64 << 10) + 1, 300 << 10, 1 << 20):
        big = lambda: "big:%d:%d" % (n, g.randrange(1000))
        p = this_policy("p", ["u", "d"], ["a", "b"])
        e, f = (S("d", "1", "a"), E("u", "1")), (S("d", "2", "b"), S("d", "1", "a"))
        look = [getpol("p"), getrel("p", *e), find("p"), matrix("p", [(f[0], e[1])]), listpol()]
        steps = [create(struct(p), big()), setrel("p", *e, big()), setrel("p", *f, "01")] + look + ([reopen()] + look if restarts else [])
        steps += [update(struct(p), big()), setrel("p", *e, big()), getpol("p"), find("p"), update(struct(p), "02"), setrel("p", *e, ""), getpol("p")] + look
        steps += [delrel("p", *e), delpol("p"), getpol("p"), create(struct(p), big()), getpol("p"), find("p")]
        out.append(script("big%d" % n, [way(x) if x["op"] != "Reopen" else x for x in steps]))
    for n in (300, 5000, 70000, 300000):
        p = this_policy("p", ["u", "d"], ["a", "b"], desc="d" * n)
        p["resources"][1]["desc"] = "e" * n
        p["resources"][1]["relations"][0]["expr"] = {"f": "text", "s": "_this" + " " * (n // 100) + "+" + " + ".join(["b"] * (n // 1000 + 1))}
        e = (S("d", "o" * n, "b"), E("u", "v" * n))
        look = [getpol("p"), getrel("p", *e), find("p", dict(ANY, r=["name", "b"])), matrix("p", [(S("d", "o" * n, "a"), e[1]), (S("d", "o" * (n - 1), "a"), e[1])])]
        steps = [create(struct(p), "01"), setrel("p", *e, "02")] + look + ([reopen()] + look if restarts else []) + [delrel("p", *e), find("p")]
        out.append(script("long%d" % n, [way(x) if x["op"] != "Reopen" else x for x in steps]))
    # an answer with many records
    p = this_policy("p", ["u", "d"], ["a", "b"])
    es = [(S("d", "o%d" % k, "a"), E("u", "u%d" % k)) for k in range(800)]
    steps = [create(struct(p)), setmany("p", es, "big:2000:1"), find("p"), find("p", dict(ANY, o=["obj", "d", "o7"])), dump("p"), delrels("p"), find("p")]
    out.append(script("many big", [way(x) if x["op"] != "SetMany" else x for x in steps]))
    return out


def poll_script(g, i, via=()):
    """The same few questions after every change, by whatever way."""
    w = World(g, wild=g.chance(.2))
    w.ids, w.rels = w.ids[:2], w.rels[:3]
    p = w.make("p", depth=1, partial=0)
    es = w.edges(5)
    qs = w.queries(4)
    steps = [create(struct(p), "01")]
    ask = [check("p", *qs[0]), matrix("p", qs), getrel("p", *es[0]), find("p"), find("p", dict(ANY, o=["res", w.res[0]])), getpol("p"), listpol(),
           explain("p", *qs[0]), expand("p", qs[0][0]), dump("p"), getrel("p", *es[1])]
    ask = g.sample(ask, g.randint(3, 6))
    for _ in range(g.randint(8, 14)):
        steps += g.sample(ask, len(ask)) if g.chance(.2) else ask
        x = g.randrange(16)
        e = g.choice(es[:3])
        if x < 7:
            steps.append(setrel("p", *e, g.app()))
        elif x < 10:
            steps.append(delrel("p", *e))
        elif x < 11:
            steps.append(delrels("p", g.choice([ANY, dict(ANY, o=["obj"] + e[0][1:3])])))
        elif x < 12:
            steps.append(update(struct(p), g.app()))
        elif x < 13:
            p = w.make("p", depth=1, partial=0)
            steps.append(update(struct(p), g.app()))
        elif x < 15:
            steps += [delpol("p")] + ask + [create(struct(p), g.app())]
        else:
            steps.append(create(struct(dict(p, id="q%d" % g.randrange(3)))))
    steps += ask
    if via:
        main = g.choice(via)
        steps = [dict(x, via=g.choice(via + (main, main))) if x in ask else dict(x, via=g.choice(via)) for x in steps]
    return script("poll%d" % i, steps)


def long_script(g, i, n, via=()):
    """One service which lives long: many distinct questions, changes and names."""
    w = World(g)
    w.ids = ["o%d" % k for k in range(14)]
    w.uids = ["u%d" % k for k in range(9)]
    pids = ["p", "q", "p1"]
    pols = {pid: w.make(pid, depth=2, partial=0) for pid in pids}
    steps = [create(struct(p), g.app()) for p in pols.values()]
    es, qs = w.edges(90), w.queries(160)
    live = {pid: [] for pid in pids}
    while len(steps) < n:
        pid = g.choice(pids)
        x = g.randrange(60)
        if x < 18:
            e = g.choice(es)
            live[pid].append(e)
            steps.append(setrel(pid, *e, g.app()))
        elif x < 27:
            e = g.choice(live[pid] or es)
            steps.append(delrel(pid, *e))
        elif x < 35:
            steps.append(getrel(pid, *g.choice(es)))
        elif x < 48:
            steps.append(check(pid, *g.choice(qs)))
        elif x < 51:
            steps.append(matrix(pid, g.sample(qs, 10)))
        elif x < 53:
            o, s = g.choice(es)
            steps.append(find(pid, g.choice([ANY, dict(ANY, o=["obj"] + o[1:3]), dict(ANY, s=["subj", s]), dict(ANY, r=["name", o[3]])])))
        elif x < 55:
            steps.append(g.choice([getpol(pid), listpol(), explain(pid, *g.choice(qs)), expand(pid, g.choice(qs)[0]), dump(pid)]))
        elif x < 56:
            steps.append(update(struct(pols[pid]), g.app()))
        elif x < 57 and g.chance(.4):
            pols[pid] = w.make(pid, depth=2, partial=0)
            steps.append(update(struct(pols[pid]), g.app()))
        elif x < 58 and g.chance(.2):
            steps += [delpol(pid), create(struct(pols[pid]), g.app())]
        elif x < 59 and g.chance(.5):
            o, s = g.choice(es)
            steps.append(delrels(pid, g.choice([dict(ANY, o=["obj"] + o[1:3]), dict(ANY, s=["subj", s])])))
        else:
            steps += [create(struct(dict(pols[pid], id="t%d" % g.randrange(40)))), delpol("t%d" % g.randrange(40))]
    for pid in pids:
        steps += [find(pid), matrix(pid, g.sample(qs, 60)), getpol(pid)]
    if via:
        steps = [dict(x, via=g.choice(via)) for x in steps]
    return script("life%d" % i, steps)


def many_policies(g, i, n):
    """Listing and isolation of very many policies."""
    ids = ["k%d" % k for k in range(n)] + g.sample(PIDS, 6)
    g.shuffle(ids)
    steps = [create(struct(this_policy(x, ["d"], ["a"])), "%02x" % (k % 256)) for k, x in enumerate(ids)] + [listpol()]
    for x in g.sample(ids, 6):
        steps += [delpol(x), getpol(x), listpol()]
    return script("policies%d" % i, steps)


# ---- C09 ----
def expr_policy(pid, texts):
    base = [relation(r, {"f": "text", "s": "_this"}) for r in ("a", "b", "c", "_thisa")]
    return policy(pid, [resource("user"), resource("doc", base + [relation("x%d" % k, {"f": "text", "s": enc(t)}) for k, t in enumerate(texts)])])


def truth_steps(pid):
    out = []
    for j, r in enumerate(("a", "b", "c")):
        for u in range(8):
            if u >> j & 1:
                out.append(setrel(pid, S("doc", "1", r), E("user", "u%d" % u)))
    # doc:1 #a also holds doc:2 as an entity, so that a->b means b of doc:2
    out.append(setrel(pid, S("doc", "1", "a"), E("doc", "2")))
    out += [setrel(pid, S("doc", "2", "b"), E("user", "u%d" % u)) for u in (1, 4, 6)]
    out.append(setrel(pid, S("doc", "1", "_thisa"), E("user", "u5")))
    return out


TOKENS = ["_this", "a", "b", "+", "&", "-", "->", "(", ")"]


def text_scripts(g, name, texts, per):
    """Each text as an expression of a policy of its own, whether it is accepted or not."""
    out = []
    for k in range(0, len(texts), per):
        steps = []
        for t in texts[k:k + per]:
            steps.append(create(struct(expr_policy("p", [t]))))
            steps.append(delpol("p"))
        out.append(script("%s%d" % (name, k), steps))
    return out


def spell(g, ts):
    t = ""
    for x in ts:
        # tokens have to be kept apart where they would merge
        sep = " " if g.chance(.5) else ""
        if t and sep == "" and (t[-1].isalnum() or t[-1] == "_") and (x[0].isalnum() or x[0] == "_"):
            sep = " "
        if t.endswith("-") and x.startswith("->") or t.endswith("-") and x == ">":
            sep = " "
        t += sep + x
    return t


def table_scripts(name, good):
    """Sentences as tables of their members."""
    out = []
    for k in range(0, len(good), 6):
        part = good[k:k + 6]
        steps = [create(struct(expr_policy("p", part)))] + truth_steps("p")
        steps.append(matrix("p", [(S("doc", "1", "x%d" % j), E("user", "u%d" % u)) for j in range(len(part)) for u in range(8)]))
        out.append(script("%s%d" % (name, k), steps))
    return out


def token_scripts(g, n):
    out = []
    texts = []
    good = []
    for k in range(n + 1):
        for ts in itertools.product(TOKENS, repeat=k):
            t = spell(g, ts)
            texts.append(t)
    # sentences with operators as tables of their members
    for ts in itertools.product(["a", "b", "a->b"], "+&-", ["a", "b", "_this"], "+&-", ["a", "b", "c"]):
        for shape in range(3):
            l, o1, m, o2, r = ts
            good.append(["%s%s%s%s%s", "(%s%s%s)%s%s", "%s%s(%s%s%s)"][shape] % ts)
    out += text_scripts(g, "tok", texts, 60)
    if n < 5:
        good = g.sample(good, 260)
    out += table_scripts("table", good)
    return out


CHARS = ["a", "_", " ", "+", "-", ">", "(", ")", "&", "é", ".", "1", "\n", "*"]


def char_scripts(g, n):
    texts = ["".join(t) for k in range(n + 1) for t in itertools.product(CHARS, repeat=k)]
    extra = []
    for t in ["_this", "a", "a->b", "a+b"]:
        for c in CHARS + ["\t", "\u00a0", "\x00", "#", "|", "!", "_thi", "this", "_This", "_THIS", "A", "<", "=", "日", "٣", "\r", "\x0b", "\u2028"]:
            for j in range(len(t) + 1):
                extra.append(t[:j] + c + t[j:])
    return text_scripts(g, "chr", texts, 70) + text_scripts(g, "ins", extra, 60)


def sentence_script(g, i):
    leaves = [THIS, cu("a"), cu("b"), cu("c"), cu("_thisa"), ttu("a", "b"), ttu("a", "_thisa")]
    texts, trees = [], []
    for _ in range(3):
        t = g.tree(g.choice([1, 2, 3, 4]), leaves, "+&-")
        trees.append(t)
        texts.append(g.text_of(t))
    steps = [create(struct(expr_policy("p", texts)))] + truth_steps("p")
    qs = [(S("doc", "1", "x%d" % k), E("user", "u%d" % u)) for k in range(3) for u in range(8)]
    steps.append(matrix("p", qs))
    p = expr_policy("p", texts)
    for k, t in enumerate(trees):
        for r in p["resources"][1]["relations"]:
            if r["name"] == "x%d" % k:
                r["expr"] = {"f": "tree", "tree": t}
    steps += [update(struct(p)), matrix("p", qs)]
    for t in trees:
        steps.append({"op": "PrintExpr", "tree": t})
    # one edit away from a sentence
    for t in texts * 2:
        j = g.randint(0, len(t))
        bad = g.choice([t[:j] + g.choice(["+", "(", ")", "->", "a", "_this", " ", "-", ">", "x", "$", "_"]) + t[j:],
                        t[:j] + t[j + 1:], t[:max(0, j - 1)] + t[j:][::-1][:2] + t[j:]])
        steps += [create(struct(expr_policy("q", [bad]))), delpol("q")]
    return script("sent%d" % i, steps)


def long_sentences(g, sizes):
    """Long chains, deep nestings, long names and unusual spaces, as tables of their members and printed."""
    leaves = [THIS, cu("a"), cu("b"), cu("c"), cu("_thisa"), ttu("a", "b")]
    out = []

    def put(name, trees, texts):
        steps = [create(struct(expr_policy("p", texts)))] + truth_steps("p")
        qs = [(S("doc", "1", "x%d" % k), E("user", "u%d" % u)) for k in range(len(texts)) for u in range(8)]
        steps.append(matrix("p", qs))
        p = expr_policy("p", texts)
        for k, t in enumerate(trees):
            for r in p["resources"][1]["relations"]:
                if r["name"] == "x%d" % k:
                    r["expr"] = {"f": "tree", "tree": t}
        if n < 230:     # deeper documents are not read by TLC
            steps += [update(struct(p)), matrix("p", qs)] + [{"op": "PrintExpr", "tree": t} for t in trees]
        for t in texts:
            j = g.choice([i for i, c in enumerate(t) if not c.isspace() and not (c.isalnum() or c == "_")] or [0])
            steps += [create(struct(expr_policy("q", [t[:j] + t[j + 1:]]))), delpol("q"),
                      create(struct(expr_policy("q", [t + g.choice([")", "+", " a", "->b", "("])]))), delpol("q")]
        out.append(script(name, steps))

    def side(n, how):
        t = copy.deepcopy(g.choice(leaves))
        for _ in range(n):
            o, l = g.choice("+&-"), copy.deepcopy(g.choice(leaves))
            left = how == "left" or how == "both" and g.chance(.5)
            t = op(o, t, l) if left else op(o, l, t)
        return t
    for n in sizes:
        for how in ("left", "right", "both"):
            ts = [side(n, how), side(max(1, n - 1), how)]
            put("long-%s%d" % (how, n), ts, [g.text_of(t) for t in ts])
        t = side(3, "both")
        put("parens%d" % n, [t], ["(" * n + g.text_of(t) + ")" * n])
        pad = "".join(g.choice([" ", "\n", "\t"]) for _ in range(n * 4))
        put("spaces%d" % n, [t], [pad + g.text_of(t).replace("_this", pad + "_this" + pad) + pad])
    for n in (31, 64, 129, 300, 1100, 5000):
        a, b = "r" * n, "r" * (n - 1) + "s"
        p = policy("p", [resource("user"), resource("doc", [relation(a, {"f": "tree", "tree": THIS}), relation(b, {"f": "tree", "tree": THIS}),
                                                            relation("x", {"f": "text", "s": "%s - %s" % (a, b)}),
                                                            relation("y", {"f": "text", "s": "%s&%s" % (a, b)})])])
        steps = [create(struct(p)), setrel("p", S("doc", "1", a), E("user", "0")), setrel("p", S("doc", "1", a), E("user", "1")),
                 setrel("p", S("doc", "1", b), E("user", "1"))]
        steps.append(matrix("p", [(S("doc", "1", x), E("user", u)) for x in ("x", "y") for u in "012"]))
        steps += [{"op": "PrintExpr", "tree": op("-", cu(a), ttu(b, a))}]
        out.append(script("name%d" % n, steps))
    return out


# ---- C10 ----
YAML_BAD = ["", "just text", "[]", "- a", "id: [1]", "id: p\nresources: []", "id: p\nresources:\n  doc: text", "id: p\nunknown: 1",
            "id: p\nresources:\n  doc:\n    relation: {}", "id: p\nresources:\n  doc:\n    relations: []",
            "id: p\nresources:\n  doc:\n    relations:\n      r:\n        expression: _this", "id: p\nresources:\n  doc:\n    relations:\n      r: _this",
            "id: p\nresources:\n  doc:\n    relations:\n      r:\n        expr: _this\n        types: user",
            "id: p\nresources:\n  doc:\n    relations:\n      r:\n        expr: [_this]", "id: p\n  name: x", "id: p\nid: q", "{", "id: 'p", "\tid: p",
            "id: p\nresources:\n  doc:\n    relations:\n      r:\n        expr: _this\n        types: {user: 1}", "id: p\nattributes: [a]",
            "id: p\nresources:\n  doc:\n    actors: {}", "id: p\nresources:\n  doc: {}\n  doc: {}", "null", "id: {a: b}",
            "id: p\nresources:\n  doc:\n    relations:\n      r: {expr: _this}\n      r: {expr: _this}", "ID: p", "Id: p", "id: p\nName: x", "resource: {}",
            "id: p\nattributes:\n  a: [b]", "id: p\nresources:\n  doc:\n    doc: [x]"]
# accepted by some readers of YAML and refused by others, or with several readings: not judged
YAML_UNSURE = {"", "null", "ID: p", "Id: p", "id: p\nName: x"}


def type_scripts(g):
    """Entries of type lists: all short words, in documents which define almost everything they could name."""
    pool = ["g", "m", ":", " ", "*"]
    words = [""] + ["".join(x) for n in (1, 2, 3, 4) for x in itertools.product(pool, repeat=n)]
    words += ["g:x:m", "g:m:x", "g::m", "user:", "user:m", "g:m:m:m", "g:x:y:m", "G:m", "g:M", "g#m", "g->m", "g/m", "g.m", "g,m", "[g]", "g:m,", "g\\:m", "'g:m'", "g=m", "gg:m:g",
              "\ufeffg", "g\t", "\ng", "g\u200b", "\u00e9", "user*", "user:*", "*user", "*:*"]
    g.shuffle(words)
    out = []
    names = ["m", ":m", "m:", "m:m", " m", "m ", "*", "g"]
    for i in range(0, len(words), 20):
        steps = []
        for x in words[i:i + 20]:
            # what a lenient reader would take it for may be there or not
            rels = g.sample(names, g.randint(2, 7))
            if g.chance(.7) and "m" not in rels:
                rels.append("m")
            res = ["g"] + g.sample(["g ", " g", "gm", "g*", "*", "m", "g m"], g.randint(0, 3))
            if g.chance(.5):
                a, _, b = x.partition(":")
                rels = sorted({*rels, b} - {""})
                res = sorted({*res, a} - {"", "user", "t"})
            types = g.choice([[x], [x], ["user", x], [x, "user"], [x, x], ["g:m", x]])
            rs = [{"name": "user", "doc": "", "relations": []}] + \
                 [{"name": enc(r), "doc": "", "relations": [{"name": enc(q), "doc": "", "expr": "_this", "types": ["*"]} for q in sorted(rels)]} for r in sorted(res)] + \
                 [{"name": "t", "doc": "", "relations": [{"name": "m", "doc": "", "expr": "_this", "types": [enc(y) for y in types]}]}]
            rs.sort(key=lambda r: dec(r["name"]))
            subs = [E("user", "1"), E("g", "1"), S("g", "1", "m"), W("g"), E(enc(g.choice(res)), "1"), S("g", "1", enc(g.choice(rels))), S(enc(g.choice(res)), "1", enc(g.choice(rels)))]
            cut = x.split(":")
            subs += [S(enc(a), "1", enc(b)) if b else E(enc(a), "1") for a, b in {(x, ""), (cut[0], ""), (cut[0], ":".join(cut[1:])), (":".join(cut[:-1]), cut[-1])} if a]
            steps += [create(yaml_def(g, ydoc("p", rs)), ""), getpol("p")] + [setrel("p", S("t", "1", "m"), s) for s in subs] + [find("p"), delpol("p")]
        out.append(script("types%d" % (i // 20), steps))
    return out


def yaml_script(g, i):
    w = World(g, wild=g.chance(.2))
    while w.longest() > 500:        # keys are limited to 1024 characters
        w = World(g, wild=True)
    w.res = (w.res + ["team"])[:g.randint(1, 3)]
    steps = []

    def some(pid):
        p = w.make(pid, partial=.1, restr=entity_restr)
        for r in p["resources"]:
            r["desc"] = g.choice(["", "", "some text", enc("é: [x]")])
            for q in r["relations"]:
                q["desc"] = g.choice(["", "", "d", enc("two\nlines")])
                q["expr"] = {"f": "text", "s": enc(g.text_of(q["expr"]["tree"] if q["expr"]["f"] == "tree" else THIS))} \
                    if q["expr"]["f"] == "tree" else q["expr"]
                if q["restr"]["f"] == "none":
                    q["restr"] = {"f": "set", "es": []}
        return p

    pid = g.choice(["p", "p", "p", enc("é"), "1", "true", "p: q", "null", "~7e;"])
    p = some(pid)
    d = yaml_from_policy(g, p)
    if g.chance(.35):
        # type lists which say something else than a plain policy does
        for r in d["resources"]:
            for q in r["relations"]:
                if g.chance(.3):
                    q["types"] = g.choice([["*"], ["*", w.user], [w.user, "*"], [w.res[0] + ":" + w.rels[0], w.user], [], ["undefined"],
                                           [w.res[0] + ":undefined"], [":"], [w.user + ":"], ["a:b:c"], ["**"], [w.user, w.user], [""], [" " + w.user]])
    if g.chance(.1):
        d["id"] = ""
    if g.chance(.1) and d["resources"] and d["resources"][-1]["relations"]:
        d["resources"][-1]["relations"][-1]["expr"] = enc(g.choice(BAD_EXPRS))
    if g.chance(.1):
        # a relation about which nothing is said
        q = {"name": g.choice(["blank"] + w.rels), "doc": "", "expr": "", "types": []}
        r = g.choice(d["resources"])
        r["relations"] = [x for x in r["relations"] if x["name"] != q["name"]] + [q]
    subs = [E(w.user, "u1"), W(w.user)] + [E(a, "1") for a in w.res] + [S(a, "1", b) for a in w.res for b in w.rels]
    objs = [S(a, "1", b) for a in w.res for b in w.rels]
    qs = [(o, E(w.user, "u1")) for o in objs]
    first = yaml_def(g, d) if g.chance(.8) else struct(p)
    steps.append(create(first, g.app()))
    steps += [getpol(pid), listpol()]
    for o, s in g.sample([(o, s) for o in objs for s in subs], min(12, len(objs) * len(subs))):
        steps.append(setrel(pid, o, s, g.app()))
    steps.append(matrix(pid, qs))
    for _ in range(g.randint(0, 2)):
        t = g.choice([t for t in YAML_BAD if t not in YAML_UNSURE])
        steps.append(g.choice([create, update])(yaml_bad(t), ""))
        steps += [getpol(pid), getpol("p"), listpol()]
    if g.chance(.7):
        q = some(pid)
        steps.append(update(yaml_def(g, yaml_from_policy(g, q)), g.app()))
        steps += [getpol(pid), find(pid), matrix(pid, qs)]
        for o, s in g.sample([(o, s) for o in objs for s in subs], min(6, len(objs) * len(subs))):
            steps.append(setrel(pid, o, s, g.app()))
    steps += [matrix(pid, qs), find(pid)]
    return script("yaml%d" % i, steps)


def policy_of_doc(d):
    rs = []
    for r in d["resources"]:
        qs = []
        for q in r["relations"]:
            if "*" in q["types"]:
                restr = {"f": "universal"}
            else:
                es = []
                for t in q["types"]:
                    a, _, b = dec(t).partition(":")
                    es.append(["s", enc(a), enc(b)] if ":" in dec(t) else ["e", t])
                restr = {"f": "set", "es": es}
            qs.append(relation(q["name"], {"f": "text", "s": q["expr"]}, restr, q["doc"]))
        rs.append(resource(r["name"], qs, r["doc"]))
    return {"id": d["id"], "name": d["name"], "desc": d["doc"], "attrs": d["attrs"], "resources": rs}


def structured(s, at):
    """The same definitions as messages."""
    steps = []
    for x in s["steps"]:
        d = x.get("def")
        if d and d["f"] == "yaml":
            x = dict(x, **{"def": struct(policy_of_doc(d["doc"])) if d["doc"]["ok"] else {"f": "none"}})
        steps.append(x)
    return [dict(s, steps=steps)]


# ---- C11 ----
def explain_script(g, i):
    w = World(g, wild=g.chance(.12))
    if g.chance(.5):
        w.res, w.ids, w.rels = w.res[:1], w.ids[:2], w.rels[:3]
    p = w.make("p", depth=g.choice([1, 2, 2, 3]), ops=g.choice(["+", "+&-", "++&-", "&", "-"]), partial=g.choice([0, 0, .1]))
    es = w.edges(g.randint(2, 14))
    steps = [create(struct(p))] + [setrel("p", *e) for e in es]
    qs = w.queries(14)
    for o, u in qs[:10]:
        steps.append(explain("p", o, u, g.choice(["json", "json", "json", "dot", "dot", "spew"])))
    for n in g.sample(w.nodes(), min(6, len(w.nodes()))):
        steps.append(expand("p", n, g.choice(["json", "json", "dot", "dot", "spew"])))
    steps.append(expand("p", g.choice([E(w.user, w.uids[0]), W(w.user), E(w.res[0], w.ids[0])]), g.choice(["json", "dot"])))
    steps += [explain("p", *qs[0], "other"), expand("p", qs[0][0], "other")]
    if g.chance(.3):
        steps += [explain("nope", *qs[0]), expand("nope", qs[0][0]), expand("p", S(w.res[0], "1", "undefined")),
                  explain("p", S(w.res[0], "1", "undefined"), qs[0][1])]
    for e in g.sample(es, min(2, len(es))):
        steps.append(delrel("p", *e))
    for o, u in qs[10:]:
        steps.append(explain("p", o, u, g.choice(["json", "dot"])))
        if g.chance(.1):
            steps.append(dict(steps[-1], via="wire"))
    return script("explain%d" % i, steps)


def deep_pictures(g, scale):
    """Explanations and expansions of graphs which are deep, wide or shared."""
    out = []
    U, V = E("user", "u"), E("user", "v")

    def pol(*rels):
        return struct(policy("p", [resource("user"), resource("g", [relation(n, {"f": "text", "s": t}) for n, t in rels])]))

    def look(*os, us=(U,), dot=True):
        for o in os:
            for f in ("json", "dot") if dot else ("json",):
                yield expand("p", o, f)
                for u in us:
                    yield explain("p", o, u, f)

    for n in (9, 27, 60)[:scale + 2]:
        m = lambda k, q="m": S("g", str(k), q)
        for text in ("_this", "_this + z", "z + _this", "_this - z", "_this & _this"):
            k = n if text == "_this" else n // 3
            steps = [create(pol(("m", text), ("z", "_this"))), setmany("p", g.sample([(m(j), m(j + 1)) for j in range(k)], k))]
            steps += list(look(m(0), m(k - 2))) + [setrel("p", m(k), U)] + list(look(m(0), m(k - 2), us=(U, V)))
            steps += [setrel("p", m(k // 2, "z"), U)] + list(look(m(0))) + [setrel("p", m(k), m(k // 2))] + list(look(m(0), m(k // 2 + 1)))
            out.append(script("deep %d %s" % (n, text), steps))
        k = n // 3
        steps = [create(pol(("up", "_this"), ("v", "_this + up->v"), ("w", "v & v"))), setmany("p", [(m(j, "up"), E("g", str(j + 1))) for j in range(k)])]
        steps += list(look(m(0, "v"), m(0, "w"))) + [setrel("p", m(k, "v"), U)] + list(look(m(0, "v"), m(1, "w"), us=(U, V)))
        out.append(script("deep tupleset %d" % n, steps))
        steps = [create(pol(*[("r%d" % j, "r%d" % (j + 1)) for j in range(k)] + [("r%d" % k, "_this")]))]
        steps += list(look(m(0, "r0"))) + [setrel("p", m(0, "r%d" % k), U)] + list(look(m(0, "r0"), m(1, "r0"), m(0, "r%d" % (k - 1))))
        out.append(script("deep computed %d" % n, steps))
        t = cu("z")
        for j in range(k):
            t = op("+&-"[j % 3], t, THIS) if j % 2 else op("+&-"[j % 3], THIS, t)
        steps = [create(struct(policy("p", [resource("user"), resource("g", [relation("m", {"f": "tree", "tree": t}), relation("z", g.expr(THIS))])])))]
        steps += list(look(m(0))) + [setrel("p", m(0, "z"), U)] + list(look(m(0))) + [setrel("p", m(0), U)] + list(look(m(0), us=(U, V)))
        out.append(script("deep expression %d" % n, steps))
    for n in (40, 130, 300, 1100)[:scale + 2]:
        hub, leaf = S("g", "hub", "m"), lambda k: S("g", str(k), "m")
        u = lambda k: E("user", "u%d" % k)
        steps = [create(pol(("m", "_this"), ("up", "_this"), ("x", "up->m"), ("y", "m - x")))]
        steps += [setmany("p", g.sample([(hub, leaf(k)) for k in range(n)], n)), setmany("p", [(leaf(k), u(k)) for k in range(0, n, 2)])]
        steps += list(look(hub, us=(u(0), u(n // 2 * 2 - 2), V), dot=n < 50))
        steps += [setmany("p", g.sample([(S("g", "hub", "up"), E("g", str(k))) for k in range(n)], n))]
        steps += list(look(S("g", "hub", "x"), us=(u(0), u(n // 2 * 2 - 2), V), dot=n < 50))
        if n < 200:
            steps += list(look(S("g", "hub", "y"), us=(u(2), V), dot=n < 50))
        out.append(script("wide %d" % n, steps))
        steps = [create(pol(("m", "_this"))), setmany("p", g.sample([(hub, u(k)) for k in range(n)], n))]
        steps += list(look(hub, us=(u(0), u(n - 1), V), dot=n < 140))
        out.append(script("wide users %d" % n, steps))
    for n in (3, 5):
        for text in ("_this", "_this + z"):
            es = [(S("g", a + str(l), "m"), S("g", b + str(l + 1), "m")) for l in range(n) for a in "xy" for b in "xy"]
            steps = [create(pol(("m", text), ("z", "_this"))), setmany("p", g.sample(es, len(es)))]
            steps += list(look(S("g", "x0", "m"))) + [setrel("p", S("g", "y%d" % n, "m"), U)] + list(look(S("g", "x0", "m"), us=(U, V)))
            out.append(script("ladder %d %s" % (n, text), steps))
    return out


# ---- C12 ----
def dump_script(g, i):
    if g.chance(.35):
        # names which are awkward in a document
        res = g.choice(COLLIDE_RES)
        ids = [x for x in g.choice(COLLIDE_IDS + [[enc('"'), enc('\\'), enc('\\"'), enc('a"b\\')], ["a", "->", "{", "}"], ["[label=", "];", "//", "#"],
                                                  [enc("<b>"), enc("\\n"), enc("\\l"), "%s"]]) if x]
        rels = g.choice(COLLIDE_RELS)[:2]
        p = this_policy("p", res, rels)
        nodes = [S(a, b, c) for a in res for b in ids for c in rels]
        subs = nodes + [E(a, b) for a in res for b in ids] + [W(a) for a in res]
        es = [(g.choice(nodes), g.choice(subs)) for _ in range(g.randint(0, 9))]
    else:
        w = World(g, wild=g.chance(.4))
        p = this_policy("p", [w.user] + w.res, w.rels)
        nodes = w.nodes()
        es = w.edges(g.randint(0, 12))
        k = g.randrange(5)
        if k == 0:
            ring = g.sample(nodes, min(len(nodes), g.randint(1, 6)))
            es += [(ring[j], ring[(j + 1) % len(ring)]) for j in range(len(ring))]
        elif k == 1:
            es += [(n, n) for n in g.sample(nodes, min(3, len(nodes)))]
        elif k == 2:
            u = E(w.user, w.uids[0])
            es += [(n, u) for n in nodes]
        elif k == 3:
            es = [(a, b) for a in nodes[:4] for b in nodes[:4]]
    es = [e for j, e in enumerate(es) if e not in es[:j]]
    q = copy.deepcopy(p)
    q["id"] = "p2"
    steps = [create(struct(p)), dump("p")]
    if g.chance(.4):
        steps += [create(struct(q))] + [setrel("p2", *e) for e in g.sample(es, len(es) // 2)]
    for j, e in enumerate(g.sample(es, len(es))):
        steps.append(setrel("p", *e, g.app()))
        if g.chance(.15):
            steps.append(dump("p"))
    steps += [dump("p"), dump("p2"), dump("nope"), dump("p", "other")]
    for e in g.sample(es, min(3, len(es))):
        steps += [delrel("p", *e), dump("p")]
    if g.chance(.3):
        steps += [delrels("p"), dump("p")]
    if g.chance(.2):
        steps[-1] = dict(steps[-1], via="wire")
    return script("dump%d" % i, steps)


# ---- histories of everything ----
def history(g, w, pids, n, deep=True):
    es = w.edges(8)
    qs = w.queries(8)
    kw = dict(depth=g.choice([1, 2]), partial=g.choice([0, .1]))
    steps = [create(struct(w.make(pid, **kw)), g.app()) for pid in pids[:2]]
    last = {pid: x["def"] for pid, x in zip(pids, steps)}

    def pol(pid):
        p = w.make(pid, **kw)
        if g.chance(.15):
            p = defect(g, p)
        elif g.chance(.15):
            p = thin(g, p)
        if g.chance(.3) and all(q["expr"]["f"] == "text" or textable(q["expr"]["tree"]) for r in p["resources"] for q in r["relations"]
                                if q["expr"]["f"] != "none"):
            ok = all(q["expr"]["f"] in ("text", "tree") and (q["expr"]["f"] == "text" or q["expr"]["tree"]["k"] != "x") and
                     q["restr"]["f"] in ("universal", "set") and all(e[0] != "x" for e in q["restr"].get("es", []))
                     for r in p["resources"] for q in r["relations"])
            names = [r["name"] for r in p["resources"]]
            if ok and w.longest() < 500 and len(set(names)) == len(names) and all(len({q["name"] for q in r["relations"]}) == len(r["relations"]) for r in p["resources"]):
                return yaml_def(g, yaml_from_policy(g, p))
        return struct(p)

    for _ in range(n):
        pid = g.choice(pids)
        x = g.randrange(40)
        if x < 2:
            d = pol(pid)
            steps.append(create(d, g.app()))
            last[pid] = d
        elif x < 4:
            d = pol(pid)
            if pid in last and g.chance(.5):
                # almost nothing changes
                d = copy.deepcopy(last[pid])
                if d["f"] == "struct" and g.chance(.4):
                    q = g.choice([q for r in d["p"]["resources"] for q in r["relations"]] or [{}])
                    g.choice([d["p"], g.choice(d["p"]["resources"] or [{}]), q])["desc"] = g.choice(["", "new", "other"])
            else:
                last[pid] = d
            steps.append(update(d, g.app()))
        elif x < 5:
            steps.append(delpol(pid))
        elif x < 7:
            steps.append(getpol(pid))
        elif x < 9:
            steps.append(listpol())
        elif x < 18:
            steps.append(setrel(pid, *g.choice(es), g.app()))
        elif x < 20:
            steps.append(delrel(pid, *g.choice(es)))
        elif x < 22:
            steps.append(getrel(pid, *g.choice(es)))
        elif x < 25:
            steps.append(find(pid, ANY if g.chance(.6) else dict(ANY, o=["res", g.choice(w.res + ["undefined"])], s=["res", w.user])))
        elif x < 26:
            steps.append(delrels(pid, g.choice([ANY, dict(ANY, r=["name", w.rels[0]]), dict(ANY, s=["res", w.user])])))
        elif x < 31:
            steps.append(check(pid, *g.choice(qs)))
        elif x < 33:
            steps.append(matrix(pid, qs))
        elif x < 35:
            steps.append(explain(pid, *g.choice(qs), g.choice(["json", "dot", "spew", "other"])))
        elif x < 37:
            steps.append(expand(pid, g.choice(qs)[0], g.choice(["json", "dot", "spew", "other"])))
        else:
            steps.append(dump(pid, g.choice(["dot", "dot", "dot", "other"])))
    return steps, es, qs


# ---- C14 ----
def fault_script(g, i):
    w = World(g)
    w.ids, w.rels, w.uids = w.ids[:2], w.rels[:2], w.uids[:2]
    p = this_policy("p", [w.user] + w.res, w.rels) if g.chance(.4) else w.make("p", depth=1, partial=0)
    q = copy.deepcopy(p)
    q["id"] = g.choice(["p1", "q", "p/"])
    es = [e for e in w.edges(6)]
    qs = w.queries(6)
    steps = [create(struct(q), "aa"), create(struct(p), "01")]
    kept = g.sample(es, g.randint(1, 4))
    steps += [setrel("p", *e, g.app()) for e in kept]
    steps += [setrel(q["id"], *e, "bb") for e in g.sample(es, 2)]
    k = g.randrange(13)
    newp = w.make("p", depth=1, partial=0)
    if k < 2:
        e = g.choice([x for x in es if x not in kept] or es)
        req = setrel("p", *e, "77")
    elif k == 2:
        req = setrel("p", *g.choice(kept), "77")
    elif k < 5:
        req = delrel("p", *g.choice(kept))
    elif k < 7:
        req = delrels("p", g.choice([ANY, ANY, dict(ANY, r=["name", kept[0][0][3]])]))
    elif k < 10:
        req = delpol("p")
    elif k == 10:
        req = update(struct(newp), "88")
    elif k == 11:
        pp = copy.deepcopy(p)
        pp["id"] = "new"
        req = create(struct(pp), "99")
    else:
        req = g.choice([check("p", *qs[0]), find("p"), getpol("p"), getrel("p", *kept[0]), dump("p"), listpol(), matrix("p", qs[:2]),
                        explain("p", *qs[0]), expand("p", qs[0][0])])
    at = len(steps)
    steps.append(req)

    def look(pid):
        return [getpol(pid), find(pid), matrix(pid, qs)] + [getrel(pid, *e) for e in kept[:2]] + [dump(pid)]

    kind, scope, stick = g.choice([("crash", "write", False)] * 3 + [("err", "write", False)] * 2 + [("err", "any", False)] * 2 +
                                  [("err", "write", True), ("err", "any", True)])
    if req["op"] == "CheckMatrix" and kind == "err":
        req = check("p", *qs[0])
        steps[-1] = req
    if g.chance(.3):
        steps.append(reopen())
    steps += look("p") + look(q["id"]) + [listpol(), getpol("new")]
    y = g.randrange(4)
    if y < 2:
        steps += [req] + look("p") + [listpol()]                                  # the same again
    if y == 2 or req["op"] in ("SetRelationship", "DeleteRelationship", "DeleteRelationships"):
        steps += [delrels("p"), find("p"), matrix("p", qs)]                       # everything can be removed
    if y == 3 or req["op"] == "DeletePolicy":
        steps += [delpol("p"), create(struct(p), "02")] + look("p") + look(q["id"]) + [listpol()]   # nothing comes back
    steps += [delpol(q["id"]), find(q["id"])]
    return script("fault%d" % i, steps, sweep={"step": at, "kind": kind, "scope": scope, "stick": stick, "max": 60})


def abandoned_script(g, i):
    """The caller of a request gives up before it or at one of its storage operations."""
    s = fault_script(g, i)
    at = s["sweep"]["step"]
    via = g.choice(["direct", "direct", "grpc", "wire"])
    s["steps"][at] = dict(s["steps"][at], via=via)
    if s["steps"][at]["op"] == "CheckMatrix":
        s["steps"][at] = check("p", *s["steps"][at]["qs"][0])
    s["sweep"].update(kind="cancel", scope=g.choice(["any", "any", "write"]), stick=False, max=60 if via == "direct" else 14)
    return dict(s, name="abandoned%d" % i)


def read_fault_scripts(g, n):
    """Each kind of question, failing at each of its storage operations."""
    out = []
    for i in range(n):
        w = World(g)
        w.ids, w.rels, w.uids = w.ids[:2], w.rels[:3], w.uids[:2]
        p = this_policy("p", [w.user] + w.res, w.rels) if g.chance(.3) else w.make("p", depth=2, partial=0)
        es, qs = w.edges(7), w.queries(4)
        o, s = g.choice(es)
        sels = [ANY, dict(ANY, r=["name", o[3]]), dict(ANY, o=["res", o[1]]), dict(ANY, o=["obj", o[1], o[2]]), dict(ANY, s=["subj", s]),
                {"o": ["obj", o[1], o[2]], "r": ["name", o[3]], "s": ["subj", s]}, {"o": ["obj", o[1], o[2]], "r": ["name", o[3]], "s": ["any"]}]
        reqs = [check("p", *g.choice(qs)), explain("p", *g.choice(qs)), expand("p", g.choice(qs)[0]), dump("p"), listpol(), getpol("p"),
                getrel("p", o, s), find("p", g.choice(sels)), find("p", g.choice(sels)), getrel("p", o, E(w.user, "nobody"))]
        req = reqs[i % len(reqs)]
        steps = [create(struct(p), "01")] + [setrel("p", *e, g.app()) for e in es]
        after = [req, find("p"), matrix("p", qs)]
        out.append(script("read-fault%d" % i, steps + [req] + after,
                          sweep={"step": len(steps), "kind": "err", "scope": "any", "stick": g.chance(.3), "max": 120}))
    return out


# ---- C15 ----
def restart_script(g, i):
    w = World(g, wild=g.chance(.3))
    w.ids, w.rels = w.ids[:2], w.rels[:3]
    pids = g.sample(PIDS, 2) if g.chance(.4) else ["p", "q"]
    backend = g.choice(["ord", "mem", "leveldb", "leveldb", "default", "dev"])
    steps, es, qs = history(g, w, pids, g.randint(14, 28))
    if backend not in ("default", "dev"):
        out = []
        for x in steps:
            out.append(x)
            if g.chance(.18):
                out.append(reopen())
        steps = out + [reopen()]
    for pid in pids:
        steps += [getpol(pid), find(pid), matrix(pid, qs), dump(pid)] + [getrel(pid, *e) for e in es[:2]]
    steps.append(listpol())
    return script("restart%d" % i, steps, backend=backend)


def daemon_script(g, i):
    """The server as a process of its own, which is killed and started again."""
    w = World(g, wild=g.chance(.3))
    w.ids, w.rels = w.ids[:2], w.rels[:3]
    steps, es, qs = history(g, w, ["p", "q"], g.randint(14, 26))
    out = []
    for x in steps:
        out.append(dict(x, via="grpc2") if g.chance(.4) else x)
        if g.chance(.15):
            out.append(reopen())
    out.append(reopen())
    for pid in ("p", "q"):
        out += [getpol(pid), find(pid), matrix(pid, qs), dump(pid)] + [getrel(pid, *e) for e in es[:2]]
    return script("daemon%d" % i, out + [listpol()], backend="daemon")


def cli_script(g, i):
    """Requests sent with the command line client."""
    s = daemon_script(g, i)
    n = [k for k, x in enumerate(s["steps"]) if x["op"] not in ("Reopen", "CheckMatrix", "PrintExpr") and not x.get("via")]
    for k in g.sample(n, min(len(n), 16)):
        s["steps"][k] = dict(s["steps"][k], via="cli")
    return dict(s, name="cli%d" % i, backend=g.choice(["daemon", "ord"]))


def kill_script(g, i):
    """The server is killed while it works on a request."""
    w = World(g)
    w.ids, w.rels, w.uids = w.ids[:2], w.rels[:2], w.uids[:2]
    p = this_policy("p", [w.user] + w.res, w.rels) if g.chance(.5) else w.make("p", depth=1, partial=0)
    q = copy.deepcopy(p)
    q["id"] = "q"
    es, qs = w.edges(9), w.queries(6)
    kept = es[:7]
    steps = [create(struct(q), "aa"), create(struct(p), "01")] + [setrel("p", *e, g.app()) for e in kept] + [setrel("q", *e, "bb") for e in kept[:2]]
    look = [getpol("p"), find("p"), matrix("p", qs), getpol("q"), find("q"), matrix("q", qs), listpol()]
    for _ in range(2):
        req = g.choice([delpol("p"), delpol("p"), delrels("p"), delrels("p", dict(ANY, r=["name", kept[0][0][3]])), delrel("p", *g.choice(kept)),
                        setrel("p", *es[-1], "77"), update(struct(w.make("p", depth=1, partial=0)), "88"), create(struct(dict(copy.deepcopy(p), id="r")), "99")])
        steps += [dict(req, kill=g.choice([0, 50, 100, 150, 200, 250, 300, 400, 500, 700, 1000, 2000])), listpol()] + look
        k = g.randrange(3)
        if k == 0:
            steps += [req] + look
        elif k == 1:
            steps += [delpol("p"), create(struct(p), "02")] + look
        steps += [create(struct(p), "03")] + [setrel("p", *e, g.app()) for e in kept]
    steps += [reopen()] + look + [delpol("p")] + look
    return script("kill%d" % i, steps, backend="daemon")


# ---- C16 ----
def blank(g, n):
    """Leaves out a part of a node."""
    n = list(n)
    k = g.randrange(6)
    if k == 0:
        return ["x"]
    if k == 1:
        return [n[0]] + [""] * (len(n) - 1)
    j = g.randrange(1, len(n))
    n[j] = ""
    return n


def partial_script(g, i):
    w = World(g, wild=g.chance(.15))
    w.ids, w.rels = w.ids[:2], w.rels[:2]
    p = this_policy("p", [w.user] + w.res, w.rels) if g.chance(.3) else w.make("p", depth=1, partial=.1)
    es = w.edges(5)
    qs = w.queries(6)
    state = [getpol("p"), find("p"), matrix("p", qs), listpol()]
    steps = [create(struct(p), "01")] + [setrel("p", *e, g.app()) for e in es] + state
    for _ in range(g.randint(5, 10)):
        o, s = g.choice(es)
        q, u = g.choice(qs)
        pid = g.choice(["p", "p", "p", "", "nope"])
        k = g.randrange(22)
        if k < 2:
            x = g.choice([create, update])(g.choice([{"f": "none"}, struct(policy("", [])), struct(policy("p", []))]), g.app())
        elif k < 6:
            d = copy.deepcopy(p)
            for _ in range(g.randint(1, 2)):
                d = defect(g, d)
            if g.chance(.15):
                d["resources"].insert(g.randint(0, len(d["resources"])), resource(""))
            if g.chance(.15) and d["resources"]:
                g.choice(d["resources"])["relations"].append({"name": "", "desc": "", "expr": {"f": "none"}, "restr": {"f": "none"}})
            d["id"] = g.choice(["p", "q", d["id"]])
            x = g.choice([create, update])(struct(d), g.app())
        elif k < 9:
            x = g.choice([setrel, delrel, getrel])(pid, blank(g, o), s)
        elif k < 12:
            x = g.choice([setrel, delrel, getrel])(pid, o, blank(g, s))
        elif k < 13:
            x = g.choice([setrel, delrel, getrel])(pid, ["s", "", "", ""], ["x"])
        elif k < 16:
            sel = {"o": g.choice([["any"], ["x"], ["res", w.res[0]], ["obj", "", ""], ["obj"] + o[1:3], ["res", ""]]),
                   "r": g.choice([["any"], ["x"], ["name", o[3]], ["name", ""]]),
                   "s": g.choice([["any"], ["x"], ["res", w.user], ["subj", s], ["subj", blank(g, s)], ["res", ""]])}
            x = g.choice([find, delrels])(pid, sel)
            if g.chance(.3):
                x["bld"] = True
        elif k < 18:
            x = check(pid, blank(g, q), u) if g.chance(.5) else check(pid, q, blank(g, u)[:3] if u[0] != "x" else u)
            if x["u"] == ["x"]:
                x["u"] = ["e", "", ""]
        elif k < 19:
            x = explain(pid, blank(g, q), u, g.choice(["json", "dot", "spew", "other"]))
        elif k < 20:
            x = expand(pid, g.choice([blank(g, q), ["x"], ["e", "", ""], ["w", ""], ["w", w.user], E(w.user, "1"), ["w", "undefined"], E("undefined", "1")]),
                       g.choice(["json", "dot", "spew", "other"]))
        elif k < 21:
            x = dump(pid, g.choice(["dot", "other"]))
        else:
            x = g.choice([getpol, delpol])(g.choice(["", "nope"]))
        x["v"] = g.randrange(1000000)
        y = g.random()
        if y < .25:
            x["via"] = "wire"
        elif y < .3:
            x["via"] = "grpc"
        steps.append(x)
        if g.chance(.5):
            steps += state
    steps += state + [dump("p")]
    return script("partial%d" % i, steps)


# ---- C17 ----
def network_script(g, i):
    w = World(g, wild=g.chance(.3))
    w.ids, w.rels = w.ids[:2], w.rels[:3]
    steps, es, qs = history(g, w, ["p", "q"], g.randint(14, 26))
    out = []
    for x in steps:
        if g.chance(.1):
            y = partial_script(g, 0)["steps"][-3 - g.randrange(2):-2]
            y = [z for z in y if "via" not in z]
            out += [dict(z, via="grpc") for z in y]
        k = g.random()
        out.append(dict(x, via="grpc") if k < .5 else dict(x, via="grpc2") if k < .8 else x)
    for pid in ("p", "q"):
        out += [dict(z, via=g.choice(["grpc", "grpc2", "direct"])) for z in [getpol(pid), find(pid), matrix(pid, qs)]]
    return script("net%d" % i, out)


def everything(g, n):
    """Scripts of all kinds, for the ways they are carried out."""
    kinds = [graph_script, operator_script, cyclic_script, lambda g, i: isolation_script(g, i, near_ids(g)), map_script, admission_script, repeated_exprs,
             defect_script, lifecycle_script, selector_script, yaml_script, explain_script, dump_script, partial_script]
    out = [k(g, i) for i in range(n) for k in kinds]
    for kind in ("check", "find", "explain", "dump"):
        out += g.sample(twin_scripts(g, kind), n)
    out += g.sample(twin_policies(g), n) + part_scripts(g, n) + g.sample(type_scripts(g), n)
    return [s for s in out if "sweep" not in s]


def remotely(g, scripts, vias):
    return [dict(s, backend=g.choice(["ord", "mem", "leveldb"]), steps=[dict(x, via=g.choice(vias)) if "via" not in x and x["op"] != "Reopen" else x for x in s["steps"]])
            for s in scripts]


def interrupted(g, scripts, often):
    return [dict(s, backend=g.choice(["ord", "mem", "leveldb"]), steps=[y for x in s["steps"] for y in ([reopen(), x] if g.chance(often) else [x])]) for s in scripts]


# ---- C13 ----
def concurrent_script(g, i):
    w = World(g)
    w.ids, w.rels, w.uids = w.ids[:2], w.rels[:2], w.uids[:1]
    if len(w.res) > 1:
        w.res = w.res[:1]
    r = w.res[0]
    a, b = w.rels[:2]
    U = E(w.user, w.uids[0])
    two = policy("p", [resource(w.user), resource(r, [relation(a, g.expr(op("+", THIS, cu(b)))), relation(b, g.expr(THIS))])])
    both = policy("p", [resource(w.user), resource(r, [relation(a, g.expr(op(g.choice("&-"), THIS, cu(b)))), relation(b, g.expr(THIS))])])
    tight = policy("p", [resource(w.user), resource(r, [relation(a, g.expr(THIS), {"f": "set", "es": [["s", r, b]]}), relation(b, g.expr(THIS))])])
    pols = [two, both, tight]
    n1, n2 = S(r, "1", a), S(r, "1", b)
    rels = [(n1, U), (n2, U), (n1, S(r, "2", b)), (S(r, "2", b), U), (n1, W(w.user)), (n1, n1)]
    other = copy.deepcopy(two)
    other["id"] = "q"
    qs = [(n1, U), (n2, U)]

    def some():
        k = g.randrange(24)
        if k < 3:
            return create(struct(g.choice(pols)), g.app())
        if k < 5:
            return update(struct(g.choice(pols)), g.app())
        if k < 8:
            return delpol("p")
        if k < 13:
            return setrel("p", *g.choice(rels), g.app())
        if k < 15:
            return delrel("p", *g.choice(rels))
        if k < 16:
            return delrels("p", g.choice([ANY, dict(ANY, r=["name", a])]))
        if k < 18:
            return check("p", *g.choice(qs))
        if k < 19:
            return find("p")
        if k < 20:
            return getrel("p", *g.choice(rels))
        if k < 21:
            return g.choice([getpol("p"), listpol(), create(struct(other))])
        if k < 22:
            return dump("p")
        return g.choice([explain("p", n1, U), expand("p", n1)])

    setup = [create(struct(g.choice(pols)), "01")] if g.chance(.85) else []
    if setup:
        setup += [setrel("p", *e, g.app()) for e in g.sample(rels, g.randint(0, 4))]
    if g.chance(.3):
        setup.append(create(struct(other)))
    kind = g.randrange(8)
    if kind == 0:       # access moves from one path to another and is never interrupted
        setup = [create(struct(two)), setrel("p", n2, U)]
        clients = [[setrel("p", n1, S(r, "2", b)), setrel("p", S(r, "2", b), U), delrel("p", n2, U)],
                   [g.choice([check("p", n1, U), explain("p", n1, U), check("p", n1, U)]) for _ in range(2)]]
    elif kind == 1:     # the same id
        setup = []
        clients = [[create(struct(g.choice(pols)), "0%d" % k), g.choice([getpol("p"), setrel("p", *rels[0]), delpol("p")])] for k in range(g.choice([2, 2, 3]))]
    elif kind == 2:     # a policy goes away below a relationship
        setup = [create(struct(two)), setrel("p", *rels[1])]
        clients = [[delpol("p")] + ([create(struct(two))] if g.chance(.5) else []), [setrel("p", *g.choice(rels), g.app()) for _ in range(g.randint(1, 2))]]
    elif kind == 3:     # the policy admits less
        setup = [create(struct(two)), setrel("p", *rels[1])]
        clients = [[update(struct(tight)), find("p")], [setrel("p", n1, U), check("p", n1, U)]]
    elif kind == 4:     # a policy which takes away while a relationship is moved
        setup = [create(struct(both)), setrel("p", n1, U), setrel("p", n2, U)]
        clients = [[delrel("p", n2, U), setrel("p", n2, U)], [check("p", n1, U), check("p", n1, U)]]
    else:
        clients = [[some() for _ in range(g.randint(1, 3))] for _ in range(g.choice([2, 2, 2, 3]))]
    final = [listpol(), getpol("p"), find("p"), matrix("p", qs), check("p", n1, U)] + ([getpol("q")] if g.chance(.3) else [])
    final = [x for x in final if x["op"] != "CheckMatrix"] + [check("p", n2, U), dump("p"), delpol("p"), listpol(), create(struct(two)), find("p")]
    n = len(clients)
    plans = []
    for c in range(n):
        for d in range(n):
            if c != d:
                plans.append({"turns": [[c, 0], [d, 1000]], "sweep": True})
    for _ in range(3):
        c, d = g.sample(range(n), 2)
        plans.append({"turns": [[c, 0], [d, g.randint(1, 8)], [c, g.randint(1, 8)], [d, 1000]], "sweep": True})
    plans += [{"seed": g.randrange(1, 1 << 40)} for _ in range(6)]
    return {"name": "conc%d" % i, "backend": "ord", "setup": setup, "clients": clients, "final": final, "plans": plans, "free": 1}


def pair_scripts(g):
    """Every changing request against every other one, with every preemption of one by the other."""
    U, V = E("user", "u"), E("user", "v")
    n1, n2, n3 = S("doc", "1", "a"), S("doc", "1", "b"), S("doc", "2", "b")
    two = policy("p", [resource("user"), resource("doc", [relation("a", g.expr(op("+", THIS, cu("b")))), relation("b", g.expr(THIS))])])
    alt = policy("p", [resource("user"), resource("doc", [relation("a", g.expr(op("-", THIS, cu("b"))), {"f": "set", "es": [["s", "doc", "b"]]}),
                                                          relation("b", g.expr(THIS))])])
    other = copy.deepcopy(two)
    other["id"] = "p1"
    live = [create(struct(two), "01"), setrel("p", n1, U, "02"), setrel("p", n1, n3, "03"), setrel("p", n3, V, "04"), setrel("p", n2, W("user"), "05")]
    writers = [create(struct(alt), "11"), update(struct(alt), "12"), delpol("p"), setrel("p", n2, V, "13"), setrel("p", n1, U, "14"),
               delrel("p", n1, U), delrel("p", n3, V), delrels("p"), delrels("p", dict(ANY, r=["name", "a"])), create(struct(other), "15")]
    readers = [getpol("p"), listpol(), getrel("p", n1, U), find("p"), check("p", n1, V), check("p", n1, U), explain("p", n1, V), expand("p", n1),
               dump("p"), find("p", dict(ANY, o=["obj", "doc", "1"]))]
    out = []
    final = [listpol(), getpol("p"), find("p"), check("p", n1, U), check("p", n1, V), dump("p"), delpol("p"), create(struct(two)), find("p")]
    for x, a in enumerate(writers):
        for b in writers[x:] + readers:
            for setup in (live, []):
                if not setup and (a["op"] not in ("CreatePolicy",) or b["op"] in ("DeleteRelationships",)):
                    continue
                plans = [{"turns": [[c, 0], [1 - c, 1000]], "sweep": True} for c in (0, 1)]
                plans += [{"turns": [[c, 0], [1 - c, k], [c, 1], [1 - c, 1000]], "sweep": True} for c in (0, 1) for k in (3, 5)]
                out.append({"name": "%s/%s" % (a["op"], b["op"]), "backend": "ord", "setup": setup, "clients": [[a], [b]], "final": final,
                            "plans": plans, "free": 0})
    return out


def free_script(g, i, backend):
    """Without a schedule, on a backend of its own."""
    s = concurrent_script(g, i)
    s["backend"] = backend
    s["plans"] = []
    s["free"] = 6
    s["clients"] = [[copy.deepcopy(q) for q in c * 2] for c in s["clients"]]
    return s


def parallel_scripts(g, count, vias=(None,)):
    """Readers at full speed."""
    out = []
    backends = ["mem", "ord", "default", "leveldb"]
    for i in range(count):
        backend = backends[i % len(backends)]
        w = World(g)
        depth = g.choice([3, 6, 12])
        p = w.make("p", depth=2, ops=g.choice(["+", "++&-"]), partial=0)
        es = w.edges(18)
        q = policy("q", [resource("user"), resource("g", [relation("m", g.expr(op("+", THIS, cu("x")))), relation("x", g.expr(THIS)), relation("up", g.expr(THIS)),
                                                          relation("v", g.expr(op("+", THIS, ttu("up", "v"))))])])
        chain = []
        for k in range(depth):
            chain += [(S("g", "%d" % k, "m"), S("g", "%d" % (k + 1), "m")), (S("g", "%d" % k, "up"), E("g", "%d" % (k + 1))),
                      (S("g", "%d" % k, "x"), E("user", "x%d" % k))]
        chain += [(S("g", "%d" % depth, "m"), E("user", "u")), (S("g", "%d" % depth, "v"), E("user", "u"))]
        qs = w.queries(10)
        qq = [(S("g", "0", r), E("user", u)) for r in ("m", "v", "x") for u in ("u", "nobody", "x%d" % (depth - 1))]
        setup = [create(struct(p), "01"), create(struct(q), "02")] + [setrel("p", *e, g.app()) for e in es] + [setrel("q", *e, g.app()) for e in chain]
        reads = [check("p", *x) for x in qs] + [check("q", *x) for x in qq] * 2 + [matrix("q", qq), find("p"), find("q"), getpol("p"), getpol("q"), listpol()]
        reads += [getrel("p", *e) for e in es[:3]] + [explain("q", *x, g.choice(["json", "dot"])) for x in qq[:4]] + [expand("q", qq[0][0]), dump("p"), dump("q")]
        reads += [find("p", dict(ANY, o=["res", r])) for r in w.res] + [check("nope", *qs[0]), getpol("nope")]
        g.shuffle(reads)
        if vias != (None,):
            reads = [dict(x, via=g.choice(vias)) for x in reads]
        n = g.choice([8, 16])
        out.append({"name": "readers%d" % i, "backend": backend, "setup": setup, "clients": [reads] * n, "final": [find("p"), find("q")],
                    "repeat": 40 if vias == (None,) and backend in ("mem", "ord") else 12, "own": False})
    return out


def cold_scripts(g, count, n, vias=(None,)):
    """Everything stored is read for the first time, by many clients at once."""
    out = []
    for i in range(count):
        backend = ["mem", "ord", "leveldb"][i % 3]
        setup, reads = [], []
        for k in range(n):
            pid = "p%d" % k
            rels = ["a", "b", "c%d" % (k % 5)]
            setup += [create(struct(this_policy(pid, ["user", "doc"], rels)), "01"), setrel(pid, S("doc", "1", "a"), S("doc", "2", "b"), "02"),
                      setrel(pid, S("doc", "2", "b"), E("user", "u%d" % k), "03")]
            q = (S("doc", "1", "a"), E("user", "u%d" % k))
            reads += g.sample([getpol(pid), check(pid, *q), find(pid), getrel(pid, S("doc", "2", "b"), E("user", "u%d" % k)), dump(pid), explain(pid, *q),
                               expand(pid, q[0]), find(pid, dict(ANY, r=["name", "a"]))], 4)
        g.shuffle(reads)
        if vias != (None,):
            reads = [dict(x, via=g.choice(vias)) for x in reads]
        out.append({"name": "cold%d" % i, "backend": backend, "setup": setup + [reopen()], "clients": [reads] * 8, "final": [listpol()], "repeat": 1, "own": False})
    return out


def own_scripts(g, count, vias=(None,)):
    """Clients at full speed, each with a policy of its own."""
    out = []
    for i in range(count):
        backend = ["mem", "ord", "leveldb", "default"][i % 4]
        w = World(g)
        w.ids, w.rels = w.ids[:2], w.rels[:3]
        pids = g.sample(PIDS, 8)
        clients = []
        for pid in pids:
            p = w.make(pid, depth=1, partial=0)
            es, qs = w.edges(6), w.queries(6)
            look = [find(pid), matrix(pid, qs), getpol(pid), getrel(pid, *es[0])]
            steps = [create(struct(p), g.app())] + [setrel(pid, *e, g.app()) for e in es] + look
            steps += [delrel(pid, *es[0]), setrel(pid, *es[1], g.app()), update(struct(w.make(pid, depth=1, partial=0)), g.app())] + look
            steps += [explain(pid, *qs[0]), dump(pid), delrels(pid, dict(ANY, s=["res", w.user]))] + look + [delpol(pid)] + look[:1] + [getpol(pid)]
            clients.append([dict(x, via=g.choice(vias)) for x in steps] if vias != (None,) else steps)
        out.append({"name": "own%d" % i, "backend": backend, "setup": [], "clients": clients, "final": [], "repeat": 30 if backend in ("mem", "ord") else 8, "own": True})
    return out
