"""Generators of request scripts, in the JSON form of spec/Zanzi.tla.

Nothing here knows what the right responses are: that is decided by the specification.
"""
import copy
import itertools
import json
import random

ANY = {"o": ["any"], "r": ["any"], "s": ["any"]}


def enc(s):
    return "".join(c if " " <= c <= "~" and c not in '"\\~' else "~%x;" % ord(c) for c in s)


def S(res, oid, rel):
    return ["s", res, oid, rel]


def E(res, oid):
    return ["e", res, oid]


def W(res):
    return ["w", res]


THIS = {"k": "this"}


def cu(r):
    return {"k": "cu", "r": r}


def ttu(t, c):
    return {"k": "ttu", "t": t, "c": c}


def op(o, l, r):
    return {"k": "op", "op": o, "l": l, "r": r}


def rules(t):
    return rules(t["l"]) + rules(t["r"]) if t["k"] == "op" else [t]


def is_ident(s):
    return s != "" and s != "_this" and all(c.isascii() and (c.isalnum() or c == "_") for c in s)


def textable(t):
    return all(x["k"] == "this" or (x["k"] == "cu" and is_ident(x["r"])) or
               (x["k"] == "ttu" and is_ident(x["t"]) and is_ident(x["c"])) for x in rules(t))


class Gen(random.Random):
    def __init__(self, seed, name):
        super().__init__("%s/%s" % (seed, name))

    def chance(self, p):
        return self.random() < p

    # ---- expressions ----
    def ws(self):
        return self.choice(["", "", " ", " ", "  ", "\n", "\t "])

    def text_of(self, t, top=True):
        """A text which means the tree t, with arbitrary spaces and redundant parentheses."""
        if t["k"] == "this":
            s = "_this"
        elif t["k"] == "cu":
            s = t["r"]
        elif t["k"] == "ttu":
            s = t["t"] + self.ws() + "->" + self.ws() + t["c"]
        else:
            l = self.text_of(t["l"], False)
            r = self.text_of(t["r"], False)
            if t["r"]["k"] == "op":
                r = "(" + self.ws() + r + self.ws() + ")"
            if t["l"]["k"] == "op" and self.chance(.4):
                l = "(" + self.ws() + l + self.ws() + ")"
            s = l + self.ws() + t["op"] + self.ws() + r
        if self.chance(.15):
            s = "(" + self.ws() + s + ")"
        return self.ws() + s + self.ws() if top else s

    def tree(self, depth, leaves, ops="+++&-"):
        if depth == 0 or self.chance(.25):
            return copy.deepcopy(self.choice(leaves))
        return op(self.choice(ops), self.tree(depth - 1, leaves, ops), self.tree(depth - 1, leaves, ops))

    def expr(self, t, form=None):
        form = form or self.choice(["text", "text", "tree"])
        if form == "text" and textable(t):
            return {"f": "text", "s": enc(self.text_of(t))}
        return {"f": "tree", "tree": t}

    def app(self):
        return self.choice(["", "01", "%04x" % self.randrange(65536), "00ff10"])

    def about(self):
        """A name or description."""
        return enc(self.choice(["", "", "about", "a name", "A name", " padded ", "two\nlines", "\ttab", "\u65e5\u672c", "x" * 300, "%d", "\"q\"", "about "]))

    def attrs(self):
        keys = self.sample(["k", "a", "K", "", "k ", enc("\u00e9"), "long" * 20, "a.b", "0"], self.choice([0, 0, 0, 1, 2, 2, 3, 5]))
        return [(k, self.choice(["v", "", "w", "V", " v", enc("\n"), "x" * 200, "k"])) for k in keys]


def relation(name, expr, restr=None, desc=""):
    return {"name": name, "desc": desc, "expr": expr, "restr": restr or {"f": "universal"}}


def resource(name, relations=(), desc=""):
    return {"name": name, "desc": desc, "relations": list(relations)}


def policy(pid, resources, name="", desc="", attrs=()):
    return {"id": pid, "name": name, "desc": desc, "attrs": [list(a) for a in sorted(attrs)], "resources": list(resources)}


def struct(p):
    return {"f": "struct", "p": p}


# ---- requests ----
def create(d, app=""):
    return {"op": "CreatePolicy", "def": d, "app": app}


def update(d, app=""):
    return {"op": "UpdatePolicy", "def": d, "app": app}


def delpol(pid):
    return {"op": "DeletePolicy", "id": pid}


def getpol(pid):
    return {"op": "GetPolicy", "id": pid}


def listpol():
    return {"op": "ListPolicyIds"}


def setrel(pid, o, s, app=""):
    return {"op": "SetRelationship", "pid": pid, "o": o, "s": s, "app": app}


def delrel(pid, o, s):
    return {"op": "DeleteRelationship", "pid": pid, "o": o, "s": s}


def getrel(pid, o, s):
    return {"op": "GetRelationship", "pid": pid, "o": o, "s": s}


def find(pid, sel=ANY):
    return {"op": "FindRelationships", "pid": pid, "sel": sel}


def delrels(pid, sel=ANY):
    return {"op": "DeleteRelationships", "pid": pid, "sel": sel}


def check(pid, o, u):
    return {"op": "Check", "pid": pid, "o": o, "u": u}


def matrix(pid, qs):
    return {"op": "CheckMatrix", "pid": pid, "qs": [list(q) for q in qs]}


def explain(pid, o, u, fmt="json"):
    return {"op": "Explain", "pid": pid, "o": o, "u": u, "fmt": fmt}


def expand(pid, root, fmt="json"):
    return {"op": "Expand", "pid": pid, "root": root, "fmt": fmt}


def dump(pid, fmt="dot"):
    return {"op": "Dump", "pid": pid, "fmt": fmt}


def setmany(pid, es, app=""):
    return {"op": "SetMany", "pid": pid, "es": [list(e) for e in es], "app": app}


def reopen():
    return {"op": "Reopen"}


def script(name, steps, backend="ord", **kw):
    d = {"name": name, "backend": backend, "steps": steps}
    d.update(kw)
    return d


# ---- YAML ----
def yq(s):
    odd = "\x7f\x85\u2028\u2029\ufeff\ufffe\uffff"
    return "".join("\\u%04x" % ord(c) if c in odd or "\x80" <= c <= "\x9f" else c for c in json.dumps(s, ensure_ascii=False))


def dec(s):
    out, i = "", 0
    while i < len(s):
        if s[i] == "~":
            j = s.index(";", i)
            out += chr(int(s[i + 1:j], 16))
            i = j + 1
        else:
            out += s[i]
            i += 1
    return out


def ydoc(pid, resources, name="", doc="", attrs=()):
    return {"ok": True, "id": pid, "name": name, "doc": doc, "attrs": [list(a) for a in sorted(attrs)], "resources": resources}


def yaml_of(g, d):
    """Writes a document; fields with default values may be left out."""
    out = []

    def scalar(s):
        s = dec(s)
        if s and is_ident(s) and not s.isdigit() and s[0].isalpha() and len(s) > 2 and \
                s.lower() not in ("null", "true", "false", "yes", "off", "not", "inf", "nan") and g.chance(.6):
            return s
        return yq(s)

    blocks = []
    if d["id"] != "" or g.chance(.3):
        blocks.append(["id: " + scalar(d["id"])])
    if d["name"] != "" or g.chance(.3):
        blocks.append(["name: " + scalar(d["name"])])
    if d["doc"] != "" or g.chance(.2):
        blocks.append(["doc: " + scalar(d["doc"])])
    if d["attrs"]:
        blocks.append(["attributes:"] + ["  %s: %s" % (yq(dec(k)), yq(dec(v))) for k, v in d["attrs"]])
    if d["resources"]:
        b = ["resources:"]
        for r in g.sample(d["resources"], len(d["resources"])):
            head = "  %s:" % scalar(r["name"])
            body = []
            if r["doc"]:
                body.append("    doc: " + scalar(r["doc"]))
            if r["relations"]:
                body.append("    relations:")
                for q in g.sample(r["relations"], len(r["relations"])):
                    qh = "      %s:" % scalar(q["name"])
                    qb = []
                    if q["doc"]:
                        qb.append("        doc: " + scalar(q["doc"]))
                    if q["expr"] != "":
                        qb.append("        expr: " + yq(dec(q["expr"])))
                    if q["types"]:
                        if g.chance(.5):
                            qb.append("        types: [%s]" % ", ".join(yq(dec(t)) for t in q["types"]))
                        else:
                            qb.append("        types:")
                            qb += ["          - " + yq(dec(t)) for t in q["types"]]
                    elif g.chance(.4):
                        qb.append("        types: []")
                    g.shuffle(qb) if not any(x.startswith("          -") for x in qb) else None
                    if qb:
                        body += [qh] + qb
                    else:
                        body.append(qh + g.choice(["", " {}"]))
            if body:
                b += [head] + body
            else:
                b.append(head + g.choice(["", " {}", " null"]))
        blocks.append(b)
    g.shuffle(blocks)
    for b in blocks:
        out += b
    if g.chance(.3):
        out.insert(0, "# a comment")
    return "\n".join(out) + "\n" if out else "{}\n"


class Layout:
    """Writes a document in any of the ways YAML has for the same content."""

    def __init__(self, g):
        self.g = g
        self.step = g.choice([1, 2, 2, 3, 4, 8])
        self.flow = g.choice([0, .15, .15, .4])
        self.anchors = {}       # text of a value written in flow style -> anchor, in order of appearance
        self.share = g.choice([0, 0, .5])

    def plain(self, s):
        return bool(s) and s.strip() == s and all(" " <= c <= "~" for c in s) and s[0] not in "-?:,[]{}#&*!|>'\"%@`=<~.0123456789+" and \
            ": " not in s and " #" not in s and not s.endswith(":") and len(s) > 3 and s.lower() not in ("null", "true", "false", "none")

    def inline(self, s, flow=False):
        g = self.g
        ways = ["d"]
        if all(c >= " " and c not in "\x7f\x85\u2028\u2029\ufeff\ufffe\uffff" and not "\x80" <= c <= "\x9f" for c in s):
            ways.append("s")
        if self.plain(s) and not (flow and set(s) & set(",[]{}:#")):
            ways += ["p", "p"]
        k = g.choice(ways)
        return yq(s) if k == "d" else "'" + s.replace("'", "''") + "'" if k == "s" else s

    def value(self, v):
        """On one line."""
        if v is None:
            return self.g.choice(["null", "~"])
        if isinstance(v, str):
            return self.inline(v, True)
        if isinstance(v, list):
            return "[" + ", ".join(self.value(x) for x in v) + self.g.choice(["", "", ", " if v else ""]) + "]"
        return "{" + ", ".join(self.inline(k, True) + ": " + self.value(x) for k, x in v.items()) + "}"

    def shared(self, v):
        """With an anchor, or as an alias of one written before."""
        key = json.dumps(v)
        if key in self.anchors:
            return "*" + self.anchors[key]
        if self.g.chance(self.share):
            self.anchors[key] = "a%d" % len(self.anchors)
            return "&%s %s" % (self.anchors[key], self.value(v))
        return None

    def block(self, v, ind, out):
        """The entries of a non-empty mapping or list."""
        g, pad = self.g, " " * ind
        entries = [(self.inline(k) + ":", x) for k, x in v.items()] if isinstance(v, dict) else [("-", x) for x in v]
        for head, x in entries:
            if g.chance(.05):
                out.append(g.choice(["", pad + "# note", "# : - note"]))
            if x is None:
                out.append(pad + head + g.choice(["", " null", " ~"]))
                continue
            short = self.shared(x)
            tail = g.choice(["", "", "", "", "   # c"])
            if short is not None:
                out.append(pad + head + " " + short + tail)
            elif isinstance(x, str):
                lines = x.split("\n")
                if x and len(lines) > (0 if g.chance(.1) else 1) and all(l == l.strip() and l and all(" " <= c <= "~" for c in l) for l in lines) and g.chance(.8):
                    out.append(pad + head + " |-")
                    out += [pad + " " * (self.step) + l for l in lines]
                else:
                    out.append(pad + head + " " + self.inline(x) + tail)
            elif not x or g.chance(self.flow):
                out.append(pad + head + " " + self.value(x) + tail)
            else:
                out.append(pad + head + tail)
                self.block(x, ind + (self.step if isinstance(x, dict) or g.chance(.7) else 0), out)

    def document(self, v):
        g = self.g
        if not v:
            return "{}\n"
        if g.chance(.08):
            return self.value(v) + "\n"
        out = []
        self.block(v, 0, out)
        if g.chance(.2):
            out.insert(0, "---")
        if g.chance(.1):
            out.append("...")
        return g.choice(["\n", "\n", "\n", "\r\n"]).join(out) + g.choice(["\n", "\n", ""])


def yaml_layout(g, d):
    def some(pairs):
        return {k: v if v not in ([], {}) else g.choice([v, v, None]) for k, v in pairs if v not in ("", [], {}) or g.chance(.15)}

    def mixed(x):
        return dict(g.sample(list(x.items()), len(x)))
    rs = {}
    for r in d["resources"]:
        qs = {}
        for q in r["relations"]:
            e = mixed(some([("doc", dec(q["doc"])), ("expr", dec(q["expr"])), ("types", [dec(t) for t in q["types"]])]))
            qs[dec(q["name"])] = e or g.choice([{}, None])
        rs[dec(r["name"])] = mixed(some([("doc", dec(r["doc"])), ("relations", mixed(qs))])) or g.choice([{}, None])
    v = mixed(some([("id", dec(d["id"])), ("name", dec(d["name"])), ("doc", dec(d["doc"])),
                    ("attributes", {dec(k): dec(x) for k, x in d["attrs"]}), ("resources", mixed(rs))]))
    return Layout(g).document(v)


def yaml_def(g, d):
    dup = len({r["name"] for r in d["resources"]}) < len(d["resources"]) or any(
        len({q["name"] for q in r["relations"]}) < len(r["relations"]) for r in d["resources"])
    text = yaml_of(g, d) if dup or g.chance(.4) else yaml_layout(g, d)

    def ordered(xs):
        return sorted(xs, key=lambda x: dec(x["name"]).encode())
    return {"f": "yaml", "doc": dict(d, resources=[dict(r, relations=ordered(r["relations"])) for r in ordered(d["resources"])]), "text": enc(text)}


def yaml_bad(text):
    return {"f": "yaml", "doc": {"ok": False, "resources": []}, "text": enc(text)}


def yaml_from_policy(g, p):
    """The document which describes a structured policy with text expressions and no odd restrictions."""
    rs = []
    for r in p["resources"]:
        qs = []
        for q in r["relations"]:
            rest = q["restr"]
            types = ["*"] if rest["f"] == "universal" else \
                [":".join(e[1:]) for e in rest["es"]] if rest["f"] == "set" else []
            e = q["expr"]
            s = e["s"] if e["f"] == "text" else enc(g.text_of(e["tree"]))
            qs.append({"name": q["name"], "doc": q["desc"], "expr": s, "types": types})
        rs.append({"name": r["name"], "doc": r["desc"], "relations": qs})
    return ydoc(p["id"], rs, p["name"], p["desc"], [tuple(a) for a in p["attrs"]])


# ---- universes ----
WILD_IDS = ["a", "b", "ab", "a/b", "a/", "/", "*", "a:b", "a, owner", "(x", "x)", enc('"q"'), enc("back\\"), enc("é"), enc("日"),
            enc("\n"), " ", enc("a\tb"), "0", "00", enc("~"), "root", enc("nul\x00l"), "a" * 60, "bc", "c", enc("a\"\"b")]
WILD_RES = ["user", "doc", "do", "c", "doc/x", "us", "er", enc("ré"), "a:b", enc('d"oc'), "0", " "]
WILD_RELS = ["owner", "own", "er", "o/w", "owner,", enc("rel\"x"), "0", "_this", enc("é"), "o w"]
PIDS = ["p", "p1", "p/", "p/1", "1", "70", "P", "a", "aa", "a/b", enc("ÿ"), "2", "3/", "p" * 40, enc("\n"), "*", " ", "/"]


def all_near(a):
    """Names which some careless treatment takes for a, or for related to it."""
    out = []
    for b in [a + " ", " " + a, a + "\t", "\n" + a, a.swapcase(), a.upper(), a.title(), a + "/", "/" + a, a + a, a + "0", "0" + a, a[:-1] or "z",
             a + "\x00", a + "\u00ff", a + "*", a + "%", a + ":", a + "#", a + ".", a + "-", a + "\u0301", a + "x", a + "%20", a + "\\",
             a[::-1], a + "\u200b", "\ufeff" + a, a.replace("a", "\u0430"), "~" + a, "'" + a + "'", a + "&amp;", a + "s", a + "\x7f",
             a.replace("e", "\u00e9"), a.replace("e", "e\u0301"), "(" + a + ")", a + "=", "+" + a, a + "\U0001f600", a + "\r"]:
        b = b if b != a else a + "1"
        if b not in out:
            out.append(b)
    return out


# names with equal 32 bit hashes (tools/mkcollisions.py)
HASH_TWINS = [
    ("nidmovh", "bubanxn"),  # crc32
    ("aiyifwg", "dlpjrry"),  # crc32c
    ("haygrrh", "iuhbcyq"),  # adler32
    ("gpcphgo", "lmypqkp"),  # fnv1
    ("lsexqzd", "ztxtxde"),  # fnv1a
    ("agunbzo", "fbvcass"),  # times31
    ("lnsadhd", "scbiwzl"),  # djb2
    ("fsbqqhm", "srwlydu"),  # djb2a
    ("ipigcnu", "mgbclui"),  # sdbm
    ("nxaqhyo", "yojanru"),  # sum
    ("eszycid", "auramvg"),  # xor
    ("zpcamqs", "kuyeyuf"),  # md5[:4]
    ("dvjdnhq", "qzrrdnt"),  # md5[-4:]
    ("lbvojvt", "hkwahgp"),  # sha1[:4]
    ("xuimmtv", "smaxbao"),  # sha1[-4:]
    ("qvhmiec", "zamxyll"),  # sha256[:4]
    ("qfttyyy", "fxujcpb"),  # sha256[-4:]
    ("izumint", "rtjhzii"),  # sha512[:4]
    ("xirciws", "fegnmei"),  # sha512[-4:]
]


def near(g, a):
    return g.choice(all_near(a))


def nears(g, a, n):
    """n names, each close to another of them."""
    out = [a]
    while len(out) < n:
        b = near(g, g.choice(out))
        if b not in out:
            out.append(b)
    return [enc(x) for x in g.sample(out, n)]


class World:
    """Resource, relation and entity names used together in one script."""

    def __init__(self, g, wild=False):
        self.g = g
        self.wild = wild
        if wild == "collide":
            # names which are the same once they are joined
            x = g.choice(["/", ":", "#", ".", ", ", "->", "", "|", "@", enc("\x00"), "::", " "])
            self.user, self.res = "u", g.sample(["a", "a" + x + "b", "a" + x + "b" + x + "c", "b"], 3)
            self.rels = g.sample(["c", "b" + x + "c", "c" + x + "d", "b", "d"], 3)
            self.ids = g.sample(["a", "a" + x + "b", "b", "b" + x + "c", "c"], 3)
            self.uids = g.sample(["a", "b", "a" + x + "b", "u"], 2)
        elif wild and g.chance(.35):
            long = g.choice(["", "", "", "q" * 31, "q" * 63, "q" * 127, "q" * 255, "q" * 1023])
            names = nears(g, g.choice(["user", "doc", "d", "a:e"]) + long, 3)
            self.user, self.res = names[0], names[1:]
            self.rels = nears(g, g.choice(["owner", "reader", "r", "_this", "1"]) + long, 3)
            self.ids = nears(g, g.choice(["alice", "1", "a/e", "Bob", "\u00e9"]) + long, 3)
            self.uids = nears(g, g.choice(["alice", "1", "a/e", "Bob", "\u00e9"]) + long, 2)
        elif wild:
            names = g.sample(WILD_RES, 3)
            self.user, self.res = names[0], names[1:]
            self.rels = g.sample(WILD_RELS, 3)
            self.ids = g.sample(WILD_IDS, 3)
            self.uids = g.sample(WILD_IDS, 2)
        else:
            self.user, self.res = "user", g.choice([["doc"], ["doc", "group"], ["doc", "group"]])
            self.rels = g.sample(["owner", "viewer", "parent", "member", "banned", "r1", "x_y", "_thisx", "this"], g.randint(2, 4))
            self.ids = ["o%d" % i for i in range(g.randint(2, 4))]
            self.uids = ["u%d" % i for i in range(g.randint(1, 3))]
        self.tuplesets = set()

    def longest(self):
        return max(len(x) for x in [self.user] + self.res + self.rels + self.ids + self.uids)

    def objects(self):
        return [(r, i) for r in self.res for i in self.ids]

    def nodes(self):
        return [S(r, i, q) for r in self.res for i in self.ids for q in self.rels]

    def subjects(self):
        return [E(self.user, u) for u in self.uids] + [W(self.user)] + \
            [E(r, i) for r, i in self.objects()] + self.nodes() + [W(r) for r in self.res]

    def leaves(self):
        g = self.g
        sets = g.sample(self.rels, g.choice([0, 1, 1, 1, 2]))
        return [THIS] * g.randint(2, 8) + [cu(r) for r in self.rels] + [ttu(a, b) for a in sets for b in self.rels]

    def make(self, pid, depth=2, ops="+++&-", partial=0.1, restr=None, leaves=None):
        g = self.g
        self.tuplesets = set()
        rs = [resource(self.user, [], "users")]
        leaves = leaves or self.leaves()
        sets = {x["t"] for x in leaves if x["k"] == "ttu"}
        for r in self.res:
            qs = []
            names = [q for q in self.rels if not g.chance(partial)] or self.rels[:1]
            for q in names:
                ls = [x for x in leaves
                      if x["k"] == "this" or (x["k"] == "cu" and x["r"] in names) or (x["k"] == "ttu" and x["t"] in names)]
                t = g.tree(depth, ls, ops)
                if q in sets and g.chance(.7):
                    t = THIS
                elif g.chance(.35):
                    t = op("+", THIS, t)
                self.tuplesets |= {x["t"] for x in rules(t) if x["k"] == "ttu"}
                qs.append(relation(q, g.expr(t), restr(self) if restr else None, g.about() if g.chance(.2) else ""))
            rs.append(resource(r, qs, g.about() if g.chance(.2) else ""))
        return policy(pid, rs, g.about(), g.about(), g.attrs())

    def edge(self):
        """A relationship, mostly useful for building graphs."""
        g = self.g
        o = g.choice(self.nodes())
        x = g.random()
        if o[3] in self.tuplesets and not g.chance(.06):
            # users and wildcards have no relations to follow
            return (o, E(*g.choice(self.objects()))) if x < .8 else (o, g.choice(self.nodes()))
        if x < .42:
            return o, E(self.user, g.choice(self.uids))
        if x < .52:
            return o, W(self.user)
        if x < .92:
            return o, g.choice(self.nodes())
        if x < .94:
            return o, W(g.choice(self.res))
        return o, E(*g.choice(self.objects()))

    def edges(self, n):
        out = []
        for _ in range(n * 3):
            e = self.edge()
            if e not in out:
                out.append(e)
            if len(out) == n:
                break
        return out

    def queries(self, n=None):
        g = self.g
        us = [E(self.user, u) for u in self.uids] + [E(self.user, "stranger")]
        qs = [(o, u) for o in self.nodes() for u in us]
        if g.chance(.3):
            qs += [(o, E(*g.choice(self.objects()))) for o in self.nodes()]
        if n and len(qs) > n:
            qs = g.sample(qs, n)
        return qs


def entity_restr(w):
    g = w.g
    x = g.random()
    if x < .25:
        return {"f": "universal"}
    if x < .32:
        return {"f": "none"}
    if x < .38:
        return {"f": "set", "es": []}
    es = []
    for _ in range(g.randint(1, 3)):
        if g.chance(.5):
            es.append(["e", g.choice([w.user] + w.res)])
        else:
            es.append(["s", g.choice(w.res), g.choice(w.rels)])
    return {"f": "set", "es": es}
