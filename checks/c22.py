"""C22: queries by tag."""
import re

import common as C
import gen as G
import model as M
import pbt
import notation as N

TAGS = ["a", "b", "ab", "c-d", "x1", "tag-1", "tag-10", "all", "zeta", "no", "non", "long-tag-name-of-a-design"]
BAD = ["A", "Alpha", "1a", "a--b", "a-", "a_b", "a b", "none", "ä", "*", "a*", "(All)", "(none)", "()", "+", "-", "a+", "--a", "+-a",
       "++a", "-+a", "(all", "all)", "\"a\"", "a;b", "a.b", "nonex"]


def world(d):
    gs, low = [], set()
    for n in d.shuffled(["alpha", "Beta", "c-box", "delta", "a", "b2", "Zeta", "x_y"])[:d.int(1, 6)] + ([] if d.bool(0.97) else d.shuffled(["d%d" % i for i in range(40)])[:d.int(3, 40)]):
        g = M.Design(n, {"W": ["#"]}, ["W"])
        g.tags = d.shuffled(d.subset(TAGS, d.choice([0.15, 0.3, 0.5])))
        for _ in range(d.small(0, 2, 0.5) if not d.bool(0.03) else d.int(3, 16)):
            a = d.choice(["al", "Other", "z"]) + str(d.int(1, 50))
            if a.lower() not in low:
                low.add(a.lower())
                g.aliases.append(a)
        gs.append(g)
    return gs


def matches(g, q):
    plus = [t[1:] for t in q if t[0] == "+"]
    minus = [t[1:] for t in q if t[0] == "-"]
    plain = [t for t in q if t[0] not in "+-"]
    if any(t not in g.tags for t in plus) or any(t in g.tags for t in minus):
        return False
    return bool(plus) or "(all)" in plain or not plain or any(t in g.tags for t in plain)


def expected(gs, q):
    out = []
    for g in sorted(gs, key=lambda g: g.name.lower()):
        if matches(g, q):
            out.append(g.name)
            out += [a + " (alias)" for a in g.aliases]
    return "".join(x + "\n" for x in out)


def query_text(d, q):
    out = []
    for t in q:
        if d.bool(0.1):
            out.append(d.choice(["", " ", "  "]))
        out.append(d.choice(["", "", " ", "  "]) + t + d.choice(["", "", " ", "\t"]))
    if d.bool(0.1):
        out.append("")
    if d.bool(0.1):
        out.insert(0, "")
    return ",".join(out)


def run_query(d, ctx, cfg, s, extra=()):
    how = d.choice(["-q", "--tag-query", "--tag-query=", "--tag="] + (["-qX"] if s else []))
    args = ["-f", cfg] + list(extra)
    if how in ("-q", "--tag-query"):
        args += [how, s]
    else:
        args += [how.replace("X", "") + s]
    return args, ctx.run(args)


def query(d, ctx):
    gs = world(d)
    cfg = ctx.file("c.cfg", N.write(d, gs, eol="\n", comments=False) if d.bool(0.3) else "".join(G.config(g) for g in gs))
    tags = d.shuffled(TAGS + (["unused", "zz-top"]))[:d.weighted([(3, 1), (3, 2), (2, 3), (1, 5), (0.3, 13)])]
    q = [d.weighted([(3, ""), (2, "+"), (2, "-")]) + t for t in tags]
    if d.bool(0.25):
        q.insert(d.int(0, len(q)), "(all)")
        if d.bool(0.3):
            q = ["(all)"]
    s = query_text(d, q)
    if s == "":
        raise pbt.Discard()
    args, r = run_query(d, ctx, cfg, s)
    out = C.decode(C.ok(r, args).out)
    want = expected(gs, q)
    d.nontrivial = 0 < len([g for g in gs if matches(g, q)]) < len(gs)
    d.key = repr(q) + "".join(G.config(g) for g in gs)
    d.sample = {"query": s, "designs": {g.name: g.tags for g in gs}, "result": out.split("\n")[:-1]}
    for t in q:
        d.label({"+": "required", "-": "excluded"}.get(t[0], "(all)" if t == "(all)" else "plain"))
    if out != want:
        C.fail("wrong result of query %r" % s, ("designs", {g.name: g.tags for g in gs}.__repr__()), ("wanted", want), ("got", out))


def malformed(d, ctx):
    """Not a tag, nothing at all, or the same tag twice"""
    cfg = ctx.file("c.cfg", "BOX a\ntags (\"a\")\nsample\nx\nends\nshapes { w (\"#\") }\nelastic (w)\nEND a\n")
    k = d.choice(["tag", "twice", "empty"])
    q = [d.choice(["", "+", "-"]) + t for t in d.shuffled(TAGS)[:d.small(0, 3, 1)]]
    if k == "tag":
        b = d.choice(BAD)
        if b not in ("+", "-", "++a", "-+a", "--a", "+-a") and d.bool(0.4):
            b = d.choice("+-") + b
        q.insert(d.int(0, len(q)), b)
        msg = "not a tag"
    elif k == "twice":
        q = q or ["a"]
        t = d.choice(q).lstrip("+-")
        q.insert(d.int(0, len(q)), d.choice(["", "+", "-"]) + t)
        msg = "duplicate query expression"
    else:
        q = []
        msg = "empty tag query"
    s = query_text(d, q) if q else d.choice(["", ",", " ", ",,", " , ", "  ,  , "])
    args, r = run_query(d, ctx, cfg, s)
    d.nontrivial = True
    d.key = repr((s, args[-1]))
    d.sample = {"query": s}
    d.label(k)
    if r.code != 1 or r.out or not r.err.startswith(b"boxes: " + msg.encode()):
        C.fail("query %r should be rejected with %r: exit code %d, output %r, message %r" % (s, msg, r.code, r.out, r.err))


PARTS = [
    pbt.Part("query", query, 12000, 200000, "some designs match and some do not"),
    pbt.Part("malformed", malformed, 4000, 40000, "all (distinct queries)"),
]
ASSUMPTIONS = ["'(all)' stands by itself, without + or -"]
