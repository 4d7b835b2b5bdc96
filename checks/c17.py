"""C17: notation of the configuration."""
import common as C
import gen as G
import model as M
import notation as N
import pbt

PLAIN_EXTRA = "\"'\\#$%{}()"


def full_design(d, name="gen", **kw):
    al = d.choice([G.Alpha(), G.Alpha(extra=PLAIN_EXTRA), G.Alpha(G.BOXNARROW, G.BOXWIDE), G.Alpha("\"\\'", "")])
    return N.decorate(d, G.design(d, name=name, alpha=al, **kw))


def outputs(ctx, cfgtext, name, text, args):
    """Everything observable of a design"""
    cfg = ctx.file("c.cfg", cfgtext)
    out = {}
    base = ["-f", cfg, "-d", name]
    for how, a in (("draw", args), ("details", ["-l"]), ("remove", ["-r"]), ("mend", ["-m"])):
        r = ctx.run(base + a, text if how == "draw" else out["draw"].out if how != "details" else b"")
        out[how] = r
        if r.code != 0 or r.err:
            C.fail("%s: exit code %d, message: %s" % (how, r.code, r.err.decode("utf-8", "replace")[:300]), ("config", cfgtext))
    return {k: v.out for k, v in out.items()}


def notation(d, ctx):
    g = full_design(d)
    g.aliases = d.subset(["genal", "other-name"], 0.3)
    o, args, _ = C.gen_options(d, align=0.2, padding=0.1, size=0.2, indent=0.1, tabs=0)
    text = G.text(d, 1, punct=True, maxlines=5)
    k = d.small(0, 3, 0.7)
    oth = [full_design(d, "o%d" % i) for i in range(k)]
    at = d.int(0, k)
    one = G.config(g)
    two = N.write(d, oth[:at] + [g] + oth[at:])
    a = outputs(ctx, one, "gen", text, args)
    b = outputs(ctx, two, d.choice(["gen", "GEN"] + g.aliases), text, args)
    d.nontrivial = True
    d.key = two
    d.sample = {"config": two[:600]}
    d.label("%d other designs" % k)
    for x in a:
        if a[x] != b[x]:
            C.fail("%s: different notations of a design differ in their results" % x, ("one", one), ("two", two),
                   ("text", text), ("options", repr(args)), ("with one", a[x]), ("with two", b[x]))


def whole_file(d, ctx):
    """Listing of a whole file in two notations"""
    n = d.count(1, 4, 12, 0.03)
    gs = []
    for name, aliases in N.distinct_names(d, n):
        g = full_design(d, name)
        g.aliases = aliases
        gs.append(g)
    one = "".join(G.config(g) for g in gs)
    two = N.write(d, gs)
    text = G.text(d, 1, maxlines=3)
    res = []
    for t in (one, two):
        cfg = ctx.file("c.cfg", t)
        r = []
        for a in (["-l"], ["-q", "(all)"], [], ["-q", "alpha,-beta"], ["-r"]):
            x = ctx.run(["-f", cfg] + a, text)
            if (x.err or x.code) and a != ["-r"]:       # the design may not be found out
                C.fail("exit code %d, message: %s" % (x.code, x.err.decode("utf-8", "replace")[:300]), ("config", t),
                       ("options", repr(a)))
            r.append(b"exit code %d\n" % x.code + x.out)
        res.append(r)
    d.nontrivial = True
    d.key = two
    d.sample = {"config": two[:600]}
    for a, b in zip(*res):
        if a != b:
            C.fail("different notations of a configuration differ in their results", ("one", one), ("two", two),
                   ("with one", a), ("with two", b))


def strings(d, ctx):
    """Shape characters are what is between the delimiters, whatever they are"""
    pool = "".join(chr(i) for i in range(33, 127)) + " äß─漢"
    s = "".join(d.choice(pool) for _ in range(d.int(1, 8)))
    if not s.strip() or s[0] == " ":
        s = "x" + s
    delim = d.choice(N.SDELIM)
    esc = d.choice([e for e in N.ESCAPES if e != delim])
    g = M.Design("gen", {"W": [s]}, ["W"])
    change = d.bool(0.85)
    if not change:
        delim, esc = '"', "\\"
    cfgtext = G.config(g, delim, esc)
    lead = d.choice(["", "BOX other\ndelim $'\nsample\n'\nends\nshapes { w ('$'$$') }\nelastic (w)\nEND other\n"])
    cfg = ctx.file("c.cfg", lead + cfgtext)
    a = ["-f", cfg, "-d", "gen"]
    text = G.word(d, 0) + "\n"
    out = C.decode(C.ok(ctx.run(a, text), a).out)
    d.nontrivial = delim in s or esc in s or change
    d.key = (s, delim, esc)
    d.sample = {"string": s, "delimiter": delim, "escape": esc, "out": out}
    if out != s + text:
        C.fail("the string is not taken literally", ("config", cfgtext), ("string", s), ("output", out))


PARTS = [
    pbt.Part("notation", notation, 6000, 150000, "all (distinct configuration texts)"),
    pbt.Part("file", whole_file, 2500, 60000, "all (distinct configuration texts)"),
    pbt.Part("strings", strings, 8000, 150000, "the string contains delimiter or escape character, or they were changed"),
]
ASSUMPTIONS = ["samples begin and end with a visible line (blank lines around are dropped)"]
