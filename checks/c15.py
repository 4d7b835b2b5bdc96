"""C15: line ends."""
import common as C
import gen as G
import model as M
import pbt
from c08 import removable_design

EOLS = {"LF": "\n", "CRLF": "\r\n", "CR": "\r"}


def spelled(d, e):
    """Any letter case"""
    return "".join(ch if d.bool(0.7) else ch.lower() for ch in e)


def eol_args(d, e):
    s = spelled(d, e)
    return d.choice([["-e", s], ["-e" + s], ["--eol", s], ["--eol=" + s]])


def mixed(d, text):
    """The same text with other line ends"""
    k = d.choice(["crlf", "mixed"])
    out = []
    for l in text.split("\n")[:-1]:
        out.append(l + ("\r\n" if k == "crlf" or d.bool() else "\n"))
    return "".join(out) + text.split("\n")[-1]


def operation(d, g, cfg, tabs=True):
    """options of an operation that takes a box or text"""
    op = d.weighted([(3, "draw"), (2, "remove"), (2, "mend"), (1, "remove, -k false"), (1, "undesigned")])
    args = ["-f", cfg] + (["-d", g.name] if op != "undesigned" else [])
    if op == "remove":
        args.append("-r")
    elif op == "mend":
        args.append("-m")
    elif op == "remove, -k false":
        args += ["-r", "-k", "false"]
    return op, args


def lineends(d, ctx):
    g = removable_design(d)
    if d.bool(0.15):
        g.replace.append(("global", "[aeiou]", "<$0>"))
        g.reverse.append(("global", "[aeiou]", "-"))
    o, oargs, tabs = C.gen_options(d, align=0.3, padding=0.3, size=0.2, tabs=0.3)
    cfg = ctx.file("c.cfg", G.config(g))
    op, args = operation(d, g, cfg)
    text = C.gen_text(d, tabs, big=False)
    if d.bool(0.25):
        text = text.rstrip("\n") or "x"
    if op != "draw" and d.bool(0.85):
        r = C.ok(ctx.run(["-f", cfg] + oargs, text), oargs)
        text = C.decode(r.out)
        for i in range(d.small(0, 2, 0.4)):
            ls = text.split("\n")
            ls[d.int(0, len(ls) - 1)] = d.choice(["", "  ", "xyz"])
            text = "\n".join(ls)
    if op == "draw" or op == "mend":
        args += oargs
    elif tabs:
        args += oargs[oargs.index("-t"):]
    if max(len(l.encode()) for l in text.split("\n")) > 16300:
        raise pbt.Discard()
    pics = [("input", text.replace("\r", "\\r")), ("options", repr(args)), ("design", G.config(g))]
    base = C.decode(C.ok(ctx.run(args, text), args).out)
    pics.append(("output", base))
    # line ends of the input
    other = mixed(d, text)
    got = C.decode(C.ok(ctx.run(args, other), args).out)
    d.nontrivial = "\r" in other and bool(text.strip())
    d.key = (other, tuple(args), repr(g.given), repr(g.padding))
    d.label(op, "final line end" if text.endswith("\n") else "no final line end")
    if got != base:
        C.fail("other line ends in the input make a difference", *(pics + [("got", got.replace("\r", "\\r"))]))
    # line ends of the output
    e = d.choice(sorted(EOLS))
    ea = eol_args(d, e)
    ea = args + ea if d.bool() else ea + args
    got = C.decode(C.ok(ctx.run(ea, d.choice([text, other])), ea).out)
    d.sample = {"input": other[:200], "options": ea, "output": got[:200]}
    want = base.replace("\n", EOLS[e])
    if got != want:
        C.fail("-e %s changes more or less than the line ends" % e, *(pics + [("got", repr(got))]))
    # the final one
    if text.endswith("\n"):
        if base and not base.endswith("\n"):
            C.fail("the final line end is missing", *pics)
        if op == "draw" and not base:
            C.fail("no output", *pics)
    else:
        more = C.decode(C.ok(ctx.run(args, text + "\n"), args).out)
        if text and (more or base) and more != base + "\n":
            C.fail("not the final line end, and only that, is missing", *(pics + [("with final line end", more)]))


def empty(d, ctx):
    g = G.design(d)
    cfg = ctx.file("c.cfg", G.config(g))
    op, args = operation(d, g, cfg)
    o, oargs, tabs = C.gen_options(d)
    args = args + oargs
    if d.bool(0.4):
        args += eol_args(d, d.choice(sorted(EOLS)))
    if d.bool(0.3):
        args += [d.choice(["--color", "--no-color"])]
    r = C.ok(ctx.run(args, b"", stdin_pipe=d.bool()), args)
    d.nontrivial = True
    d.key = (tuple(args), repr(g.given))
    d.sample = {"options": args}
    d.label(op)
    if r.out:
        C.fail("output although there is no input", ("options", repr(args)), ("output", r.out))


def listings(d, ctx):
    gs = []
    for i in range(d.int(1, 3)):
        g = G.design(d, name="n%d" % i)
        g.sample = "\n".join(G.line(d, 1) or "x" for _ in range(d.int(1, 4)))
        if not g.sample.strip():
            g.sample = "x"
        g.tags = ["tag", "t%d" % i]
        gs.append(g)
    text = "".join(G.config(g) for g in gs)
    crlf = d.bool(0.3)
    cfg = ctx.file("c.cfg", text.replace("\n", "\r\n") if crlf else text)
    args = ["-f", cfg] + d.choice([["-l"], ["-l", "-d", "n0"], ["-q", "tag"], ["-q", "(all)"], ["-q", "(undoc)", "-d", "n0"]])
    if "(undoc)" in args:
        args = ["-f", cfg, "-l"]
    base = C.decode(C.ok(ctx.run(args), args).out)
    e = d.choice(sorted(EOLS))
    ea = args + eol_args(d, e)
    got = C.decode(C.ok(ctx.run(ea), ea).out)
    d.nontrivial = e != "LF"
    d.key = (text, tuple(ea))
    d.sample = {"options": ea, "listing": got[:300]}
    d.label(args[2], e)
    if got != base.replace("\n", EOLS[e]):
        C.fail("-e %s changes more or less than the line ends of the listing" % e, ("options", repr(ea)),
               ("config", text), ("LF", base), ("got", repr(got)))


PARTS = [
    pbt.Part("lineends", lineends, 8000, 350000, "there are other line ends than LF in the input, and it is not blank (distinct cases)"),
    pbt.Part("empty", empty, 1500, 50000, "all (distinct options and designs)"),
    pbt.Part("listings", listings, 1000, 30000, "the line end is not LF (distinct cases)"),
]
ASSUMPTIONS = ["single CR characters do not occur in the input (not a line end there)",
               "empty input (no line at all) gives no output"]
