"""C09: autodetection of the design."""
import common as C
import gen as G
import model as M
import pbt
from c08 import moved, original, strip_blank
from c13 import colour_design, each, plain

SETS = ["+-|*/\\=#~^<>", "[]{}()!@$%&_", ":;.,`'\"", "─│┌┐└┘├┤", "═║╔╗╚╝", "▀▄█░▒▓", "＋－｜＊＝"]


def recognisable(g):
    """There is something to see at the left or the right of the lines (other sides are not always long enough)"""
    def seen(side):
        return any(not M.is_blank(x) for n in side for x in g.shapes.get(n, []))
    return seen(["WNW", "W", "WSW"]) or seen(["ENE", "E", "ESE"])


def family(d, without=""):
    """Designs made of different characters"""
    n = d.int(2, 5)
    sets = d.shuffled(SETS[:6])[:n]
    if d.bool(0.06):
        # many designs
        sets = d.shuffled(SETS[:6] + ["".join(chr(0x2801 + 6 * i + j) for j in range(6)) for i in range(d.int(5, 40))])
    out = []
    for i, cs in enumerate(sets):
        cs = "".join(c for c in cs if c not in without)
        al = G.Alpha(cs, "＋－｜" if d.bool(0.1) and i == 0 else "")
        g = None
        for _ in range(4):
            g = G.design(d, name="d%d" % i, alpha=al, blanks=d.choice([0, 0, 0.15]), blank_shape_p=0.03)
            if C.removable(g) and recognisable(g):
                break
        else:
            g = G.fallback("d%d" % i, al, [0, 0, 0, 0], None)
        out.append(g)
    return out


def detect(d, ctx):
    fam = family(d)
    cfg = ctx.file("c.cfg", "".join(map(G.config, fam)))
    k = d.int(0, len(fam) - 1)
    g = fam[k]
    o, args = M.Opts(), []
    if d.bool(0.3):
        G.opt_indent(d, o, args)
    level = d.choice([0, 1, 2])
    text = G.text(d, level, maxlines=d.choice([2, 5, 10]), nonblank=True)
    p = M.draw(g, o, text)
    dargs = ["-f", cfg, "-d", g.name] + args
    box = C.ok(ctx.run(dargs, text), dargs)
    rows, _ = C.rows_of(box)
    pic, shift = C.decode(box.out), 0
    if d.bool(0.3):
        pic, shift = moved(d, g, pic, o.indent or g.mode())
    rest = list(args)
    if d.bool(0.4):
        rest += [d.choice(["-k", "-k"]), d.choice(["true", "false"])]
    named = ["-f", cfg, "-r", "-d", g.name] + rest
    auto = ["-f", cfg, "-r"] + rest
    a = C.ok(ctx.run(named, pic), named)
    b = ctx.run(auto, pic)
    d.nontrivial = True
    d.key = (text, tuple(args), k, repr([x.given for x in fam]))
    d.sample = {"box": "\n".join(rows)[:300], "designs": len(fam), "place": k}
    d.label("place %d of %d" % (k, len(fam)) if len(fam) < 6 else "many designs")
    pics = (("config", "".join(map(G.config, fam))), ("design", g.name), ("box", pic.split("\n")), ("with -d", C.decode(a.out)),
            ("without", C.decode(b.out) + C.decode(b.err)))
    if b.code != 0:
        C.fail("the design is not recognised", *pics)
    if a.out != b.out:
        C.fail("removing without -d gives another result than with -d", *pics)
    want = strip_blank([" " * shift + l if l else l for l in original(text, o, o.indent or g.mode())])
    if want != strip_blank([C.norm(x) for x in M.rows_of(C.decode(b.out))[0]]):
        C.fail("the text is not given back", *pics)


def mend(d, ctx):
    """-m uses the detected design, too"""
    fam = family(d)
    cfg = ctx.file("c.cfg", "".join(map(G.config, fam)))
    g = d.choice(fam)
    text = G.text(d, d.choice([0, 1, 2]), maxlines=5, nonblank=True)
    dargs = ["-f", cfg, "-d", g.name]
    box = C.ok(ctx.run(dargs, text), dargs)
    args = []
    o = M.Opts()
    if d.bool(0.4):
        G.opt_padding(d, o, args, 4)
    if d.bool(0.4):
        G.opt_size(d, o, args)
    if d.bool(0.4):
        G.opt_align(d, o, args)
    if d.bool(0.3):
        G.opt_indent(d, o, args)
    named = ["-f", cfg, "-m", "-d", g.name] + args
    auto = ["-f", cfg, "-m"] + args
    a, b = C.ok(ctx.run(named, box.out), named), ctx.run(auto, box.out)
    d.nontrivial = True
    d.key = (text, tuple(args), repr([x.given for x in fam]))
    d.sample = {"box": C.decode(box.out)[:300], "options": args, "mended": C.decode(b.out)[:300]}
    if b.code or a.out != b.out:
        C.fail("mending without -d gives another result than with -d", ("config", "".join(map(G.config, fam))),
               ("design", g.name), ("options", repr(args)), ("box", C.decode(box.out)), ("with -d", C.decode(a.out)),
               ("without", C.decode(b.out) + C.decode(b.err)))


def corners(d, ctx):
    """Designs which differ only in their corners"""
    al = G.Alpha(d.choice(SETS[:3]))
    other = d.shuffled(SETS[3:6])
    names = ["NW", "NE", "SE", "SW"]
    for _ in range(6):
        g = G.design(d, name="da", alpha=al, blanks=d.choice([0, 0.1]), blank_shape_p=0)
        if C.removable(g) and all(n in g.given and not any(ch in M.WS for l in g.given[n] for ch in l) for n in names):
            break
    else:
        g = G.fallback("da", al, [0, 0, 0, 0], None)
        if not all(n in g.given for n in names):
            raise pbt.Discard("open sides")
    fam = [g]
    for i, cs in enumerate(other[:d.int(1, 3)]):
        which = d.subset(names) or [d.choice(names)]
        given = {n: ["".join(d.choice(cs) for _ in l) for l in v] if n in which else v for n, v in g.given.items()}
        fam.append(M.Design("d" + "bcd"[i], given, g.elastic_given, g.padding, g.indent))
    fam = d.shuffled(fam)
    cfg = ctx.file("c.cfg", "".join(map(G.config, fam)))
    g = d.choice(fam)
    o, args = M.Opts(), []
    if d.bool(0.3):
        G.opt_indent(d, o, args)
    text = G.text(d, d.choice([0, 1, 2]), maxlines=d.choice([2, 5]), nonblank=True)
    dargs = ["-f", cfg, "-d", g.name] + args
    box = C.ok(ctx.run(dargs, text), dargs)
    how = d.choice(["-r", "-r", "-m"])
    a = C.ok(ctx.run(["-f", cfg, how, "-d", g.name] + args, box.out), dargs)
    b = ctx.run(["-f", cfg, how] + args, box.out)
    d.nontrivial = True
    d.key = (text, tuple(args), g.name, repr([x.given for x in fam]))
    d.sample = {"box": C.decode(box.out)[:300], "designs": len(fam), "how": how}
    d.label("%d designs" % len(fam), how)
    if b.code or a.out != b.out:
        C.fail("%s without -d gives another result than with -d" % how, ("config", "".join(map(G.config, fam))),
               ("design", g.name), ("box", C.decode(box.out)), ("with -d", C.decode(a.out)),
               ("without", C.decode(b.out) + C.decode(b.err)))


def coloured(d, ctx):
    """Coloured designs, boxes without their colours, boxes coloured as a whole"""
    fam = [colour_design(d, g, d.choice(["neat", "each"])) if d.bool(0.5) else g for g in family(d, "[;")]     # colour sequences are made of these
    cfg = ctx.file("c.cfg", "".join(map(G.config, fam)))
    g = d.choice(fam)
    col = "\x1b" in "".join(l for v in g.given.values() for l in v)
    kind = d.choice(["as drawn", "without colours"]) if col else d.choice(["as drawn", "lolcat"])
    text = G.text(d, d.choice([0, 1, 2]), maxlines=5, nonblank=True)
    dargs = ["-f", cfg, "-d", g.name, "--no-color" if kind == "without colours" else "--color"]
    box = C.decode(C.ok(ctx.run(dargs, text), dargs).out)
    if kind == "lolcat":
        if d.bool(0.4):
            box, _ = moved(d, g, box, "t")
        box = "\n".join(each(d, l) for l in box.split("\n"))
    how = [d.choice(["-r", "-r", "-m"]), d.choice(["--color", "--no-color"])]
    a = C.ok(ctx.run(["-f", cfg, "-d", g.name] + how, box), dargs)
    b = ctx.run(["-f", cfg] + how, box)
    d.nontrivial = "\x1b" in box or col
    d.key = (text, g.name, kind, repr([x.given for x in fam]))
    d.sample = {"box": box[:300], "kind": kind, "options": how}
    d.label(kind if col or kind == "lolcat" else "no colours")
    if b.code or a.out != b.out:
        C.fail("%s without -d gives another result than with -d" % how, ("config", "".join(map(G.config, fam)).replace("\x1b", "\\e")),
               ("design", g.name), ("kind", kind), ("box", box.replace("\x1b", "\\e")), ("with -d", C.decode(a.out).replace("\x1b", "\\e")),
               ("without", (C.decode(b.out) + C.decode(b.err)).replace("\x1b", "\\e")))
    if how[0] == "-r":
        want = strip_blank(original(text, M.Opts(), g.mode()))
        if want != strip_blank([C.norm(plain(x)) for x in M.rows_of(C.decode(b.out))[0]]):
            C.fail("the text is not given back", ("config", G.config(g).replace("\x1b", "\\e")), ("box", box.replace("\x1b", "\\e")),
                   ("wanted", want), ("got", C.decode(b.out).replace("\x1b", "\\e")))


def nothing(d, ctx):
    """Text without any box"""
    fam = family(d)
    cfg = ctx.file("c.cfg", "".join(map(G.config, fam)))
    level = d.choice([0, 1, 2])
    text = G.text(d, level, nonblank=True)
    args = ["-f", cfg, d.choice(["-r", "-m", "--remove", "--mend"])]
    r = ctx.run(args, text)
    d.nontrivial = True
    d.key = (text, repr([x.given for x in fam]))
    d.sample = {"text": text[:200], "stderr": C.decode(r.err)}
    if r.code != 1 or r.out or not r.err.strip():
        C.fail("without any box, removal should fail with a message: exit code %d, stdout %r, stderr %r"
               % (r.code, r.out[:200], r.err), ("config", "".join(map(G.config, fam))), ("text", text))


PARTS = [
    pbt.Part("detect", detect, 4000, 250000, "a box was drawn and removed (distinct text, designs, place)"),
    pbt.Part("mend", mend, 2000, 100000, "a box was drawn and mended (distinct text, designs)"),
    pbt.Part("corners", corners, 2000, 100000, "a box was drawn and removed or mended (distinct text, designs)"),
    pbt.Part("coloured", coloured, 2500, 150000, "there are colours in the box or its design (distinct text, designs)"),
    pbt.Part("nothing", nothing, 2500, 100000, "a text without box (distinct text, designs)"),
]
ASSUMPTIONS = ["designs made of disjoint sets of characters, none of which is in the text"]
