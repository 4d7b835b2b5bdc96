"""C05: alignment and justification."""
import common as C
import gen as G
import model as M
import pbt


def spell(d, spec):
    """-a argument in one of its spellings. spec: list of (key, value)"""
    return "".join(k + v for k, v in spec)


def placement(c):
    """What is wrong with the places of the lines, or None"""
    m = C.measure(c)
    if m is None:
        return "box and text cannot be told apart in the output" if not c.exact() else None
    W, H, pos = m
    p, o = c.p, c.o
    hfree = W - p.maxline - p.pad[1] - p.pad[3]
    vfree = H - len(p.lines) - p.pad[0] - p.pad[2]
    if W == p.innerw and H == p.innerh:
        want = text_places(c, p.before, p.above)
    else:
        if hfree < 0 or vfree < 0:
            return "no room for the text"
        before = {"l": 0, "c": hfree // 2, "r": hfree}[o.halign] + p.pad[3]
        above = {"t": 0, "c": vfree // 2, "b": vfree}[o.valign] + p.pad[0]
        want = text_places(c, before, above)
    if want != pos:
        return "lines (number, column, row) should be at %r, but are at %r" % (want[:12], pos[:12])
    return None


def text_places(c, before, above):
    p, o = c.p, c.o
    out = []
    for i, l in enumerate(p.lines):
        if not C.norm(l):
            continue
        s = 0
        n = M.leading(l)
        core = l[n:]
        ind = M.width(l[:n])
        if o.justify:
            keep = p.indent if p.mode == "t" else 0
            room = p.maxline - M.width(core)
            if o.justify == "l":
                s = keep
            elif o.justify == "c":
                s = keep + (room - keep) // 2
                # a half column goes where it makes the line more central in the box
                if (room - keep) % 2 and (p.after - p.before) - keep == 1:
                    s += 1
            else:
                s = room
            ind = 0
        out.append((i, before + ind + s + C.lead(core), above + i))
    return out


def gen_align(d):
    """options and -a arguments"""
    o = M.Opts()
    spec = []
    for _ in range(d.small(1, 5, 2)):
        k = d.choice(["l", "c", "r", "hl", "hc", "hr", "vt", "vc", "vb", "jl", "jc", "jr"])
        spec.append(k)
    for k in spec:
        if len(k) == 1:
            o.halign, o.valign, o.justify = k, "c", k
        else:
            setattr(o, {"h": "halign", "v": "valign", "j": "justify"}[k[0]], k[1])
    s = "".join(spec)
    return o, [[d.choice(["-a", "--align"]), s], ["-a" + s], ["--align=" + s]][d.int(0, 2)]


def align(d, ctx):
    g = G.design(d, alpha=C.alpha(d), open_p=0.2, multi=0.3)
    o, args = gen_align(d)
    plain, pargs = M.Opts(), []
    for gen, prob in ((lambda oo, aa: G.opt_padding(d, oo, aa, 5), 0.4), (lambda oo, aa: G.opt_size(d, oo, aa), 0.6),
                      (lambda oo, aa: G.opt_indent(d, oo, aa), 0.35)):
        if d.bool(prob):
            gen(plain, pargs)
    o.padding, o.reqwidth, o.reqheight, o.indent = plain.padding, plain.reqwidth, plain.reqheight, plain.indent
    text = C.gen_text(d, False, big=d.bool(0.1))
    c = C.Drawn(g, o, args + pargs, text).run(ctx)
    base = C.Drawn(g, plain, pargs, text).run(ctx)
    d.nontrivial = c.rows != base.rows
    d.key = (tuple(args), tuple(pargs), repr(g.given), text)
    d.sample = {"options": c.args, "input": text[:200], "output": "\n".join(c.rows)[:500]}
    d.label("halign " + o.halign, "valign " + o.valign, "justify " + (o.justify or "none"))
    if [C.box_only(r) for r in c.rows] != [C.box_only(r) for r in base.rows]:
        C.fail("alignment changes the box itself", ("without", base.rows), *c.pics())
    bad = placement(c)
    if bad:
        C.fail(bad, *c.pics())
    # no line may change
    a = [C.text_only(r).strip(" ") for r in c.rows if C.text_only(r)]
    b = [C.norm(l).strip(" ") for l in c.p.lines if C.norm(l)]
    if a != b:
        C.fail("alignment changes the text", *c.pics())


PARTS = [
    pbt.Part("align", align, 9000, 400000, "the alignment makes a difference (distinct options, shapes, text)"),
]
ASSUMPTIONS = ["designs whose opposite sides can be made equally long"]
