"""Generators: text, designs, option sets; and the printer for the config file syntax."""
import unicodedata

import model as M

WORD = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
NARROW = "äöüßéñÆøłŽ€дЖλΩ"
WIDE = "你好世界漢字かなテ한글😀🎉🚀"
PUNCT = ",.;:!?'\"()[]{}<>|/\\+-*=#~^_@$%&`"
# characters boxes are made of when text and box must not be mixed up
BOXCH = "+-|*/\\=#~^<>[]{}()!@$%&_:;.,`'\""
BOXNARROW = "─│┌┐└┘├┤═║╔╗╚╝▀▄█░▒▓"
BOXWIDE = "＋－｜＊＝"


def chars(d, level):
    """A character for text. level 0: ascii letters; 1: any narrow; 2: wide as well"""
    if level == 0:
        return d.choice(WORD)
    k = d.weighted([(6, 0), (2, 1), (2 if level > 1 else 0, 2), (0.25, 3)])
    if k == 3:
        return rare(d, level)
    return d.choice((WORD, NARROW, WIDE)[k])


_RARE = {}
# these look like a blank, tab, line end or escape character if only the lower bits are considered
LIKE_BLANK = [chr(c) for c in [b + x for b in (0x100, 0x400, 0x10000, 0x20000) for x in (0x20, 0x0a, 0x0d, 0x09, 0x1b)] + [0x22000, 0x23000, 0x21680, 0x12003]
              if unicodedata.category(chr(c))[0] in "LNPS" and M.cw(chr(c)) > 0]


def rare(d, level):
    """Any letter, digit, symbol or punctuation mark there is, some with a combining mark"""
    if not _RARE:
        for c in range(0xa1, 0x30000):
            cat = unicodedata.category(chr(c))
            if chr(c) in BOXNARROW + BOXWIDE:
                continue
            if cat[0] in "LNPS" or cat in ("Mn", "Me"):
                w = M.cw(chr(c))
                if cat[0] == "M" and w == 0 or cat[0] != "M" and w > 0:
                    # by blocks, so that the ideographs don't take it all
                    _RARE.setdefault(w, {}).setdefault(c >> 8, []).append(chr(c))
        for w in _RARE:
            _RARE[w] = list(_RARE[w].values())
    one = lambda w: d.choice(d.choice(_RARE[w]))
    k = d.int(0, 3)
    if k == 3:
        c = d.choice(LIKE_BLANK)
        if M.cw(c) == 1 or level > 1:
            return c
    if k == 0:
        return one(1)
    if k == 1 and level > 1:
        return one(2)
    return d.choice(WORD + NARROW) + one(0)


def word(d, level=0, lo=1, hi=9):
    return "".join(chars(d, level) for _ in range(d.int(lo, hi)))


def line(d, level=0, maxwords=5, lead=True, tabs=False, punct=False, gaps=True):
    """One line of text, may be blank"""
    k = d.weighted([(10, "words"), (2, "blank"), (1, "spaces")])
    if k == "blank":
        return ""
    if k == "spaces":
        return " " * d.int(1, 5) if not tabs else d.choice(["\t", " \t", "   "])
    out = ""
    if lead and d.bool(0.45):
        out += " " * d.small(1, 14, 3)
        if tabs and d.bool(0.5):
            out = d.choice(["\t", "\t\t", " \t", "\t ", "   \t", "\t\t ", "\t\t\t", "  \t \t"])
    n = d.small(1, maxwords, 2)
    for i in range(n):
        if i:
            if tabs and d.bool(0.25):
                out += "\t"
            else:
                out += " " * (d.small(1, 6, 0.6) if gaps else 1)
        out += word(d, level)
        if punct and d.bool(0.3):
            out += d.choice(PUNCT)
    if d.bool(0.15):
        out += d.choice([" ", "   ", "\t", "  \t"]) if tabs else " " * d.int(1, 4)
    return out


def text(d, level=0, maxlines=8, final_nl=None, nonblank=False, scale=0.03, **kw):
    """A text of at least one line; returns the string fed to boxes. Some have many lines, long lines, or are deeply indented."""
    n = 1 + d.small(0, maxlines - 1, 2.2)
    big = d.choice(["lines", "words", "indent"]) if maxlines > 2 and d.bool(scale) else ""
    if big == "lines":
        n = d.int(20, 160)
    elif big == "words":
        kw = dict(kw, maxwords=d.int(10, 60))
    lines = [line(d, level, **kw) for _ in range(n)]
    if big == "indent" and kw.get("lead", True):
        pre = "\t" * d.int(3, 12) if kw.get("tabs") and d.bool() else " " * d.int(15, 130)
        lines = [pre + l for l in lines]
    if big:
        d.label("large text: " + big)
    if nonblank and not any(l.strip() for l in lines):
        lines[d.int(0, n - 1)] = word(d, level)
    s = "\n".join(lines)
    if final_nl is None:
        final_nl = not d.bool(0.12)
    if final_nl or s == "" or s.endswith("\n"):
        s += "\n"
    return s


class Alpha:
    """Alphabet for shapes: a set of narrow and wide characters."""

    def __init__(self, narrow=BOXCH, wide="", extra=""):
        self.narrow, self.wide = narrow + extra, wide


def shape_line(d, w, alpha, blanks=0.12):
    out = ""
    left = w
    while left > 0:
        if alpha.wide and left >= 2 and d.bool(0.15):
            out += d.choice(alpha.wide)
            left -= 2
        elif d.bool(blanks):
            out += " "
            left -= 1
        else:
            out += d.choice(alpha.narrow)
            left -= 1
    return out


def shape(d, w, h, alpha, blanks=0.12):
    return [shape_line(d, w, alpha, blanks) for _ in range(h)]


def ensure_visible(d, lines, alpha):
    if all(M.is_blank(l) for l in lines):
        lines[0] = d.choice(alpha.narrow) + lines[0][1:]
    return lines


def side_layout(d):
    """Which of the three middle shapes are there, and which of them are elastic: lists of positions 0..2"""
    return d.weighted([
        (5, ([1], [1])), (2, ([0], [0])), (1, ([2], [2])),
        (2, ([0, 1], [1])), (1, ([0, 1], [0])), (1, ([1, 2], [1])), (1, ([1, 2], [2])),
        (1, ([0, 2], [0])), (1, ([0, 2], [2])),
        (2, ([0, 1, 2], [1])), (1, ([0, 1, 2], [0])), (1, ([0, 1, 2], [2])),
        (2, ([0, 1, 2], [0, 2])),
    ])


def design(d, name="gen", alpha=None, blanks=0.1, maxw=3, maxh=2, sides=None, open_p=0.25, multi=0.35, padding=True,
           indent=True, blank_shape_p=0.08, elastic_size=True, any_sizes=0.0):
    """
    A valid design whose opposite sides can always be made equally long (at least one elastic shape of size 1 on one
    of them; any_sizes: how often elastic shapes may be of any size, so that this may be impossible). sides: None or a
    set of the sides that exist.
    """
    alpha = alpha or Alpha()
    large, huge = d.bool(0.06), False
    anys = d.bool(any_sizes)
    if large:
        maxw, maxh = max(maxw, 14), max(maxh, 9)
        if d.bool(0.2):
            maxw, maxh, huge = 45, 28, True
    if sides is None:
        sides = [s for s in range(4) if not d.bool(open_p)]
        if not sides:
            sides = [M.LEFT]
    sizes_h = {}
    grow = 20 if huge else 6 if large else 1
    ht = d.small(1, maxh, 0.5 * grow)
    hb = d.small(1, maxh, 0.5 * grow)
    wl = d.small(1, maxw, 0.8 * grow)
    wr = d.small(1, maxw, 0.8 * grow)
    shapes, el = {}, []
    lens = {}
    for side in sorted(sides):
        pos, elastics = side_layout(d) if d.bool(multi) else ([1], [1])
        names = M.SIDES[side]
        for p in pos:
            n = names[1 + p]
            k = d.small(1, 12, 4) if large else d.small(1, 3, 0.6)
            if p in elastics:
                k = d.int(1, 6) if anys else d.small(1, 4 if large else 2, 0.3 * grow) if elastic_size else 1
                el.append(n)
            lens[n] = k
    # solvable: of two opposite sides, one has only elastic shapes of size 1 (or is open, i.e. elastic of size 1)
    for a, b in ((0, 2), (1, 3)):
        if a in sides and b in sides:
            ea = [n for n in M.SIDES[a][1:4] if n in el]
            eb = [n for n in M.SIDES[b][1:4] if n in el]
            if not anys and max(lens[n] for n in ea) > 1 and max(lens[n] for n in eb) > 1:
                for n in (ea if d.bool() else eb):
                    lens[n] = 1
    for side in sides:
        names = M.SIDES[side]
        for n in names[1:4]:
            if n in lens:
                if side == M.TOP:
                    w, h = lens[n], ht
                elif side == M.BOTTOM:
                    w, h = lens[n], hb
                elif side == M.LEFT:
                    w, h = wl, lens[n]
                else:
                    w, h = wr, lens[n]
                if d.bool(blank_shape_p):
                    shapes[n] = [" " * w] * h
                else:
                    shapes[n] = shape(d, w, h, alpha, blanks)
    for c, hs, vs in (("NW", M.TOP, M.LEFT), ("NE", M.TOP, M.RIGHT), ("SE", M.BOTTOM, M.RIGHT),
                      ("SW", M.BOTTOM, M.LEFT)):
        # a corner belongs to both sides; it may be left out when one of them is open
        h = (ht if hs == M.TOP else hb) if hs in sides else 1
        w = (wl if vs == M.LEFT else wr) if vs in sides else 1
        if hs in sides and vs in sides:
            if d.bool(0.93):
                shapes[c] = shape(d, w, h, alpha, blanks)
    if all(M.is_blank(l) for v in shapes.values() for l in v):
        n = sorted(shapes, key=M.ALL.index)[0]
        shapes[n] = ensure_visible(d, list(shapes[n]), alpha)
    pad = [0, 0, 0, 0]
    if padding and d.bool(0.5):
        pad = [d.small(0, 20, 6) if large else d.small(0, 4, 0.7) for _ in range(4)]
    ind = None
    if indent and d.bool(0.3):
        ind = d.choice(["box", "text", "none"])
    g = M.Design(name, shapes, el, pad, ind)
    if not M.valid(g.given, g.elastic_given):
        # can only come from corner generation in odd combinations; make it plain
        g = fallback(name, alpha, pad, ind)
        d.label("fallback design")
    return g


def fallback(name, alpha, pad, ind):
    c = alpha.narrow[0]
    return M.Design(name, {n: [c] for n in ("NW", "N", "NE", "E", "SE", "S", "SW", "W")}, ["N", "E", "S", "W"], pad, ind)


# --- config syntax ----------------------------------------------------------------------------------------------

def quote(s, delim='"', esc="\\"):
    out = ""
    for ch in s:
        if ch in (delim, esc):
            out += esc
        out += ch
    return delim + out + delim


def config(g, delim='"', esc="\\"):
    """Plain config text of one design"""
    out = ["BOX " + ", ".join([g.name] + g.aliases)]
    if g.author is not None:
        out.append("author " + quote(g.author))
    if g.designer is not None:
        out.append("designer " + quote(g.designer))
    if g.tags:
        out.append("tags (" + ", ".join(quote(t) for t in g.tags) + ")")
    if g.indent:
        out.append("indent " + quote(g.indent))
    out.append("sample\n" + g.sample + "\nends")
    if delim != '"' or esc != "\\":
        out.append("delim " + esc + delim)
    q = lambda s: quote(s, delim, esc)
    out.append("shapes {")
    for n in M.ALL:
        if n in g.given:
            out.append("  %s (%s)" % (n.lower(), ", ".join(q(l) for l in g.given[n])))
    out.append("}")
    out.append("elastic (" + ", ".join(n.lower() for n in M.ALL if n in g.elastic_given) + ")")
    for mode, a, b in g.replace:
        out.append("replace %s %s with %s" % (mode, q(a), q(b)))
    for mode, a, b in g.reverse:
        out.append("reverse %s %s to %s" % (mode, q(a), q(b)))
    if any(g.padding):
        out.append("padding { top %d right %d bottom %d left %d }" % tuple(g.padding))
    out.append("END " + g.name)
    return "\n".join(out) + "\n"


# --- options ----------------------------------------------------------------------------------------------------

def opt_align(d, o, args):
    spec = ""
    if d.bool(0.25):
        k = d.choice("lcr")
        spec += k
        o.halign, o.valign, o.justify = k, "c", k
    for key, vals, attr in (("h", "lcr", "halign"), ("v", "tcb", "valign"), ("j", "lcr", "justify")):
        if d.bool(0.5):
            v = d.choice(vals)
            spec += key + v
            setattr(o, attr, v)
    if spec:
        args += ["-a", spec]


def opt_padding(d, o, args, hi=12):
    spec = ""
    if d.bool(0.03):
        hi = 150
    names = {"a": [0, 1, 2, 3], "h": [1, 3], "v": [0, 2], "t": [0], "r": [1], "b": [2], "l": [3]}
    for _ in range(d.small(1, 4, 1.2)):
        k = d.choice("ahvtrbl")
        n = d.small(0, hi, 2 if hi <= 12 else 40)
        spec += "%s%d" % (k, n)
        for i in names[k]:
            o.padding[i] = n
    args += ["-p", spec]


def opt_size(d, o, args, hiw=60, hih=20):
    k = d.weighted([(3, "both"), (2, "w"), (2, "h")])
    if d.bool(0.04):
        hiw, hih = 400, 160
    w = d.int(1, hiw)
    h = d.int(1, hih)
    if k == "both":
        o.reqwidth, o.reqheight = w, h
        args += ["-s", "%dx%d" % (w, h)]
    elif k == "w":
        o.reqwidth = w
        args += ["-s", str(w)]
    else:
        o.reqheight = h
        args += ["-s", "x%d" % h]


def opt_indent(d, o, args):
    v = d.choice(["box", "text", "none"])
    o.indent = v[0]
    args += ["-i", v[:d.int(1, len(v))]]


def opt_tabs(d, o, args, modes="eku"):
    o.tabstop = d.choice([8, 4, 2, 3, 1, 5, 16])
    o.tabexp = d.choice(modes)
    args += ["-t", "%d%s" % (o.tabstop, o.tabexp if (o.tabexp != "e" or d.bool()) else "")]
