"""Shared by the checks: running a generated drawing, taking its output apart."""
import gen as G
import model as M
from pbt import Violation, Discard  # noqa: F401


def fail(msg, *pics):
    for name, p in pics:
        if isinstance(p, bytes):
            p = p.decode("utf-8", "backslashreplace")
        lines = p.split("\n") if isinstance(p, str) else p
        msg += "\n--- %s:\n%s" % (name, "\n".join(l if len(l) < 200 else l[:150] + " ... " + l[-30:] for l in lines))
    raise Violation(msg)


def ok(r, args=(), err_ok=False):
    """The run succeeded silently."""
    if r.code != 0:
        raise Violation("exit code %d for %r; stderr %r" % (r.code, list(args), r.err[-400:]))
    if r.err and not err_ok:
        raise Violation("message on stderr although all is well, for %r: %r" % (list(args), r.err[-400:]))
    return r


ALPHAS = [G.Alpha(), G.Alpha(G.BOXNARROW, G.BOXWIDE), G.Alpha(G.BOXCH, G.BOXWIDE)]


def alpha(d, wide=True):
    return d.choice(ALPHAS if wide else ALPHAS[:1])


def decode(b, what="output"):
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Violation("%s is not valid UTF-8: %s in %r" % (what, e, b[:300]))


def rows_of(r, eol="\n"):
    return M.rows_of(decode(r.out), eol)


def cells(row):
    """Columns of a row: one entry per column; a wide character is followed by None."""
    out = []
    for ch in row:
        k = M.cw(ch)
        if k == 0:
            if out:
                out[-1 if out[-1] is not None else -2] += ch
            else:
                out.append(ch)
            continue
        out.append(ch)
        out.extend([None] * (k - 1))
    return out


class _Erase(dict):
    def __init__(self, keep):
        self.keep = keep

    def __missing__(self, o):
        ch = chr(o)
        v = self[o] = o if self.keep(ch) and (ch == "\t" or not M.blank(ch)) else " " * M.cw(ch)
        return v


BOXSET = set(G.BOXCH + G.BOXNARROW + G.BOXWIDE)


def is_text(ch):
    return ch not in BOXSET and ch != " "


def is_boxch(ch):
    return ch in BOXSET


_NORM = _Erase(lambda c: True)
_KEEPTEXT, _KEEPBOX = _Erase(is_text), _Erase(lambda c: not is_text(c))


def norm(s):
    """Any blank as plain ones; right-trimmed. (As indentation, unusual blanks may be replaced by plain ones.)"""
    return s.translate(_NORM).rstrip(M.WS)


def lead(s):
    """columns before the first visible character"""
    s = s.translate(_NORM)
    return len(s) - len(s.lstrip(" "))


def text_only(row):
    """Row with all characters of boxes replaced by blanks of the same width; right-trimmed."""
    return row.translate(_KEEPTEXT).rstrip(" ")


def box_only(row):
    """The other way round."""
    return row.translate(_KEEPBOX).rstrip(" ")


class Drawn:
    """A generated drawing and what came out of it"""

    def __init__(self, g, o, args, text):
        self.g, self.o, self.args, self.text = g, o, args, text
        self.p = M.draw(g, o, text)

    def run(self, ctx, extra=(), name="c.cfg", prefix="", suffix=""):
        cfg = ctx.file(name, prefix + G.config(self.g) + suffix)
        self.r = ok(ctx.run(["-f", cfg] + list(self.args) + list(extra), self.text), self.args)
        self.rows, self.ended = rows_of(self.r)
        return self

    def exact(self):
        """As predicted?"""
        return M.same_rows(self.p.rows, self.rows) and (
            self.ended == self.p.final_nl or (self.p.rows and M.is_blank(self.p.rows[-1])) or not self.p.rows)

    def untabbed(self):
        if self.o.tabexp == "e":
            return self.rows
        return [M.expand(r, self.o.tabstop) if "\t" in r else r for r in self.rows]

    def pics(self):
        return ("input", self.text), ("options", repr(self.args)), ("design", G.config(self.g)), \
            ("expected", self.p.rows), ("got", self.rows)


def outline_candidates(d):
    """
    All outlines (rows of box characters, text erased) that are made by the rules from the design, as (W, H) for
    which d.rows match, or None. A row is compared after erasing text and trailing blanks.
    """
    g = d.g
    rows = [box_only(r) for r in d.untabbed()]
    ind = d.p.indent if d.p.mode == "b" else 0
    for r in rows:
        if r.strip() and not r.startswith(" " * ind):
            return None
    rows = [r[ind:] for r in rows]
    lw = 0 if g.empty_side(M.LEFT) else g.w("NW")
    nt = 0 if g.empty_side(M.TOP) else g.h("NW")
    nb = 0 if g.empty_side(M.BOTTOM) else g.h("SW")
    innerh = len(rows) - nt - nb
    if innerh < 0:
        return None

    def fills(names, size, total):
        """all ways to fill a side: lists of (name, count in units of size)"""
        pres = [n for n in names[1:4] if n in g.shapes]
        el = [n for n in pres if n in g.elastic]
        fixed = sum(size(n) for n in pres if n not in el)
        rest = total - fixed
        if rest < 0:
            return
        if len(el) == 1:
            if rest % size(el[0]) == 0:
                yield {n: (rest if n in el else size(n)) for n in pres}
        else:
            a, b = el
            for i in range(0, rest + 1, size(a)):
                if (rest - i) % size(b) == 0:
                    f = {n: size(n) for n in pres}
                    f[a], f[b] = i, rest - i
                    yield f

    def hrow(order, fill, i):
        return "".join(g.shapes[s][i] * (fill[s] // g.w(s)) for s in order if s in fill)

    def col(order, fill):
        out = []
        for s in order:
            if s in fill:
                out += (g.shapes[s] * (fill[s] // g.h(s)))
        return out

    # left side
    leftok = None
    if lw:
        mid = [r[:0] for r in rows]
        for f in fills(["NW", "WNW", "W", "WSW", "SW"], g.h, innerh):
            c = col(["WNW", "W", "WSW"], f)
            want = (g.shapes["NW"] if nt else []) + c + (g.shapes["SW"] if nb else [])
            if all((cells(rows[i]) + [" "] * lw)[:lw] == cells(w) for i, w in enumerate(want)):
                leftok = want
                break
        if leftok is None:
            return None
    rfills = list(fills(M.EAST, g.h, innerh))
    maxw = max([M.width(r) for r in rows] + [d.p.innerw + lw + g.w("NE")]) + 8
    for W in range(0, maxw + 1):
        tops = [None] if not nt else [f for f in fills(M.NORTH, g.w, W)]
        if not tops:
            continue
        if nt:
            tops = [f for f in tops if all(
                ((leftok[i] if lw else "") + hrow(["NNW", "N", "NNE"], f, i) + g.shapes["NE"][i]).rstrip(" ") == rows[i]
                for i in range(nt))]
            if not tops:
                continue
        elif not list(fills(M.NORTH, g.w, W)):
            continue
        bots = list(fills(["SW", "SSW", "S", "SSE", "SE"], g.w, W))
        if nb:
            bots = [f for f in bots if all(
                ((leftok[nt + innerh + i] if lw else "") + hrow(["SSW", "S", "SSE"], f, i) + g.shapes["SE"][i]).rstrip(" ")
                == rows[nt + innerh + i] for i in range(nb))]
        if not bots:
            continue
        for f in rfills:
            c = col(["ENE", "E", "ESE"], f)
            if all(((leftok[nt + i] if lw else "") + " " * W + c[i]).rstrip(" ") == rows[nt + i] for i in range(innerh)):
                return W, innerh
    return None


def gen_options(d, align=0.5, padding=0.35, size=0.35, indent=0.4, tabs=0.3, pad_hi=12, size_w=60, size_h=20):
    o, args = M.Opts(), []
    if d.bool(align):
        G.opt_align(d, o, args)
    if d.bool(padding):
        G.opt_padding(d, o, args, pad_hi)
    if d.bool(size):
        G.opt_size(d, o, args, size_w, size_h)
    if d.bool(indent):
        G.opt_indent(d, o, args)
    t = d.bool(tabs)
    if t:
        G.opt_tabs(d, o, args)
    return o, args, t


def gen_text(d, tabs=False, level=None, big=True, **kw):
    """Text of any size: mostly a few lines, sometimes many or long ones."""
    level = d.choice([0, 1, 2]) if level is None else level
    if tabs:
        level = min(level, 2)
    k = d.weighted([(30, "small"), (2 if big else 0, "many"), (2 if big else 0, "long"), (2, "exotic"), (1, "same")])
    if k == "many":
        n = d.int(20, 160)
        pool = [G.line(d, level, tabs=tabs) for _ in range(6)]
        s = "\n".join(d.choice(pool) for _ in range(n)) + "\n"
        d.label("many lines")
        return s
    if k == "long":
        pool = [G.line(d, level, tabs=tabs, maxwords=9) for _ in range(4)] + [G.word(d, level)]
        n = d.int(100, 4000)
        s = ""
        while len(s) < n:
            s += d.choice(pool) + " "
        d.label("long line")
        return G.text(d, level, maxlines=3, tabs=tabs) + s + "\n" + G.text(d, level, maxlines=3, tabs=tabs)
    if k == "exotic":
        ws = "\u00a0\u2003\u3000\u2009 \u1680"
        out = []
        for _ in range(d.int(1, 5)):
            s = "".join(d.choice(ws) for _ in range(d.small(0, 3, 1))) + G.word(d, level, 0, 5)
            s += "".join(d.choice(ws) for _ in range(d.small(0, 3, 1))) + G.word(d, level, 0, 5)
            s += "".join(d.choice(ws) for _ in range(d.small(0, 3, 1)))
            out.append(s)
        d.label("exotic blanks")
        return "\n".join(out) + "\n"
    if k == "same":
        s = G.word(d, level)
        return "\n".join([s] * d.int(1, 12)) + "\n"
    return G.text(d, level, maxlines=d.choice([4, 8, 14]), tabs=tabs, **kw)


def too_long(c):
    """Rows which boxes cannot read back (finding long-line)"""
    return any(len(r.encode("utf-8")) > 16300 for r in c.rows)


def measure(c):
    """
    Where the text is: (W, H, per visible line (index, column, row)) in the coordinates of the room inside the box;
    None if the output has no readable box.
    """
    rows = c.untabbed()
    if [box_only(M.expand(r, c.o.tabstop)) for r in c.p.rows] == [box_only(r) for r in rows]:
        size = c.p.innerw, c.p.innerh
    else:
        size = outline_candidates(c)
        if size is None:
            return None
    x0 = (c.p.indent if c.p.mode == "b" else 0) + (0 if c.g.empty_side(M.LEFT) else c.g.w("NW"))
    y0 = 0 if c.g.empty_side(M.TOP) else c.g.h("NW")
    vis = [(i, text_only(r)) for i, r in enumerate(rows)]
    vis = [(i, r) for i, r in vis if r]
    want = [i for i, l in enumerate(c.p.lines) if norm(l)]
    if len(vis) != len(want):
        return None
    return size[0], size[1], [(k, lead(r) - x0, i - y0) for k, (i, r) in zip(want, vis)]


def removable(g):
    """
    The designs for which a box tells where its text was: the left side is open, or visible in every row and
    beginning in its first column somewhere; no line of a side's shapes is, apart from blanks, part of another one.
    """
    for names in (("WNW", "W", "WSW"), ("ENE", "E", "ESE")):
        lines = {l for n in names for l in g.shapes.get(n, []) if not M.is_blank(l)}
        if any(a != b and a.strip(" ") in b for a in lines for b in lines):
            return False
    if g.empty_side(M.LEFT):
        return True
    side = [l for n in ("WNW", "W", "WSW") for l in g.shapes.get(n, [])]
    if any(M.is_blank(l) for l in side):
        return False
    rows = side + ([] if g.empty_side(M.TOP) else list(g.shapes["NW"])) + \
        ([] if g.empty_side(M.BOTTOM) else list(g.shapes["SW"]))
    return any(not M.blank(l[0]) for l in rows)
