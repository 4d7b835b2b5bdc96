"""Reference model of boxes' documented behaviour: designs, drawing.

Written from the manual page and config syntax documentation; works on plain text (no escape sequences), UTF-8.
"""
import ctypes
import ctypes.util
import unicodedata

import pbt

_lib = ctypes.CDLL(ctypes.util.find_library("unistring") or "libunistring.so.5")
_lib.uc_width.argtypes = [ctypes.c_uint32, ctypes.c_char_p]
_lib.uc_width.restype = ctypes.c_int
_lib.uc_is_blank.argtypes = [ctypes.c_uint32]
_lib.uc_is_blank.restype = ctypes.c_bool

class _Widths(dict):
    def __missing__(self, ch):
        w = self[ch] = max(0, _lib.uc_width(ord(ch), b"UTF-8"))
        return w


class _Blanks(dict):
    def __missing__(self, ch):
        b = self[ch] = bool(_lib.uc_is_blank(ord(ch)))
        return b


_W = _Widths()
_B = _Blanks({chr(i): chr(i) in "\t " for i in range(128)})
cw = _W.__getitem__             # columns taken by a character
blank = _B.__getitem__


def width(s):
    return len(s) if s.isascii() else sum(map(cw, s))


def is_blank(s):
    return not s.strip(" \t") if s.isascii() else all(map(blank, s))


# corner/side names, clockwise
ALL = ["NW", "NNW", "N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW"]
NORTH = ["NW", "NNW", "N", "NNE", "NE"]
EAST = ["NE", "ENE", "E", "ESE", "SE"]
SOUTH = ["SE", "SSE", "S", "SSW", "SW"]
WEST = ["SW", "WSW", "W", "WNW", "NW"]
SIDES = [NORTH, EAST, SOUTH, WEST]
TOP, RIGHT, BOTTOM, LEFT = 0, 1, 2, 3
CORNERS = ["NW", "NE", "SE", "SW"]


class Unsolvable(pbt.Discard):
    """opposite sides can never become equally long"""


class Design:
    def __init__(self, name, shapes, elastic, padding=(0, 0, 0, 0), indent=None, aliases=(), author=None,
                 designer=None, tags=(), sample="sample", replace=(), reverse=()):
        self.name = name
        self.given = dict(shapes)             # shape name -> list of lines
        self.elastic_given = list(elastic)
        self.padding = list(padding)          # top, right, bottom, left
        self.indent = indent                  # None, "text", "box", "none"
        self.aliases = list(aliases)
        self.author, self.designer = author, designer
        self.tags = list(tags)
        self.sample = sample
        self.replace = list(replace)          # (mode, search, repl)
        self.reverse = list(reverse)
        self._final = None

    # full shape table: name -> lines; missing corners and sides are blank
    def final(self):
        if self._final is None:
            self._final = complete(self.given, self.elastic_given)
        return self._final

    @property
    def shapes(self):
        return self.final()[0]

    @property
    def elastic(self):
        return self.final()[1]

    def h(self, s):
        return len(self.shapes.get(s, ()))

    def w(self, s):
        return width(self.shapes[s][0]) if s in self.shapes else 0

    def minwidth(self):
        return max(sum(self.w(s) for s in NORTH), sum(self.w(s) for s in SOUTH))

    def minheight(self):
        return max(sum(self.h(s) for s in EAST), sum(self.h(s) for s in WEST))

    def empty_side(self, side):
        return all(is_blank(l) for s in SIDES[side] for l in self.shapes.get(s, ()))

    def mode(self):
        return (self.indent or "box")[0]


def complete(given, elastic):
    sh = {k: list(v) for k, v in given.items() if v and v[0] != ""}
    el = set(elastic)
    W = {k: width(v[0]) for k, v in sh.items()}
    H = {k: len(v) for k, v in sh.items()}
    first = [s for s in ALL if s in sh][0]
    fside = [i for i in range(4) if first in SIDES[i]][0]
    fshape = first
    for k in range(4):
        side = (fside + k) % 4
        c = SIDES[side][4]
        if c not in sh:
            ci = ALL.index(c)
            nxt = None
            for off in range(5):
                if ci + off < 16 and ALL[ci + off] in sh:
                    nxt = ALL[ci + off]
                    break
            if side in (LEFT, RIGHT):
                h = H[nxt] if nxt else 1
                w = W[fshape]
            else:
                w = W[nxt] if nxt else 1
                h = H[fshape]
            sh[c] = [" " * w] * h
            W[c], H[c] = w, h
        fshape = c
    for side in range(4):
        names = SIDES[side]
        if not any(n in sh for n in names[1:4]):
            m = names[2]
            if side in (LEFT, RIGHT):
                w, h = W[names[0]], 1
            else:
                w, h = 1, H[names[0]]
            sh[m] = [" " * w] * h
            W[m], H[m] = w, h
            el.add(m)
    return sh, el


def valid(given, elastic):
    """Would boxes accept this design's shapes? (the documented rules)"""
    if not any(not is_blank(l) for v in given.values() for l in v):
        return False
    sh, el = complete(given, elastic)
    for e in elastic:
        if e not in sh or e in CORNERS:
            return False
    for v in sh.values():
        if len({width(l) for l in v}) != 1:
            return False
    for i, names in enumerate(SIDES):
        pres = [n for n in names if n in sh]
        if i in (TOP, BOTTOM):
            if len({len(sh[n]) for n in pres}) > 1:
                return False
        elif len({width(sh[n][0]) for n in pres}) > 1:
            return False
        k = sum(1 for n in names[1:4] if n in el)
        if k not in (1, 2):
            return False
        prev = False
        for n in names[1:4]:
            if n not in sh:
                continue
            if n in el:
                if prev:
                    return False
                prev = True
            else:
                prev = False
    return True


def grow(a, b, ea, eb, target):
    """
    Lay out two opposite sides: a and b are lists of (name, size) of the middle shapes in order, ea/eb the elastic
    ones. The shorter side is extended (the first one if equal), by one elastic shape at a time (if there are two,
    in turns, beginning with the first in list order), until both are equally long and at least target long.
    Returns two dicts name -> total length.
    """
    fill = [dict.fromkeys([n for n, _ in a], 0), dict.fromkeys([n for n, _ in b], 0)]
    size = [dict(a), dict(b)]
    order = [[n for n, _ in a if n in ea], [n for n, _ in b if n in eb]]
    fixed = [[n for n, _ in a if n not in ea], [n for n, _ in b if n not in eb]]
    tot = [0, 0]
    turn = [0, 0]
    seen = set()
    while True:
        i = 1 if tot[0] > tot[1] else 0
        for n in fixed[i]:
            if fill[i][n] == 0:
                fill[i][n] = size[i][n]
                tot[i] += size[i][n]
        e = order[i][turn[i] % len(order[i])]
        turn[i] += 1
        if fill[i][e] == 0 or tot[i] < target or tot[0] != tot[1]:
            fill[i][e] += size[i][e]
            tot[i] += size[i][e]
        if tot[0] == tot[1] and tot[0] >= target:
            return fill[0], fill[1]
        if min(tot) > target:
            st = (tot[0] - tot[1], turn[0] % 2, turn[1] % 2)
            if st in seen:
                raise Unsolvable()
            seen.add(st)


# what Unicode calls white space, dropped at line ends
WS = " \t\r\n\v\f\x85\xa0\u1680" + "".join(map(chr, range(0x2000, 0x200b))) + "\u2028\u2029\u202f\u205f\u3000"


class Opts:
    def __init__(self, **kw):
        self.halign = "l"
        self.valign = "t"
        self.justify = ""
        self.indent = None            # b/t/n
        self.padding = [None] * 4     # top right bottom left
        self.reqwidth = 0
        self.reqheight = 0
        self.tabstop = 8
        self.tabexp = "e"
        self.eol = "\n"
        self.__dict__.update(kw)


def expand(s, tabstop):
    if "\t" not in s:
        return s
    out = []
    n = 0
    for ch in s:
        if ch == "\t":
            k = tabstop - n % tabstop
            out.append(" " * k)
            n += k
        else:
            out.append(ch)
            n += 1
    return "".join(out)


def split_input(text):
    lines = text.split("\n")
    final_nl = text.endswith("\n")
    if final_nl or text == "":
        lines.pop()
    if not final_nl and text.endswith("\r"):
        final_nl = True
    return lines, final_nl


def leading(s):
    if s.isascii():
        return len(s) - len(s.lstrip(" \t"))
    n = 0
    for ch in s:
        if not blank(ch) or cw(ch) > 1:
            break           # a double-wide blank (U+3000) does not count as indentation
        n += 1
    return n


class Picture:
    """The predicted result of drawing, with its geometry."""

    def __init__(self):
        self.rows = []          # output rows, without end-of-line, right-trimmed
        self.full = []          # untrimmed rows, without indentation
        self.indent = 0
        self.final_nl = True

    def text(self, eol="\n"):
        if not self.rows:
            return ""
        return eol.join(self.rows) + (eol if self.final_nl else "")


def tabbed(indent, raw, o):
    """Indentation for one output row, in front of which the input line was raw."""
    if o.tabexp == "u":
        return "\t" * (indent // o.tabstop) + " " * (indent % o.tabstop)
    if o.tabexp == "k":
        out = ""
        col = 0
        for ch in raw:
            if col >= indent:
                break
            if ch == "\t":
                k = o.tabstop - col % o.tabstop
                if col + k > indent:
                    break
                out += "\t"
                col += k
            elif blank(ch):
                out += " "
                col += 1
            else:
                break
        return out + " " * (indent - col)
    return " " * indent


def read_input(text, o, keep_trailing=False):
    raw, final_nl = split_input(text)
    if keep_trailing:
        lines = [expand(l.rstrip("\r"), o.tabstop) for l in raw]
    else:
        lines = [expand(l.rstrip(WS), o.tabstop) for l in raw]
    return raw, lines, final_nl


def draw(design, o, text, subst=None):
    p = Picture()
    raw, lines, p.final_nl = read_input(text, o)
    if not raw:
        return p
    mode = o.indent or design.mode()
    inds = [leading(l) for l in lines if l != ""]
    indent = min(inds) if inds else 0
    if mode != "t":
        lines = [l[indent:] if width(l) >= indent else l for l in lines]
    maxline = max(width(l) for l in lines)
    if subst:
        lines, maxline = subst(lines, maxline)
        if mode == "t":
            inds = [leading(l) for l in lines if l != ""]
            indent = min(inds) if inds else 0
    nl = len(lines)
    w, h = design.w, design.h

    # box size
    minw, minh = design.minwidth(), design.minheight()
    if o.reqheight > minh:
        minh = o.reqheight
    if o.reqwidth > minw:
        minw = o.reqwidth
    if o.reqwidth:
        if design.empty_side(RIGHT):
            minw += w("SE")
        if design.empty_side(LEFT):
            minw += w("NW")
    if o.reqheight:
        if design.empty_side(TOP):
            minh += h("NW")
        if design.empty_side(BOTTOM):
            minh += h("SE")
    pad = [design.padding[i] if o.padding[i] is None else o.padding[i] for i in range(4)]
    minh = fit_padding(pad, TOP, BOTTOM, nl + h("NW") + h("SW"), minh, o.reqheight)
    minw = fit_padding(pad, LEFT, RIGHT, maxline + w("NW") + w("NE"), minw, o.reqwidth)

    # sides
    mid = lambda names: [(n, w(n)) for n in names[1:4] if n in design.shapes]
    midh = lambda names: [(n, h(n)) for n in names[1:4] if n in design.shapes]
    tw = max(maxline, minw - w("NW") - w("NE"))
    th = max(nl, minh - h("NW") - h("SW"))
    ftop, fbot = grow(mid(NORTH), mid(SOUTH), design.elastic, design.elastic, tw)
    fleft, fright = grow(midh(WEST), midh(EAST), design.elastic, design.elastic, th)
    innerw = sum(ftop.values())
    innerh = sum(fleft.values())

    def hside(order, fill, corner):
        return ["".join(design.shapes[s][i] * (fill[s] // w(s)) for s in order if s in fill)
                for i in range(h(corner))]

    def vside(order, fill):
        out = list(design.shapes[order[0]])
        for s in order[1:4]:
            if s in design.shapes:
                for i in range(fill.get(s, 0)):
                    out.append(design.shapes[s][i % h(s)])
        return out + design.shapes[order[4]]

    top = hside(["NNW", "N", "NNE"], ftop, "NW")
    bot = hside(["SSW", "S", "SSE"], fbot, "SW")
    left = vside(["NW", "WNW", "W", "WSW", "SW"], fleft)
    right = vside(EAST, fright)

    # text block placement
    vfill = innerh - nl - pad[TOP] - pad[BOTTOM]
    above = {"t": 0, "c": vfill // 2, "b": vfill}[o.valign] + pad[TOP]
    hfill = innerw - maxline
    free = hfill - pad[LEFT] - pad[RIGHT]
    before = {"l": 0, "c": free // 2, "r": free}[o.halign] + pad[LEFT]
    after = hfill - before

    body = [" " * innerw] * innerh
    shifts = []
    for i, l in enumerate(lines):
        s = 0
        txt = l
        if o.justify and not is_blank(l):
            ind = leading(l)
            core = l
            while ind and core and blank(core[0]) and cw(core[0]) == 1:
                core = core[1:]
            cl = width(core)
            if o.justify == "l":
                s = indent if mode == "t" else 0
            elif o.justify == "c":
                base = indent if mode == "t" else 0
                room = maxline - base - cl
                s = base + room // 2
                if room % 2 and (after - before) - base == 1:
                    s += 1
            else:
                s = maxline - cl
            txt = " " * s + core
        shifts.append(s)
        body[above + i] = " " * before + txt + " " * (maxline - width(txt) + after)
    p.lines, p.maxline, p.pad, p.above, p.before, p.after = lines, maxline, pad, above, before, after
    p.innerw, p.innerh, p.indent = innerw, innerh, indent
    p.ftop, p.fbot, p.fleft, p.fright = ftop, fbot, fleft, fright
    rows = []
    nt, nb = len(top), len(bot)
    total = nt + innerh + nb
    srcline = []
    for j in range(total):
        if j < nt:
            m, src = top[j], 0
        elif j < total - nb:
            k = j - nt
            m = body[k]
            src = 0 if k < above else min(k - above, nl - 1)
        else:
            m, src = bot[j - (total - nb)], nl - 1
        rows.append(("" if design.empty_side(LEFT) else left[j]) + m + right[j])
        srcline.append(src)
    a = len(top) if design.empty_side(TOP) else 0
    b = len(bot) if design.empty_side(BOTTOM) else 0
    p.skip_top, p.skip_bottom = a, b
    p.nt, p.nb = nt, nb
    p.full = rows[a:total - b]
    srcline = srcline[a:total - b]
    for r, src in zip(p.full, srcline):
        pre = tabbed(indent, raw[src].rstrip(WS), o) if mode == "b" else ""
        p.rows.append(rtrim_blank(pre + r))
    p.mode = mode
    return p


def rtrim_blank(s):
    s = s.rstrip(" \t")
    n = len(s)
    while n and blank(s[n - 1]):
        n -= 1
    return s[:n]


def fit_padding(pad, a, b, need, minimum, requested):
    """Padding vs. box size: a requested size wins, else the box is made big enough."""
    if pad[a] + pad[b] <= 0:
        return minimum
    total = pad[a] + pad[b] + need
    if total <= minimum:
        return minimum
    if not requested:
        return total
    for i in range(total - minimum):
        one, two = (b, a) if i % 2 else (a, b)
        if pad[one]:
            pad[one] -= 1
        elif pad[two]:
            pad[two] -= 1
        else:
            break
    return minimum


def rows_of(out, eol="\n"):
    """Output text to rows; second value: was the last row ended?"""
    rows = out.split(eol)
    if rows[-1] == "":
        return rows[:-1], True
    return rows, False


def same_rows(exp, got):
    """Equal, except that a blank row may be of any length."""
    return len(exp) == len(got) and all(e == g or (is_blank(e) and is_blank(g)) for e, g in zip(exp, got))
