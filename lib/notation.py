"""The same design, written in any of the ways that the configuration syntax allows."""
import gen as G
import model as M

SDELIM = "\"~'`!@%&*=:;<>?/|.\\"
ESCAPES = "\\$^#+-_,(){}x7[" + SDELIM
PAD = [("all", (0, 1, 2, 3)), ("horizontal", (1, 3)), ("vertical", (0, 2)), ("top", (0,)), ("right", (1,)),
       ("bottom", (2,)), ("left", (3,))]


class Writer:
    def __init__(self, d, eol="\n", comments=True, wild=1.0):
        self.d, self.eol, self.comments, self.wild = d, eol, comments, wild
        self.out = []
        self.delim, self.esc = '"', "\\"
        self.line_start = True

    def case(self, s):
        d = self.d
        k = d.weighted([(5, "lower"), (2, "upper"), (2, "mixed")])
        if k == "lower":
            return s.lower()
        if k == "upper":
            return s.upper()
        return "".join(ch.upper() if d.bool() else ch.lower() for ch in s)

    def raw(self, s):
        self.out.append(s)

    def nl(self):
        self.raw(self.eol)

    def gap(self, need):
        """White space between two tokens, perhaps with comments; may be empty unless needed"""
        d = self.d
        k = d.weighted([(6, "one"), (3, "none"), (2, "blanks"), (1.5, "line"), (1 if self.comments else 0, "comment")])
        if k == "none":
            self.raw(" " if need else "")
        elif k == "one":
            self.raw(" ")
        elif k == "blanks":
            self.raw(d.choice(["  ", "\t", " \t ", "     "]))
        elif k == "line":
            self.raw(d.choice(["", " "]) + self.eol + d.choice(["", "  ", "\t", self.eol]))
        else:
            self.raw(d.choice([" ", ""]) + "#" + d.choice(["", " a comment", "BOX x", " \"quoted", "# }", " ends", "END gen",
                                                           " Kommentar mit ü 漢"]) + self.eol + d.choice(["", "  "]))

    def tok(self, s, need=True):
        self.gap(need)
        self.raw(s)

    def kw(self, s):
        self.tok(self.case(s))

    def string(self, s, need=True):
        """Literal s; escape characters in front of what needs them, and of some that do not"""
        d, out = self.d, ""
        for ch in s:
            if ch in (self.delim, self.esc) or (ch != "\n" and d.bool(0.03 * self.wild) and ord(ch) < 128):
                out += self.esc
            out += ch
        self.tok(self.delim + out + self.delim, need)

    def setdelim(self):
        d = self.d
        self.kw(d.choice(["delim", "delimiter"]))
        new = d.choice(SDELIM)
        esc = d.choice([e for e in ESCAPES if e != new])
        self.raw(d.choice([" ", "\t", "  ", self.eol + " "]))
        self.raw(esc + new)
        self.raw(d.choice([" ", self.eol, "\t"]))
        self.delim, self.esc = new, esc

    def names(self, g):
        self.tok(self.namecase(g.name))
        for a in g.aliases:
            self.tok(",", False)
            self.tok(a, False)

    def namecase(self, n):
        return n

    def padding(self, want):
        """A sequence of entries whose last say gives the wanted padding"""
        d = self.d
        seq = []
        cur = [None] * 4
        for name, idx in reversed(d.shuffled(PAD)):
            # from the last to the first
            open_ = [i for i in idx if cur[i] is None]
            if not open_:
                if d.bool(0.15):
                    seq.append((name, d.int(0, 9)))
                continue
            if len({want[i] for i in open_}) != 1:
                continue
            seq.append((name, want[open_[0]]))
            for i in idx:
                if cur[i] is None:
                    cur[i] = want[i]
        for i, nm in enumerate(("top", "right", "bottom", "left")):
            if cur[i] is None and want[i]:
                seq.append((nm, want[i]))
        seq = seq[::-1]
        if not seq:
            seq = [("all", 0)]
        self.kw("padding")
        self.tok("{", False)
        for name, n in seq:
            abbr = name[:d.int(1, len(name))] if d.bool(0.3) else name
            self.tok(self.case(name if abbr == "to" else abbr), False)
            self.tok(d.choice(["", "+", "0"] if d.bool(0.2 * self.wild) else [""]) + str(n))
        self.tok("}", False)

    def sample(self, s):
        d = self.d
        self.kw("sample")
        self.raw(d.choice(["", " ", "\t"]) + self.eol)
        for _ in range(d.small(0, 2, 0.3)):
            self.raw(d.choice(["", "   "]) + self.eol)
        self.raw(s.replace("\n", self.eol) + d.choice(["", "  "]) + self.eol)
        for _ in range(d.small(0, 2, 0.3)):
            self.raw(d.choice(["", "   "]) + self.eol)
        self.raw(d.choice(["", "  ", "\t"]) + self.case("ends") + d.choice(["", "  ", "\t"]) + self.eol)

    def shapes(self, given):
        d = self.d
        self.kw("shapes")
        self.tok("{", False)
        names = [n for n in M.ALL if n in given]
        if d.bool(0.4):
            names = d.shuffled(names)
        missing = [n for n in M.ALL if n not in given]
        for n in names:
            if missing and d.bool(0.06 * self.wild):
                self.tok(self.case(d.choice(missing)))
                self.tok("(", False)
                self.tok(")", False)
            self.tok(self.case(n))
            self.tok("(", False)
            for i, l in enumerate(given[n]):
                if i:
                    self.tok(",", False)
                self.string(l, False)
            self.tok(")", False)
        self.tok("}", False)

    def elastic(self, names):
        d = self.d
        names = [n for n in M.ALL if n in names]
        if d.bool(0.4):
            names = d.shuffled(names)
        self.kw("elastic")
        self.tok("(", False)
        for i, n in enumerate(names):
            if i:
                self.tok(",", False)
            self.tok(self.case(n), False)
        self.tok(")", False)

    def tags(self, tags):
        d = self.d
        self.kw("tags")
        k = d.choice(["list", "one string", "mixed"])
        if k == "one string" or len(tags) == 1 and d.bool():
            self.string(d.choice([",", ", ", " , "]).join(tags))
            return
        self.tok("(", False)
        i = 0
        while i < len(tags):
            n = d.int(1, 2) if k == "mixed" else 1
            if i:
                self.tok(",", False)
            pad = d.choice(["", "", " "])
            self.string(pad + d.choice([",", ", "]).join(tags[i:i + n]) + pad, False)
            i += n
        self.tok(")", False)

    def rule(self, kind, mode, a, b):
        d = self.d
        self.kw(kind)
        if mode == "once":
            self.kw("once")
        elif mode == "global" or d.bool():
            self.kw("global")
        self.string(a)
        self.kw("with" if kind == "replace" else "to")
        self.string(b)

    def design(self, g):
        d = self.d
        self.delim, self.esc = '"', "\\"
        self.tok(self.case("box"), "".join(self.out) not in ("", "\ufeff"))
        self.names(g)
        parts = []
        if g.author is not None:
            parts.append(("author",))
        if g.designer is not None:
            parts.append(("designer",))
        if g.tags:
            parts.append(("tags",))
        if g.indent:
            parts.append(("indent",))
        parts += [("sample",), ("shapes",), ("elastic",)]
        if any(g.padding) or d.bool(0.1):
            parts.append(("padding",))
        rules = [("replace",) + tuple(r) for r in g.replace] + [("reverse",) + tuple(r) for r in g.reverse]
        if d.bool(0.6):
            parts = d.shuffled(parts)
        # the rules of one kind stay in order
        at = sorted(d.int(0, len(parts)) for _ in rules)
        for i, r in reversed(list(zip(at, rules))):
            parts.insert(i, r)
        for p in parts:
            if d.bool(0.15 * self.wild):
                self.setdelim()
            if d.bool(0.06 * self.wild):
                self.tok(d.choice(["revision", "created", "foo", "note", "parent"]))
                self.string(d.choice(["1.0", "x", "2001/02/03", "{"]))
            k = p[0]
            if k == "author":
                self.kw("author")
                self.string(g.author)
            elif k == "designer":
                self.kw("designer")
                self.string(g.designer)
            elif k == "tags":
                self.tags(g.tags)
            elif k == "indent":
                self.kw("indent")
                self.string(self.case(g.indent))
            elif k == "sample":
                self.sample(g.sample)
            elif k == "shapes":
                self.shapes(g.given)
            elif k == "elastic":
                self.elastic(g.elastic_given)
            elif k == "padding":
                self.padding(g.padding)
            else:
                self.rule(*p)
        self.kw("end")
        self.tok(self.case(g.name))
        return self

    def text(self):
        return "".join(self.out)


def write(d, designs, eol=None, bom=None, comments=True, wild=1.0):
    """Config text with these designs"""
    if eol is None:
        eol = "\r\n" if d.bool(0.2) else "\n"
    w = Writer(d, eol, comments, wild)
    if bom if bom is not None else d.bool(0.08):
        w.raw("\ufeff")
    if d.bool(0.2) and comments:
        w.raw("# first line" + eol)
    for g in designs:
        w.design(g)
        w.raw(d.choice(["", " "]) + eol)
        w.gap(False)
    if comments and d.bool(0.15):
        w.raw(eol + "# the end" + d.choice(["", eol]))
    elif d.bool(0.15):
        # no line end at the end
        while w.out and not w.out[-1].strip():
            w.out.pop()
    return w.text()


# --- designs with everything --------------------------------------------------------------------------------------

NAMES = ["alpha", "beta", "gamma", "delta", "c-box", "x1", "Mixed", "long-name-of-a-design", "under_score", "Z", "endx", "boxer"]


def person(d):
    return d.choice(["Jane Doe", "x", "J. \"Q\" Public <jq@example.com>", "Zoë Ünïcøde", "山田", "a\\b", "it's", "A, B; C"])


def sample(d):
    """Lines of a sample: the first and the last one visible"""
    n = d.count(1, 4, 30, 0.03)
    lines = []
    for i in range(n):
        l = "".join(d.choice("+-|/\\ ab*#\"'(){},ü漢") for _ in range(d.count(0, 9, 120, 0.03))).rstrip()
        if i in (0, n - 1) and not l.strip():
            l = d.choice(["+--+", "x", "# y", "BOX", "\"q\""])
        lines.append(l)
    return "\n".join(l if l.strip().lower() != "ends" else "x" for l in lines)


def decorate(d, g, rules=True, tags=("alpha", "beta", "c-d", "x1", "long-tag-name")):
    """Adds metadata to a design"""
    g.sample = sample(d)
    if d.bool(0.5):
        g.author = person(d)
    if d.bool(0.5):
        g.designer = person(d)
    g.tags = d.shuffled(d.subset(tags, 0.3)) if d.bool(0.5) else []
    if rules and d.bool(0.4):
        pats = [("a", "b"), ("[aeiou]", "<$0>"), ("\\s+$", ""), ("^", "* "), ("(x)(y)?", "$1"), ("\"", "''"), ("\\\\", "/"), ("b", "")]
        g.replace = [(d.choice(["global", "once", ""]),) + d.choice(pats) for _ in range(d.count(0, 2, 12, 0.03))]
        g.reverse = [(d.choice(["global", "once", ""]),) + d.choice(pats) for _ in range(d.count(0, 2, 12, 0.03))]
    return g


def distinct_names(d, n):
    """n primary names and aliases for them; all different, also in lower case"""
    pool = d.shuffled(NAMES)
    return [(pool[i], [pool[i] + "-a%d" % k for k in range(d.small(0, 3, 0.6) if not d.bool(0.02) else d.int(4, 14))]) for i in range(n)]
