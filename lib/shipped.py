"""Reader for the configuration file that comes with boxes, independent of the program's own one."""
import os
import re

import build
import model as M

PADS = [("all", (0, 1, 2, 3)), ("horizontal", (1, 3)), ("vertical", (0, 2)), ("top", (0,)), ("right", (1,)),
        ("bottom", (2,)), ("left", (3,))]


class Reader:
    def __init__(self, text):
        self.t, self.i = text, 0
        self.delim, self.esc = '"', "\\"

    def skip(self):
        m = re.compile(r"(?:\s|#[^\n]*)*").match(self.t, self.i)
        self.i = m.end()

    def next(self):
        """("word", w), ("str", s), ("sym", c), ("int", n) or None"""
        self.skip()
        if self.i >= len(self.t):
            return None
        ch = self.t[self.i]
        if ch == self.delim:
            s, k = "", self.i + 1
            while self.t[k] != self.delim:
                if self.t[k] == self.esc:
                    k += 1
                s += self.t[k]
                k += 1
            self.i = k + 1
            return ("str", s)
        m = re.compile(r"[^\W\d_][\w-]*").match(self.t, self.i)
        if m:
            self.i = m.end()
            return ("word", m.group())
        m = re.compile(r"[+-]?\d+").match(self.t, self.i)
        if m:
            self.i = m.end()
            return ("int", int(m.group()))
        self.i += 1
        return ("sym", ch)

    def want(self, kind, val=None):
        t = self.next()
        if t is None or t[0] != kind or val is not None and t[1].lower() != val:
            raise ValueError("%r instead of %s %s near %r" % (t, kind, val, self.t[max(0, self.i - 60):self.i + 20]))
        return t[1]

    def line(self):
        k = self.t.index("\n", self.i)
        s, self.i = self.t[self.i:k], k + 1
        return s

    def designs(self):
        out = []
        while True:
            t = self.next()
            if t is None:
                return out
            if t != ("word", "BOX") and t[1] != "box":
                raise ValueError("%r" % (t,))
            out.append(self.design())

    def design(self):
        self.delim, self.esc = '"', "\\"
        names, t = [self.want("word")], self.next()
        while t == ("sym", ","):
            names.append(self.want("word"))
            t = self.next()
        g = M.Design(names[0], {}, [], aliases=names[1:], sample=None)
        while True:
            k = t[1].lower()
            if k == "end":
                self.want("word", names[0].lower())
                return g
            if k in ("delim", "delimiter"):
                self.skip()
                self.esc, self.delim = self.t[self.i:self.i + 2]
                self.i += 2
            elif k in ("author", "designer", "indent"):
                setattr(g, k, self.want("str"))
            elif k == "tags":
                t = self.next()
                tags = [t[1]] if t[0] == "str" else []
                paren = t == ("sym", "(")
                while paren and t != ("sym", ")"):
                    t = self.next()
                    if t[0] == "str":
                        tags.append(t[1])
                g.tags += [x.strip() for s in tags for x in s.split(",")]
            elif k == "sample":
                self.line()
                ls = []
                while True:
                    l = self.line()
                    if l.strip().lower() == "ends":
                        break
                    ls.append(l)
                g.sample = "\n".join(ls)
            elif k == "shapes":
                self.want("sym", "{")
                t = self.next()
                while t != ("sym", "}"):
                    name, lines = t[1].upper(), []
                    self.want("sym", "(")
                    t = self.next()
                    while t != ("sym", ")"):
                        if t[0] == "str":
                            lines.append(t[1])
                        t = self.next()
                    g.given[name] = lines
                    t = self.next()
            elif k == "elastic":
                t = self.next()
                while t != ("sym", ")"):
                    t = self.next()
                    if t[0] == "word":
                        g.elastic_given.append(t[1].upper())
            elif k == "padding":
                self.want("sym", "{")
                t = self.next()
                while t != ("sym", "}"):
                    n = self.want("int")
                    for i in [x for x in PADS if x[0].startswith(t[1].lower())][0][1]:
                        g.padding[i] = n
                    t = self.next()
            elif k in ("replace", "reverse"):
                t, mode = self.next(), ""
                if t[0] == "word":
                    mode, t = t[1].lower(), self.next()
                self.want("word", "with" if k == "replace" else "to")
                getattr(g, k).append((mode, t[1], self.want("str")))
            else:
                self.next()
            t = self.next()


def path():
    return os.path.join(build.REPO, "boxes-config")


def read():
    with open(path(), encoding="utf-8") as f:
        return Reader(f.read()).designs()
