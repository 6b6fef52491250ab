"""opaque text: strings whose characters are unknown, built from literals and named unknown pieces

ctx.opts["text"] switches formatting of unknown values from "some string" to these."""
import re
from core import *
from vals import *


class Piece:
    """unknown piece; nl: may contain a line break; conv: {"float": value or None, "int": ...} reading it as a number"""
    def __init__(self, key, nl=True, src=None, conv=None):
        self.key, self.nl, self.src, self.conv = key, nl, src, conv

    def __repr__(self):
        return "{%s}" % self.key


class Txt:
    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, Txt):
                out.extend(p.pieces)
            else:
                out.append(p)
        m = []
        for p in out:
            if isinstance(p, str) and m and isinstance(m[-1], str):
                m[-1] += p
            elif p != "":
                m.append(p)
        self.pieces = tuple(m)

    def __repr__(self):
        return "Txt(%s)" % "".join(p if isinstance(p, str) else repr(p) for p in self.pieces)

    def key(self):
        return tuple(p if isinstance(p, str) else ("@", p.key) for p in self.pieces)

    def single(self):
        return self.pieces[0] if len(self.pieces) == 1 and isinstance(self.pieces[0], Piece) else None

    # hooks of npstub
    def nc_binop(self, it, op, a, b):
        if op == "Add" and all(isinstance(x, (str, Txt)) for x in (a, b)):
            return Txt([a, b])
        if op == "Mod" and isinstance(a, str):
            return fmt(it, a, b)
        if op == "Add":
            raise PyRaise("TypeError", "str concatenation")
        raise Stuck("%s on text" % op)

    def txt_equal(self, it, o):
        if isinstance(o, Txt) and o.key() == self.key():
            return True
        if not isinstance(o, (str, Txt)):
            return False
        if isinstance(o, str) and self.single() is not None:
            return npstub().mkb(bsym("%r == %r" % (self.single().key, o)))
        raise Stuck("comparison of unknown text")

    def txt_attr(self, it, k):
        N = lambda f: Native(f, k)
        if k == "split":
            return N(lambda i, a, kw: self.split(i, a))
        if k in ("strip", "rstrip", "lstrip"):
            return N(lambda i, a, kw: self.strip(i))
        if k in ("startswith", "endswith") and len(self.pieces):
            def f(i, a, kw):
                p = self.pieces[0 if k == "startswith" else -1]
                if isinstance(a[0], str) and isinstance(p, str) and len(p) >= len(a[0]):
                    return getattr(p, k)(a[0])
                raise Stuck("str.%s of unknown text" % k)
            return N(f)
        raise Stuck("str.%s of unknown text" % k)

    def split(self, it, a):
        at = self.single()
        if not a or a[0] is None:
            return Words(self)
        if at is not None and at.conv and "parts" in at.conv and a == [","]:
            r = at.conv["parts"](it)
            if r is not None:
                return r
        raise Stuck("split of unknown text")

    def strip(self, it):
        at = self.single()
        if at is not None and at.conv is not None:
            return self                       # a setting: the parser strips it
        raise Stuck("strip of unknown text")

    def number(self, it, kind):
        at = self.single()
        if at is None or at.conv is None or kind not in at.conv:
            raise Stuck("%s of unknown text" % kind)
        v = at.conv[kind](it)
        if v is None:
            raise PyRaise("ValueError", kind)
        return v


class Words:
    """text.split(): the blank-separated words"""
    def __init__(self, t):
        self.t = t

    def join(self, sep):
        if "\n" in sep or "\r" in sep:
            raise Stuck("words joined by line breaks")
        return Txt([Piece("words of %r joined by %r" % (self.t, sep), nl=False, src=self.t)])


def piece(it, v, spec="%s"):
    """str(v), as text"""
    if isinstance(v, (str, Txt)):
        return v
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return spec % v if spec[-1] in "sdi" else str(v)
    if isinstance(v, SV):
        return Txt([Piece("%s of %s" % (spec, v.e), nl=False, src=v)])
    if isinstance(v, (list, tuple)):
        ps = []
        for k, x in enumerate(v):
            ps += [", " if k else "", piece(it, x)]
        return Txt(["["] + ps + ["]"])
    if isinstance(v, SymList):
        return Txt([Piece("list of length %s" % v.n, nl=False, src=v)])
    if isinstance(v, Obj) and v.attrs.get("__text__") is not None:
        return v.attrs["__text__"]
    return Txt([Piece("text of %r" % (v,), nl=True, src=v)])


SPEC = re.compile(r"%(?:\((\w+)\))?[-+ #0]*(?:\d+|\*)?(?:\.\d+)?[a-zA-Z%]")


def fmt(it, s, v):
    vs = list(v) if isinstance(v, tuple) else [v]
    out, pos, k = [], 0, 0
    for m in SPEC.finditer(s):
        out.append(s[pos:m.start()])
        pos = m.end()
        sp = m.group(0)
        if sp == "%%":
            out.append("%")
            continue
        if m.group(1):
            if not isinstance(v, dict):
                raise PyRaise("TypeError", "format requires a mapping")
            x = v[m.group(1)]
        else:
            if k >= len(vs):
                raise PyRaise("TypeError", "not enough arguments for format string")
            x = vs[k]
            k += 1
        if sp[-1] in "dixfFeEgG" and not isinstance(x, (int, SV, SB)):
            if isinstance(x, (str, Txt, list, tuple, dict, SymList)) or x is None:
                raise PyRaise("TypeError", "%s format: a number is required" % sp)
        out.append(piece(it, x, "%" + re.sub(r"^%(\(\w+\))?", "", sp)))
    out.append(s[pos:])
    if k < len(vs) and not isinstance(v, dict):
        raise PyRaise("TypeError", "not all arguments converted")
    return lit(Txt(out))


def lit(t):
    """plain str if nothing is unknown"""
    if all(isinstance(p, str) for p in t.pieces):
        return "".join(t.pieces)
    return t


def lines(t):
    """list of lines (each a list of pieces) of a text whose unknown pieces contain no line break, else None"""
    if isinstance(t, str):
        t = Txt([t])
    cur, out = [], []
    for p in t.pieces:
        if isinstance(p, Piece):
            if p.nl:
                return None, p
            cur.append(p)
            continue
        xs = p.split("\n")
        for k, x in enumerate(xs):
            if k:
                out.append(cur)
                cur = []
            if x:
                cur.append(x)
    return out, cur


# ------------------------------------------------------------------------------- files
class Files:
    """the file system: which names exist is unknown; what this program writes is recorded"""
    def __init__(self, it):
        self.it = it
        self.mine = {}            # key -> list of contents, files created here
        self.handles = []
        self.n = 0

    def name(self, f):
        if isinstance(f, str):
            f = Txt([f])
        if not isinstance(f, Txt):
            raise Stuck("file name %r" % (f,))
        return f

    def atom(self, f):
        return bsym("exists %s" % (self.name(f).key(),))

    def plain(self, it):
        if it.ctx.wlog:
            raise Stuck("file written inside a loop")

    def exists(self, it, a, kw):
        f = self.name(a[0])
        if f.key() in self.mine:
            return True
        return npstub().mkb(self.atom(f))

    def open(self, it, a, kw):
        a = dict(zip(("file", "mode", "buffering", "encoding"), a))
        a.update(kw)
        f, mode = self.name(a["file"]), a.get("mode", "r")
        self.plain(it)
        if not isinstance(mode, str):
            raise Stuck("file mode")
        k = f.key()
        if k not in self.mine:
            ex = self.atom(f)
            if "x" in mode:
                if it.ctx.branch(ex, "%r exists" % f):
                    raise PyRaise("FileExistsError", "open")
            elif "w" in mode or "a" in mode or "+" in mode:
                it.ctx.oblige("a file that is opened for writing did not exist before", Not(ex), kind="post", assume=False)
            else:
                raise Stuck("reading a file")
            self.mine[k] = []
        elif "w" in mode:
            self.mine[k] = []                      # truncated: what was written is lost
        elif "x" in mode:
            raise PyRaise("FileExistsError", "open")
        elif not ("a" in mode or "+" in mode):
            raise Stuck("reading a file")
        h = Obj(None, name="file")
        st = {"open": True, "buf": [], "key": k, "bin": "b" in mode}
        self.handles.append(st)

        def commit():
            self.mine[k].extend(st["buf"])
            st["buf"] = []

        def write(i, args, kw2):
            if not st["open"]:
                raise PyRaise("ValueError", "write to a closed file")
            x = args[0]
            self.plain(it)
            if not isinstance(x, (str, Txt)):
                raise Stuck("write of %r" % (x,))
            if st["bin"]:
                raise PyRaise("TypeError", "text written to a binary file")
            st["buf"].append(("text", x))
            return None

        def close(i, args, kw2):
            commit()
            st["open"] = False
            return None
        h.attrs.update({"write": Native(write, "write"), "close": Native(close, "close"), "flush": Native(lambda i, x, y: commit(), "flush"),
                        "writelines": Native(lambda i, x, y: [write(i, [z], {}) for z in i.aslist(x[0])] and None, "writelines"),
                        "__enter__": Native(lambda i, x, y: h, "__enter__"), "__exit__": Native(close, "__exit__"), "__file__": st, "name": f})
        return h

    def savetxt(self, it, a, kw):
        a = dict(zip(("fname", "X", "fmt", "delimiter", "newline", "header", "footer", "comments"), a))
        a.update(kw)
        f = a["fname"]
        self.plain(it)
        data = ("data", a["X"], {k: v for k, v in a.items() if k not in ("fname", "X", "header", "comments")})
        own = isinstance(f, (str, Txt))
        h = self.open(it, [f, "w"], {}) if own else f
        if not isinstance(h, Obj) or "__file__" not in h.attrs:
            raise Stuck("savetxt to %r" % (f,))
        st = h.attrs["__file__"]
        if not st["open"]:
            raise PyRaise("ValueError", "write to a closed file")
        if a.get("header") not in (None, ""):
            c = a.get("comments", "# ")
            ls, last = lines(a["header"])
            if ls is None:
                raise Stuck("header with unknown line breaks")
            if last:
                ls = ls + [last]
            for l in ls:
                st["buf"].append(("text", Txt([c] + l + ["\n"])))
        st["buf"].append(data)
        if own:
            it.call(h.attrs["close"], [])

    def finish(self):
        for st in self.handles:
            if st["open"]:
                self.mine[st["key"]].extend(st["buf"])
                st["buf"] = []
        return self.mine


def npstub():
    import npstub as m
    return m
