"""A file system stand-in for the interpreter: files are lists of lines, a line being text or a row of values."""
from .interp import *
from .terms import num, atom, Poly
from . import terms as T

class Row(object):
    def __init__(self, vals, sep, fmt): self.vals, self.sep, self.fmt = list(vals), sep, fmt

class Handle(object):
    def __init__(self, name, mode, lines): self.name, self.mode, self.lines, self.pos, self.closed = name, mode, lines, 0, False

class VFS(object):
    def __init__(self, files=None):
        self.files = {k: list(v) for k, v in (files or {}).items()}
        self.handles = []
        self.calls = 0
    def summaries(self):
        return {"builtins.open": self.open, "open": self.open, "io.open": self.open, "codecs.open": self.open,
                "numpy.savetxt": self.savetxt, "numpy.loadtxt": self.loadtxt, "numpy.genfromtxt": self.loadtxt}
    def open(self, ip, args, kw, n):
        name = args[0] if args else kw.get("file", kw.get("filename"))
        mode = args[1] if len(args) > 1 else kw.get("mode", "r")
        if not isinstance(name, str) or not isinstance(mode, str): raise Unsupported("opening %r" % (name,))
        if "r" in mode and name not in self.files: raise RaiseSig("IOError", ip.where(n), "no file %s" % name)
        if "w" in mode: self.files[name] = []
        h = Handle(name, mode, self.files.setdefault(name, []))
        self.handles.append(h)
        return Obj(None, "file %s" % name, {"__vfs__": h}, opaque=True)
    def hook(self, ip, b, name, args, kw, n):
        f = b.attrs.get("__vfs__") if isinstance(b, Obj) else None
        if f is None: return NotImplemented
        if name in ("close",): f.closed = True; return None
        if f.closed: raise RaiseSig("ValueError", ip.where(n), "I/O operation on closed file")
        if name == "__enter__": return b
        if name == "__exit__": f.closed = True; return False
        if name == "flush": return None
        if name == "readline":
            if f.pos >= len(f.lines): return ""
            f.pos += 1
            return self.text(f.lines[f.pos - 1]) + "\n"
        if name == "readlines":
            out = [self.text(x) + "\n" for x in f.lines[f.pos:]]
            f.pos = len(f.lines)
            return ip.new_list(out, n)
        if name == "read":
            out = "".join(self.text(x) + "\n" for x in f.lines[f.pos:])
            f.pos = len(f.lines)
            return out
        if name == "tell": return num(f.pos)
        if name == "seek": f.pos = int(args[0].const()); return None
        if name == "write":
            f.lines.append(args[0])
            return None
        if name == "writelines":
            f.lines.extend(args[0].items); return None
        return NotImplemented
    def text(self, x): return x if isinstance(x, str) else "<row>"
    def handle(self, ip, fp, mode, n):
        """the open handle behind a file argument (an open file or a name); second value: to be closed here"""
        if isinstance(fp, str):
            o = self.open(ip, [fp, mode], {}, n)
            return o.attrs["__vfs__"], True
        h = fp.attrs.get("__vfs__") if isinstance(fp, Obj) else None
        if h is None: raise Unsupported("not a file: %r" % (fp,))
        if h.closed: raise RaiseSig("ValueError", ip.where(n), "I/O operation on closed file")
        return h, False
    def savetxt(self, ip, args, kw, n):
        a = dict(zip(("fname", "X", "fmt", "delimiter", "newline", "header", "footer", "comments"), args)); a.update(kw)
        h, own = self.handle(ip, a["fname"], "w", n)
        m = a["X"]
        if not isinstance(m, Mat): raise Unsupported("savetxt of %r" % (m,))
        hd = a.get("header", "")
        if hd: h.lines.append(a.get("comments", "# ") + hd)
        rows = m.rows() if len(m.shape) == 2 else [Mat((1,), [v]) for v in m.vals]
        for r in rows: h.lines.append(Row(r.vals, a.get("delimiter", " "), a.get("fmt", "%.18e")))
        if own: h.closed = True
        return None
    def loadtxt(self, ip, args, kw, n):
        a = dict(zip(("fname", "dtype", "comments", "delimiter", "converters", "skiprows", "usecols", "unpack", "ndmin"), args)); a.update(kw)
        h, own = self.handle(ip, a["fname"], "r", n)
        k = a.get("skiprows", T.ZERO)
        k = int(k.const())
        rows = []
        for x in h.lines[h.pos + k:]:
            if isinstance(x, Row):
                if x.sep != a.get("delimiter") and not (a.get("delimiter") is None and x.sep in (" ", "\t")): raise RaiseSig("ValueError", ip.where(n), "other separator")
                rows.append(x.vals)
            elif isinstance(x, str) and (x.startswith("#") or not x.strip()): continue
            else: raise RaiseSig("ValueError", ip.where(n), "text %s in the data" % x)
        mr = a.get("max_rows")
        if isinstance(mr, Poly): rows = rows[:int(mr.const())]
        h.pos = len(h.lines)
        if own: h.closed = True
        uc = a.get("usecols")
        if uc is not None:
            its = uc.items if isinstance(uc, PList) else list(uc) if isinstance(uc, tuple) else uc.vals if isinstance(uc, Mat) else [uc]
            cols = [int(x.const()) for x in its]
            if rows and any(not -len(rows[0]) <= q < len(rows[0]) for q in cols): raise RaiseSig("ValueError", ip.where(n), "column")
            rows = [[r[q] for q in cols] for r in rows]
        if len({len(r) for r in rows}) > 1: raise RaiseSig("ValueError", ip.where(n), "rows of different length")
        w = len(rows[0]) if rows else (len(cols) if uc is not None else 0)
        nd = a.get("ndmin", T.ZERO)
        nd = int(nd.const())
        shape = [len(rows), w]
        m = Mat(shape, [v for r in rows for v in r])
        un = a.get("unpack", False)
        if nd < 2:
            sq = [d for d in shape if d != 1]
            if len(sq) < nd: sq = [1] * (nd - len(sq)) + sq
            m = Mat(sq, m.vals)
        if un and len(m.shape) == 2: m = Mat((m.shape[1], m.shape[0]), [m.vals[i * m.shape[1] + j] for j in range(m.shape[1]) for i in range(m.shape[0])])
        return m if m.shape else m.vals[0]
