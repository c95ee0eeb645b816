"""Files, pipes and directories against a model of the bytes of every file and of the directory tree.

The interpreter runs as an unprivileged user inside a scratch directory, because the code under test deletes
and overwrites files."""
import math
import os
import shutil
import engine
import kosval
from kosseq import SeqCheck, THROWS, ANY, OneOf
from kosval import VOID, lit, Buf

NOBODY = 65534
EOLS = "\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029"

LIB = """
import fs
"""
PRE = r"""
var dirs_ = 0
const home_ = fs.cwd()
fun newdir_() {
    fs.chdir(home_)
    for const i in range(20000) {
        dirs_ += 1
        const d = home_ + "/d" + string(dirs_)
        try { fs.mkdir(d) ; fs.chdir(d) ; return d } catch const e { }
    }
    throw "no new directory"
}
fun rep_(s, n) {
    const a = []
    for const i in range(n) { a.push(s) }
    return string(a...)
}
fun pat_(n, k) {
    const b = buffer(n)
    var i = 0
    while i < n { b[i] = (i * 7 + k) & 255 ; i += 1 }
    return b
}
fun ck_(b) {
    var h = 0
    for const x in b { h = (h * 31 + x) & 0xFFFFFFF }
    return [b.size, h]
}
fun bb_(a) {
    const b = buffer(a.size)
    var i = 0
    while i < a.size { b[i] = a[i] ; i += 1 }
    return b
}
fun handle_(f) {
    return f instanceof io.file ? "file" : typeof f
}
"""


def ck(b):
    h = 0
    for x in b:
        h = (h * 31 + x) & 0xFFFFFFF
    return [len(b), h]


def pat(n, k):
    return bytes((i * 7 + k) & 255 for i in range(n))


def split_lines(text, keep):
    """split at every EOL character, with CR LF as one"""
    out, cur, i = [], "", 0
    while i < len(text):
        c = text[i]
        if c in EOLS:
            e = text[i:i + 2] if text[i:i + 2] == "\r\n" else c
            out.append(cur + e if keep else cur)
            cur = ""
            i += len(e)
        else:
            cur += c
            i += 1
    if cur:
        out.append(cur)
    return out


class File:
    def __init__(self):
        self.data = bytearray()
        self.owner = None


class Handle:
    def __init__(self, name, f, flags, path):
        self.name, self.f, self.flags, self.path = name, f, flags, path
        self.pos = 0
        self.mode = None      # None right after a seek or flush, else r or w
        self.known = "a" not in flags
        self.eof = False
        self.err = False
        self.dirty = False
        self.closed = False

    @property
    def reads(self):
        return "r" in self.flags or "+" in self.flags

    @property
    def writes(self):
        return self.flags != "rb"


class Bad(Exception):
    pass


FLAGS = {"io.ro": "rb", "io.rw": "r+b", "io.create_flag": "w+b", "io.append_flag": "a+b", '"wb"': "wb", '"ab"': "ab"}
NAMES = ("a", "b", "c.txt", "sub", "deep", "\u00e9\u4e2d", "x y", "\U0001f600", "...", "-n", "sub2", "%s")


class Tree:
    def __init__(self):
        self.root = {}
        self.cwd = []

    def walk(self, comps, base=None):
        """-> list of names of the directory reached; raises Bad(missing / notdir)"""
        cur = list(self.cwd if base is None else base)
        for i, c in enumerate(comps):
            if c in ("", "."):
                continue
            if c == "..":
                cur.pop()
                continue
            n = self.node(cur).get(c)
            if n is None:
                raise Bad("missing")
            if not isinstance(n, dict):
                raise Bad("notdir")
            cur.append(c)
        return cur

    def node(self, names):
        n = self.root
        for c in names:
            n = n[c]
        return n

    def find(self, comps, base=None):
        """-> (directory node, name, node or None, names of the directory)"""
        d = self.walk(comps[:-1], base)
        last = comps[-1]
        if last in (".", "..", ""):
            full = self.walk(comps, base)
            return None, last, self.node(full), full
        dn = self.node(d)
        return dn, last, dn.get(last), d


class CHECK(SeqCheck):
    id = "C20"
    rule = "a history of at least 6 operations on files or directories with at least one write; distinct by the steps"
    batch = 60
    flavours = ("rel", "asan")
    prelude = "import fs\n" + kosval.PRELUDE
    pre = PRE
    cases = {"quick": 24000, "thorough": 600000}
    nwork = 0

    def run_kw(self):
        d = engine.scratch()
        os.chmod(d, 0o755)
        if os.environ.get("KOSV_SCRATCH"):
            os.chmod(os.environ["KOSV_SCRATCH"], 0o755)
        CHECK.nwork += 1
        w = os.path.join(d, "work%d" % CHECK.nwork)
        os.mkdir(w)
        os.chmod(w, 0o777)
        self.work = w
        root = os.getuid() == 0

        def drop():
            if root:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
        return {"cwd": w, "preexec": drop}

    def evaluate(self, cases):
        try:
            return super().evaluate(cases)
        finally:
            w = getattr(self, "work", None)
            d = os.path.realpath(engine.scratch())
            if w:
                for n in os.listdir(d):
                    if n.startswith("work"):
                        shutil.rmtree(os.path.join(d, n), ignore_errors=True)

    # --- generation --------------------------------------------------
    def path(self, src, t, want=None):
        """-> (Kos text of the path, components, base)"""
        if want is None:
            comps = [src.pick(NAMES) if src.bool(1, 4) else src.pick(("a", "b", "sub")) for _ in range(src.weighted(((6, 1), (4, 2), (1, 3))))]
            if len(comps) > 1 and src.bool(2, 3):
                comps[0] = "sub"
        else:
            comps = list(want)
        base = None
        if src.bool(1, 10) and "sub" in t.root and isinstance(t.root["sub"], dict):
            comps = ["sub", ".."] + comps if not t.cwd else comps
        if src.bool(1, 12):
            comps = ["."] + comps
        if src.bool(1, 12) and t.cwd:
            comps = [".."] + comps
        sep = "\\" if src.bool(1, 12) else "/"
        text = sep.join(comps)
        if src.bool(1, 5):
            base = []
            # absolute
            if comps[0] != "..":
                return "D + %s" % lit(sep + text), comps, base
            base = None
        return lit(text), comps, base

    def data(self, src, q):
        """-> (Kos text, bytes)"""
        k = src.below(10)
        if k < 3:
            s = "".join(src.pick(("a", "b", " ", "\n", "\r", "\r\n", "\u00e9", "\u20ac", "\U0001f600", "\u2028", "\x85", "\0", "xyz", "\x0b")) for _ in range(src.len(16)))
            return lit(s), s.encode()
        if k == 3:
            s = src.pick(("ab", "\u00e9", "line\n", "\r\n", "x", "\u20ac\n", "\U0001f600", "abc\r"))
            n = src.pick((700, 1024, 1365, 1366, 2047, 2048, 2049, 4095, 4096, 4097, 5000))
            q.labels.add("long")
            return "rep_(%s, %d)" % (lit(s), n), s.encode() * n
        if k == 4:
            n = src.pick((1, 255, 256, 4095, 4096, 4097, 8192, 8193, 30000))
            if src.bool(1, 12):
                n = src.pick((65535, 65536, 65537, 70000))
            z = src.below(256)
            q.labels.add("pattern")
            return "pat_(%d, %d)" % (n, z), pat(n, z)
        if k == 5:
            return src.pick(('""', "buffer()")), b""
        b = bytes(src.below(256) for _ in range(src.len(12)))
        return "bb_(%s)" % lit(list(b)), b

    def sync(self, q, h, src):
        """make h the only active handle of its file"""
        o = h.f.owner
        if o is not h:
            if o and not o.closed:
                q.do("%s.flush() == %s" % (o.name, o.name), True)
                o.mode, o.dirty, o.known = None, False, False
            h.f.owner = h
            h.known = False
            h.mode = "?"

    def seek(self, q, h, src, pos=None):
        n = len(h.f.data)
        p = pos if pos is not None else src.pick((0, n, src.int(0, n), src.int(0, n), -src.int(0, n), n + src.int(0, 40), min(n, 4096), -1 if n else 0))
        if p < 0:
            to = n + p
        else:
            to = p
        t = lit(float(p) + src.pick((0.0, 0.5))) if src.bool(1, 10) and abs(p) < 1 << 40 else lit(p)
        if src.bool(1, 3):
            q.do("(fun { %s.position = %s; return %s.position })()" % (h.name, t, h.name), to)
        else:
            q.do("%s.seek(%s) == %s" % (h.name, t, h.name), True)
        h.pos, h.mode, h.eof, h.known, h.dirty = to, None, False, True, False

    def got(self, q, expr, b):
        if len(b) > 200:
            q.do("ck_(%s)" % expr, ck(b))
        else:
            q.do(expr, Buf(b))

    def op_handle(self, q, src, h, hs):
        f = h.f
        if h.closed:
            k = src.below(9)
            e = ("write(\"x\")", "read()", "read_some()", "size", "position", "seek(0)", "flush()", "read_line()", "print(1)")[k]
            q.do("%s.%s" % (h.name, e), THROWS)
            q.labels.add("closed")
            return
        k = src.weighted(((9, "write"), (8, "read"), (4, "seek"), (2, "print"), (2, "size"), (2, "pos"), (2, "flush"), (2, "resize"), (2, "close"), (3, "lines"), (3, "line"), (1, "props"), (1, "bad"), (1, "gc"), (1, "plines"), (1, "lock")))
        if k == "gc":
            q.stmt("kos.collect_garbage()")
            return
        if k == "lock":
            q.do("(fun { const l = %s.lock(); const r = l instanceof io.file_lock; l.release(); return r })()" % h.name, True)
            return
        if k == "close":
            q.do("handle_(%s.close())" % h.name, "file")
            h.closed = True
            if f.owner is h:
                f.owner = None
            return
        if k == "props":
            q.do("[%s.console, %s.error, typeof %s.fd]" % (h.name, h.name, h.name), [False, h.err, "integer"])
            if h.path is not None:
                q.do("%s.path[D.size:]" % h.name, h.path)
            q.do("%s.stat.type" % h.name, "file")
            return
        if k == "bad":
            e, r = src.pick((("seek(\"1\")", THROWS), ("seek(void)", THROWS), ("resize(-1)", THROWS), ("resize(\"\")", THROWS), ("write(1)", THROWS), ("write(void)", THROWS),
                             ("read_some(1, \"\")", THROWS), ("read_line(0)", THROWS), ("read_line(-1)", THROWS), ("seek(%d)" % (-len(f.data) - 1 - src.below(5)), THROWS),))
            if e.startswith("seek(-"):
                if h.mode == "?" or h.dirty or (f.owner and f.owner is not h and f.owner.dirty):
                    return
                q.do("%s.%s" % (h.name, e), r)
                h.known = False
            else:
                q.do("%s.%s" % (h.name, e), r)
                if e.startswith("read_some") or e.startswith("resize"):
                    pass
            q.labels.add("bad-arg")
            return
        self.sync(q, h, src)
        if h.err and k not in ("seek", "size", "flush", "pos"):
            return
        if k == "seek":
            self.seek(q, h, src)
            return
        if k == "flush":
            q.do("%s.flush() == %s" % (h.name, h.name), True)
            h.dirty = False
            if h.mode == "r":
                h.known = False
            elif h.mode == "w":
                h.mode = None
            return
        if k == "size":
            if h.dirty:
                q.do("%s.flush() == %s" % (h.name, h.name), True)
                h.dirty = False
                h.mode = None
            q.do("[%s.size, %s.stat.size]" % (h.name, h.name), [len(f.data)] * 2)
            return
        if k == "pos":
            if h.known:
                q.do("%s.position" % h.name, h.pos)
            return
        if k == "resize":
            n = len(f.data)
            to = src.pick((0, n, src.int(0, n), n + src.int(0, 30), n // 2, n + 5000 if n < 60000 else n))
            if not h.writes:
                q.do("%s.resize(%d)" % (h.name, to), THROWS)
                h.known = False
                return
            t = "%d.5" % to if src.bool(1, 10) else "%d" % to
            q.do("%s.resize(%s) == %s" % (h.name, t, h.name), True)
            if to < n:
                del f.data[to:]
            else:
                f.data.extend(bytes(to - n))
            h.dirty = False
            h.known = h.known and h.mode != "r"
            if h.mode == "w" or h.mode is None:
                h.mode = None
            q.labels.add("resize")
            return
        if k in ("write", "print", "plines"):
            if k == "write":
                parts = [self.data(src, q) for _ in range(src.weighted(((6, 1), (2, 2), (1, 3), (1, 0))))]
                text = "write(%s)" % ", ".join(p[0] for p in parts)
                b = b"".join(p[1] for p in parts)
            elif k == "print":
                vs = [src.pick((0, -5, 1 << 40, "", "a b", "\u00e9", VOID, True, False, "x\ny")) for _ in range(src.below(4))]
                text = "print(%s)" % ", ".join(map(lit, vs))
                b = (" ".join(self.show(v) for v in vs) + "\n").encode()
            else:
                vs = [src.pick((1, "a", "", "\u20ac")) for _ in range(src.below(5))]
                text = "print_lines(%s)" % lit(vs)
                b = "".join(self.show(v) + "\n" for v in vs).encode()
            if not h.writes:
                q.do("%s.%s" % (h.name, text), THROWS if b else ANY)
                if b:
                    h.err = True
                    q.labels.add("read-only")
                return
            if h.mode not in (None, "w") or not h.known and "a" not in h.flags or len(f.data) + len(b) > 150000:
                self.seek(q, h, src, None if len(f.data) < 100000 else 0)
            if h.pos > 150000:
                return
            q.do("%s.%s == %s" % (h.name, text, h.name) if k != "plines" else "%s.%s" % (h.name, text), True if k != "plines" else VOID)
            if b:
                if "a" in h.flags:
                    h.pos = len(f.data)
                    h.known = True
                if h.pos > len(f.data):
                    f.data.extend(bytes(h.pos - len(f.data)))
                    q.labels.add("gap")
                f.data[h.pos:h.pos + len(b)] = b
                h.pos += len(b)
                h.mode = "w"
                h.dirty = True
            self.wrote += 1
            return
        # reading
        if not h.reads:
            q.do("%s.%s" % (h.name, src.pick(("read()", "read_some(1)", "read_line()", "read(3)"))), THROWS)
            h.err = True
            q.labels.add("write-only")
            return
        if h.mode not in (None, "r") or not h.known:
            self.seek(q, h, src)
        h.mode = "r"
        left = bytes(f.data[h.pos:])
        if h.eof:
            left = b""
        if k == "read":
            form = src.below(5)
            m = src.pick((0, 1, 2, 5, len(left), len(left) + 1, max(0, len(left) - 1), src.int(0, 20), 4096, 65536, 65537))
            if form == 0:
                self.got(q, h.name + ".read()", left)
                h.pos += len(left)
                h.eof = True
            elif form < 3:
                tail = src.below(4)
                b = left[:m]
                if tail == 0:
                    pre = bytes(src.below(256) for _ in range(src.len(5)))
                    e = "%s.%s(%d, bb_(%s))" % (h.name, src.pick(("read", "read")), m, lit(list(pre)))
                    self.got(q, e, pre + b)
                else:
                    self.got(q, "%s.read(%d)" % (h.name, m), b)
                h.pos += len(b)
                if m > len(left):
                    h.eof = True
            else:
                if m == 0:
                    m = 1
                    t = src.pick(("0", "1", "-5"))
                else:
                    t = "%d" % m
                b = left[:m]
                if src.bool(1, 4):
                    pre = bytes(src.below(256) for _ in range(src.len(300)))
                    self.got(q, "%s.read_some(%s, bb_(%s))" % (h.name, t, lit(list(pre))), pre + b)
                else:
                    self.got(q, "%s.read_some(%s)" % (h.name, t), b)
                h.pos += len(b)
                if m > len(left):
                    h.eof = True
            q.do("%s.eof" % h.name, h.eof)
            return
        if k == "line":
            i = left.find(b"\n")
            line = left if i < 0 else left[:i + 1]
            try:
                s = line.decode()
            except UnicodeDecodeError:
                s = None
            if len(line) > 60000:
                return
            rs = src.pick(("", "", "1", "2", "3", "4096", "16", "%d" % max(1, len(line)), "%d" % (len(line) + 1), "%d" % max(1, len(line) - 1)))
            q.do("%s.read_line(%s)" % (h.name, rs), THROWS if s is None else s)
            if s is None:
                h.known = False
                q.labels.add("bad-utf8")
                h.eof = h.eof or i < 0
                return
            h.pos += len(line)
            if i < 0:
                h.eof = True
            q.labels.add("read_line")
            return
        # read_lines, until the end
        try:
            s = left.decode()
        except UnicodeDecodeError:
            return
        keep = src.bool()
        gran = src.pick((None, None, 1, 2, 3, 4, 5, 7, 16, 0, -3, 4096, 65536, 1 << 20, 2.5))
        if gran is not None and 0 < gran < 16 and len(left) > 600:
            gran = 4096
        t = "%s.read_lines(%s)" % (h.name, "%s, %s" % (lit(keep), lit(gran)) if gran is not None else lit(keep) if src.bool() or keep else "")
        ls = split_lines(s, keep)
        if any(len(x) > 60000 for x in ls):
            return
        if len(s) > 400:
            q.do("(fun { const a = [%s...]; const n = []; for const x in a { n.push(x.size) }; return [a.size, string(n...)] })()" % t, [len(ls), "".join(str(len(x)) for x in ls)])
        else:
            q.do("[%s...]" % t, ls)
        h.pos += len(left)
        h.eof = True
        q.labels.add("read_lines")

    def show(self, v):
        if isinstance(v, str):
            return v
        if v is True or v is False:
            return "true" if v else "false"
        if isinstance(v, int):
            return str(v)
        return "void"

    def detach(self, q, f):
        o = f.owner
        if o and not o.closed:
            q.do("%s.flush() == %s" % (o.name, o.name), True)
            o.mode, o.dirty, o.known = "?", False, False
        f.owner = None

    def op_tree(self, q, src, t, hs):
        k = src.weighted(((4, "mkdir"), (3, "deep"), (2, "rmdir"), (3, "remove"), (3, "exists"), (3, "stat"), (2, "list"), (1, "chdir"), (1, "cwd"), (1, "rl")))
        if k == "cwd":
            q.do("fs.cwd()[D.size:]", "".join("/" + c for c in t.cwd))
            return
        text, comps, base = self.path(src, t)
        q.labels.add("fs-" + k)
        start = list(t.cwd) if base is None else []
        if k == "deep":
            ok = True
            for i in range(1, len(comps) + 1):
                if comps[i - 1] in (".", ".."):
                    try:
                        t.walk(comps[:i], base)
                    except Bad:
                        ok = False
                        break
                    continue
                try:
                    dn, name, node, _ = t.find(comps[:i], base)
                except Bad:
                    ok = False
                    break
                if node is None:
                    dn[name] = {}
                elif not isinstance(node, dict):
                    ok = False
                    break
            q.do("fs.mkdir(%s, %s) == %s" % (text, "true", text), True if ok else THROWS)
            return
        try:
            dn, name, node, d = t.find(comps, base)
            why = None
        except Bad as e:
            node, why = None, str(e)
            dn = d = name = None
        if k == "mkdir":
            if why or node is not None:
                q.do("fs.mkdir(%s)" % text, THROWS)
            else:
                dn[name] = {}
                q.do("fs.mkdir(%s%s) == %s" % (text, src.pick(("", ", false")), text), True)
        elif k == "rmdir":
            if dn is None and not why:
                return                       # . or ..
            if why == "missing" or (not why and node is None):
                q.do("fs.rmdir(%s)" % text, False)
            elif why or not isinstance(node, dict) or node:
                q.do("fs.rmdir(%s)" % text, THROWS)
            else:
                if t.cwd[:len(d) + 1] == d + [name]:
                    return
                q.do("fs.rmdir(%s)" % text, True)
                del dn[name]
        elif k == "remove":
            if dn is None and not why:
                return
            if why == "missing" or (not why and node is None):
                q.do("fs.remove(%s)" % text, False)
            elif why or isinstance(node, dict):
                q.do("fs.remove(%s)" % text, THROWS)
            else:
                q.do("fs.remove(%s)" % text, True)
                del dn[name]
        elif k == "exists":
            q.do("fs.file_exists(%s)" % text, not why and isinstance(node, File))
        elif k == "stat":
            fo = src.pick(("", ", true", ", false"))
            if why or node is None:
                q.do("fs.stat(%s%s)" % (text, fo), THROWS)
            elif isinstance(node, dict):
                q.do("fs.stat(%s%s).type" % (text, fo), "directory")
            else:
                self.detach(q, node)
                q.do("(fun(s) { return [s.type, s.size, s.hard_links] })(fs.stat(%s%s))" % (text, fo), ["file", len(node.data), 1])
        elif k == "list":
            if why or not isinstance(node, dict):
                q.do("[fs.listdir(%s)...]" % text, THROWS)
            else:
                q.do("[fs.listdir(%s)...] -> sort()" % text, sorted(list(node) + [".", ".."]))
        elif k == "chdir":
            if why or not isinstance(node, dict):
                q.do("fs.chdir(%s)" % text, THROWS)
            else:
                t.cwd = t.walk(comps, base)
                q.do("fs.chdir(%s) == %s" % (text, text), True)
        elif k == "rl":
            if why or not isinstance(node, File):
                if not isinstance(node, dict):
                    q.do("io.read_lines(%s)" % text, THROWS)
                return
            self.detach(q, node)
            try:
                s = bytes(node.data).decode()
            except UnicodeDecodeError:
                return
            ls = split_lines(s, False)
            if len(s) < 500:
                q.do("[io.read_lines(%s)...]" % text, ls)

    def op_open(self, q, src, t, hs):
        # prefer names in use
        files = []

        def visit(d, names):
            for n, x in d.items():
                if isinstance(x, dict):
                    visit(x, names + [n])
                else:
                    files.append(names + [n])
        visit(t.root, [])
        want = None
        if files and src.bool(2, 3):
            w = src.pick(files)
            if w[:len(t.cwd)] == t.cwd:
                want = w[len(t.cwd):]
        text, comps, base = self.path(src, t, want)
        fl = src.weighted(((5, "io.create_flag"), (4, "io.rw"), (2, "io.ro"), (3, "io.append_flag"), (1, '"wb"'), (1, '"ab"')))
        flags = FLAGS[fl]
        try:
            dn, name, node, d = t.find(comps, base)
            why = None
        except Bad as e:
            node, why = None, str(e)
            dn = d = name = None
        form = "io.file(%s, %s)" % (text, fl)
        alt = {"w+b": "io.create(%s)" % text, "a+b": "io.append(%s)" % text, "r+b": src.pick(("io.open(%s)" % text, "io.file(%s)" % text)), "rb": "io.open(%s, io.ro)" % text}.get(flags)
        if alt and src.bool():
            form = alt
        bad = bool(why) or (flags[0] == "r" and node is None) or (isinstance(node, dict) and (flags != "rb"))
        if isinstance(node, dict) and flags == "rb":
            return
        if bad or (dn is None and not why):
            q.do(form, THROWS)
            q.labels.add("open-fails")
            return
        h = "f%d" % self.nh
        self.nh += 1
        if node is None:
            node = dn[name] = File()
        self.detach(q, node)
        if flags[0] == "w":
            del node.data[:]
        q.stmt("var %s = void" % h)
        q.do("handle_((%s = %s))" % (h, form) if False else "(fun { %s = %s; return handle_(%s) })()" % (h, form, h), "file")
        hd = Handle(h, node, flags, "".join("/" + c for c in d + [name]))
        hd.mode = "?"
        if flags[0] != "a":
            hd.mode = None
        node.owner = hd
        hs.append(hd)

    def build(self, q, src):
        if src.bool(1, 12):
            return self.pipe(q, src)
        q.stmt("const D = newdir_()")
        t = Tree()
        hs = []
        self.nh = 0
        self.wrote = 0
        if src.bool(1, 3):
            t.root["sub"] = {}
            q.do("fs.mkdir(\"sub\")", "sub")
        for _ in range(src.int(3, 22)):
            k = src.below(12)
            live = [h for h in hs if not h.closed]
            if k < 2 or not live and k < 6:
                if len(live) < 5:
                    self.op_open(q, src, t, hs)
            elif k < 9 and hs:
                h = src.pick(live) if live and src.bool(14, 15) else src.pick(hs)
                self.op_handle(q, src, h, hs)
            else:
                self.op_tree(q, src, t, hs)
        for h in hs:
            if not h.closed and (h.f.owner is not h or src.bool(3, 4)):
                q.do("handle_(%s.close())" % h.name, "file")
                h.closed = True
            elif not h.closed:
                self.detach(q, h.f)

        def visit(d, names):
            q.do("[fs.listdir(%s)...] -> sort()" % ("D + " + lit("/" + "/".join(names)) if names else "D"), sorted(list(d) + [".", ".."]))
            for n, x in sorted(d.items()):
                if isinstance(x, dict):
                    visit(x, names + [n])
                else:
                    self.got(q, "(fun { with const f = io.open(D + %s, io.ro) { return f.read() } })()" % lit("/" + "/".join(names + [n])), bytes(x.data))
        visit(t.root, [])
        q.nt = len(q.exp) >= 6 and self.wrote > 0
        return True

    def pipe(self, q, src):
        q.stmt("const P = io.pipe()")
        pend = b""
        total = 0
        open_ = True
        for _ in range(src.int(2, 10)):
            k = src.below(4)
            if k < 2 and open_:
                text, b = self.data(src, q)
                if total + len(b) > 30000:
                    continue
                total += len(b)
                q.do("(fun { P.write.write(%s).flush() ; return true })()" % text, True)
                pend += b
            elif k == 2 and pend:
                n = src.pick((1, len(pend), src.int(1, len(pend))))
                self.got(q, "P.read.%s(%d)" % (src.pick(("read", "read_some")), n), pend[:n])
                pend = pend[n:]
            elif k == 3 and pend and b"\n" in pend:
                i = pend.index(b"\n") + 1
                try:
                    q.do("P.read.read_line()", pend[:i].decode())
                except UnicodeDecodeError:
                    return False
                pend = pend[i:]
        q.do("handle_(P.write.close())", "file")
        self.got(q, "P.read.read()", pend)
        q.do("P.read.eof", True)
        q.do("P.write.write(\"x\")", THROWS)
        q.do("[P.read.path, P.read.console]", [VOID, False])
        q.labels.add("pipe")
        q.nt = total > 0 and len(q.exp) >= 6
        return True

    def fixed_cases(self):
        import kosseq
        cs = []

        def new(*labels):
            q = kosseq.Seq()
            q.nt = True
            q.labels = set(labels)
            cs.append(q)
            return q
        q = new("failing-seek-then-gc")
        q.stmt("const D = newdir_()")
        q.stmt("const f = io.create(\"x\")")
        q.stmt("fun bad(n) { for const i in range(n) { try { f.seek(-1) } catch const e { } ; try { f.resize(-5) } catch const e { } ; kos.collect_garbage() } ; return f.size }")
        q.do("bad(20)", 0)
        q.do("[f.write(\"abc\").seek(1).read()...]", [98, 99])
        q = new("full-device")
        for e in ("write(rep_(\"x\", 10000))", "print(rep_(\"x\", 10000))", "print_lines([rep_(\"x\", 10000)])"):
            q.do("(fun { const f = io.file(\"/dev/full\", \"wb\"); return f.%s })()" % e, THROWS)
        q.do("io.file(\"/dev/full\", \"wb\").print(1).flush()", THROWS)
        q = new("pipe-threads")
        q.stmt("fun go(n, size, gran) { const p = io.pipe(); const w = async (fun { for const i in range(n) { p.write.write(pat_(size, i)) }; p.write.close() })(); var h = 0; var k = 0; "
               "loop { const b = p.read.read_some(gran); if b.size == 0 { break }; k += b.size; for const x in b { h = (h * 31 + x) & 0xFFFFFFF } }; w.wait(); return [k, h] }")
        for n, size, gran in ((20, 5000, 4096), (3, 70000, 1000), (50, 333, 10)):
            q.do("go(%d, %d, %d)" % (n, size, gran), ck(b"".join(pat(size, i) for i in range(n))))
        q = new("read-vs-gc")
        # one thread waits for data in read_some while another one collects garbage and moves objects
        q.stmt("fun go(n) { const p = io.pipe(); const r = async (fun { const out = []; for const i in range(n) { const b = buffer(); p.read.read_some(64, b); out.push(ck_(b)) }; return out })(); "
               "const keep = []; for const i in range(n) { for const j in range(300) { keep.push([j]) }; keep.resize(100); kos.collect_garbage(); p.write.write(pat_(64, i)).flush() }; return r.wait() }")
        q.do("go(25)", [ck(pat(64, i)) for i in range(25)])
        q = new("many-writers")
        q.stmt("const D = newdir_()")
        q.stmt("fun go(nt, n) { const f = io.create(\"log\"); const ts = []; for const t in range(nt) { ts.push(async (fun(t) { for const i in range(n) { f.print(rep_(\"t\\(t)\", 40), i) } })(t)) }; for const t in ts { t.wait() }; f.close(); "
               "const last = [array(nt, -1)...]; for const l in io.read_lines(\"log\") { const t = integer(l[1:2]); const w = rep_(\"t\\(t)\", 40) + \" \" + string(last[t] + 1); if l != w { return l }; last[t] += 1 }; return last }")
        q.do("go(6, 60)", [59] * 6)
        q = new("with-closes")
        q.stmt("const D = newdir_()")
        q.stmt("var g = void")
        q.do("(fun { try { with const f = io.create(\"w\") { g = f; f.write(\"abc\"); throw 1 } } catch const e { return e.value } })()", 1)
        q.do("g.read()", THROWS)
        q.do("(fun { with const f = io.open(\"w\") { return string(f.read()) } })()", "abc")
        q = new("types")
        q.do("[fs.stat(\"/dev/null\").type, fs.stat(\"/\").type, fs.stat(\"/dev/null\").device]", ["char", "directory", [1, 3]])
        q.do("io.open(\"/\", io.ro).read()", THROWS)
        q.do("io.open(\"\")", THROWS)
        q.do("io.open(5)", THROWS)
        q.do("io.file(\"/dev/null\", 5)", THROWS)
        q.do("fs.mkdir(\"\")", THROWS)
        q.do("[fs.listdir(5)...]", THROWS)
        q.do("fs.path_separator", "/")
        q.do("io.file_lock()", THROWS)
        return [q.case() for q in cs]
