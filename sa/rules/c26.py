"""C26  A served JavaScript module is whole, current, and published by one at a time."""
from pathlib import PurePosixPath

from ..absint import State, deep
from ..lib import *
from ..objs import World

EXPLANATION = """
The functions which publish a module from a file or a string are interpreted over a model of the file
system: paths are concrete, contents are tracked, every operation may fail, another process may hold
the lock and give it up or not. On every path the file which is served changes only by an atomic
replacement, made while this process holds the lock, with the whole content it was given; a lock is
given up however publishing ends, and the lock of another process is never removed.
"""
ASSUMPTIONS = ["replacing a file by another of the same directory is atomic", "processes which use ReactPy take the lock"]
JM, JU = "reactpy.reactjs.module", "reactpy.reactjs.utils"
FS = ("S", "fs")
NONE = ("k", None)
DIR, SRC = "/web", "/src/a.js"
TRUE, FALSE = ("k", True), ("k", False)


def P_(s):
    return ("path", str(PurePosixPath(s)))


def path_of(v):
    if v[0] == "path":
        return v[1]
    return v[1] if v[0] == "k" and isinstance(v[1], str) and v[1].startswith("/") else None


class W(World):
    faults = 0
    symlink = False

    def __init__(self, ck):
        super().__init__(ck, (JM, JU), {}, {q for q, f in ck.p.funcs.items() if f.module.name == JU and f.name.startswith(("resolve_names", "normalize"))})

    # ---- state
    def get(self, st, p):
        v = st.heap.get(("@", FS, p))
        return None if v in (None, ("gone",)) else v

    def set(self, st, p, v):
        st = st.copy()
        st.heap[("@", FS, p)] = v or ("gone",)
        return st

    def bad(self, st, what):
        st = st.copy()
        if not any(e[0] == "bad" for e in st.ev):
            st.ev = st.ev + (("bad", what),)
        return st

    def held(self, st):
        return [k[2] for k, v in st.heap.items() if k[0] == "@" and k[1] == FS and v == ("ours",)]

    def touch(self, st, p, how, ok=True):
        """the state after checks for changing p"""
        if not self.held(st):
            st = self.bad(st, f"{how} without holding the lock")
        if p == self.served and not ok:
            st = self.bad(st, f"{how} in place, where it can be read half done")
        st = st.copy()
        st.ev = st.ev + (("touched", p),) if ("touched", p) not in st.ev else st.ev
        return st

    def fail(self, st, exc="OSError"):
        """the operation fails, if it may"""
        n = st.heap.get(("@", FS, "faults"), ("k", 0))[1]
        if n >= self.faults:
            return []
        st = st.copy()
        st.heap[("@", FS, "faults")] = ("k", n + 1)
        return [("raise", exc, NONE, st)]

    def done(self, st, v=NONE):
        return [("v", v, st), *self.fail(st)]

    def attr(self, st, v, name):
        if v[0] == "path":
            p = PurePosixPath(v[1])
            if name in ("name", "suffix", "stem"):
                return ("k", getattr(p, name))
            if name == "parent":
                return P_(p.parent)
        if v[0] == "C" and isinstance(v[1], str) and v[1].endswith("PurePosixPath") and v[2] and v[2][0][0] == "k" and name in ("suffix", "name", "stem"):
            return ("k", getattr(PurePosixPath(v[2][0][1]), name))
        if name == "current" and "WEB_MODULES_DIR" in repr(v):
            return P_(DIR)
        return super().attr(st, v, name)

    def truth(self, st, v):
        if v[0] in ("path", "S", "content"):
            return True
        if v[0] == "op" and v[1] in ("Eq", "NotEq") and v[2] != v[3] and {v[2][0], v[3][0]} <= {"path", "content"}:
            return v[1] == "NotEq"
        return super().truth(st, v)

    def acquire(self, st, p, exclusive):
        cur = self.get(st, p)
        if cur == ("theirs",) and exclusive or cur == ("ours",):
            return [("raise", "FileExistsError", NONE, st)]
        if cur == ("theirs",):
            st = self.bad(st, "the lock is taken though another process holds it")
        if not exclusive:
            st = self.bad(st, "the lock is taken without making sure that nobody else takes it")
        st = self.set(st, p, ("ours",))
        st.ev = st.ev + (("locked", p),)
        return [("v", ("fd", p), st)]

    def remove(self, st, p, how):
        cur = self.get(st, p)
        if cur is None:
            return [("raise", "FileNotFoundError", NONE, st)]
        if cur == ("theirs",):
            st = self.bad(st, "the lock of another process is removed")
            return self.done(self.set(st, p, None))
        if cur == ("ours",):
            return [("v", NONE, self.set(st, p, None))]
        # only when replacing failed
        ok = self.symlink or st.heap.get(("@", FS, "faults"), ("k", 0))[1] >= 2
        return self.done(self.set(self.touch(st, p, how, ok), p, None))

    def move(self, st, a, b):
        if self.get(st, a) is None:
            return [("raise", "FileNotFoundError", NONE, st)]
        if PurePosixPath(a).parent != PurePosixPath(b).parent:
            st = self.bad(st, "a file of another directory is moved, which is not atomic")
        s = self.touch(st, b, "it is replaced")
        return [("v", P_(b), self.set(self.set(s, b, self.get(st, a)), a, None)), *self.fail(st)]

    def write(self, st, p, content):
        s = self.touch(st, p, "it is written", ok=False)
        out = [("v", NONE, self.set(s, p, content))]
        for r in self.fail(s):
            out.append((*r[:3], self.set(r[3], p, ("half", content))))
        return out

    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        d = dict(kw)
        f = self.P.funcs.get(key)
        if f is not None and last.startswith("resolve_names"):
            return [("v", ("names",)), *self.fail(st)]
        p = path_of(recv) if recv is not None and recv[0] == "path" else None
        if key in ("pathlib.Path", "class:pathlib.Path") or last == "Path" and recv is None:
            q = path_of(args[0]) if args else None
            return [("v", P_(q))] if q else None
        if key in ("str", "os.fspath") and args and args[0][0] == "path":
            return [("v", ("k", args[0][1]))]
        if p is not None:
            pp = PurePosixPath(p)
            if last in ("resolve", "absolute", "expanduser"):
                return [("v", recv)]
            if last in ("with_name", "with_suffix", "with_stem", "joinpath", "__truediv__", "relative_to"):
                xs = [x for a in args for x in ([a] if a[0] == "k" else st.heap.get(a, ("", ()))[1] if a[0] == "O" else a[1:] if a[0] == "T" else [a])]
                flat = []
                for x in xs:
                    if x[0] in ("*", "star", "spread"):
                        x = x[1]
                        flat += st.heap.get(x, ("", ()))[1] if x[0] == "O" else x[1:]
                    else:
                        flat.append(x)
                if all(x[0] == "k" for x in flat):
                    try:
                        return [("v", P_(getattr(pp, last)(*[x[1] for x in flat])))]
                    except ValueError:
                        return [("raise", "ValueError")]
                return None
            if last == "mkdir":
                return self.done(st)
            if last in ("exists", "is_file"):
                return [("v", ("k", self.get(st, p) is not None))]
            if last == "is_symlink":
                return [("v", ("k", self.symlink)), ("v", FALSE)] if self.symlink else [("v", FALSE)]
            if last in ("read_text", "read_bytes"):
                c = self.get(st, p)
                return [("v", c), *self.fail(st)] if c is not None else [("raise", "FileNotFoundError", NONE, st)]
            if last in ("write_text", "write_bytes"):
                return self.write(st, p, args[0])
            if last in ("replace", "rename"):
                return self.move(st, p, path_of(args[0]))
            if last == "unlink":
                return self.remove(st, p, "it is removed")
            if last == "touch":
                return self.acquire(st, p, d.get("exist_ok", TRUE) == FALSE) if self.is_lock(p) else self.write(st, p, ("content", "empty"))
            if last in ("symlink_to", "hardlink_to", "link_to"):
                return self.done(self.set(self.touch(st, p, "it is linked"), p, self.get(st, path_of(args[0])) or ("half",)))
            if last == "open" and self.is_lock(p):
                return self.acquire(st, p, "x" in str(args[:1]))
            if last == "stat":
                return [("v", ("S", "stat", p, len(st.ev)))]
        if key in ("shutil.copy", "shutil.copyfile", "shutil.copy2"):
            a, b = path_of(args[0]), path_of(args[1])
            c = self.get(st, a)
            return self.write(st, b, c) if c is not None else [("raise", "FileNotFoundError", NONE, st)]
        if key == "os.open":
            return self.acquire(st, path_of(args[0]), "O_EXCL" in repr(args[1:]) and "O_CREAT" in repr(args[1:]))
        if key in ("open", "builtins.open") and args and path_of(args[0]):
            return self.acquire(st, path_of(args[0]), "x" in str(args[1:2]))
        if key == "os.close" or last == "close" and recv is not None and recv[0] == "fd":
            return [("v", NONE)]
        if key in ("os.unlink", "os.remove"):
            return self.remove(st, path_of(args[0]), "it is removed")
        if key in ("os.replace", "os.rename", "shutil.move"):
            return self.move(st, path_of(args[0]), path_of(args[1]))
        if key in ("os.link", "os.symlink"):
            b = path_of(args[1])
            return self.done(self.set(self.touch(st, b, "it is linked"), b, self.get(st, path_of(args[0])) or ("half",)))
        if key == "filecmp.cmp":
            a, b = self.get(st, path_of(args[0])), self.get(st, path_of(args[1]))
            sh = args[2] if len(args) > 2 else d.get("shallow", TRUE)
            if sh == FALSE:
                return [("v", ("k", a == b)), *self.fail(st)]
            return [("v", TRUE), ("v", FALSE)]
        if key in ("time.time", "time.monotonic"):
            n = st.heap.get(("@", FS, "time"), ("k", 0))[1]
            st = st.copy()
            st.heap[("@", FS, "time")] = ("k", min(n + 1, 40))
            return [("v", ("k", n), st)]
        if key == "time.sleep":
            out = [("v", NONE)]
            for k, v in list(st.heap.items()):
                if k[0] == "@" and k[1] == FS and v == ("theirs",):
                    s = self.set(st, k[2], None)
                    s.heap[("@", FS, self.served)] = ("content", "theirs")
                    out.append(("v", NONE, s))
            return out
        if last in ("info", "warning", "debug"):
            return [("v", NONE)]
        return None

    def is_lock(self, p):
        return p not in (self.served, SRC)


NAMES = ["a", "pkg/sub/m.mjs", "@s/p@1.2", "p@1.2/x.css"]


def where(w, f, name, given):
    """where a module is served from"""
    w.served, w.faults = None, 0
    st = State({}, {("@", FS, SRC): ("content", "source"), ("@", ("S", "none"), "x"): NONE})
    outs = w.interpret(f, None, (("k", name),), tuple(given.items()), st) or ()
    w.fails = str(outs[0].value)[:60] if outs and all(o.kind != "exit" for o in outs) else None
    for o in outs:
        v = deep(o.st, o.value, 12)
        d = dict(v[3]) if o.kind == "exit" and v[0] == "C" else {}
        if d.get("source") and d["source"][0] == "k" and d["source"][1]:
            return str(PurePosixPath(DIR) / d["source"][1])
    return None


def run(ck):
    P = ck.p
    w = W(ck)
    locks, touched = {}, {}
    for fn, given in (("file_to_module", {"file": ("k", SRC), "symlink": FALSE}), ("string_to_module", {"content": ("content", "given")})):
        f = P.func(f"{JM}.{fn}")
        content = ("content", "source" if "file" in given else "given")
        for name in NAMES:
            target = where(w, f, name, given)
            if target is None and w.fails:
                ck.rule("publish", "the served file is replaced as a whole, under the lock, by what was given", 30)
                ck.ob(False, f"{fn}({name})", f.loc(), f"{fn}({name!r}) always fails: {w.fails}")
                continue
            ck.need(target, f"the name of what {fn} makes")
            w.served = target
            for before in (None, content, ("content", "old")):
                for theirs in (False, True):
                    for w.faults in ((0, 1, 3) if name == "a" else (0,)):
                        st = State({}, {("@", FS, SRC): ("content", "source"), ("@", ("S", "none"), "x"): NONE})
                        if before:
                            st.heap[("@", FS, target)] = before
                        if theirs:
                            if (fn, name) not in locks:
                                continue
                            st.heap[("@", FS, locks[fn, name])] = ("theirs",)
                        outs = w.interpret(f, None, (("k", name),), tuple(given.items()), st) or []
                        what = f"{fn}({name}), target {'missing' if not before else 'the same' if before == content else 'different'}{', locked by another process' if theirs else ''}{f', {w.faults} failures' if w.faults else ''}"
                        judge(ck, w, f, what, outs, target, content, locks, touched, (fn, name), theirs)
    ck.rule("one lock", "whoever publishes a module takes the same lock, and nothing else is shared between modules", 5)
    fs = ("file_to_module", "string_to_module")
    for name in NAMES:
        a, b = (locks.get((fn, name)) for fn in fs)
        ck.ob(a is not None and a == b, f"lock of {name}", P.func(f"{JM}.file_to_module").loc(), f"the module {name} is published under the lock {a} by one function and {b} by another")
    # modules whose names differ in the suffix only
    for fn, given in (("file_to_module", {"file": ("k", SRC), "symlink": FALSE}), ("string_to_module", {"content": ("content", "given")})):
        f = P.func(f"{JM}.{fn}")
        seen = {}
        for n in ("x.js", "x.mjs", "x", "x.js.js", "y/x.js"):
            w.served = where(w, f, n, given)
            st = State({}, {("@", FS, SRC): ("content", "source"), ("@", ("S", "none"), "x"): NONE, ("@", FS, w.served): ("content", "old")})
            outs = w.interpret(f, None, (("k", n),), tuple(given.items()), st) or []
            ps = {e[1] for o in outs for e in o.st.ev if e[0] in ("touched", "locked")}
            ps |= {k[2] for o in outs for k in o.st.heap if k[0] == "@" and k[1] == FS and str(k[2]).startswith(DIR)}
            if n != "x":
                for m, qs in seen.items():
                    ck.ob(not ps & qs, f"{fn}: {n} and {m}", f.loc(), f"{fn} uses {sorted(ps & qs)} for both {n} and {m}, which have different locks")
                seen[n] = ps


def judge(ck, w, f, what, outs, target, content, locks, touched, key, theirs):
    ck.rule("publish", "the served file is replaced as a whole, under the lock, by what was given", 30)
    bad = None if outs else "no result"
    for o in outs:
        why = next((e[1] for e in o.st.ev if e[0] == "bad"), None)
        if not why and o.kind == "exit":
            v = deep(o.st, o.value, 12)
            d = dict(v[3]) if v[0] == "C" else {}
            if w.get(o.st, target) != content:
                why = f"the file which is served is {w.get(o.st, target)}, not what was given"
            elif d.get("file") not in (("path", target), NONE):
                why = f"the module says it is in {d.get('file')}"
            elif d.get("source") and d["source"][0] == "k" and f"{DIR}/{d['source'][1]}" != target:
                why = f"the module is named {d['source'][1]} but found at {target}"
        if not why and w.get(o.st, target) is not None and w.get(o.st, target)[0] == "half":
            why = "the file which is served is left half written"
        if why:
            bad = bad or why + (" (publishing fails)" if o.kind != "exit" else "")
        for e in o.st.ev:
            if e[0] == "locked":
                locks.setdefault(key, e[1])
    if w.faults == 0 and not theirs and not any(o.kind == "exit" for o in outs):
        bad = bad or "it is never published"
    ck.ob(not bad, what, f.loc(), f"{what}: {bad}")
    ck.rule("lock", "the lock is given up however publishing ends, and only by who holds it", 30)
    bad = None
    for o in outs:
        left = w.held(o.st)
        if left:
            bad = bad or f"the lock {left[0]} is kept" + ("" if o.kind == "exit" else f" after {str(o.value)[:50]}")
        if theirs and o.kind == "exit" and any(v == ("theirs",) for k, v in o.st.heap.items() if k[0] == "@" and k[1] == FS):
            bad = bad or "it is published while another process holds the lock"
    if theirs and not any(o.kind == "exc_exit" for o in outs):
        bad = bad or "a lock which is never given up is waited for forever"
    ck.ob(not bad, what, f.loc(), f"{what}: {bad}")


RULES = [run]
