"""What the language itself provides."""
from __future__ import annotations

import functools
import json
import math
import re

from . import UNDEF, Arr, Fn, Machine, Obj, Promise, Sym, Throw, Unsup, key_of, norm, num, show, typeof


class JMap(Obj):
    cls = "Map"

    def __init__(self, isset=False):
        super().__init__()
        self.d, self.isset = {}, isset
        self.cls = "Set" if isset else "Map"

    def items_(self):
        for k, v in list(self.d.values()):
            yield k if self.isset else Arr([k, v])


def same(v):
    if isinstance(v, (Obj, Sym)):
        return ("o", id(v))
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, (int, float)):
        return ("n", "nan" if v != v else v)
    return ("v", v if isinstance(v, str) else repr(v), typeof(v))


class Regex(Obj):
    cls = "RegExp"


def regex(m, text, flags=None):
    if flags is None:
        i = text.rindex("/")
        text, flags = text[1:i], text[i + 1 :]
    r = Regex()
    py = re.sub(r"\(\?<([A-Za-z_]\w*)>", r"(?P<\1>", text)
    fl = (re.I if "i" in flags else 0) | (re.M if "m" in flags else 0) | (re.S if "s" in flags else 0)
    try:
        r.re = re.compile(py, fl | re.A)
    except re.error as e:
        raise Unsup(f"pattern {text}") from e
    r.flags = flags
    r.p["lastIndex"] = 0
    r.p["source"] = text
    r.hidden = {"lastIndex", "source"}
    return r


def match_obj(x, s):
    a = Arr([x.group(0)] + [UNDEF if g is None else g for g in x.groups()])
    a.p["index"] = x.start()
    a.p["input"] = s
    a.p["groups"] = Obj({k: UNDEF if v is None else v for k, v in x.groupdict().items()}) if x.groupdict() else UNDEF
    return a


def install(m: Machine):
    top = m.top.v
    arg = lambda a, i=0, d=UNDEF: a[i] if i < len(a) else d

    def reg(o, **fs):
        for k, f in fs.items():
            k = k.rstrip("_")
            o.p[k] = m.fn(f, k)
        return o

    def klass(name, construct=None, call=None, proto=None, cls=None):
        f = Fn(name, host=call or (lambda t, a: (_ for _ in ()).throw(Throw(m.error("TypeError", f"{name} needs new")))), construct=construct)
        f.p["prototype"] = proto if proto is not None else Obj()
        f.p["prototype"].p["constructor"] = f
        f.p["prototype"].builtin = True
        f.p["prototype"].hidden = set(f.p["prototype"].p)
        top[name] = f
        m.protos[cls or name] = f.p["prototype"]
        return f

    op = Obj()
    m.protos["Object"] = op
    O = klass("Object", construct=lambda a: arg(a) if isinstance(arg(a), Obj) else Obj(), call=lambda t, a: arg(a) if isinstance(arg(a), Obj) else Obj(), proto=op)
    op.proto = Machine  # nothing above
    reg(op,
        hasOwnProperty=lambda t, a: key_of(arg(a)) in (t.p if not isinstance(t, Arr) else m.own(t)) and True,
        toString=lambda t, a: tag(t),
        valueOf=lambda t, a: t,
        propertyIsEnumerable=lambda t, a: key_of(arg(a)) in m.own(t),
        isPrototypeOf=lambda t, a: m.proto_of(arg(a)) is t)
    op.hidden = set(op.p)

    def tag(t):
        if t is None:
            return "[object Null]"
        if t is UNDEF:
            return "[object Undefined]"
        if isinstance(t, (Obj, Fn)):
            return f"[object {getattr(t, 'tag', t.cls)}]"
        return f"[object {typeof(t).capitalize()}]"

    def need(v):
        if v is None or v is UNDEF:
            raise Throw(m.error("TypeError", "Cannot convert undefined or null to object"))
        return v

    def assign(t, a):
        for s in a[1:]:
            if s is None or s is UNDEF:
                continue
            for k in m.own(s):
                m.put(a[0], k, m.get(s, k))
        return a[0]

    def fromentries(t, a):
        o = Obj()
        for e in m.iterate(need(arg(a))):
            o.p[key_of(m.get(e, "0"))] = m.get(e, "1")
        return o

    def freeze(t, a):
        if isinstance(arg(a), Obj):
            a[0].frozen = True
        return arg(a)

    def defprop(t, a):
        from . import Prop

        d = a[2]
        g, s = m.get(d, "get"), m.get(d, "set")
        k = key_of(a[1])
        if g is not UNDEF or s is not UNDEF:
            a[0].p[k] = Prop(g if g is not UNDEF else None, s if s is not UNDEF else None)
        else:
            a[0].p[k] = m.get(d, "value")
        if not m.truthy(m.get(d, "enumerable")):
            a[0].hidden = set(getattr(a[0], "hidden", ())) | {k}
        return a[0]

    reg(O,
        keys=lambda t, a: Arr(m.own(need(arg(a)))),
        values=lambda t, a: Arr([m.get(a[0], k) for k in m.own(need(arg(a)))]),
        entries=lambda t, a: Arr([Arr([k, m.get(a[0], k)]) for k in m.own(need(arg(a)))]),
        fromEntries=fromentries, assign=assign, freeze=freeze, seal=freeze,
        isFrozen=lambda t, a: getattr(arg(a), "frozen", False),
        create=lambda t, a: Obj(proto=arg(a) if arg(a) is not None else Machine),
        getPrototypeOf=lambda t, a: m.proto_of(arg(a)),
        setPrototypeOf=lambda t, a: (setattr(a[0], "proto", a[1] if a[1] is not None else Machine), a[0])[1],
        getOwnPropertyNames=lambda t, a: Arr(m.own(arg(a)) + list(getattr(arg(a), "hidden", ()))),
        defineProperty=defprop,
        hasOwn=lambda t, a: key_of(a[1]) in (m.own(a[0]) if isinstance(a[0], Arr) else a[0].p) if isinstance(arg(a), Obj) else False,
        is_=lambda t, a: same(arg(a)) == same(arg(a, 1)))
    O.p["is"] = O.p["is"]

    # ---- functions
    fp = Obj()
    F = klass("Function", proto=fp)

    def bound(t, a):
        return m.fn(lambda _t, b, f=t, th=arg(a), pre=list(a[1:]): m.call(f, th, pre + b), "bound " + t.name)

    reg(fp, call=lambda t, a: m.call(t, arg(a), a[1:]), apply=lambda t, a: m.call(t, arg(a), list(m.iterate(a[1])) if len(a) > 1 and a[1] not in (None, UNDEF) else []), bind=bound, toString=lambda t, a: show(t))

    # ---- arrays
    ap = Obj()
    A = klass("Array", construct=lambda a: Arr([UNDEF] * a[0]) if len(a) == 1 and isinstance(a[0], int) else Arr(a), call=lambda t, a: Arr(a), proto=ap)
    cb = lambda f, x, i, t: m.call(f, UNDEF, [x, i, t])

    def each(t):
        if isinstance(t, Arr):
            i = 0
            n = len(t.a)
            while i < n and i < len(t.a):
                yield i, t.a[i]
                i += 1
        else:
            for i in range(int(num(m.get(t, "length")))):
                yield i, m.get(t, str(i))

    def sl(n, i, d):
        if i is UNDEF:
            return d
        i = num(i)
        i = 0 if i != i else max(-(10**9), min(10**9, i))
        i = int(i)
        return max(0, n + i) if i < 0 else min(n, i)

    def splice(t, a):
        n = len(t.a)
        s = sl(n, arg(a), 0)
        c = n - s if len(a) < 2 else max(0, min(n - s, int(num(a[1]))))
        out = t.a[s : s + c]
        t.a[s : s + c] = list(a[2:])
        return Arr(out)

    def reduce(t, a, rev=False):
        xs = list(each(t))
        if rev:
            xs.reverse()
        if len(a) > 1:
            acc = a[1]
        else:
            if not xs:
                raise Throw(m.error("TypeError", "Reduce of empty array with no initial value"))
            acc, xs = xs[0][1], xs[1:]
        for i, x in xs:
            acc = m.call(a[0], UNDEF, [acc, x, i, t])
        return acc

    def flat(t, d=1):
        out = []
        for _, x in each(t):
            out += flat(x, d - 1) if isinstance(x, Arr) and d > 0 else [x]
        return out

    def sort(t, a):
        f = arg(a)
        c = (lambda x, y: num(m.call(f, UNDEF, [x, y]))) if isinstance(f, Fn) else (lambda x, y: (show(x) > show(y)) - (show(x) < show(y)))
        t.a.sort(key=functools.cmp_to_key(c))
        return t

    def some(t, a):
        return any(m.truthy(cb(a[0], x, i, t)) for i, x in each(t))

    def foreach(t, a):
        for i, x in each(t):
            cb(a[0], x, i, t)
        return UNDEF

    def find(t, a):
        return next((x for i, x in each(t) if m.truthy(cb(a[0], x, i, t))), UNDEF)

    def lastof(t, f, d):
        for i, x in reversed(list(each(t))):
            if f(i, x):
                return i, x
        return d

    def concat(t, a):
        out = list(t.a)
        for x in a:
            out += x.a if isinstance(x, Arr) else [x]
        return Arr(out)

    def pop(t, a):
        return t.a.pop() if t.a else UNDEF

    def shift(t, a):
        return t.a.pop(0) if t.a else UNDEF

    def push(t, a):
        if not isinstance(t, Arr):
            raise Unsup("push")
        t.a += a
        return len(t.a)

    def unshift(t, a):
        t.a[:0] = a
        return len(t.a)

    def fill(t, a):
        for i in range(sl(len(t.a), arg(a, 1), 0), sl(len(t.a), arg(a, 2), len(t.a))):
            t.a[i] = a[0]
        return t

    def includes(t, a):
        return any(same(x) == same(arg(a)) or m.strict(x, arg(a)) for _, x in each(t))

    reg(ap, push=push, pop=pop, shift=shift, unshift=unshift, splice=splice, concat=concat, sort=sort, fill=fill, includes=includes, find=find, forEach=foreach, some=some,
        slice=lambda t, a: Arr([x for _, x in each(t)][sl(len(list(each(t))), arg(a), 0) : sl(len(list(each(t))), arg(a, 1), len(list(each(t))))]),
        map=lambda t, a: Arr([cb(a[0], x, i, t) for i, x in each(t)]),
        filter=lambda t, a: Arr([x for i, x in each(t) if m.truthy(cb(a[0], x, i, t))]),
        every=lambda t, a: all(m.truthy(cb(a[0], x, i, t)) for i, x in each(t)),
        findIndex=lambda t, a: next((i for i, x in each(t) if m.truthy(cb(a[0], x, i, t))), -1),
        findLast=lambda t, a: lastof(t, lambda i, x: m.truthy(cb(a[0], x, i, t)), (0, UNDEF))[1],
        findLastIndex=lambda t, a: lastof(t, lambda i, x: m.truthy(cb(a[0], x, i, t)), (-1, 0))[0],
        indexOf=lambda t, a: next((i for i, x in each(t) if m.strict(x, arg(a))), -1),
        lastIndexOf=lambda t, a: lastof(t, lambda i, x: m.strict(x, arg(a)), (-1, 0))[0],
        join=lambda t, a: (show(a[0]) if a and a[0] is not UNDEF else ",").join("" if x is None or x is UNDEF else show(x) for _, x in each(t)),
        reverse=lambda t, a: (t.a.reverse(), t)[1],
        reduce=reduce, reduceRight=lambda t, a: reduce(t, a, True),
        flat=lambda t, a: Arr(flat(t, int(num(arg(a, 0, 1))) if arg(a, 0, 1) != math.inf else 99)),
        flatMap=lambda t, a: Arr(flat(Arr([cb(a[0], x, i, t) for i, x in each(t)]))),
        at=lambda t, a: t.a[int(num(a[0]))] if -len(t.a) <= num(a[0]) < len(t.a) else UNDEF,
        keys=lambda t, a: Arr(list(range(len(t.a)))), values=lambda t, a: Arr(t.a), entries=lambda t, a: Arr([Arr([i, x]) for i, x in enumerate(t.a)]),
        toString=lambda t, a: show(t))
    ap.p[m.symiter] = m.fn(lambda t, a: Arr([x for _, x in each(t)]), "values")

    def afrom(t, a):
        src = arg(a)
        if src is None or src is UNDEF:
            raise Throw(m.error("TypeError", "not iterable"))
        if isinstance(src, (Arr, str)) or hasattr(src, "items_") or isinstance(src, Obj) and isinstance(m.get(src, m.symiter), Fn):
            xs = list(m.iterate(src))
        else:
            n = m.get(src, "length")
            xs = [m.get(src, str(i)) for i in range(int(num(n)) if n is not UNDEF else 0)]
        return Arr([m.call(a[1], UNDEF, [x, i]) for i, x in enumerate(xs)] if isinstance(arg(a, 1), Fn) else xs)

    def isarray(t, a):
        if isinstance(arg(a), Sym):
            raise Unsup("isArray")
        return isinstance(arg(a), Arr)

    reg(A, isArray=isarray, from_=afrom, of=lambda t, a: Arr(a))

    # ---- strings
    sp = Obj()
    S = klass("String", call=lambda t, a: show(a[0]) if a else "", proto=sp)

    def rep(t, a, every=False):
        pat, by = a[0], a[1]
        if isinstance(pat, Regex):
            def one(x):
                if isinstance(by, Fn):
                    return show(m.call(by, UNDEF, [x.group(0)] + [UNDEF if g is None else g for g in x.groups()] + [x.start(), t]))
                return re.sub(r"\$(\$|&|\d)", lambda y: "$" if y[1] == "$" else x.group(0) if y[1] == "&" else (x.group(int(y[1])) or ""), show(by))

            return pat.re.sub(one, t, count=0 if "g" in pat.flags or every else 1)
        p = show(pat)
        b = (lambda: show(m.call(by, UNDEF, [p, t.find(p), t]))) if isinstance(by, Fn) else (lambda: show(by).replace("$&", p).replace("$$", "$"))
        return t.replace(p, b(), -1 if every else 1) if p in t else t

    def split(t, a):
        d = arg(a)
        if d is UNDEF:
            out = [t]
        elif isinstance(d, Regex):
            out = d.re.split(t)
        else:
            out = list(t) if d == "" else t.split(show(d))
        return Arr(out[: int(num(a[1]))] if len(a) > 1 and a[1] is not UNDEF else out)

    def match(t, a):
        r = a[0] if isinstance(a[0], Regex) else regex(m, re.escape(show(a[0])), "")
        if "g" in r.flags:
            xs = [x.group(0) for x in r.re.finditer(t)]
            return Arr(xs) if xs else None
        x = r.re.search(t)
        return match_obj(x, t) if x else None

    def text(f):
        return lambda t, a: f(show(t) if not isinstance(t, str) else t, a)

    fs = dict(
        replace=rep, replaceAll=lambda t, a: rep(t, a, True), split=split, match=match,
        matchAll=lambda t, a: Arr([match_obj(x, t) for x in a[0].re.finditer(t)]),
        startsWith=lambda t, a: t[int(num(arg(a, 1, 0))) :].startswith(show(arg(a))),
        endsWith=lambda t, a: (t[: int(num(a[1]))] if len(a) > 1 else t).endswith(show(arg(a))),
        includes=lambda t, a: show(arg(a)) in t, indexOf=lambda t, a: t.find(show(arg(a)), int(num(arg(a, 1, 0)))),
        lastIndexOf=lambda t, a: t.rfind(show(arg(a))),
        slice=lambda t, a: t[sl(len(t), arg(a), 0) : sl(len(t), arg(a, 1), len(t))],
        substring=lambda t, a: (lambda x, y: t[min(x, y) : max(x, y)])(max(0, min(len(t), int(num(arg(a, 0, 0))))), max(0, min(len(t), int(num(arg(a, 1, len(t))))))),
        substr=lambda t, a: t[sl(len(t), arg(a), 0) :][: int(num(a[1])) if len(a) > 1 else None],
        trim=lambda t, a: t.strip(), trimStart=lambda t, a: t.lstrip(), trimEnd=lambda t, a: t.rstrip(),
        toLowerCase=lambda t, a: t.lower(), toUpperCase=lambda t, a: t.upper(),
        charAt=lambda t, a: t[int(num(arg(a, 0, 0)))] if 0 <= num(arg(a, 0, 0)) < len(t) else "",
        at=lambda t, a: t[int(num(a[0]))] if -len(t) <= num(a[0]) < len(t) else UNDEF,
        charCodeAt=lambda t, a: ord(t[int(num(arg(a, 0, 0)))]) if 0 <= num(arg(a, 0, 0)) < len(t) else math.nan,
        codePointAt=lambda t, a: ord(t[int(num(arg(a, 0, 0)))]) if 0 <= num(arg(a, 0, 0)) < len(t) else UNDEF,
        concat=lambda t, a: t + "".join(map(show, a)), repeat=lambda t, a: t * int(num(a[0])),
        padStart=lambda t, a: t.rjust(int(num(a[0])), show(arg(a, 1, " "))), padEnd=lambda t, a: t.ljust(int(num(a[0])), show(arg(a, 1, " "))),
        toString=lambda t, a: t, valueOf=lambda t, a: t, trimLeft=lambda t, a: t.lstrip(), localeCompare=lambda t, a: (t > a[0]) - (t < a[0]))
    reg(sp, **{k: text(f) for k, f in fs.items()})
    reg(S, fromCharCode=lambda t, a: "".join(chr(int(num(x))) for x in a))

    rp = Obj()
    klass("RegExp", construct=lambda a: regex(m, a[0].p["source"] if isinstance(a[0], Regex) else show(a[0]), show(arg(a, 1, ""))), proto=rp)

    def rexec(t, a):
        s = show(arg(a))
        at = int(num(t.p["lastIndex"])) if "g" in t.flags or "y" in t.flags else 0
        x = t.re.search(s, at) if at <= len(s) else None
        if "g" in t.flags or "y" in t.flags:
            t.p["lastIndex"] = x.end() if x else 0
        return match_obj(x, s) if x else None

    reg(rp, exec=rexec, test=lambda t, a: rexec(t, a) is not None)

    # ---- numbers
    np_ = Obj()
    N = klass("Number", call=lambda t, a: norm(num(a[0])) if a else 0, proto=np_)

    def fin(v):
        return isinstance(v, (int, float)) and not isinstance(v, bool) and math.isfinite(v)

    def chk(f):
        def g(t, a):
            if isinstance(arg(a), Sym):
                if arg(a).typ == "number":
                    return m.choose((f, a[0]))
                return False
            return f(arg(a))
        return g

    reg(N, isFinite=chk(fin), isInteger=chk(lambda v: fin(v) and v == int(v)), isNaN=chk(lambda v: isinstance(v, float) and v != v), isSafeInteger=chk(lambda v: fin(v) and v == int(v) and abs(v) < 2**53))
    N.p["MAX_SAFE_INTEGER"], N.p["EPSILON"], N.p["POSITIVE_INFINITY"] = 2**53 - 1, 2.0**-52, math.inf

    def pint(t, a):
        s, b = show(arg(a)).strip(), int(num(arg(a, 1, 10))) or 10
        x = re.match(r"[+-]?[0-9a-zA-Z]+", s)
        while x and s:
            try:
                return int(x.group(0), b)
            except ValueError:
                x = re.match(r"[+-]?[0-9a-zA-Z]+", x.group(0)[:-1])
        return math.nan

    def pfloat(t, a):
        x = re.match(r"\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", show(arg(a)))
        return norm(float(x.group(0))) if x else math.nan

    reg(N, parseInt=pint, parseFloat=pfloat)
    reg(np_, toString=lambda t, a: show(t) if not a or a[0] == 10 else (format(t, {2: "b", 8: "o", 16: "x"}.get(a[0], "d"))), toFixed=lambda t, a: f"{t:.{int(num(arg(a, 0, 0)))}f}", toPrecision=lambda t, a: f"{t:.{int(num(arg(a, 0, 6)))}g}", valueOf=lambda t, a: t, toLocaleString=lambda t, a: show(t))
    top.update(parseInt=m.fn(pint, "parseInt"), parseFloat=m.fn(pfloat, "parseFloat"), isNaN=m.fn(lambda t, a: num(arg(a)) != num(arg(a))), isFinite=m.fn(lambda t, a: math.isfinite(num(arg(a)))), NaN=math.nan, Infinity=math.inf)
    klass("Boolean", call=lambda t, a: m.truthy(arg(a)), proto=reg(Obj(), toString=lambda t, a: show(t), valueOf=lambda t, a: t))
    M = Obj()
    for name in ("floor", "ceil", "trunc", "sqrt"):
        M.p[name] = m.fn(lambda t, a, f=getattr(math, name): (lambda x: x if not math.isfinite(x) else norm(f(x)))(num(arg(a))), name)

    def extreme(f, d):
        def g(t, a):
            xs = [num(x) for x in a]
            return math.nan if any(x != x for x in xs) else norm(f(xs)) if xs else d
        return g

    reg(M, min=extreme(min, math.inf), max=extreme(max, -math.inf), abs=lambda t, a: abs(num(a[0])), round=lambda t, a: math.floor(num(a[0]) + 0.5), pow=lambda t, a: norm(num(a[0]) ** num(a[1])), sign=lambda t, a: (num(a[0]) > 0) - (num(a[0]) < 0), random=lambda t, a: 0.5, log=lambda t, a: math.log(num(a[0])))
    M.p["PI"], M.p["E"] = math.pi, math.e
    top["Math"] = M

    # ---- maps and sets
    for name, isset in (("Map", False), ("Set", True), ("WeakMap", False), ("WeakSet", True)):
        p = Obj()

        def make(a, isset=isset, name=name, p=p):
            o = JMap(isset)
            o.tag = name
            o.proto = p
            if a and a[0] not in (None, UNDEF):
                for x in m.iterate(a[0]):
                    if isset:
                        o.d[same(x)] = (x, x)
                    else:
                        o.d[same(m.get(x, "0"))] = (m.get(x, "0"), m.get(x, "1"))
            return o

        def weak(v, name=name):
            if name.startswith("Weak") and not isinstance(v, Obj):
                raise Throw(m.error("TypeError", f"Invalid value used in {name}"))
            return v

        klass(name, construct=make, proto=p)

        def mforeach(t, a):
            for k, v in list(t.d.values()):
                m.call(a[0], UNDEF, [v, k, t])
            return UNDEF

        reg(p, has=lambda t, a: same(arg(a)) in t.d, delete=lambda t, a: t.d.pop(same(arg(a)), None) is not None,
            get=lambda t, a: t.d.get(same(arg(a)), (0, UNDEF))[1],
            set=lambda t, a, weak=weak: (t.d.__setitem__(same(weak(arg(a))), (arg(a), arg(a, 1))), t)[1],
            add=lambda t, a, weak=weak: (t.d.__setitem__(same(weak(arg(a))), (arg(a), arg(a))), t)[1],
            clear=lambda t, a: (t.d.clear(), UNDEF)[1], forEach=mforeach,
            keys=lambda t, a: Arr([k for k, _ in t.d.values()]), values=lambda t, a: Arr([v for _, v in t.d.values()]), entries=lambda t, a: Arr([Arr([k, v]) for k, v in t.d.values()]))
        from . import Prop

        p.p["size"] = Prop(m.fn(lambda t, a: len(t.d)))
        p.p[m.symiter] = m.fn(lambda t, a: Arr(list(t.items_())))

    # ---- errors
    ep = Obj()
    E = klass("Error", construct=lambda a: m.error("Error", show(a[0]) if a else ""), call=lambda t, a: m.error("Error", show(a[0]) if a else ""), proto=ep)
    for n in ("TypeError", "RangeError", "ReferenceError", "SyntaxError"):
        klass(n, construct=lambda a, n=n: m.error(n, show(a[0]) if a else ""), call=lambda t, a, n=n: m.error(n, show(a[0]) if a else ""), proto=Obj(proto=ep))
    reg(ep, toString=lambda t, a: show(t))

    # ---- promises
    pp = Obj()

    def thenable(t, a):
        q = Promise()

        def side(f, good):
            def run(v):
                if not isinstance(f, Fn):
                    return m.resolve(q, v) if good else m.reject(q, v)
                try:
                    m.resolve(q, m.call(f, UNDEF, [v]))
                except Throw as e:
                    m.reject(q, e.value)
            return run

        m.then(t, side(arg(a), True), side(arg(a, 1), False))
        return q

    def fin_(t, a):
        q = Promise()

        def run(state):
            def g(v):
                try:
                    r = m.promised(m.call(a[0], UNDEF, []))
                    m.then(r, lambda _: m.settle(q, state, v), lambda x: m.reject(q, x))
                except Throw as e:
                    m.reject(q, e.value)
            return g

        m.then(t, run("ok"), run("bad"))
        return q

    def make_p(a):
        q = Promise()
        try:
            m.call(a[0], UNDEF, [m.fn(lambda t, b: (m.resolve(q, arg(b)), UNDEF)[1]), m.fn(lambda t, b: (m.reject(q, arg(b)), UNDEF)[1])])
        except Throw as e:
            m.reject(q, e.value)
        return q

    P = klass("Promise", construct=make_p, proto=pp)
    reg(pp, then=thenable, catch=lambda t, a: thenable(t, [UNDEF, arg(a)]), finally_=fin_)

    def pall(t, a, settled=False):
        xs = [m.promised(x) for x in m.iterate(a[0])]
        q, out, left = Promise(), [UNDEF] * len(xs), [len(xs)]

        def ok(i):
            def g(v):
                out[i] = Obj({"status": "fulfilled", "value": v}) if settled else v
                left[0] -= 1
                if not left[0]:
                    m.resolve(q, Arr(out))
            return g

        def bad(i):
            def g(v):
                if not settled:
                    return m.reject(q, v)
                out[i] = Obj({"status": "rejected", "reason": v})
                left[0] -= 1
                if not left[0]:
                    m.resolve(q, Arr(out))
            return g

        for i, x in enumerate(xs):
            m.then(x, ok(i), bad(i))
        if not xs:
            m.resolve(q, Arr())
        return q

    def rejected(t, a):
        q = Promise()
        m.reject(q, arg(a))
        return q

    reg(P, resolve=lambda t, a: m.promised(arg(a)), reject=rejected, all=pall, allSettled=lambda t, a: pall(t, a, True))
    top["queueMicrotask"] = m.fn(lambda t, a: (m.micro.append(lambda: m.call(a[0])), UNDEF)[1])

    sy = Fn("Symbol", host=lambda t, a: Sym(f"Symbol({show(arg(a, 0, ''))})", "symbol"))
    sy.p["iterator"] = m.symiter
    top["Symbol"] = sy

    # ---- JSON
    def tojs(v):
        if isinstance(v, dict):
            return Obj({k: tojs(x) for k, x in v.items()})
        if isinstance(v, list):
            return Arr([tojs(x) for x in v])
        return norm(v)

    def dumps(v, seen=()):
        if isinstance(v, Sym):
            if v.typ == "function" or v.typ == "symbol":
                return None
            raise Unsup(f"JSON of {v}")
        if v is UNDEF or isinstance(v, Fn):
            return None
        if isinstance(v, (bool, str)) or v is None:
            return json.dumps(v, ensure_ascii=False)
        if isinstance(v, (int, float)):
            return show(v) if math.isfinite(v) else "null"
        if any(v is s for s in seen):
            raise Throw(m.error("TypeError", "Converting circular structure to JSON"))
        seen = (*seen, v)
        t = m.get(v, "toJSON")
        if isinstance(t, Fn):
            return dumps(m.call(t, v, [""]), seen)
        if isinstance(v, Arr):
            return "[" + ",".join(dumps(x, seen) or "null" for x in v.a) + "]"
        out = []
        for k in m.own(v):
            s = dumps(m.get(v, k), seen)
            if s is not None:
                out.append(json.dumps(k, ensure_ascii=False) + ":" + s)
        return "{" + ",".join(out) + "}"

    def parse(t, a):
        try:
            return tojs(json.loads(show(arg(a))))
        except ValueError as e:
            raise Throw(m.error("SyntaxError", str(e))) from None

    m.tojs, m.dumps = tojs, dumps
    top["JSON"] = reg(Obj(), parse=parse, stringify=lambda t, a: (lambda s: UNDEF if s is None else s)(dumps(arg(a))))
    top["structuredClone"] = m.fn(lambda t, a: clone(arg(a)))

    def clone(v):
        if isinstance(v, Fn):
            raise Throw(m.error("Error", "cannot be cloned"))
        if isinstance(v, Arr):
            return Arr([clone(x) for x in v.a])
        if type(v) is Obj:
            return Obj({k: clone(m.get(v, k)) for k in m.own(v)})
        return v

    # ---- time
    D = klass("Date", construct=lambda a: reg(Obj(cls="Date"), getTime=lambda t, b, n=m.now: n, valueOf=lambda t, b, n=m.now: n), proto=Obj())
    reg(D, now=lambda t, a: m.now)
    top["performance"] = reg(Obj(), now=lambda t, a: m.now)

    def timer(repeat):
        def f(t, a):
            i = m.nexttimer
            m.nexttimer += 1
            d = num(arg(a, 1, 0))
            d = 0 if d != d else max(0, d)
            m.timers[i] = (m.now + d, i, arg(a), list(a[2:]), d if repeat else None)
            return i
        return f

    def clear(t, a):
        if isinstance(arg(a), (int, float)):
            m.timers.pop(arg(a), None)
        return UNDEF

    for n, f in dict(setTimeout=timer(False), setInterval=timer(True), clearTimeout=clear, clearInterval=clear).items():
        top[n] = m.fn(f, n)

    def log(kind):
        return lambda t, a: (m.logs.append((kind, a)), UNDEF)[1]

    top["console"] = reg(Obj(), **{k: log(k) for k in ("log", "info", "warn", "error", "debug", "trace")})

    def ev(t, a):
        if m.evaluate is None:
            raise Unsup("eval")
        return m.evaluate(t, arg(a))

    top["eval"] = Fn("eval", host=ev)
    win = Obj(cls="Window")
    win.hostget = lambda k: top[k] if k in top and k != "window" else __import__("sa.js", fromlist=["_MISSING"])._MISSING
    top["window"] = top["globalThis"] = top["self"] = win


def advance(m: Machine, ms):
    """Let time pass: the timers which are due run in order."""
    end = m.now + ms
    n = 0
    while True:
        due = sorted((t[0], t[1]) for t in m.timers.values() if t[0] <= end)
        if not due:
            break
        at, i = due[0]
        _, _, f, a, rep = m.timers.pop(i)
        m.now = max(m.now, at)
        if rep is not None:
            m.timers[i] = (m.now + max(rep, 1), i, f, a, rep)
        m.call(f, UNDEF, a)
        m.run_micro()
        n += 1
        if n > 2000:
            raise Unsup("endless timers")
    m.now = end
