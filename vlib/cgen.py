"""Behaviours as C++ constant expressions: hash objects, hash_append, digests, integral projection (C12, C13)."""
import json, math, struct
from .core import *
from .htrace import *

FLAVORS = [("h2::default_flavor()", "native", 8), ("h2::big_endian_flavor()", "big", 8), ("h2::little_endian_flavor()", "little", 8), ("f_u32_big()", "big", 4), ("f_u16_native()", "native", 2)]
INTS = [("bool", 1, False), ("char", 1, True), ("signed char", 1, True), ("unsigned char", 1, False), ("short", 2, True), ("unsigned short", 2, False), ("int", 4, True), ("unsigned", 4, False),
        ("long", 8, True), ("unsigned long long", 8, False), ("char16_t", 2, False), ("char32_t", 4, False), ("wchar_t", 4, True)]


def jint(x):
    m = abs(x)
    return [1 if x < 0 else 0] + [m >> s & 0xffff for s in (0, 16, 32, 48)]


def lit(c, x):
    if c == "bool":
        return "true" if x else "false"
    if x < -2**63 + 1:
        return "static_cast<%s>( -9223372036854775807ll - 1 )" % c
    return "static_cast<%s>( %d%s )" % (c, x, "ull" if x >= 2**63 else "ll")


class Ty:
    """a C++ type usable in constant expressions, with what the specification calls it"""

    def __init__(self, cpp, j, gen, arr=""):
        self.cpp, self.j, self.gen, self.arr = cpp, j, gen, arr

    def decl(self, n, expr):
        return "%s %s%s = %s;" % (self.cpp, n, self.arr, expr)


class CGen:
    def __init__(self, rng, std, gcc=False, run=False, portable=False):
        # GCC 13 rejects, or loses track of, some constants with nested members that allocate
        self.r, self.std, self.code, self.n, self.floats, self.gcc, self.all = rng, std, [], 0, True, gcc and not run, run
        self.runs = []
        # only types of the same size everywhere, values of size_t that fit 32 bits
        self.ints = [x for x in INTS if x[0] != "long"] if portable else INTS
        self.word = 4 if portable else 8

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ------------------------------------------------------------ types: gen() -> (expression, value, bound on bytes)
    def int_(self):
        c, n, s = self.r.choice(self.ints)
        r = self.r

        def gen():
            if c == "bool":
                x = r.randrange(2)
            else:
                lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if s else (0, (1 << 8 * n) - 1)
                x = r.choice([0, 1, lo, hi, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi)])
            return lit(c, x), jint(x), n
        return Ty(c, {"k": "int", "n": n}, gen)

    def enum_(self):
        u = self.int_()
        if u.cpp == "bool":
            u = self.int_()
        n = self.fresh("E")
        self.code.append("enum class %s: %s {};" % (n, u.cpp))
        g = u.gen

        def gen():
            e, v, k = g()
            return "static_cast<%s>( %s )" % (n, e), v, k
        return Ty(n, {"k": "enum", "e": u.j}, gen)

    def flt(self):
        r = self.r
        d = r.randrange(2)
        c, n, p = ("double", 8, 53) if d else ("float", 4, 24)
        suf = "" if d else "f"

        def gen():
            k = r.randrange(7)
            s = r.randrange(2)
            sg = "-" if s else ""
            if k == 0:
                return sg + "0.0" + suf, {"s": s, "c": "zero"}, n
            if k == 1:
                return sg + "std::numeric_limits<%s>::infinity()" % c, {"s": s, "c": "inf"}, n
            if k == 2:
                x = float(r.randrange(1, 1000))
            elif k == 3:
                x = math.ldexp(r.randrange(1, 1000), -1074 if d else -149)       # subnormal
            else:
                x = math.ldexp(r.random() + .5, r.randrange(-1000, 1000) if d else r.randrange(-120, 120))
                if not d:
                    x = struct.unpack("f", struct.pack("f", x))[0]
            m, e = math.frexp(x)
            q = int(math.ldexp(m, p))
            return sg + repr(x) + suf if "e" in repr(x) or "." in repr(x) else sg + repr(x) + ".0" + suf, {"s": s, "c": "fin", "e": e - 1, "m": jint(q)[1:]}, n
        return Ty(c, {"k": "flt", "n": n}, gen)

    def seqlike(self, cpp, e, k, fixed=None, wrap="%s{ %s }"):
        r = self.r

        def gen():
            n = fixed if fixed is not None else r.randrange(5)
            xs = [e.gen() for _ in range(n)]
            ex = ", ".join(x[0] for x in xs)
            return wrap % (cpp, ex) if wrap.count("%s") == 2 else wrap % ex, [x[1] for x in xs], sum(x[2] for x in xs) + 8
        return Ty(cpp, {"k": k, "e": e.j}, gen)

    def ty(self, d, top=False):
        r, std = self.r, self.std
        ks = ["int", "int", "enum"] + (["flt"] if self.floats else [])
        if d > 0:
            ks += ["pair", "tuple", "usr", "digest", "bsv"]
            if std >= 17 or self.all and std >= 14:
                ks += ["desc"]      # hash_append of a described class uses lambdas
            if std >= 17:
                ks += ["sv"]
            if std >= 17 or self.all:
                ks += ["array"]
            if std >= 20 or self.all:
                ks += ["vector", "vector", "string"] if top or not self.gcc else []
            if top:
                ks += ["carr", "carr", "carr2"]
        k = r.choice(ks)
        if k == "int":
            return self.int_()
        if k == "enum":
            return self.enum_()
        if k == "flt":
            return self.flt()
        if k == "carr":
            e, n = self.ty(d - 1), r.randrange(1, 5)
            t = self.seqlike(e.cpp, e, "arr", n, "{ %s }")
            t.arr = "[ %d ]" % n
            return t
        if k == "carr2":
            e, n = self.ty(0), r.randrange(1, 4)
            i = self.seqlike(e.cpp, e, "arr", r.randrange(1, 4), "{ %s }")
            m = len(i.gen()[1])
            i = self.seqlike(e.cpp, e, "arr", m, "{ %s }")
            t = self.seqlike(e.cpp, i, "arr", n, "{ %s }")
            t.arr = "[ %d ][ %d ]" % (n, m)
            return t
        if k == "pair":
            a, b = self.ty(d - 1), self.ty(d - 1)
            return self.tup("std::pair<%s, %s>" % (a.cpp, b.cpp), [a, b])
        if k == "tuple":
            es = [self.ty(d - 1) for _ in range(r.randrange(4))]
            return self.tup("std::tuple<%s>" % ", ".join(e.cpp for e in es), es)
        if k == "array":
            e, n = self.ty(d - 1), r.randrange(0, 4)
            return self.seqlike("std::array<%s, %d>" % (e.cpp, n), e, "sarr", n, "%s{ { %s } }" if n else "%s{ %s }")
        if k == "digest":
            n = r.choice([1, 2, 8, 16, 20])
            u = Ty("unsigned char", {"k": "int", "n": 1}, lambda: (lambda x: (lit("unsigned char", x), jint(x), 1))(r.randrange(256)))
            return self.seqlike("h2::digest<%d>" % n, u, "sarr", n, "%s{ { %s } }")
        if k in ("bsv", "sv"):
            cpp = "boost::core::string_view" if k == "bsv" else "std::string_view"

            def gen():
                s = [r.choice([0, 65, 66, 97, 10, 127]) for _ in range(r.randrange(6))]
                return '%s( "%s", %d )' % (cpp, "".join("\\%03o" % x for x in s), len(s)), [jint(x) for x in s], len(s) + 8
            return Ty(cpp, {"k": "seq", "e": {"k": "int", "n": 1}}, gen)
        if k == "string":
            c, n = r.choice([("std::string", 1), ("std::u16string", 2), ("std::u32string", 4)])
            el = {"std::string": "char", "std::u16string": "char16_t", "std::u32string": "char32_t"}[c]

            def gen():
                s = [r.choice([0, 65, 97, 127]) for _ in range(r.randrange(20))]
                if not s:
                    return c + "()", [], 8
                return "%s{ %s }" % (c, ", ".join("%s( %d )" % (el, x) for x in s)), [jint(x) for x in s], n * len(s) + 8
            return Ty(c, {"k": "seq", "e": {"k": "int", "n": n}}, gen)
        if k == "vector":
            e = self.ty(d - 1)
            if e.cpp == "bool":
                e = self.flt() if self.floats else self.enum_()
            cpp = "std::vector<%s>" % e.cpp
            t = self.seqlike(cpp, e, "seq", None, "%s{ %s }")
            g = t.gen

            def gen():
                # braces with one vector of vectors would copy
                while True:
                    x = g()
                    if len(x[1]) != 1 or "vector" not in e.cpp:
                        return x
            t.gen = gen
            return t
        if k == "desc":
            return self.desc(d)
        return self.usr(d)

    def tup(self, cpp, es):
        def gen():
            xs = [e.gen() for e in es]
            return "%s( %s )" % (cpp, ", ".join(x[0] for x in xs)) if xs else cpp + "()", [x[1] for x in xs], sum(x[2] for x in xs) + 1
        return Ty(cpp, {"k": "tup", "es": [e.j for e in es]}, gen)

    def desc(self, d):
        r = self.r
        ms = [self.ty(d - 1, False) for _ in range(r.randrange(4))]
        bs = []
        for _ in range(r.choice([0, 0, 1, 2])):
            b = self.desc(d - 1) if d > 0 else None
            if b and b.cpp not in [x.cpp for x in bs] + [m.cpp for m in ms]:
                bs.append(b)
        n = self.fresh("D")
        args = ["%s const& b%d" % (b.cpp, i) for i, b in enumerate(bs)] + ["%s const& a%d" % (m.cpp, i) for i, m in enumerate(ms)]
        init = ["%s( b%d )" % (b.cpp, i) for i, b in enumerate(bs)] + ["m%d( a%d )" % (i, i) for i in range(len(ms))]
        self.code.append("struct %s%s { %s CF %s%s( %s )%s {} };\nBOOST_DESCRIBE_STRUCT( %s, (%s), (%s) )" % (
            n, ": " + ", ".join("public " + b.cpp for b in bs) if bs else "", " ".join("%s m%d;" % (m.cpp, i) for i, m in enumerate(ms)), "explicit " if len(args) == 1 else "", n, ", ".join(args),
            ": " + ", ".join(init) if init else "", n, ", ".join(b.cpp for b in bs), ", ".join("m%d" % i for i in range(len(ms)))))

        def gen():
            x, y = [b.gen() for b in bs], [m.gen() for m in ms]
            return "%s( %s )" % (n, ", ".join(v[0] for v in x + y)) if x + y else n + "()", {"b": [v[1] for v in x], "m": [v[1] for v in y]}, sum(v[2] for v in x + y) + 1
        return Ty(n, {"k": "cls", "bs": [b.j for b in bs], "ms": [m.j for m in ms]}, gen)

    def usr(self, d):
        r = self.r
        n = self.fresh("G")
        fs = [self.ty(d - 1) for _ in range(r.randrange(1, 3))]
        e, cap = self.ty(0), 4
        op = r.choice(["range", "sized", "unordered"])
        fn = {"range": "hash_append_range", "sized": "hash_append_sized_range", "unordered": "hash_append_unordered_range"}[op]
        self.code.append("struct %s { %s %s a[ %d ]; short n;\n  template<class H, class F> friend BOOST_CXX14_CONSTEXPR void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, %s const& v ) { %s h2::%s( h, f, v.a, v.a + v.n ); h2::hash_append_size( h, f, v.n ); } };" % (
            n, " ".join("%s f%d;" % (f.cpp, i) for i, f in enumerate(fs)), e.cpp, cap, n, " ".join("h2::hash_append( h, f, v.f%d );" % i for i in range(len(fs))), fn))

        def gen():
            x = [f.gen() for f in fs]
            k = r.randrange(cap + 1)
            a = [e.gen() for _ in range(cap)]
            val = [{"op": "value", "t": f.j, "v": v[1]} for f, v in zip(fs, x)] + [{"op": op, "t": e.j, "v": [v[1] for v in a[:k]]}, {"op": "size", "v": jint(k)}]
            return "%s{ %s, { %s }, %d }" % (n, ", ".join(v[0] for v in x), ", ".join(v[0] for v in a), k), val, sum(v[2] for v in x + a) + 32
        return Ty(n, {"k": "usr"}, gen)

    # ------------------------------------------------------------ behaviours
    def bytes_(self, b):
        n = self.fresh("m")
        self.code.append("static constexpr u8 %s[] = { %s };" % (n, ", ".join(map(str, b)) or "0"))
        return n

    def update(self, o, b):
        """one message in pieces"""
        r, n = self.r, len(b)
        m = self.bytes_(b)
        out, i = [], 0
        pieces = r.choice([1, 1, 2, 3, 4])
        cuts = sorted(r.randrange(n + 1) for _ in range(pieces - 1)) + [n]
        for c in cuts:
            if c == i and r.randrange(2):
                out.append("%s.update( static_cast<u8 const*>( nullptr ), 0 );" % o)
            else:
                out.append("%s.update( %s + %d, %d );" % (o, m, i, c - i))
            i = c
        return " ".join(out)

    def behaviour(self, id, steps, spec="TraceAppend"):
        """steps: hash-store lines as for the driver, and ("A", o, Ty) / ("Q", o) for appends and calls.
        Returns None if too large."""
        r = self.r
        body, ev, k, var, used, size = [], [], 0, {}, {}, {}
        for st in steps:
            f = st.split() if isinstance(st, str) else st
            o = f[1] if len(f) > 1 else None
            if f[0] == ".":
                continue
            if f[0] == "N":
                a, kind = f[2], f[3]
                v = self.fresh("hs")
                cpp = a if a == "rec64" else "h2::" + a
                if kind == "d":
                    body.append("%s %s;" % (cpp, v) if r.randrange(2) else "%s %s{};" % (cpp, v))
                    s = []
                elif kind == "i":
                    body.append("%s %s( 0x%sull );" % (cpp, v, f[4]))
                    x = int(f[4], 16)
                    s = [x >> q & 0xffff for q in (0, 16, 32, 48)]
                else:
                    s = list(bytes.fromhex(f[4])) if f[4] != "-" else []
                    body.append("%s %s( %s, %d );" % (cpp, v, self.bytes_(s) if s or r.randrange(2) else "static_cast<u8 const*>( nullptr )", len(s)))
                var[o], used[o], size[o] = v, a, 0
                ev.append('%s' % json.dumps({"op": "new", "o": int(o), "a": a, "k": kind, "s": s}))
            elif f[0] == "U":
                b = bytes.fromhex(f[2]) if f[2] != "-" else b""
                body.append(self.update(var[o], b))
                size[o] += len(b)
                ev.append(json.dumps({"op": "upd", "o": int(o), "b": list(b)}))
            elif f[0] == "R":
                body.append("put( out, %d, %s.result() );" % (k, var[o]))
                ev.append([('{"op":"res","o":%s,"r":' % o, "both", k, "}")])
                k += 1
            elif f[0] in "CM":
                p = f[2]
                if p in var and used[p] == used[o]:
                    body.append("%s = %s;" % (var[p], var[o]))
                else:
                    v = self.fresh("hs")
                    body.append("auto %s = %s;" % (v, var[o]) if f[0] == "C" else "auto %s( std::move( %s ) );" % (v, var[o]))
                    var[p] = v
                used[p], size[p] = used[o], size[o]
                ev.append(json.dumps({"op": "copy", "o": int(o), "p": int(p)}))
            elif f[0] == "F":
                pass
            elif f[0] in "AQ":
                fl, bo, sz = r.choice(FLAVORS)
                fj = {"bo": bo, "sz": sz}
                rec = used[o] == "rec64"
                if rec:
                    at = self.fresh("at")
                    body.append("std::size_t %s = %s.n; (void)%s;" % (at, var[o], at))
                if f[0] == "A":
                    t = f[2]
                    e, v, n = t.gen()
                    x = self.fresh("x")
                    body.append("{ %s h2::hash_append( %s, %s, %s ); }" % (t.decl(x, e), var[o], fl, x))
                    head = {"op": "app", "o": int(o), "f": fj, "t": t.j, "v": v}
                else:
                    body_, c, n = self.call(var[o], fl)
                    body.append(body_)
                    head = {"op": "call", "o": int(o), "f": fj, "c": c}
                size[o] += n
                if rec:
                    body.append("putmsg( out, %d, %s, %s );" % (k, var[o], at))
                    ev.append([(json.dumps(head)[:-1] + ',"m":', "both", k, "}")])
                    k += 1
                else:
                    head["m"] = []
                    ev.append(json.dumps(head))
                if size[o] > 1000:
                    return None
        self.emit(id, body, ev, k, 1024 if any(isinstance(s, tuple) for s in steps) else 64)
        return id

    def call(self, h, fl):
        r = self.r
        op = r.choice(["range", "sized", "unordered", "size"])
        if op == "size":
            c, n = r.choice([("std::size_t", self.word), ("unsigned", 4), ("unsigned short", 2), ("unsigned char", 1), ("int", 4)])
            x = r.choice([0, 1, 255, 256, 65535, 65536, 2**31 - 1, 2**32 + 5]) & ((1 << 8 * n - (1 if c == "int" else 0)) - 1)
            return "h2::hash_append_size( %s, %s, static_cast<%s>( %dull ) );" % (h, fl, c, x), {"op": op, "v": jint(x)}, 8
        e = self.ty(1)
        n = r.randrange(5)
        xs = [e.gen() for _ in range(n)]
        fn = {"range": "hash_append_range", "sized": "hash_append_sized_range", "unordered": "hash_append_unordered_range"}[op]
        a = self.fresh("a")
        if n == 0:
            dcl, b, l = "", "static_cast<%s const*>( nullptr )" % e.cpp, "static_cast<%s const*>( nullptr )" % e.cpp
        else:
            cv = r.choice(["", " const"]) if e.j["k"] in ("int", "flt") else ""      # GCC 13 rejects some constants of class type
            dcl, b, l = "%s%s %s[ %d ] = { %s };" % (e.cpp, cv, a, n, ", ".join(x[0] for x in xs)), a + " + 0", "%s + %d" % (a, n)
            w = r.randrange(4)
            if w == 0:
                b, l = "Fwd<%s>( %s )" % (e.cpp, a), "Fwd<%s>( %s + %d )" % (e.cpp, a, n)
            elif w == 1 and ( self.std >= 20 or self.all ) and e.cpp != "bool":
                dcl, b, l = "std::vector<%s> %s( { %s } );" % (e.cpp, a, ", ".join(x[0] for x in xs)), a + ".begin()", a + ".end()"
                if "vector" in e.cpp or n == 1:
                    dcl = "std::vector<%s> %s; %s" % (e.cpp, a, " ".join("%s.push_back( %s );" % (a, x[0]) for x in xs))
        return "{ %s h2::%s( %s, %s, %s, %s ); }" % (dcl, fn, h, fl, b, l), {"op": op, "t": e.j, "v": [x[1] for x in xs]}, sum(x[2] for x in xs) + 16

    def emit(self, id, body, ev, k, w):
        """ev: texts, or lists of (text before, how, argument, text after)"""
        k = max(k, 1)
        f, c, q = self.fresh("beh"), self.fresh("ct"), self.fresh("show")
        o = "Out<%d, %d>" % (k, w)
        self.code.append("CF %s %s()\n{\n    %s out{};\n    %s\n    return out;\n}\nCT %s %s = %s();" % (o, f, o, "\n    ".join(body), o, c, f))
        parts = []
        for e in ev:
            if isinstance(e, str):
                parts.append('s += R"Z(%s)Z";' % e)
            else:
                parts.append(" ".join('s += R"Z(%s)Z"; s += %s( o, %s ); s += R"Z(%s)Z";' % (a, how, arg, z) for a, how, arg, z in e))
        self.code.append("static std::string %s( %s const& o )\n{\n    std::string s; (void)o;\n    %s\n    return s;\n}" % (q, o, "\n    s += \",\"; ".join(parts)))
        self.runs.append("    run( \"%s\", %s, %s, %s );" % (id, c, f, q))

    def digest(self, id, n):
        """a history of digests"""
        r = self.r
        body, ev, k, val = [], [], 0, {}

        def seen(head, o):
            nonlocal k
            body.append("see( out, %d, %s );" % (k, val[o]))
            ev.append([(json.dumps(head)[:-1] + ',"see":', "shown", "%d, %d" % (k, n), ',"size":%d}' % n)])
            k += 1
        for i in range(r.randrange(4, 9)):
            op = r.choice("NNCSFEETTA") if len(val) > 1 else "N"
            o = r.choice(sorted(val)) if val else 0
            if op == "N":
                o = len(val) % 3
                v = self.fresh("d")
                if r.randrange(3) == 0:
                    body.append("h2::digest<%d> %s;" % (n, v) if r.randrange(2) else "h2::digest<%d> %s{};" % (n, v))
                    val[o] = v
                    seen({"op": "new", "k": "default", "n": n, "o": o}, o)
                else:
                    b = list(r.randbytes(n)) if r.randrange(4) else [255] * n
                    body.append("u8 const a%s[] = { %s }; h2::digest<%d> %s( a%s );" % (v, ", ".join(map(str, b)), n, v, v))
                    val[o] = v
                    seen({"op": "new", "k": "array", "b": b, "o": o}, o)
            elif op == "C":
                p = r.choice(sorted(val))
                if r.randrange(2):
                    body.append("%s = %s;" % (val[p], val[o]))
                else:
                    v = self.fresh("d")
                    body.append("h2::digest<%d> %s( %s );" % (n, v, val[o]))
                    val[p] = v
                seen({"op": "copy", "o": o, "p": p}, p)
            elif op == "S":
                w = r.randrange(5)
                i = 0 if w == 0 else n - 1 if w == 1 else r.randrange(n)
                b = r.randrange(256)
                body.append(("%s.front() = %d;" % (val[o], b), "%s.back() = %d;" % (val[o], b), "%s[ %d ] = %d;" % (val[o], i, b), "%s.data()[ %d ] = %d;" % (val[o], i, b), "*( %s.begin() + %d ) = %d;" % (val[o], i, b))[w])
                seen({"op": "set", "o": o, "i": i, "b": b}, o)
            elif op == "F":
                b = r.randrange(256)
                body.append("for( u8& x: %s ) x = %d;" % (val[o], b))
                seen({"op": "fill", "o": o, "b": b}, o)
            elif op == "E":
                p = r.choice(sorted(val))
                body.append("out.b[ %d ][ 0 ] = %s == %s; out.b[ %d ][ 0 ] = %s != %s;" % (k, val[o], val[p], k + 1, val[o], val[p]))
                ev.append([('{"op":"eq","o":%d,"p":%d,"eq":' % (o, p), "flag", k, ',"ne":'), ("", "flag", k + 1, "}")])
                k += 2
                # differing in one byte
                v, i = self.fresh("d"), r.randrange(n)
                body.append("h2::digest<%d> %s = %s; %s[ %d ] ^= %d; out.b[ %d ][ 0 ] = %s == %s; out.b[ %d ][ 0 ] = %s != %s;" % (n, v, val[o], v, i, 1 << r.randrange(8), k, val[o], v, k + 1, v, val[o]))
                ev.append([('{"op":"fact","doc":false,"is":', "flag", k, "}")])
                ev.append([('{"op":"fact","doc":true,"is":', "flag", k + 1, "}")])
                k += 2
            else:
                lead, tail = r.randrange(4), r.randrange(4)
                m = r.choice([0, 1, r.randrange(2 * n), 2 * n, 2 * n + 3]) if op == "T" else 2 * n + 1 + r.choice([0, 5])
                if op == "A":
                    lead = tail = 0
                pre = [r.randrange(1, 127) for _ in range(lead + m + tail)]
                b = self.fresh("c")
                if not pre:
                    continue
                body.append("char %s[] = { %s };" % (b, ", ".join(map(str, pre))))
                if op == "T":
                    body.append("{ char* p = h2::to_chars( %s, %s + %d, %s + %d ); out.b[ %d ][ 0 ] = p? static_cast<u8>( p - ( %s + %d ) ): 255; }" % (val[o], b, lead, b, lead + m, k, b, lead))
                    body.append("putchars( out, %d, %s, %d );" % (k + 1, b, len(pre)))
                    ev.append([('{"op":"chars","o":%d,"lead":%d,"n":%d,"pre":%s,"ret":' % (o, lead, m, json.dumps(pre)), "off", k, ',"post":'), ("", "one", k + 1, "}")])
                    k += 2
                else:
                    body.append("h2::to_chars( %s, %s ); putchars( out, %d, %s, %d );" % (val[o], b, k, b, len(pre)))
                    ev.append([('{"op":"arr","o":%d,"pre":%s,"post":' % (o, json.dumps(pre)), "one", k, "}")])
                    k += 1
        self.emit(id, body, ev, k, max(8 * n, 4 * n + 20))

    def projection(self, id, count):
        r = self.r
        cpp, n, arr = r.choice([("std::uint8_t", 1, 0), ("std::uint16_t", 2, 0), ("std::uint32_t", 4, 0), ("std::uint64_t", 8, 0), ("h2::digest<16>", 16, 1), ("h2::digest<8>", 8, 1), ("h2::digest<20>", 20, 1)] +
                               ([("std::array<u8, 8>", 8, 1), ("std::array<u8, 19>", 19, 1)] if self.std >= 17 or self.all else []))
        t, m = r.choice([(c, k) for c, k, s in self.ints if c != "bool"])
        rs, body = [], []
        for i in range(count):
            b = list(r.randbytes(n)) if r.randrange(3) else [r.choice([0, 255, 128, 127, 1]) for _ in range(n)]
            rs.append(b)
            e = "static_cast<%s>( %dull )" % (cpp, int.from_bytes(bytes(b), "little")) if not arr else "%s{ { %s } }" % (cpp, ", ".join(map(str, b)))
            body.append("put( out, %d, h2::get_integral_result<%s>( %s ) );" % (i, t, e))
        g = [('{"op":"proj","n":%d,"arr":%s,"rs":%s,"ts":[' % (m, "true" if arr else "false", json.dumps(rs)), "one", 0, "," if count > 1 else "]}")]
        for i in range(1, count):
            g.append(("", "one", i, "," if i < count - 1 else "]}"))
        self.emit(id, body, [g], count, 8)

    def source(self):
        return '#include "cx.hpp"\n' + "\n".join(self.code) + "\nint main()\n{\n" + "\n".join(self.runs) + "\n}\n"
