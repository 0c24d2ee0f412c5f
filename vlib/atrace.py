"""hash_append conformance: build the value harnesses, run them, validate their records with TraceAppend."""
import json, os, subprocess
from .core import *
from .htrace import write_ndjson, rejected_id

ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=67", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=68"}


class Exe:
    def __init__(self, path, tag):
        self.path, self.tag, self.cmd = path, tag, [path]


def exes(ctx, jobs):
    """jobs: (source, part or None, dict of build options); built in parallel"""
    out = []

    def one(i, src, part, kw):
        kw = dict(kw)
        opts = tuple(kw.pop("opts", ("-O0",)))
        if part is not None:
            opts += ("-DPART=%d" % part,)
        tag = "%s.%s.%s" % (os.path.basename(src)[:-4], part, i)
        p = src if os.path.isabs(src) else os.path.join(HARN, src)
        return Exe(build(ctx, "x%d_%s" % (i, tag), p, opts=opts, **kw), tag)
    return par([lambda i=i, j=j: one(i, *j) for i, j in enumerate(jobs)])


def run(ctx, exe, args=(), timeout=600):
    env = dict(os.environ)
    env.update(ENV)
    t0 = time.time()
    try:
        r = subprocess.run(exe.cmd + ["--seed", str(ctx.seed)] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return [json.dumps({"id": exe.tag + ".timeout", "ev": [{"op": "fault", "what": "no result within %d s" % timeout}]})], "timeout"
    exe.took = round(time.time() - t0, 1)
    recs = [l for l in r.stdout.splitlines() if l.startswith("{") and l.endswith("]}")]
    if r.returncode == 70 and getattr(exe, "bare", False):
        ctx.notes.append({"not_interpreted": exe.tag, "what": r.stderr[-300:]})          # an instruction the interpreter does not have: no verdict on what follows
        ctx.log("%s: %s" % (exe.tag, r.stderr[-200:]))
        return recs, r.stderr
    if r.returncode == 3:
        raise CheckError("harness: " + r.stderr[-2000:])
    if r.returncode not in (0, 66):
        last = json.loads(recs[-1])["id"] if recs else "start"
        recs.append(json.dumps({"id": "%s.after.%s" % (exe.tag, last), "ev": [{"op": "fault", "what": "exit %d" % r.returncode}]}))
    return recs, r.stderr


def acheck(ctx, stage, xs, args=(), cfg="TraceAppend.cfg", spec="TraceAppend.tla", timeout=800, filt=None, post=None, run_timeout=600):
    t0 = time.time()
    outs = par([lambda x=x: run(ctx, x, args, run_timeout) for x in xs])
    seen, recs, origin, errs, total = {}, [], {}, {}, 0
    for x, (rs, err) in zip(xs, outs):
        total += len(rs)
        for line in rs:
            if filt and not filt(line):
                continue
            if line in seen:
                continue
            seen[line] = 1
            recs.append(line)
            i = json.loads(line)["id"]
            origin.setdefault(i, x)
            origin[line] = x
            if err:
                errs[i] = err[-4000:]
    if not recs:
        raise CheckError("stage %s produced no records" % stage)
    slow = sorted(((getattr(x, "took", 0), x.tag) for x in xs), reverse=True)[:4]
    t1 = time.time()
    validate(ctx, stage, recs, origin, args, cfg, spec, errs, timeout, run_timeout)
    ctx.traces += total
    ctx.evals += total
    ctx.nontrivial.update(hash(x) for x in recs)
    ctx.notes.append({"stage": stage, "records": total, "distinct_records": len(recs), "builds": sorted({x.tag for x in xs})[:40], "run_s": round(t1 - t0, 1), "tlc_s": round(time.time() - t1, 1)})
    for r in recs[:2]:
        ctx.sample(r)
    ctx.log("%s: %d records (%d distinct), run %.1fs tlc %.1fs%s" % (stage, total, len(recs), t1 - t0, time.time() - t1, " slowest %s" % slow if t1 - t0 > 20 else ""))
    return recs


def validate(ctx, stage, recs, origin, args, cfg, spec, errs, timeout, run_timeout):
    p = write_ndjson(ctx, stage + ".ndjson", recs)
    res = tlc(ctx, spec, cfg, env={"TRACES": p}, timeout=timeout)
    if res.ok:
        ctx.states += res.distinct
        ctx.transitions += res.generated
        return
    tail = res.out[res.out.find("Error:"):]
    m = re.findall(r'^/\\ t = (\d+)', tail, re.M)
    if not m:
        raise CheckError("rejection without witness in stage %s:\n%s" % (stage, error_tail(res.out)))
    line = recs[int(m[-1]) - 1]
    rid = json.loads(line)["id"]
    x = origin[line]
    again, err = run(ctx, x, list(args) + ["--only", rid], run_timeout)
    again = [a for a in again if json.loads(a)["id"] == rid or "fault" in a]
    if not again or ".after." in rid or rid.endswith(".timeout"):
        again, err = run(ctx, x, args, run_timeout)
    res2 = tlc(ctx, spec, cfg, env={"TRACES": write_ndjson(ctx, stage + ".again.ndjson", again)}, timeout=timeout) if again else res
    if res2.ok:
        again, err = run(ctx, x, args, run_timeout)
        res2 = tlc(ctx, spec, cfg, env={"TRACES": write_ndjson(ctx, stage + ".again.ndjson", again)}, timeout=timeout)
        if res2.ok:
            unrepeated(stage, rid, line, {"stage": stage, "id": rid, "stderr": (errs.get(rid) or "")[-4000:], "build": x.tag, "seed": ctx.seed, "record": line[:20000], "tlc": error_tail(res.out)[:6000]})
    raise Violation("%s: the record of %s (%s) is not a behaviour of the specification" % (stage, rid, x.tag),
                    {"stage": stage, "id": rid, "build": x.tag, "args": list(args), "seed": ctx.seed, "record": line[:30000],
                     "stderr": (errs.get(rid) or err or "")[-4000:], "spec": spec, "cfg": cfg, "tlc": error_tail(res2.out)[:8000]})


# ------------------------------------------------------------------ generated types

SCAL = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long long",
        "wchar_t", "char16_t", "char32_t", "float", "double", "int*", "void const*", "ut::e_i16", "ut::e_u32", "ut::e_char", "ut::e_plain"]
KEYS = ["int", "short", "unsigned char", "std::string", "unsigned long long", "double", "int*", "bool", "char32_t"]
STRS = ["std::string", "std::wstring", "std::u16string"]


class Gen:
    """random C++ types; described and tag_invoke classes are made up on the way"""

    def __init__(self, rng, described=True, usr=True):
        self.r, self.n, self.code, self.described, self.user, self.used_bases = rng, 0, [], described, usr, set()

    def ordered(self, d):
        r = self.r
        k = r.randrange(6) if d > 0 else 0
        if k <= 1:
            return r.choice(SCAL + STRS)
        if k == 2:
            return "std::pair<%s, %s>" % (self.ordered(d - 1), self.ordered(d - 1))
        if k == 3:
            return "%s<%s>" % (r.choice(["std::vector", "std::list", "std::deque", "std::forward_list"]), self.ordered(d - 1))
        if k == 4:
            return "std::tuple<%s>" % ", ".join(self.ordered(d - 1) for _ in range(r.randrange(4)))
        return "std::array<%s, %d>" % (self.ordered(d - 1), r.randrange(1, 3))

    def ty(self, d):
        r = self.r
        if d <= 0:
            return r.choice(SCAL + STRS + (["ut::X1", "ut::X2", "ut::X3", "ut::U2", "ut::e_mod"] if self.user else []))
        k = r.randrange(17)
        t = lambda: self.ty(d - 1)
        if k == 0:
            return self.ty(0)
        if k <= 3:
            return "%s<%s>" % (r.choice(["std::vector", "std::list", "std::deque", "std::forward_list"]), t())
        if k <= 5:
            e, n = t(), r.randrange(0, 4)
            return "%s<%s, %d>" % (r.choice(["std::array", "boost::array"]), e, n)
        if k == 6:
            return "std::pair<%s, %s>" % (t(), t())
        if k <= 8:
            return "std::tuple<%s>" % ", ".join(t() for _ in range(r.randrange(4)))
        if k == 9:
            return "%s<%s>" % (r.choice(["std::set", "std::multiset"]), self.ordered(d - 1))
        if k == 10:
            return "%s<%s, %s>" % (r.choice(["std::map", "std::multimap"]), self.ordered(d - 1), t())
        if k == 11:
            return "%s<%s>" % (r.choice(["std::unordered_set", "std::unordered_multiset"]), r.choice(KEYS))
        if k == 12:
            return "%s<%s, %s>" % (r.choice(["std::unordered_map", "std::unordered_multimap"]), r.choice(KEYS), t())
        if k <= 14 and self.described:
            return self.cls(d)
        if k == 15 and self.user:
            return self.usr(d)
        return r.choice(STRS + ["std::vector<bool>", "h2::digest<%d>" % r.randrange(1, 9)])

    def cls(self, d):
        r = self.r
        bases = []
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            b = self.cls(d - 1) if d > 1 else None
            if b and b not in self.used_bases:
                self.used_bases.add(b)
                bases.append(b)
        self.n += 1
        name = "G%d" % self.n
        ms = [(self.ty(d - 1), "m%d" % i) for i in range(r.randrange(0, 4))]
        arr = {i: r.randrange(1, 4) for i in range(len(ms)) if r.randrange(5) == 0}
        decl = "".join(" %s %s%s;" % (t, m, "[%d]" % arr[i] if i in arr else "") for i, (t, m) in enumerate(ms))
        # the description lists the members in an order of its own
        idx = list(range(len(ms)))
        r.shuffle(idx)
        self.code.append("namespace gt { struct %s%s {%s }; BOOST_DESCRIBE_STRUCT( %s, (%s), (%s) ) }" % (
            name, (": " + ", ".join(r.choice(["public ", ""]) + b for b in bases)) if bases else "", decl, name, ", ".join(bases), ", ".join("m%d" % i for i in idx)))
        jt = lambda ts: ' + "," + '.join("JT(%s)" % t for t in ts) or '""'
        mt = [ms[i][0] if i not in arr else "typename ArrOf<%s, %d>::type" % (ms[i][0].replace("typename ", ""), arr[i]) for i in idx]
        fills = "".join("::fill( static_cast<%s&>( v ), r, h ); " % b for b in bases) + "".join("::fill( v.m%d, r, h ); " % i for i in range(len(ms)))
        jb = ' + "," + '.join("jval<%s>( v )" % b for b in bases) or '""'
        jm = ' + "," + '.join("jval( v.m%d )" % i for i in idx) or '""'
        self.code.append("template<> struct Tr<gt::%s, void> { static std::string type() { return jclst( %s, %s ); }\n  static void fill( gt::%s& v, Rng& r, Rng& h ) { (void)v; (void)r; (void)h; %s}\n  static std::string val( gt::%s const& v ) { (void)v; return jcls( %s, %s ); } };" % (
            name, jt(bases).replace("JT(G", "JT(gt::G"), jt(mt).replace("typename ArrOf", "ArrOf"), name, fills.replace("static_cast<G", "static_cast<gt::G"), name, jb.replace("jval<G", "jval<gt::G"), jm))
        return "gt::" + name

    def usr(self, d):
        r = self.r
        self.n += 1
        name = "G%d" % self.n
        fs, calls, vals, fills = [], [], [], []
        for i in range(r.randrange(1, 4)):
            op = r.choice(["value", "value", "range", "sized", "unordered", "size"])
            t = self.ty(d - 1)
            if op in ("range", "unordered", "sized") and t == "bool":
                t = "char"
            if op == "value":
                fs.append("%s f%d;" % (t, i))
                calls.append("h2::hash_append( h, f, v.f%d );" % i)
                vals.append('jcall( "value", v.f%d )' % i)
            elif op == "size":
                fs.append("short f%d;" % i)
                calls.append("h2::hash_append_size( h, f, v.f%d );" % i)
                vals.append("jsize( v.f%d )" % i)
            else:
                c = r.choice(["std::vector", "std::list", "std::forward_list"])
                fs.append("%s<%s> f%d;" % (c, t, i))
                fn = {"range": "hash_append_range", "sized": "hash_append_sized_range", "unordered": "hash_append_unordered_range"}[op]
                calls.append("h2::%s( h, f, v.f%d.begin(), v.f%d.end() );" % (fn, i, i))
                vals.append('jcalls( "%s", std::vector<%s>( v.f%d.begin(), v.f%d.end() ) )' % (op, t, i, i))
            fills.append("::fill( v.f%d, r, h );" % i)
        # at least one byte, whatever the ranges hold
        if not any("hash_append( " in c or "_size(" in c or "sized" in c or "unordered" in c for c in calls):
            calls.append("h2::hash_append( h, f, 'x' );")
            vals.append("jcall( \"value\", 'x' )")
        self.code.append("namespace gt { struct %s { %s\n  template<class H, class F> friend void tag_invoke( h2::hash_append_tag const&, H& h, F const& f, %s const& v ) { %s } }; }" % (
            name, " ".join(fs), name, " ".join(calls)))
        self.code.append('template<> struct Tr<gt::%s, void> { USR_TYPE\n  static void fill( gt::%s& v, Rng& r, Rng& h ) { %s }\n  static std::string val( gt::%s const& v ) { return "[" + %s + "]"; } };' % (
            name, name, " ".join(fills), name, ' + "," + '.join(vals)))
        return "gt::" + name

    def source(self, n, depth):
        ts = []
        while len(ts) < n:
            t = self.ty(depth)
            if t not in ts:
                ts.append(t)
        return ('#include "append_run.hpp"\ntemplate<class T, int N> struct ArrOf { typedef T type[N]; };\n' + "\n".join(self.code)
                + "\nint main( int argc, char** argv )\n{\n    start( argc, argv );\n" + "".join("    entry<%s>( \"%s\" );\n" % (t, t) for t in ts) + "}\n")


def generated_sources(ctx, files, per, depth, usr=True):
    out = []
    for k in range(files):
        p = ctx.path("gen%d.cpp" % k)
        with open(p, "w") as f:
            f.write(Gen(ctx.rng, usr=usr).source(per, depth))
        out.append(p)
    return out


# ------------------------------------------------------------------ the universe of MCAppend, in C++

class Universe:
    """C++ types for the types of the specification; values are read at run time"""

    def __init__(self, rng):
        self.r, self.code, self.names = rng, [], {}

    def cpp(self, t, hashable=False):
        r = self.r
        k = t["k"]
        if k in ("int", "flt"):
            return t["c"]
        if k == "seq":
            return "std::%s<%s>" % (r.choice(["vector", "vector", "list", "deque", "forward_list"]), self.cpp(t["e"]))
        if k == "uno":
            return "std::unordered_multiset<%s, BadHash>" % self.cpp(t["e"])
        if k == "sarr":
            return "std::array<%s, %d>" % (self.cpp(t["e"]), t["len"])
        if k == "tup":
            n = "std::pair" if len(t["es"]) == 2 and r.randrange(2) else "std::tuple"
            return "%s<%s>" % (n, ", ".join(self.cpp(e) for e in t["es"]))
        bs, ms = [self.cpp(b) for b in t["bs"]], [self.cpp(m) for m in t["ms"]]
        n = "G%d" % len(self.names)
        self.names[n] = 1
        eq = " && ".join(["static_cast<%s const&>( a ) == static_cast<%s const&>( b )" % (b, b) for b in bs] + ["a.m%d == b.m%d" % (i, i) for i in range(len(ms))]) or "true"
        self.code.append("namespace gt { struct %s%s { %s friend bool operator==( %s const& a, %s const& b ) { (void)a; (void)b; return %s; } }; BOOST_DESCRIBE_STRUCT( %s, (%s), (%s) ) }" % (
            n, ": " + ", ".join(bs) if bs else "", " ".join("%s m%d;" % (m, i) for i, m in enumerate(ms)), n, n, eq, n, ", ".join(b.replace("gt::", "") for b in bs), ", ".join("m%d" % i for i in range(len(ms)))))
        get = "in.eat( '{' ); do { std::string k = in.text(); in.eat( ':' ); in.eat( '[' ); if( k == \"b\" ) { %s } else { %s } in.eat( ']' ); } while( in.maybe( ',' ) ); in.eat( '}' ); " % (
            " in.eat( ',' ); ".join("static_cast<%s&>( v ) = from<%s>( in );" % (b, b) for b in bs), " in.eat( ',' ); ".join("v.m%d = from<%s>( in );" % (i, m) for i, m in enumerate(ms)))
        self.code.append("template<> struct From<gt::%s, void> { static gt::%s get( In& in ) { gt::%s v; %sreturn v; } };" % (n, n, n, get))
        return "gt::" + n

    def source(self, ts, values):
        body = []
        for i, t in ts:
            body.append("    replay<%s>( is, \"u%d\", R\"(%s)\" );" % (self.cpp(t), i, json.dumps(t, separators=(",", ":"))))
        return "#include \"replay.hpp\"\n" + "\n".join(self.code) + "\nint main( int argc, char** argv )\n{\n    start( argc, argv );\n    std::ifstream is( \"%s\" );\n%s\n}\n" % (values, "\n".join(body))


def universe_sources(ctx, uni, files, pick):
    lines = open(uni).read().splitlines()
    idx = list(range(len(lines)))
    if pick and pick < len(idx):
        idx = sorted(ctx.rng.sample(idx, pick))
    out = []
    for k in range(files):
        u = Universe(ctx.rng)
        vals, ts = ctx.path("uni%d.txt" % k), []
        with open(vals, "w") as f:
            for i in idx[k::files]:
                d = json.loads(lines[i])
                ts.append((i, d["t"]))
                for v in d["vs"]:
                    f.write(json.dumps(v, separators=(",", ":")) + "\n")
                f.write("\n")
        p = ctx.path("uni%d.cpp" % k)
        with open(p, "w") as f:
            f.write(u.source(ts, vals))
        out.append(p)
    return out
