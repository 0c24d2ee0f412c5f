"""Platforms other than the sandbox's: 32-bit x86 (run by the kernel) and 64-bit big-endian MIPS (run by harness/bare/mips64.cpp)."""
import glob
from .core import *
from .atrace import Exe

BARE = os.path.join(HARN, "bare")
FLAGS = ("-ffunction-sections", "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-fno-stack-protector", "-fno-asynchronous-unwind-tables", "-fno-pic", "-DNO_SIGNALS", "-D__NO_INLINE__=1", "-U_FORTIFY_SOURCE", "-w")
INC = ("-nostdinc++", "-isystem", "/usr/include/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu", "-isystem", "/usr/include")
# name -> (compiler with its target, linker, program that runs it, configuration of the specification)
TARGETS = {"i386": (("clang++", "-m32", "-march=i686"), ("ld", "-m", "elf_i386"), False, "32"),
           "i386gcc": (("g++", "-m32"), ("ld", "-m", "elf_i386"), False, "32"),
           "x86-64": (("clang++",), None, None, ""),
           "mips64": (("clang++", "--target=mips64-linux-gnuabi64", "-mips64r2", "-mno-abicalls", "-G0"), None, True, "BE")}


def lld():
    for p in ("/root/.rustup/toolchains/*/lib/rustlib/*/bin/rust-lld", "/app/toolchains/*/bin/ld.lld", "/app/checker/bin/ld.lld"):
        for x in sorted(glob.glob(p)):
            return (x, "-flavor", "gnu") if x.endswith("rust-lld") else (x,)
    raise CheckError("no linker for mips64")


def _cc(target, std, opts, src, obj):
    return list(TARGETS[target][0]) + ["-std=%s" % std] + list(opts) + list(FLAGS) + ["-include", os.path.join(BARE, "bare.hpp"), "-isystem", os.path.join(BARE, "inc"), "-I" + os.path.join(REPO, "include"), "-I" + HARN] + list(INC) + ["-c", src, "-o", obj]


def _tool(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    if r.returncode:
        raise CheckError(" ".join(cmd) + "\n" + r.stderr[-3000:])


def prepare(ctx, targets):
    """the runtime for each target, and the machine"""
    def rt(t):
        # a tree the library's headers are broken in must not matter here: the runtime does not include them
        _tool(_cc(t, "c++17", ("-O1", "-fno-builtin"), os.path.join(BARE, "runtime.cpp"), ctx.path("rt.%s.o" % t)))
    jobs = [lambda t=t: rt(t) for t in targets if t != "x86-64"]
    if "mips64" in targets:
        jobs.append(lambda: _tool(["g++", "-O2", "-std=c++17", os.path.join(BARE, "mips64.cpp"), "-o", ctx.path("mips64")]))
    par(jobs)


def build_for(ctx, target, src, part=None, std="c++17", opts=("-O1",)):
    p = src if os.path.isabs(src) else os.path.join(HARN, src)
    tag = "%s.%s.%s%s%s" % (os.path.basename(p)[:-4], part, target, std[3:], "".join(opts).replace("/", "_")[-60:])
    out = ctx.path("b_" + tag)
    if target == "x86-64":
        return Exe(build(ctx, "b_" + tag, p, std=std, opts=tuple(opts) + (("-DPART=%d" % part,) if part is not None else ()), cxx="clang++"), tag)
    o = tuple(opts) + (("-DPART=%d" % part,) if part is not None else ())
    cmd = _cc(target, std, o, p, out + ".o")
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    if r.returncode:
        # whether the harness is to blame: it compiles for the sandbox's own platform with the same library
        n = subprocess.run([cmd[0]] + ["-std=" + std] + list(o) + ["-DNO_SIGNALS", "-w", "-fsyntax-only", "-I" + os.path.join(REPO, "include"), "-I" + HARN, p], capture_output=True, text=True, timeout=600)
        raise Violation("does not compile for %s (and %s for x86-64)" % (target, "does not" if n.returncode else "does"), {"cmd": cmd, "source": open(p).read()[-20000:], "errors": r.stderr[:6000]})
    link = TARGETS[target][1] or lld() + ("-m", "elf64btsmip")
    cmd = list(link) + ["-static", "--gc-sections", "-e", "_start", "-o", out, out + ".o", ctx.path("rt.%s.o" % target)]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    if r.returncode and "undefined" in r.stderr:
        # something of a C++ runtime library that ours does not have: no verdict from this program
        ctx.notes.append({"not_linked": tag, "undefined": sorted(set(re.findall(r"undefined (?:symbol: |reference to )(.*)", r.stderr)))[:10]})
        ctx.log("not linked: %s: %s" % (tag, ctx.notes[-1]["undefined"]))
        return None
    if r.returncode:
        raise CheckError(" ".join(cmd) + "\n" + r.stderr[-3000:])
    os.remove(out + ".o")
    x = Exe(out, tag)
    x.bare = True
    if TARGETS[target][2]:
        x.cmd = [ctx.path("mips64"), out]
    return x


def cfg(target, base="TraceAppend"):
    return "%s%s.cfg" % (base, TARGETS[target][3])
