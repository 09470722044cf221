"""Harness generation and analysis: one harness = one archive operation instantiated
for a type shape and a configuration, compiled to IR and decided by the engine."""
import json, os, subprocess, sys, time, traceback
from . import absint as A
from . import models, spec, types_
from .absint import IV, PV, Obj, const, TABLE, Unsupported
from .lin import Lin

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEADER = os.environ.get("ZPP_HEADER", "/repo/zpp_bits.h")
CXX = "clang++-18"
BASEFLAGS = ["-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-fno-strict-aliasing",
             "-g1", "-w", "-DZPP_HEADER=\"%s\"" % HEADER]
_S = "sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,jump-threading,correlated-propagation,simplifycfg"
_U = "loop-simplify,lcssa,loop(indvars),z-unroll,sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,gvn,dse,jump-threading,correlated-propagation,adce,simplifycfg"
PASSES = "function(lowerinvoke,lower-expect,loweratomic),always-inline,globaldce,function(%s,%s,%s,%s,instcombine<no-verify-fixpoint>,simplifycfg)" % (_S, _U, _S, _U)

SIZE_OPT = {"u8": "zb::size1b{}", "u16": "zb::size2b{}", "u32": "zb::size4b{}", "u64": "zb::size8b{}",
            "varint": "zb::size_varint{}", "none": "zb::no_size{}"}


def options(cfg):
    o = []
    if cfg.get("swap"):
        o.append(cfg.get("swap_opt", "zb::endian::swapped{}"))
    if "size" in cfg:
        o.append(SIZE_OPT[cfg["size"]])
    if cfg.get("limit") is not None:
        o.append("zb::alloc_limit<%dull>{}" % cfg["limit"])
    if cfg.get("enlarger_opt"):
        o.append(cfg["enlarger_opt"])
    if cfg.get("no_fit"):
        o.append("zb::no_fit_size{}")
    if cfg.get("no_overflow_check"):
        o.append("zb::no_enlarge_overflow{}")
    o += cfg.get("opts", [])
    return o


class H:
    """harness: shape(s) x mode x cfg"""
    def __init__(self, name, shapes, mode, cfg=None, tags=(), opts=None, pre="", defines=(), one_call=True, group="", ops=None):
        self.name, self.mode = name, mode
        self.shapes = shapes if isinstance(shapes, (list, tuple)) else [shapes]
        self.cfg = dict(cfg or {})
        self.tags = set(tags)
        self.opts = dict(opts or {})
        self.pre = pre
        self.defines = tuple(defines)
        self.group = group

    def build(self):
        self.g = types_.Gen(self.mode, self.cfg)
        self.insts = [s.inst(self.g) for s in self.shapes]
        self.items = [it for i in self.insts for it in i.items()]
        if "prefix" in self.cfg:
            self.items.insert(0, spec.Tag(self.cfg["prefix"]))

    def source(self):
        self.build()
        c = self.cfg
        bt = c.get("byte", "std::byte")
        L = ["namespace h_%s {" % self.name]
        if self.pre:
            L.append(self.pre)
        L += self.g.decls
        if "post" in c:
            L.append(c["post"])
        grow = c.get("grow")
        w = self.mode == "w"
        cls = c.get("cls", "zb::out" if w else "zb::in")
        if grow:
            L.append('extern "C" int zh_%s(usz pos) { zx::gbuf<%s> data;' % (self.name, bt))
        elif w or c.get("mutable_in"):
            L.append('extern "C" int zh_%s(%s * p, usz n, usz pos) { std::span<%s%s> data{p, %s};' % (self.name, bt, bt, self.ext(), self.extn()))
        else:
            L.append('extern "C" int zh_%s(const %s * p, usz n, usz pos) { std::span<const %s%s> data{p, %s};' % (self.name, bt, bt, self.ext(), self.extn()))
        L += ["  " + x for x in self.g.pre]
        for k, i in enumerate(self.insts):
            if i.init in ("{}",):
                L.append("  %s v%d{};" % (i.cpp, k))
            elif i.init.startswith("{"):
                L.append("  %s v%d %s;" % (i.cpp, k, i.init))
            elif getattr(i, "raw_init", False):
                L.append("  %s v%d = %s;" % (i.cpp, k, i.init))
            else:
                L.append("  %s v%d(%s);" % (i.cpp, k, i.init))
        o = options(c)
        os_ = "".join(", " + x for x in o)
        L.append(c["ctor"].replace("%s", os_) if "ctor" in c else "  %s archive{data%s};" % (cls, os_))
        L.append("  archive.position() = pos;")
        args = ", ".join("v%d" % k for k in range(len(self.insts)))
        if "stmt" in c:
            L.append("  " + c["stmt"].replace("%s", args))
        else:
            L.append("  auto r = archive(%s);" % (c["call"].replace("%s", args) if "call" in c else args))
        L.append("  zsink_pos(archive.position());")
        if not w:
            L.append("  if (int(r.code) == 0) {")
            for k, i in enumerate(self.insts):
                L += ["    " + s for s in i.sinks("v%d" % k)]
            L.append("  }")
        else:
            for k, i in enumerate(self.insts):
                L += ["    " + s for s in i.sinks("v%d" % k)]
        L.append("  return int(r.code); }")
        L.append("}")
        return "\n".join(L)

    def ext(self):
        return ", %d" % self.cfg["extent"] if self.cfg.get("extent") else ""

    def extn(self):
        return str(self.cfg["extent"]) if self.cfg.get("extent") else "n"

    # -- engine side
    def setup(self, e, f, st):
        n = TABLE.lin("n", 63)
        pos = TABLE.lin("pos", 63)
        st.sys.add(n - pos)
        if self.cfg.get("no_overflow_check"):
            # the option is the user's promise that sizes never come near overflow
            st.sys.add(const(1 << 60) - n)
        if self.cfg.get("extent"):
            st.sys.add(n - self.cfg["extent"])
            st.sys.add(const(self.cfg["extent"]) - n)
        self.n, self.pos = n, pos
        if self.cfg.get("grow"):
            st.env[f.args[0][0]] = IV(64, pos)
            self.buf = models.gobj(e, st, 0)
            del st.objs["g0"]
        else:
            b = Obj("buf", "buf", n, root="buf", readonly=self.mode == "r")
            e.region_objs.append(b)
            self.buf = b
            st.env[f.args[0][0]] = PV(b, const(0))
            st.env[f.args[1][0]] = IV(64, n)
            st.env[f.args[2][0]] = IV(64, pos)

    def decide(self, e, rets):
        return spec.decide(e, rets, self.items, self.cfg, self.mode, self.buf, self.n, self.pos, self.opts)

    def analyze(self, module):
        A.reset()
        models.reset()
        spec.BOUNDS.clear()
        A.DISJUNCTS = self.opts.get("disjuncts", 24)
        A.MAXSTATES = self.opts.get("maxstates", 600)
        e = A.Engine(module, models.HOOKS)
        e.probe_grows = bool(self.cfg.get("grow")) and self.mode == "w"
        e.low_bytes = bool(self.opts.get("low_bytes"))
        e.quiet_loops = bool(self.opts.get("quiet_loops"))
        rets = e.analyze("zh_" + self.name, self.setup)
        self.engine = e
        self.opts["partial"] = self.g.partial
        viol, stats = self.decide(e, rets)
        for rule, ok, loc, text in e.obligations:
            if not ok:
                viol.append((rule, text, loc))
        for x in e.exits:
            if x.kind == "noreturn" and "result" not in self.tags:
                viol.append(("no-throw", "the operation may end in %s instead of returning" % x.code, x.loc))
        stats["noreturn"] = [(x.kind, x.code) for x in e.exits if x.kind != "ret"]
        stats.update(e.stats)
        stats["obligations"] = len(e.obligations)
        stats["discharged"] = sum(1 for o in e.obligations if o[1])
        byrule = {}
        for o in e.obligations:
            byrule[o[0]] = byrule.get(o[0], 0) + 1
        stats["byrule"] = byrule
        return viol, stats, rets


def fmt_loc(loc):
    """[(file,line,func)...] innermost first -> readable, only library frames"""
    if not loc:
        return "?"
    fr = []
    for x in loc:
        try:
            f, l = x[0], x[1]
            fn = x[2] if len(x) > 2 else ""
        except (TypeError, IndexError):
            continue
        fr.append("%s:%s%s" % (os.path.basename(str(f)), l, " in %s" % fn if fn else ""))
    lib = [x for x in fr if x.startswith("zpp_bits.h")]
    return " <- ".join((lib or fr)[:6])


def build_tool(out):
    if os.path.exists(out):
        return out
    env = dict(os.environ)
    env.pop("LD_LIBRARY_PATH", None)
    cmd = [CXX, "-std=c++17", "-O1", "-fno-rtti", "-I/usr/include/llvm-18", "-I/usr/include/llvm-c-18",
           os.path.join(ROOT, "tool/irdump.cpp"), "-o", out + ".tmp", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True, env=env)
    if r.returncode:
        raise RuntimeError("building irdump failed:\n" + r.stderr[-4000:])
    os.replace(out + ".tmp", out)
    return out


class CompileError(Exception):
    pass


def cxxflags(extra):
    flags = [f for f in BASEFLAGS if f != "-w" or not any(x.startswith("-Werror") for x in extra)]
    if "-stdlib=libstdc++" not in extra:
        flags.append("-stdlib=libc++")
    return flags + list(extra)


def build_pch(args):
    """precompiled model header (it includes the library) for one flag set"""
    workdir, extra = args
    import hashlib
    pch = os.path.join(workdir, "m_%s.pch" % hashlib.sha1(repr(extra).encode()).hexdigest()[:10])
    r = subprocess.run([CXX] + cxxflags(extra) + ["-x", "c++-header", os.path.join(ROOT, "harness/model.h"), "-o", pch],
                       capture_output=True, text=True)
    return extra, (pch if r.returncode == 0 else None), r.stderr


def compile_unit(tool, workdir, uname, hs, extra=(), pch=None):
    src = [] if pch else ['#include "%s/harness/model.h"' % ROOT]
    for h in hs:
        src.append(h.source())
    cpp = os.path.join(workdir, uname + ".cpp")
    with open(cpp, "w") as f:
        f.write("\n".join(src) + "\n")
    bc = os.path.join(workdir, uname + ".bc")
    r = subprocess.run([CXX] + cxxflags(extra) + (["-include-pch", pch] if pch else []) + ["-ferror-limit=3", "-emit-llvm", "-c", cpp, "-o", bc], capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr)
    js = os.path.join(workdir, uname + ".json")
    with open(js, "w") as f:
        r = subprocess.run([tool, bc, "-zpasses=" + PASSES], stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise CompileError("irdump: " + r.stderr[-3000:])
    with open(js) as f:
        m = json.load(f)
    os.unlink(bc)
    os.unlink(js)
    return m


RESOLVE = (Unsupported, TimeoutError, RecursionError, KeyError, AssertionError, AttributeError, IndexError, TypeError, ValueError)


def run_unit(args):
    tool, workdir, uname, hs, extra, timeout = args[:6]
    pch = args[6] if len(args) > 6 else None
    res = []
    try:
        m = compile_unit(tool, workdir, uname, hs, extra, pch)
    except CompileError as x:
        if len(hs) > 1:
            for k, h in enumerate(hs):
                res += run_unit((tool, workdir, "%s_%d" % (uname, k), [h], extra, timeout, pch))
            return res
        return [dict(name=hs[0].name, status="compile-error", text=str(x)[:3000], viol=[], stats={}, wall=0)]
    import signal

    def onalarm(*_):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, onalarm)
    for h in hs:
        t = time.time()
        try:
            signal.alarm(timeout)
            viol, stats, _ = h.analyze(m)
            signal.alarm(0)
            res.append(dict(name=h.name, status="ok", viol=[(r, tx, fmt_loc(l)) for r, tx, l in viol], stats=stats, wall=time.time() - t))
        except RESOLVE as x:
            signal.alarm(0)
            tb = traceback.format_exc().strip().split("\n")
            res.append(dict(name=h.name, status="unresolved", text="%s: %s" % (type(x).__name__, x), tb="\n".join(tb[-8:]), viol=[], stats={}, wall=time.time() - t))
    return res
