"""compile-time witnesses: translation units that must (or must not) be accepted by
the compiler front end, decided from the library source alone"""
import os, subprocess
from . import harness as HN


class W:
    """kind 'accept': the unit must compile (its static_asserts are the obligations);
    kind 'reject': `bad` must be refused although `good` (the same unit, conforming) compiles"""
    def __init__(self, name, props, kind, code, good=None, flags=(), rule=None, why=""):
        self.name, self.props, self.kind, self.code, self.good = name, set(props), kind, code, good
        self.flags = tuple(flags)
        self.rule = rule or ("witness-" + kind)
        self.why = why


REG = []


def witnesses(tier):
    from . import wlist
    return [w for w in wlist.build(tier)]


def front(code, work, pch, uname, flags):
    cpp = os.path.join(work, uname + ".cpp")
    with open(cpp, "w") as f:
        f.write(code + "\n")
    r = subprocess.run([HN.CXX] + HN.cxxflags(flags) + ["-include-pch", pch, "-fsyntax-only", "-ferror-limit=4",
                        "-fconstexpr-steps=100000000", cpp], capture_output=True, text=True, timeout=280)
    os.unlink(cpp)
    return r.returncode, r.stderr


def decide_one(arg):
    w, work, pch, uname = arg
    res = dict(name=w.name, kind=w.kind, rule=w.rule, status="ok", text="")
    try:
        rc, err = front(w.code, work, pch, uname, w.flags)
        if w.kind == "accept":
            if rc:
                res.update(status="violated", text=(w.why + ": " if w.why else "") + diag(err), where=where(err))
        else:
            if rc == 0:
                res.update(status="violated", text=(w.why or "a program that must be refused is accepted"), where=w.code.strip().split("\n")[-1][:200])
            elif w.good is not None:
                rc2, err2 = front(w.good, work, pch, uname + "g", w.flags)
                if rc2:
                    res.update(status="violated", rule="witness-control", text="the conforming control program does not compile: " + diag(err2), where=where(err2))
    except subprocess.TimeoutExpired:
        res.update(status="unresolved", text="front end timeout")
    return res


def diag(err):
    for l in err.split("\n"):
        if "error:" in l:
            return l[l.index("error:"):][:400]
    return err[:400]


def where(err):
    for l in err.split("\n"):
        if "error:" in l or "note:" in l:
            if "zpp_bits.h" in l:
                return l.split(" ")[0]
    return ""
