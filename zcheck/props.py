"""property -> analysis instances and the rules whose failure breaks it"""
EXPLAIN = ("Every listed operation is one archive call instantiated for one type shape and one archive configuration; the compiler "
           "front end lowers the current header to IR (all calls inlined, nothing is executed) and an abstract interpreter (typestate of the archive "
           "objects + exact linear-inequality and bit-level value domains, inductive loop invariants, joins) covers every path for every buffer size, "
           "position and input byte; each exit is compared with the wire grammar of the documentation.")
EXPLAIN_W = ("Compile-time witnesses: programs that the compiler front end must accept (with static assertions over the library's own types and constant functions) "
             "or must refuse, decided on the current header; nothing is executed.")
ASSUMPTIONS = [
    "clang 18 front end, x86-64 (little endian, 64 bit size_t); IR before optimisation plus the listed canonicalisation passes preserves meaning",
    "buffer sizes and positions are below 2^63 and the starting position is at most the buffer size",
    "containers and user serialisation functions are represented by opaque models (any content, any size, any error code)",
    "type shapes and configurations outside the enumerated list are covered only through the shared templates they instantiate",
]

TECH = ("static analysis: abstract interpretation (typestate + linear-inequality and bit-level domains, inductive loop invariants) of the library code, lowered by the "
        "clang front end from the current header for enumerated type shapes and configurations, against the documented wire grammar")
TECH_W = "static analysis: compile-time witnesses (static assertions over the library's types and constant functions, compile-fail programs) decided by the clang front end on the current header"
NOTE = "All buffer sizes, positions, input bytes, values and nested error codes are covered for each enumerated instantiation; types and configurations outside the list only through shared templates."
NOTE_W = "Decided by the compiler front end from the current header for an enumerated set of types, programs, lengths or values; types and values outside the enumeration are reached only through the templates and constant functions they share."
NA = {}

MEM = {"bounds-*", "no-null-deref", "no-stale-pointer", "known-object", "no-write-to-input", "no-double-delete", "stray-write"}
FMT = {"content", "effects", "position", "missed-error"}
ERR = {"error-code", "spurious-error", "missed-error"}
GROW = {"growth-limit", "growth-enough", "growth-fit", "resize"}
COMP = {"does-not-compile"}


def has(*need, no=()):
    return lambda h: all(x in h.feat for x in need) and not any(x in h.feat for x in no)


def anyof(*xs):
    return lambda h: any(x in h.feat for x in xs)


def base_name(n):
    return n.rsplit("_", 1)[0]


def mode_of(n):
    return n.rsplit("_", 1)[1]


def one_sided(h, rule, text, results):
    """a deviation present in the writer and the reader of the same shape is a change of the format (C08), not a disagreement"""
    if rule in ("does-not-compile",):
        return True
    b, m = base_name(h.name), mode_of(h.name)
    other = [b + "_r"] if m in "wg" else [b + "_w", b + "_g"]
    have = [results[o] for o in other if o in results]
    if not have:
        return True
    return not all(any(v[0] in FMT for v in o["viol"]) for o in have)


def eq_only(h, rule, text, results):
    """report only what differs between the configurations of one group"""
    core, mode = h.name.split("_", 1)[1].rsplit("_", 1)
    bad = lambda x: x["status"] == "compile-error" or any(v[0] == rule for v in x["viol"])
    grp = [x for n, x in results.items() if n.split("_", 1)[-1] == core + "_" + mode]
    return not all(bad(x) for x in grp)


def ce_only(h, rule, text, results):
    """report only what differs between the run-time and the compile-time branches"""
    n = h.name[3:] if h.name.startswith("ce_") else "ce_" + h.name
    x = results.get(n)
    return x is None or not (x["status"] == "compile-error" or any(v[0] == rule for v in x["viol"]))


def no_read_of_destination(h, rule, text, results):
    if rule == "content":
        return "buf[" in text or "undef" in text or "uninit" in text
    return True


OTHER = {"access", "ctoropt", "result"}
lib = lambda h: not h.feat & OTHER


PROPS = {
    "C01": dict(select=lambda h: "r" in h.feat and lib(h), rules=MEM | COMP | {"missed-error"}),
    "C02": dict(select=has("fixed"), rules=MEM | COMP | {"missed-error", "error-code"}),
    "C03": dict(select=has("grow"), rules=MEM | COMP | GROW | {"missed-error", "error-code", "spurious-error"}),
    "C04": dict(select=lambda h: not h.feat & {"ctoropt", "result"}, rules={"position", "position-in-range", "growth-fit"}),
    "C05": dict(select=anyof("ProbeT", "nest"), rules=None),
    "C06": dict(select=lib, rules=ERR),
    "C07": dict(select=lib, rules=FMT | {"view", "resize"}, filter=one_sided),
    "C08": dict(select=lib, rules={"content", "effects", "position", "stray-write"} | COMP),
    "C09": dict(select=lambda h: "swap" in h.feat or "b9" in h.feat, rules=FMT | COMP),
    "C11": dict(select=lambda h: "r" in h.feat and bool(h.feat & {"Vec", "Assoc", "MutSpan", "limit"}), rules={"resize", "missed-error", "error-code", "effects"} | COMP),
    "C12": dict(select=anyof("VInt"), rules=None),
    "C13": dict(select=anyof("Var", "KnownVar"), rules=None),
    "C14": dict(select=anyof("Opt", "UPtr"), rules=None),
    "C15": dict(select=lambda h: "r" in h.feat and bool(h.feat & {"life", "Opt", "UPtr", "Assoc", "Var", "KnownVar"}),
                rules={"leak", "lifetime", "no-double-delete", "no-stale-pointer", "no-null-deref", "known-object"} | COMP),
    "C23": dict(select=lambda h: "ce" in h.feat or "hasce" in h.feat, rules=None, filter=ce_only),
    "C24": dict(select=anyof("eq"), rules=None, filter=eq_only),
    "C26": dict(select=lib, rules={"source-modified", "stray-write", "content", "no-write-to-input", "no-undef-branch", "no-undef-pointer"},
                filter=no_read_of_destination),
    "C29": dict(select=anyof("opt", "size", "limit", "ctoropt", "swap"), rules=None),
    "C30": dict(select=anyof("view"), rules=None),
}
PROPS.update({
    "C10": dict(select=lambda h: lib(h) and bool(h.feat & {"Struct", "Arr", "Tup", "Vec", "MutSpan"}), rules={"content", "position"} | COMP, technique=TECH + "; plus " + TECH_W[17:]),
    "C16": dict(select=has("rpc"), rules=None),
    "C17": dict(select=has("apply"), rules=None),
    "C18": dict(select=lambda h: has("pb")(h) and "w" in h.feat, rules=None, pb=True),
    "C19": dict(select=has("pb", "r"), rules=None, pb=True),
    "C20": dict(technique=TECH_W, note=NOTE_W),
    "C21": dict(technique=TECH_W, note=NOTE_W),
    "C22": dict(select=lambda h: "members" in h.feat or bool(h.feat & {"Struct", "Tup", "Arr"}) and not h.feat & {"eq", "ce"}, rules={"content", "position", "effects"} | COMP, technique=TECH + "; plus " + TECH_W[17:]),
    "C25": dict(select=has("exc"), exc=True, ast=True, rules={"no-throw", "shared-state"}, technique=TECH + "; plus a query over the clang syntax tree of the header for mutable static storage"),
    "C27": dict(select=has("result"), rules=None, technique=TECH + "; plus " + TECH_W[17:]),
    "C28": dict(technique=TECH_W, note=NOTE_W),
    "C31": dict(technique=TECH_W, note=NOTE_W),
    "C32": dict(technique=TECH_W, note=NOTE_W),
})
PROPS["ALL"] = dict(select=lambda h: True, rules=None, pb=True)      # developer use
