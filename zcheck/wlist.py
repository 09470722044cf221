"""the compile-time witnesses"""
from .witness import W

V = "namespace zb = zpp::bits; using namespace zpp::bits::literals;\n"


def build(tier):
    out = []

    def acc(name, props, code, why="", flags=(), rule=None):
        out.append(W(name, props.split(), "accept", V + code, flags=flags, rule=rule, why=why))

    def rej(name, props, tmpl, bad, good, why="", flags=(), rule=None, pre=""):
        """@ in the template is replaced by the refused and by the conforming fragment"""
        for k, b in enumerate(bad if isinstance(bad, (list, tuple)) else [bad]):
            out.append(W("%s%s" % (name, "_%d" % k if isinstance(bad, (list, tuple)) else ""), props.split(), "reject", V + pre + tmpl.replace("@", b), V + pre + tmpl.replace("@", good), flags=flags, rule=rule, why=why))
    raw(acc, rej)
    pbschema(acc, rej)
    refused(acc, rej)
    members(acc, rej, tier)
    results(acc, rej)
    hashes(acc, rej, tier)
    helpers(acc, rej)
    literals(acc, rej)
    optionw(acc, rej)
    consteval_(acc, rej)
    return out


# ---- C10: raw bytes ---------------------------------------------------------
def raw(acc, rej):
    pre = """
struct plain { std::uint16_t a; std::uint16_t b; };
struct nontriv { std::uint16_t a; nontriv(const nontriv & o); nontriv() = default; };
struct dtor { std::uint16_t a; ~dtor() {} };
struct withstr { std::string s; };
struct withvec { std::uint32_t a; std::vector<int> v; };
struct withptr { std::unique_ptr<int> p; };
template <typename T> auto w(const T & x, auto && o) { std::array<std::byte, 64> d{}; zb::out out{d, o}; return out(zb::as_bytes(x)).code; }
template <typename T> auto r(T & x, auto && o) { std::array<std::byte, 64> d{}; zb::in in{d, std::remove_cvref_t<decltype(o)>{}}; return in(zb::as_bytes(x)).code; }
template <typename T> auto wa(const T (&x)[2], auto && o) { std::array<std::byte, 64> d{}; zb::out out{d, o}; return out(zb::bytes(x)).code; }
"""
    bad = ["nontriv", "dtor", "withstr", "withvec", "withptr", "std::string", "std::vector<int>", "std::unique_ptr<int>"]
    why = "the bytes of an object that is not trivially copyable are accepted"
    rej("as_bytes_w", "C10 C21", "auto f(const @ & x) { return w(x, zb::size4b{}); }", bad, "plain", why, pre=pre)
    rej("as_bytes_r", "C10 C21", "auto f(@ & x) { return r(x, zb::size4b{}); }", bad, "plain", why, pre=pre)
    rej("bytes_arr", "C10 C21", "auto f(const @ (&x)[2]) { return wa(x, zb::size4b{}); }", bad, "plain", why, pre=pre)
    why = "raw bytes of a multi-byte value are accepted by an archive that has to swap bytes"
    for o in ("zb::endian::big", "zb::endian::swapped"):
        n = o.split("::")[-1]
        rej("as_bytes_end_w_" + n, "C10 C09", "auto f(const @ & x) { return w(x, %s{}); }" % o, ["plain", "std::uint32_t", "double"], "std::uint8_t", why, pre=pre)
        rej("as_bytes_end_r_" + n, "C10 C09", "auto f(@ & x) { return r(x, %s{}); }" % o, ["plain", "std::uint32_t"], "std::byte", why, pre=pre)
    # shapes that look like their encoding but are not: the size of the output shows whether memory was copied
    acc("notraw", "C10 C08", """
struct own { std::uint16_t a; std::uint16_t b; constexpr static auto serialize(auto & archive, auto & self) { return archive(self.b); } };
struct holder { std::uint16_t x; own o; };
struct fr { std::uint16_t a; std::uint16_t b; friend constexpr auto serialize(auto & archive, const fr & self) { return archive(self.b); } friend constexpr auto serialize(auto & archive, fr & self) { return archive(self.b); } };
struct holder2 { fr o; std::uint16_t x; };
struct holder3 { std::uint16_t x; std::array<own, 2> o; };
struct holder4 { std::uint16_t x; std::array<fr, 2> o; };
struct pad { std::uint8_t a; std::uint32_t b; };
struct tail { std::uint32_t b; std::uint8_t a; };
struct hpad { pad p; std::uint32_t q; };
struct hempty { struct e {} x; std::uint16_t a; };
struct pb { std::uint8_t a; std::array<pad, 1> p; };
struct opt { std::optional<std::uint16_t> o; using serialize = zb::members<1>; };
struct al { alignas(8) std::uint16_t a; };
struct bits2 { std::bitset<9> b; };
template <typename T> constexpr std::size_t esize(const T & t) { std::array<std::byte, 128> d{}; zb::out out{d}; if (zb::failure(out(t))) return 999; return out.position(); }
template <typename T> constexpr std::size_t sizea() { T t[3]{}; std::array<std::byte, 256> d{}; zb::out out{d}; if (zb::failure(out(t))) return 999; return out.position(); }
static_assert(esize(own{1, 2}) == 2); static_assert(esize(holder{}) == 4); static_assert(esize(fr{}) == 2); static_assert(esize(holder2{}) == 4);
static_assert(esize(holder3{}) == 6); static_assert(esize(holder4{}) == 6);
static_assert(esize(pad{}) == 5); static_assert(esize(tail{}) == 5); static_assert(esize(hpad{}) == 9); static_assert(esize(hempty{}) == 2);
static_assert(esize(pb{}) == 6); static_assert(esize(al{}) == 2); static_assert(esize(opt{}) == 1);
static_assert(sizea<own>() == 6); static_assert(sizea<holder>() == 12); static_assert(sizea<fr>() == 6); static_assert(sizea<holder2>() == 12);
static_assert(sizea<holder3>() == 18); static_assert(sizea<holder4>() == 18); static_assert(sizea<pad>() == 15); static_assert(sizea<tail>() == 15);
static_assert(sizea<hpad>() == 27); static_assert(sizea<pb>() == 18); static_assert(sizea<al>() == 6); static_assert(sizea<opt>() == 3); static_assert(sizea<hempty>() == 6);
static_assert(esize(std::array<pad, 3>{}) == 15); static_assert(esize(std::array<own, 3>{}) == 6); static_assert(esize(std::array<holder3, 2>{}) == 12);
static_assert(esize(std::tuple<std::uint8_t, std::uint32_t>{}) == 5); static_assert(esize(std::pair<std::uint8_t, std::uint32_t>{}) == 5);
""", "a type whose memory is not its encoding is copied as raw memory")
    acc("notraw_ref", "C10 C21", """
struct inner { std::uint16_t v; };
struct holdsptr { int * p; };
struct selfref { std::uint32_t a; selfref * next; };
template <typename T> concept writable = requires(T & t, zb::out<std::span<std::byte>> & o) { { o(t) } -> std::same_as<zb::errc>; };
static_assert(writable<inner>);
""")


# ---- C20: protobuf schemas ---------------------------------------------------
def pbschema(acc, rej):
    base = "struct m { @ using serialize = zb::pb_protocol; };\n%s"
    use = {
        "w": "auto f(const m & x) { std::vector<std::byte> d; zb::out out{d}; return out(x).code; }",
        "r": "auto f(m & x) { std::vector<std::byte> d; zb::in in{d}; return in(x).code; }",
        "wn": "auto f(const m & x) { std::vector<std::byte> d; zb::out out{d, zb::no_size{}}; return out(x).code; }",
        "rn": "auto f(m & x) { std::vector<std::byte> d; zb::in in{d, zb::no_size{}}; return in(x).code; }"}
    pre = "struct other { std::uint32_t a; zb::vint32_t b; };\nstruct nested { zb::vint32_t i; using serialize = zb::pb_protocol; };\n"
    good = "zb::vint32_t a; zb::vint32_t b;"
    dup = ["zb::pb_field<zb::vint32_t, 2> a; zb::vint32_t b;", "zb::pb_field<zb::vint32_t, 7> a; zb::pb_field<zb::vint64_t, 7> b;",
           "zb::vint32_t a; zb::vint32_t b; zb::pb_field<std::string, 1> c;", "zb::pb_field<std::uint32_t, 3> a; zb::vint32_t b; nested c;"]
    zero = ["zb::pb_field<zb::vint32_t, 0> a;", "zb::vint32_t a; zb::pb_field<std::uint32_t, 0> b;", "zb::pb_field<std::string, 0> a; zb::vint32_t b;"]
    bad = ["other a;", "std::optional<zb::vint32_t> a;", "zb::vint32_t a; std::variant<int, float> b;", "std::tuple<int, int> a;", "std::vector<other> a;",
           "std::vector<std::vector<zb::vint32_t>> a;" if False else "std::vector<std::optional<int>> a;", "std::map<zb::vint32_t, other> a;", "std::unique_ptr<int> a;", "std::array<int, 3> a;",
           "std::span<int> a;", "std::string_view a;", "std::bitset<3> a;"]
    for u, c in use.items():
        rej("pb_dup_" + u, "C20", base % c, dup, good, "a protobuf message with duplicate field numbers is accepted", pre=pre)
        rej("pb_zero_" + u, "C20", base % c, zero, good, "a protobuf message with field number zero is accepted", pre=pre)
        rej("pb_type_" + u, "C20", base % c, bad, good, "a member type that protobuf cannot express is accepted", pre=pre + "#include <map>\n#include <string>\n#include <vector>\n")
    mapped = "struct m { zb::vint32_t a; zb::vint32_t b; using serialize = zb::protocol<zb::pb{@}>; };\n"
    for u, c in use.items():
        rej("pb_map_" + u, "C20", mapped + c, ["zb::pb_map<1, 2>{}", "zb::pb_map<1, 7>{}, zb::pb_map<2, 7>{}", "zb::pb_map<1, 5>{}, zb::pb_map<1, 6>{}", "zb::pb_map<0, 5>{}", "zb::pb_map<1, 0>{}"], "zb::pb_map<1, 20>{}",
            "a field mapping that makes numbers clash or vanish is accepted", pre=pre)
    # nested errors surface through the outer message
    for u, c in use.items():
        rej("pb_nested_" + u, "C20", "struct n { @ using serialize = zb::pb_protocol; }; struct m { n a; std::vector<n> b; using serialize = zb::pb_protocol; };\n" + c,
            [dup[0], zero[0], "other a;"], good, "an invalid nested message is accepted", pre=pre)
    valid = [good, "zb::vint32_t a; zb::vsint64_t b; std::uint32_t c; std::int64_t d; float e; double f; bool g; std::string s; std::vector<std::byte> by; std::vector<zb::vint32_t> p; std::vector<std::uint32_t> q; std::vector<std::string> r;",
             "nested n; std::vector<nested> v; std::map<std::uint32_t, nested> m1; std::map<std::string, zb::vint32_t> m2;", "[[no_unique_address]] zb::pb_reserved _1; zb::vint32_t a;",
             "zb::pb_field<zb::vint32_t, 20> i; zb::pb_field<zb::vsint32_t, 30> j; zb::vint32_t c;", "enum class e : std::int32_t { x, y }; e v; std::vector<e> w;" if False else "bool a; std::vector<bool> b;" if False else "bool a;",
             "zb::pb_field<std::string, 536870911> a;", "std::map<zb::vint32_t, std::string> a; std::map<zb::vint32_t, std::vector<std::byte>> b;" if False else "std::map<zb::vint32_t, std::string> a;"]
    for k, v in enumerate(valid):
        for u, c in use.items():
            acc("pb_ok%d_%s" % (k, u), "C20", "#include <map>\n#include <string>\n" + pre + base.replace("@", v) % c, "a valid protobuf message does not compile")
    acc("pb_okmap", "C20", "struct m { zb::vint32_t a; zb::vint32_t b; using serialize = zb::protocol<zb::pb{zb::pb_map<1, 20>{}, zb::pb_map<2, 30>{}}>; };\n" + use["w"] + use["r"].replace("f(", "g("))
    acc("pb_okn", "C20", "struct m { zb::vint32_t a; zb::vint32_t b; using serialize = zb::pb_members<2>; };\n" + use["w"] + use["r"].replace("f(", "g("))
    # numbering follows the declaration order unless overridden: tag bytes of the produced message
    acc("pb_numbers", "C20 C18", """
template <typename T> constexpr auto enc(const T & t) { std::array<std::byte, 256> d{}; zb::out out{d, zb::no_size{}}; if (zb::failure(out(t))) return std::pair{d, std::size_t(999)}; return std::pair{d, out.position()}; }
struct a { zb::vint32_t x = 1; zb::vint32_t y = 1; zb::vint32_t z = 1; using serialize = zb::pb_protocol; };
static_assert(enc(a{}).second == 6 && enc(a{}).first[0] == std::byte(8) && enc(a{}).first[2] == std::byte(16) && enc(a{}).first[4] == std::byte(24));
struct b { zb::vint32_t x = 1; zb::pb_field<zb::vint32_t, 9> y{1}; zb::vint32_t z = 1; using serialize = zb::pb_protocol; };
static_assert(enc(b{}).second == 6 && enc(b{}).first[0] == std::byte(8) && enc(b{}).first[2] == std::byte(72) && enc(b{}).first[4] == std::byte(24));
struct c { zb::vint32_t x = 1; zb::vint32_t y = 1; using serialize = zb::protocol<zb::pb{zb::pb_map<1, 3>{}, zb::pb_map<2, 1>{}}>; };
static_assert(enc(c{}).second == 4 && enc(c{}).first[0] == std::byte(24) && enc(c{}).first[2] == std::byte(8));
struct d { [[no_unique_address]] zb::pb_reserved _1; zb::vint32_t x = 1; using serialize = zb::pb_protocol; };
static_assert(enc(d{}).second == 2 && enc(d{}).first[0] == std::byte(16));
""", "field numbers do not follow the declaration order or its overrides")


# ---- C21: refused uses -----------------------------------------------------------
def refused(acc, rej):
    W_ = "auto f(@ & x) { std::vector<std::byte> d; zb::out out{d}; return out(x).code; }"
    R_ = "auto f(@ & x) { std::vector<std::byte> d; zb::in in{d}; return in(x).code; }"
    pre = """
#include <map>
struct ok { int a; };
struct priv { priv(int x) : a(x) {} private: int a; int b; };
struct virt { virtual ~virt(); int a; };
struct hasptr { int a; int * p; };
struct hasref { int & r; int b; };
struct hasfn { void (*f)(); int b; };
struct hasnull { std::nullptr_t n; int b; };
class hid { int a; int b; };
union un { int a; float b; };
"""
    bad = ["int * const", "const char * const", "void * const", "hasptr", "hasfn", "priv", "virt", "int (* const)()"]
    rej("ser_w", "C21", W_, [b for b in bad if "(*" not in b], "ok", "an object that has no well-defined encoding is written", pre=pre)
    rej("ser_r", "C21", R_, ["int *", "const char *", "void *", "hasptr", "hasfn", "priv", "virt"], "ok", "an object that has no well-defined encoding is read", pre=pre)
    for t in ("std::vector<%s>", "std::array<%s, 2>", "std::optional<%s>", "std::tuple<%s, int>", "std::map<int, %s>", "std::variant<int, %s>"):
        n = "".join(c for c in t if c.isalpha())
        rej("ser_w_" + n, "C21", W_, [t % "int *", t % "hasptr", t % "priv"], t % "ok", "a container of pointers or opaque objects is written", pre=pre)
        rej("ser_r_" + n, "C21", R_, [t % "int *", t % "hasptr"], t % "ok", "a container of pointers is read", pre=pre)
    rej("lit", "C21", "auto f() { std::vector<std::byte> d; zb::out out{d}; return out(@).code; }", ["\"text\" + 0", "(void *)0", "(const int *)0"], "1", "a raw pointer is written")
    # reading into what cannot change
    rej("const_in", "C21", "auto f(@ x) { std::vector<std::byte> d; zb::in in{d}; return in(x).code; }",
        ["const int &", "const std::vector<int> &", "const std::string &", "const std::optional<int> &", "const std::array<int, 3> &", "const std::tuple<int, int> &", "const std::variant<int, float> &",
         "const std::unique_ptr<int> &", "const std::bitset<5> &", "const zb::vint32_t &", "const std::map<int, int> &", "std::span<const int>", "const ok &"], "int &", "an input archive accepts a constant object", pre=pre)
    rej("temp_in", "C21", "auto f() { std::vector<std::byte> d; zb::in in{d}; int x; return in(@).code; }", ["1", "int{}", "std::vector<int>{}", "std::string{}", "std::tuple<int, int>{}"], "x", "an input archive accepts a temporary") if False else None
    # writing into constant buffers
    rej("const_out", "C21", "auto f(@ d) { zb::out out{d}; return out(1).code; }", ["const std::vector<std::byte> &", "std::span<const std::byte>", "const std::array<std::byte, 4> &", "std::string_view", "const std::byte (&)[4]", "const std::string &"],
        "std::span<std::byte>", "an output archive accepts a constant buffer")
    rej("wide_out", "C21", "auto f(@ d) { zb::out out{d}; return out(1).code; }", ["std::vector<int> &", "std::span<short>", "std::span<std::uint64_t>"], "std::span<std::byte>", "an output archive accepts a buffer whose elements are not bytes")
    rej("wide_in", "C21", "auto f(@ d) { zb::in in{d}; int x; return in(x).code; }", ["std::vector<int> &", "std::span<const short>"], "std::span<const std::byte>", "an input archive accepts a buffer whose elements are not bytes")
    # options that need a growing buffer
    rej("fixed_opt", "C21 C29", "auto f(std::span<std::byte> d) { zb::out out{d, @}; return out.position(); }", ["zb::append{}", "zb::reserve{4}", "zb::resize{4}"], "zb::size4b{}", "an option for growing buffers is accepted on a fixed buffer")
    # contradictory declarations
    why = "a variant whose alternatives cannot be told apart is accepted"
    rej("var_dup", "C13 C21", "struct a { int x; using serialize_id = zb::id<@>; }; struct b { int y; using serialize_id = zb::id<7>; }; auto f(std::variant<a, b> & v) { std::vector<std::byte> d; zb::out out{d}; return out(v).code; }", "7", "8", why)
    rej("var_dup_r", "C13 C21", "struct a { int x; using serialize_id = zb::id<@>; }; struct b { int y; using serialize_id = zb::id<7>; }; auto f(std::variant<a, b> & v) { std::vector<std::byte> d; zb::in in{d}; return in(v).code; }", "7", "8", why)
    rej("var_dup3", "C13 C21", "struct a { int x; using serialize_id = zb::id<@>; }; struct b { int y; using serialize_id = zb::id<7>; }; struct c { int y; using serialize_id = zb::id<9>; }; auto f(std::variant<a, b, c> & v) { std::vector<std::byte> d; zb::in in{d}; return in(v).code; }", ["9", "7"], "8", why)
    rej("var_mixid", "C13 C21", "struct a { int x; using serialize_id = zb::id<@>; }; struct b { int y; using serialize_id = zb::id<std::uint32_t(8)>; }; auto f(std::variant<a, b> & v) { std::vector<std::byte> d; zb::out out{d}; return out(v).code; }",
        ["std::uint8_t(7)", "std::uint64_t(7)", "\"abcde\"_s"], "std::uint32_t(7)", "alternatives with identifiers of different types are accepted")
    rej("rpc_dup", "C16 C21", "int fa(int); int fb(int); using rp = zb::rpc<zb::bind<fa, @>, zb::bind<fb, 2>>; auto f(auto & i, auto & o) { rp::server s{i, o}; return s.serve().code; } auto g() { std::vector<std::byte> d; zb::in i{d}; std::vector<std::byte> e; zb::out o{e}; return f(i, o); }",
        "2", "1", "two bound functions with the same identifier are accepted")
    rej("rpc_unknown", "C16 C21", "int fa(int); int fb(int); using rp = zb::rpc<zb::bind<fa, 1>, zb::bind<fb, 2>>; auto g() { std::vector<std::byte> d, e; zb::in i{e}; zb::out o{d}; rp::client c{i, o}; return c.request<@>(1).code; }",
        ["3", "0"], "2", "a request for a function that is not bound is accepted")
    rej("rpc_args", "C16 C21", "int fa(int, std::string); int fb(int); using rp = zb::rpc<zb::bind<fa, 1>, zb::bind<fb, 2>>; auto g() { std::vector<std::byte> d, e; zb::in i{e}; zb::out o{d}; rp::client c{i, o}; return c.request<1>(@).code; }",
        ["1", "", "1, 2", "std::string{}, 1", "1, std::string{}, 1"], "1, std::string{}", "a request with arguments that do not fit the function is accepted")
    # unchecked results
    nd = ["-Wunused-result", "-Werror=unused-result", "-Werror=unused-value", "-Wno-everything"]
    fl = ("-Werror=unused-result", "-Werror=unused-value")
    for n, st, ok in (("out", "out(1)", "(void)out(1)"), ("in", "in(x)", "(void)in(x)"), ("many", "out(1, 2)", "(void)out(1, 2)"), ("apply", "zb::apply([](int) { return 1; }, in)", "(void)zb::apply([](int) { return 1; }, in)"),
                      ("vapply", "zb::apply([](int) {}, in)", "(void)zb::apply([](int) {}, in)"), ("errc", "zb::errc{}", "(void)zb::errc{}"), ("voe", "zb::value_or_errc<int>{1}", "(void)zb::value_or_errc<int>{1}")):
        rej("nodiscard_" + n, "C21", "void f() { std::vector<std::byte> d; zb::in in{d}; zb::out out{d}; int x{}; (void)x; @; }", st, ok, "an ignored result is not diagnosed", flags=fl + ("-Wno-error=unused-value",) if False else fl)
    acc("supported", "C21", """
#include <map>
#include <set>
#include <list>
#include <deque>
struct p { int a; std::string b; std::vector<p> c; };
class cl { friend zb::access; using serialize = zb::members<2>; int a{}; std::string b; public: cl() = default; };
struct outside { int a; int b; }; constexpr auto serialize(const outside &) -> zb::members<2>;
struct un { std::unique_ptr<int> u; std::shared_ptr<int> s; };
template <typename T> auto w(const T & x) { std::vector<std::byte> d; zb::out out{d}; return out(x).code; }
template <typename T> auto r(T & x) { std::vector<std::byte> d; zb::in in{d}; return in(x).code; }
template <typename... T> void both() { (void(&w<T>), ...); (void(&r<T>), ...); (void((std::errc(*)(const T &))(&w<T>)), ...); }
template <typename T> void each(T & t) { (void)w(t); (void)r(t); }
void use(p a, cl b, outside c, un & d, std::vector<int> e, std::map<int, std::string> f, std::set<int> g, std::list<int> h, std::deque<int> i, std::variant<int, std::string> j, std::optional<int> k,
         std::tuple<int, std::string> l, std::pair<int, int> m, std::array<p, 2> n, std::bitset<9> o, zb::optional_ptr<int> & q, zb::vint32_t s, bool t, double u, std::vector<bool> * v, zb::sized_t<std::vector<int>, std::uint8_t> x, zb::static_vector<int> * y);
""" if False else """
#include <map>
#include <set>
#include <list>
#include <deque>
struct p { int a; std::string b; std::vector<int> c; };
class cl { friend zb::access; using serialize = zb::members<2>; int a{}; std::string b; public: cl() = default; };
struct outside { int a; int b; }; constexpr auto serialize(const outside &) -> zb::members<2>;
template <typename T> auto w(const T & x) { std::vector<std::byte> d; zb::out out{d}; return out(x).code; }
template <typename T> auto r(T & x) { std::vector<std::byte> d; zb::in in{d}; return in(x).code; }
template <typename T> void each(T & t) { (void)w(t); (void)r(t); }
void use(p a, cl b, outside c, std::unique_ptr<int> d, std::shared_ptr<int> s, std::vector<int> e, std::map<int, std::string> f, std::set<int> g, std::list<int> h, std::deque<int> i, std::variant<int, std::string> j, std::optional<int> k,
         std::tuple<int, std::string> l, std::pair<int, int> m, std::array<p, 2> n, std::bitset<9> o, zb::optional_ptr<int> q, zb::vint32_t v, bool t, double u, zb::sized_t<std::vector<int>, std::uint8_t> x, std::multimap<int, int> y, std::string z)
{ each(a); each(b); each(c); each(d); each(e); each(f); each(g); each(h); each(i); each(j); each(k); each(l); each(m); each(n); each(o); each(q); each(v); each(t); each(u); each(x); each(y); each(z); (void)s; }
""", "a supported type does not compile")
    acc("ce_both", "C21", "constexpr int f() { std::array<std::byte, 8> d{}; zb::out out{d}; int x = 7, y = 0; if (zb::failure(out(x))) return -1; zb::in in{d}; if (zb::failure(in(y))) return -2; return y; } static_assert(f() == 7);")


# ---- C22: member counts --------------------------------------------------------------
def members(acc, rej, tier):
    for lo in range(0, 51, 5):
        L = []
        for n in range(lo, min(lo + 5, 51)):
            for kind in (0, 1):
                tys = ["unsigned char" if (k + kind) % 3 == 0 else "std::uint32_t" if (k + kind) % 3 == 1 else "std::uint16_t" for k in range(n)]
                nm = "m%d_%d" % (n, kind)
                extra = "" if kind == 0 else " using serialize = zb::members<%d>;" % n
                L.append("struct %s { %s%s };" % (nm, " ".join("%s f%d;" % (t, k) for k, t in enumerate(tys)), extra))
                L.append("static_assert(zb::number_of_members<%s>() == %d);" % (nm, n))
                if n:
                    L.append("constexpr bool v_%s() { %s o{}; const void * p[%d]{}; std::size_t c = 0; zb::visit_members(o, [&](auto &... x) { c = sizeof...(x); std::size_t i = 0; if constexpr (sizeof...(x) == %d) ((p[i++] = &x), ...); }); const void * q[] = {%s}; return c == %d && std::equal(p, p + %d, q); } static_assert(v_%s());" % (
                        nm, nm, n, n, ", ".join("&o.f%d" % k for k in range(n)), n, n, nm))
                    L.append("constexpr bool w_%s() { const %s o{}; const void * p[%d]{}; std::size_t c = 0; zb::visit_members(o, [&](const auto &... x) { c = sizeof...(x); std::size_t i = 0; if constexpr (sizeof...(x) == %d) ((p[i++] = &x), ...); }); const void * q[] = {%s}; return c == %d && std::equal(p, p + %d, q); } static_assert(w_%s());" % (
                        nm, nm, n, n, ", ".join("&o.f%d" % k for k in range(n)), n, n, nm))
                    L.append("static_assert(zb::visit_members_types<%s>([]<typename... T>() { return std::bool_constant<std::is_same_v<std::tuple<std::remove_cvref_t<T>...>, std::tuple<%s>>>{}; })());" % (nm, ", ".join(tys)))
        for mode in (0,):          # mode 1 does not compile with either compiler here: see DESIGN.md
            acc("members%d_%02d" % (mode, lo), "C22", "\n".join(L), flags=("-DZPP_BITS_AUTODETECT_MEMBERS_MODE=1",) if mode else (), why="the members of an aggregate are not visited exactly once, in order, as themselves", rule="member-visit")
    acc("members_kinds", "C22", """
#include <map>
struct nest { int a; struct in { int x; int y; } b; int c; };
static_assert(zb::number_of_members<nest>() == 3);
struct nested_arr { int a; std::array<int, 4> b; };
static_assert(zb::number_of_members<nested_arr>() == 2);
struct strs { std::string a; std::vector<int> b; std::map<int, int> c; std::variant<int, float> d; std::unique_ptr<int> e; };
static_assert(zb::number_of_members<strs>() == 5);
struct mo { std::unique_ptr<int> a; std::unique_ptr<int> b; };
static_assert(zb::number_of_members<mo>() == 2);
struct less { int a; int b; int c; using serialize = zb::members<2>; };
static_assert(zb::number_of_members<less>() == 2) ;
struct only { std::string s; };
static_assert(zb::number_of_members<only>() == 1);
struct agg1 { nest n; };
static_assert(zb::number_of_members<agg1>() == 1);
struct frnd { int a; int b; friend auto serialize(const frnd &) -> zb::members<2>; };
static_assert(zb::number_of_members<frnd>() == 2);
class hidden { friend zb::access; using serialize = zb::members<3>; int a{}, b{}, c{}; };
static_assert(zb::number_of_members<hidden>() == 3);
struct e0 {};
static_assert(zb::number_of_members<e0>() == 0);
struct floats { float a; double b; bool c; char d; std::byte e; };
static_assert(zb::number_of_members<floats>() == 5);
""".replace("static_assert(zb::number_of_members<less>() == 2) ;", ""), "the member count of an aggregate is wrong", rule="member-count")


# ---- C27: results ---------------------------------------------------------------------
def results(acc, rej):
    acc("errc", "C27", """
static_assert(zb::success(zb::errc{})); static_assert(!zb::failure(zb::errc{}));
static_assert(zb::success(std::errc{})); static_assert(!zb::failure(std::errc{}));
static_assert(!zb::success(zb::errc{std::errc::bad_message})); static_assert(zb::failure(zb::errc{std::errc::bad_message}));
static_assert(!zb::success(std::errc::result_out_of_range)); static_assert(zb::failure(std::errc::result_out_of_range));
static_assert(std::errc(zb::errc{std::errc::bad_message}) == std::errc::bad_message);
static_assert(zb::errc{std::errc::bad_message}.code == std::errc::bad_message);
static_assert(zb::errc{} == std::errc{});
static_assert(zb::failure(zb::errc{std::errc(1)}) && zb::failure(zb::errc{std::errc(-1)}) && zb::failure(zb::errc{std::errc(0x7fffffff)}) && zb::failure(std::errc(256)) && zb::failure(std::errc(65536)));
static_assert([] { zb::errc{}.or_throw(); return true; }());
static_assert(std::is_void_v<decltype(zb::errc{}.or_throw())>);
""", "the plain result does not tell success from failure")
    acc("voe", "C27", """
using V1 = zb::value_or_errc<int>;
static_assert(V1{5}.success() && !V1{5}.failure() && V1{5}.value() == 5 && V1{5}.or_throw() == 5);
static_assert(zb::success(V1{5}) && !zb::failure(V1{5}));
constexpr V1 bad{zb::errc{std::errc::bad_message}};
static_assert(!bad.success() && bad.failure() && bad.error() == std::errc::bad_message);
static_assert(zb::failure(bad) && !zb::success(bad));
constexpr V1 zero{0};
static_assert(zero.success() && zero.value() == 0);
static_assert(std::is_same_v<decltype(V1{1}.error()), zb::errc>);
static_assert(std::is_same_v<decltype(std::declval<V1 &>().value()), int &> && std::is_same_v<decltype(std::declval<const V1 &>().value()), const int &>);
static_assert([] { V1 a{7}; a.value() = 9; return a.value() == 9 && a.or_throw() == 9; }());
""", "a combined result does not yield its value or error")
    rej("voe_throw", "C27", "constexpr int f() { zb::value_or_errc<int> a{@}; return std::move(a).or_throw(); } static_assert(f() == 5);", "zb::errc{std::errc::bad_message}", "5", "the throwing accessor does not throw for an error")
    rej("voe_throw2", "C27", "constexpr int f() { zb::value_or_errc<int> a{@}; return a.or_throw(); } static_assert(f() == 5);", "zb::errc{std::errc::bad_message}", "5", "the throwing accessor does not throw for an error")
    rej("voe_throw3", "C27", "constexpr int f() { const zb::value_or_errc<int> a{@}; return a.or_throw(); } static_assert(f() == 5);", "zb::errc{std::errc::bad_message}", "5", "the throwing accessor does not throw for an error")
    rej("errc_throw", "C27", "constexpr int f() { zb::errc a{@}; a.or_throw(); return 5; } static_assert(f() == 5);", ["std::errc::bad_message", "std::errc(256)", "std::errc(-1)"], "std::errc{}", "the throwing accessor does not throw for an error")


# ---- C28: hashes -----------------------------------------------------------------------
def hashes(acc, rej, tier):
    import hashlib
    top = 200 if tier == "quick" else 330
    for alg in ("sha1", "sha256"):
        for lo in range(0, top, 10):
            L = ["template <typename A, typename B> constexpr bool same(const A & a, const B & b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (std::uint8_t(a[i]) != std::uint8_t(b[i])) return false; return true; }"]
            for n in list(range(lo, lo + 10)):
                for kind in (0, 1):
                    msg = bytes(((7 * i + 3 * n + 11) % 95 + 32) if kind == 0 else ((i * i + n) % 256) for i in range(n))
                    msg = msg.replace(b"\\", b"/").replace(b'"', b"'").replace(b"?", b"!")
                    if kind == 0:
                        if n % 4:
                            continue
                        arg = '"%s"_s' % msg.decode("latin1") if n else '""_s'
                        d = getattr(hashlib, alg)(msg).digest()
                        L.append("static_assert(same(zb::%s<%s>(), std::array<std::uint8_t, %d>{%s}));" % (alg, arg, len(d), ", ".join(map(str, d))))
                    else:
                        d = getattr(hashlib, alg)(msg).digest()
                        if n == 0:
                            continue
                        L.append("static_assert(same(zb::%s<std::array<std::byte, %d>{%s}>(), std::array<std::uint8_t, %d>{%s}));" % (
                            alg, n, ", ".join("std::byte(%d)" % x for x in msg), len(d), ", ".join(map(str, d))))
            acc("%s_%03d" % (alg, lo), "C28", "\n".join(L), "a compile-time hash differs from the published algorithm or does not compile", rule="hash-value")
    L = ["template <typename A, typename B> constexpr bool same(const A & a, const B & b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (std::uint8_t(a[i]) != std::uint8_t(b[i])) return false; return true; }"]
    for alg in ("sha1", "sha256"):
        for s in ("abc", "foo", "foo::bar(int, int)", "", "x" * 55, "y" * 56, "z" * 64, "w" * 119, "v" * 120):
            d = getattr(hashlib, alg)(s.encode()).digest()
            A = lambda b: "std::array<std::uint8_t, %d>{%s}" % (len(b), ", ".join(map(str, b)))
            L.append('static_assert(same("%s"_%s, %s));' % (s, alg, A(d)))
            L.append('static_assert("%s"_%s_int == 0x%su);' % (s, alg, d[:4][::-1].hex()))
            for k, ty in ((1, "std::byte"), (2, "std::uint16_t"), (4, "std::uint32_t"), (8, "std::uint64_t")):
                v = int.from_bytes(d[:k], "little")
                L.append('static_assert(zb::id_v<"%s"_%s, %d> == %s(0x%xull)); static_assert(std::is_same_v<std::remove_cvref_t<decltype(zb::id_v<"%s"_%s, %d>)>, %s>);' % (s, alg, k, ty, v, s, alg, k, ty))
            for k in (3, 5, 16, 20):
                L.append('static_assert(same(zb::id_v<"%s"_%s, %d>, %s));' % (s, alg, k, A(d[:k])))
    acc("hash_ids", "C28", "\n".join(L), "an identifier derived from a name is not the leading bytes of its hash", rule="hash-id")


# ---- C31 helpers ------------------------------------------------------------------------
def helpers(acc, rej):
    acc("to_bytes", "C31", """
template <typename A> constexpr bool is(const A & a, std::initializer_list<int> b) { if (a.size() != b.size()) return false; std::size_t i = 0; for (int x : b) if (std::uint8_t(a[i++]) != x) return false; return true; }
static_assert(is(zb::to_bytes<0x1337>(), {0x37, 0x13, 0, 0}));
static_assert(is(zb::to_bytes<std::uint8_t(9)>(), {9}));
static_assert(is(zb::to_bytes<std::uint64_t(0x0102030405060708)>(), {8, 7, 6, 5, 4, 3, 2, 1}));
static_assert(is(zb::to_bytes<std::uint16_t(0x0102), std::uint8_t(3), std::uint32_t(0x04050607)>(), {2, 1, 3, 7, 6, 5, 4}));
static_assert(is(zb::to_bytes<std::array<std::uint16_t, 3>{1, 2, 0x0304}>(), {1, 0, 2, 0, 4, 3}));
static_assert(is(zb::to_bytes<zb::vint32_t(300)>(), {0xac, 2}));
static_assert(is(zb::to_bytes<"abc"_s>(), {'a', 'b', 'c'}));
static_assert(is(zb::to_bytes<"abc"_b>(), {'a', 'b', 'c'}));
struct s { std::uint8_t a; std::uint32_t b; };
static_assert(is(zb::to_bytes<s{1, 2}>(), {1, 2, 0, 0, 0}));
static_assert(is(zb::to_bytes<s{1, 2}, s{3, 4}>(), {1, 2, 0, 0, 0, 3, 4, 0, 0, 0}));
static_assert(zb::to_bytes<"abc"_b, ""_b>().size() == 3);
static_assert(zb::to_bytes<""_s>().size() == 0);
static_assert(is(zb::join<zb::to_bytes<std::uint16_t(1)>(), zb::to_bytes<std::uint8_t(2)>(), "xy"_b>(), {1, 0, 2, 'x', 'y'}));
static_assert(is(zb::join<"ab"_b, ""_b, "c"_b>(), {'a', 'b', 'c'}));
static_assert(zb::join<>().size() == 0);
static_assert(is(zb::to_bytes<std::array<std::uint8_t, 300>{}>(), {0}) == false && zb::to_bytes<std::array<std::uint8_t, 300>{}>().size() == 300);
""", "helpers converting values to bytes produce something else than the concatenated encoding", rule="helper-bytes")
    acc("slice", "C31", """
template <typename A> constexpr bool is(const A & a, std::initializer_list<int> b) { if (a.size() != b.size()) return false; std::size_t i = 0; for (int x : b) if (std::uint8_t(a[i++]) != x) return false; return true; }
constexpr std::array<std::uint8_t, 6> a{10, 11, 12, 13, 14, 15};
static_assert(is(zb::slice<0, 1>(a), {10})); static_assert(is(zb::slice<0, 6>(a), {10, 11, 12, 13, 14, 15})); static_assert(is(zb::slice<0>(a), {10, 11, 12, 13, 14, 15}));
static_assert(is(zb::slice<2, 5>(a), {12, 13, 14})); static_assert(is(zb::slice<5, 6>(a), {15})); static_assert(is(zb::slice<4>(a), {14, 15})); static_assert(is(zb::slice<1>(a), {11, 12, 13, 14, 15}));
static_assert(is(zb::slice<1, 2>(a), {11})); static_assert(is(zb::slice<3, 6>(a), {13, 14, 15})); static_assert(is(zb::slice<5>(a), {15}));
static_assert(is(zb::slice<1, 3>("abcd"_s), {'b', 'c'})); static_assert(is(zb::slice<1>("abcd"_b), {'b', 'c', 'd'}));
static_assert(std::is_same_v<decltype(zb::slice<1, 3>(std::array<std::uint16_t, 4>{})), std::array<std::uint16_t, 2>>);
static_assert(zb::slice<1, 3>(std::array<std::uint16_t, 4>{1, 2, 3, 4})[0] == 2 && zb::slice<1, 3>(std::array<std::uint16_t, 4>{1, 2, 3, 4})[1] == 3);
""", "a slice is not the requested sub-range", rule="helper-slice")
    rej("slice_bad", "C31", "constexpr auto x = zb::slice<@>(std::array<std::uint8_t, 4>{1, 2, 3, 4}); static_assert(x.size() <= 4);", ["2, 2", "3, 1", "0, 5", "4, 6", "5, 7", "0, 0", "1, 9"], "1, 3", "an out-of-range slice is accepted")
    acc("from_bytes", "C31", """
constexpr auto d = zb::to_bytes<std::uint32_t(0x01020304), std::uint8_t(9), std::uint16_t(0x0a0b)>();
static_assert(zb::from_bytes<zb::slice<0, 4>(d), std::uint32_t>() == 0x01020304);
static_assert(zb::from_bytes<d, std::uint32_t, std::uint8_t, std::uint16_t>() == std::tuple{std::uint32_t(0x01020304), std::uint8_t(9), std::uint16_t(0x0a0b)});
static_assert(zb::from_bytes<zb::to_bytes<std::uint16_t(7)>(), std::uint16_t>() == 7);
static_assert(zb::from_bytes<zb::to_bytes<std::uint8_t(7)>(), std::byte>() == std::byte(7));
static_assert(zb::from_bytes<zb::to_bytes<std::array<std::uint16_t, 3>{1, 2, 3}>(), std::array<std::uint16_t, 3>>() == std::array<std::uint16_t, 3>{1, 2, 3});
static_assert(zb::from_bytes<zb::to_bytes<zb::vint32_t(300)>(), zb::vint32_t>() == 300);
static_assert(zb::from_bytes<zb::to_bytes<std::tuple{std::uint8_t(1), std::uint32_t(2)}>(), std::uint8_t, std::uint32_t>() == std::tuple{std::uint8_t(1), std::uint32_t(2)});
""" .replace("static_assert(zb::from_bytes<zb::to_bytes<std::tuple{std::uint8_t(1), std::uint32_t(2)}>(), std::uint8_t, std::uint32_t>() == std::tuple{std::uint8_t(1), std::uint32_t(2)});\n", ""), "values read back from bytes differ", rule="helper-read")
    rej("from_short", "C31", "constexpr auto x = zb::from_bytes<zb::to_bytes<@>(), std::uint32_t>(); static_assert(x == x);", ["std::uint16_t(1)", "std::uint8_t(1)", "std::uint16_t(1), std::uint8_t(2)"], "std::uint32_t(1)", "a value is read from too few bytes")
    acc("bundles", "C31", """
template <typename T> using dec = std::remove_cvref_t<T>;
using b0 = decltype(zb::data_in_out()); using b1 = decltype(zb::data_in_out<char>(zb::size1b{})); using b2 = decltype(zb::data_in()); using b3 = decltype(zb::data_out<unsigned char>());
static_assert(std::is_same_v<dec<decltype(b0::data)>, std::vector<std::byte>> && std::is_same_v<dec<decltype(b1::data)>, std::vector<char>> && std::is_same_v<dec<decltype(b2::data)>, std::vector<std::byte>> && std::is_same_v<dec<decltype(b3::data)>, std::vector<unsigned char>>);
static_assert(dec<decltype(b0::input)>::kind() == zb::kind::in && dec<decltype(b0::output)>::kind() == zb::kind::out && dec<decltype(b2::input)>::kind() == zb::kind::in && dec<decltype(b3::output)>::kind() == zb::kind::out);
constexpr bool k() { std::array<std::byte, 8> d{}; auto [i, o] = zb::in_out(d); if (zb::failure(o(std::uint16_t(0x0102)))) return false; std::uint16_t a{}; if (zb::failure(i(a))) return false; return a == 0x0102 && d[0] == std::byte(2) && i.position() == 2 && o.position() == 2; }
constexpr bool l() { std::vector<std::byte> d; auto [i, o] = zb::in_out(d, zb::endian::big{}); if (zb::failure(o(std::uint16_t(0x0102)))) return false; std::uint16_t a{}; if (zb::failure(i(a))) return false; return a == 0x0102 && d[0] == std::byte(1) && d.size() == 2; }
constexpr bool n() { std::array<std::byte, 8> d{}; auto o = zb::output(d); auto i = zb::input(d); if (zb::failure(o(std::uint16_t(0x0102)))) return false; std::uint16_t a{}; if (zb::failure(i(a))) return false; return a == 0x0102 && i.position() == 2; }
constexpr bool m() { std::vector<std::byte> d; zb::out o{d, zb::size1b{}}; zb::in i{d, zb::size1b{}}; if (zb::failure(o(std::string("abc")))) return false; std::string s; if (zb::failure(i(s))) return false; return s == "abc" && d.size() == 4; }
static_assert(k()); static_assert(l()); static_assert(n()); static_assert(m());
""", "the bundled archives do not work on the bundled data", rule="helper-bundle")


# ---- C32 literals -------------------------------------------------------------------------
def literals(acc, rej):
    L = ["template <typename A> constexpr bool is(const A & a, std::initializer_list<int> b) { if (a.size() != b.size()) return false; std::size_t i = 0; for (int x : b) if (std::uint8_t(a[i++]) != x) return false; return true; }"]
    for lo in range(0, 256, 16):
        for f in ("%02x", "%02X"):
            s = "".join(f % v for v in range(lo, lo + 16))
            L.append('static_assert(is("%s"_decode_hex, {%s}));' % (s, ", ".join(map(str, range(lo, lo + 16)))))
    for hi in "0123456789abcdefABCDEF":
        for lo in "09afAF":
            L.append('static_assert(is("%s%s"_decode_hex, {%d}));' % (hi, lo, int(hi + lo, 16)))
    for n in range(0, 9):
        s = "".join("%02x" % (0xf1 - 13 * k) for k in range(n))
        L.append('static_assert("%s"_decode_hex.size() == %d);' % (s, n))
        if n:
            L.append('static_assert(is("%s"_decode_hex, {%s}));' % (s, ", ".join(str(0xf1 - 13 * k) for k in range(n))))
    L.append('static_assert(std::is_same_v<std::remove_cvref_t<decltype("ab"_decode_hex[0])>, std::byte>);')
    for n in list(range(0, 20)) + [64]:
        s = "".join(chr(33 + (k * 5 + n) % 90) for k in range(n)).replace("\\", "/").replace('"', "'").replace("?", "!")
        v = ", ".join(str(ord(c)) for c in s)
        for suf in ("_b", "_s"):
            L.append('static_assert("%s"%s.size() == %d);' % (s, suf, n))
            if n:
                L.append('static_assert(is("%s"%s, {%s}));' % (s, suf, v))
    L.append('static_assert(is("a\\0b"_b, {97, 0, 98})); static_assert(is("\\xff\\x80\\x7f"_b, {255, 128, 127})); static_assert(is("a\\0b"_s, {97, 0, 98}));')
    L.append('static_assert(std::is_same_v<std::remove_cvref_t<decltype("ab"_b[0])>, std::byte>); static_assert(std::is_same_v<std::remove_cvref_t<decltype("ab"_s[0])>, char>);')
    acc("literals", "C32", "\n".join(L), "a literal decodes to other bytes than it spells", rule="literal-value")
    bad = ["a", "abc", "0", "g0", "0g", "G0", "0G", "zz", "0x", "x0", " 0", "0 ", "-1", "+1", "1:", ":1", "/0", "0/", "@0", "0@", "`0", "0`", "{0", "0{", "00g0", "000g", "00 0", "0.", "\\xff0", "0\\xff", "a\\0", "\\0a"]
    rej("hex_bad", "C32", "constexpr auto x = \"#\"_decode_hex; static_assert(x.size() < 9);".replace("#", "@"), [b for b in bad if "@" not in b], "0a", "malformed hexadecimal text is accepted")
    for n, b in (("at0", "\\x400"), ("at1", "0\\x40")):
        rej("hex_bad_" + n, "C32", "constexpr auto x = \"@\"_decode_hex; static_assert(x.size() < 9);", b.replace("\\x400", '\\x40\" \"0').replace('0\\x40', '0\\x40'), "0a", "malformed hexadecimal text is accepted")


# ---- C29 options ---------------------------------------------------------------------------
def optionw(acc, rej):
    ord_ = [("zb::size1b{}", 1), ("zb::size2b{}", 2), ("zb::size4b{}", 4), ("zb::size8b{}", 8), ("zb::size_native{}", 8), ("zb::no_size{}", 0), ("zb::size_varint{}", 1)]
    L = ["""template <typename... O> constexpr std::array<int, 40> enc(O... o) { std::array<std::byte, 32> d{}; zb::out out{d, o...}; std::vector<std::uint16_t> v{0x0102, 0x0304}; std::array<int, 40> r{}; r.fill(-1); if (zb::failure(out(v, std::uint32_t(0x05060708)))) return r; for (std::size_t i = 0; i < out.position(); ++i) r[i] = int(d[i]); return r; }
template <typename... O> constexpr bool dec(O... o) { std::array<std::byte, 32> d{}; zb::out out{d, o...}; std::vector<std::uint16_t> v{0x0102, 0x0304}, w(2); std::uint32_t x{}; if (zb::failure(out(v, std::uint32_t(0x05060708)))) return false; zb::in in{d, O{}...}; if (zb::failure(in(w, x))) return false; return w == v && x == 0x05060708 && in.position() == out.position(); }
constexpr std::array<int, 40> want(std::initializer_list<int> l) { std::array<int, 40> r{}; r.fill(-1); std::size_t i = 0; for (int x : l) r[i++] = x; return r; }"""]
    for o, w in ord_:
        for e, big in (("", False), ("zb::endian::big{}", True), ("zb::endian::little{}", False), ("zb::endian::native{}", False), ("zb::endian::swapped{}", True), ("zb::endian::network{}", True)):
            p = [0] * w
            if w:
                p[-1 if big else 0] = 2
            b = p + ([1, 2, 3, 4, 5, 6, 7, 8] if big else [2, 1, 4, 3, 8, 7, 6, 5])
            combos = [o] if not e else [o + ", " + e, e + ", " + o, e + ", zb::alloc_limit<4096>{}, " + o, "zb::alloc_limit<4096>{}, " + o + ", " + e]
            for c in combos:
                L.append("static_assert(enc(%s) == want({%s}));" % (c, ", ".join(map(str, b))))
                if w or True:
                    L.append("static_assert(dec(%s));" % c) if w else None
    # the last word on byte order wins
    for a in ("little", "big", "native", "swapped"):
        for b, big in (("big", True), ("little", False), ("swapped", True), ("native", False)):
            bb = [0, 0, 0, 2] if big else [2, 0, 0, 0]
            L.append("static_assert(enc(zb::endian::%s{}, zb::endian::%s{})[%d] == 2 && enc(zb::endian::%s{}, zb::endian::%s{})[8] == %d);" % (a, b, bb.index(2), a, b, 5 if big else 8)) if False else None
    acc("options", "C29 C09", "\n".join(x for x in L if x), "an archive option does not select the prefix width or byte order it names", rule="option-effect")
    acc("options_lim", "C29 C03", """
template <typename... O> constexpr std::errc grow(std::size_t n, O... o) { std::vector<std::byte> d; zb::out out{d, o...}; std::vector<std::uint8_t> v(n); return out(v).code; }
static_assert(grow(60, zb::alloc_limit<64>{}, zb::exact_enlarger{}) == std::errc{} && grow(61, zb::alloc_limit<64>{}, zb::exact_enlarger{}) == std::errc::no_buffer_space);
static_assert(grow(61, zb::exact_enlarger{}, zb::alloc_limit<64>{}) == std::errc::no_buffer_space && grow(61, zb::endian::big{}, zb::exact_enlarger{}, zb::alloc_limit<64>{}) == std::errc::no_buffer_space && grow(61, zb::alloc_limit<64>{}, zb::endian::big{}, zb::exact_enlarger{}) == std::errc::no_buffer_space);
static_assert(grow(63, zb::size1b{}, zb::alloc_limit<64>{}, zb::exact_enlarger{}) == std::errc{} && grow(64, zb::alloc_limit<64>{}, zb::exact_enlarger{}, zb::size1b{}) == std::errc::no_buffer_space);
template <typename... O> constexpr std::size_t fit(O... o) { std::vector<std::byte> d; zb::out out{d, o...}; for (int i = 0; i < 5; ++i) if (zb::failure(out(std::uint32_t(i)))) return 999; return d.size(); }
static_assert(fit() == 20 && fit(zb::endian::big{}) == 20 && fit(zb::no_fit_size{}) >= 20 && fit(zb::size1b{}, zb::exact_enlarger{}) == 20 && fit(zb::exact_enlarger{}, zb::no_fit_size{}) == 20);
template <typename... O> constexpr std::size_t app(O... o) { std::vector<std::byte> d(3); zb::out out{d, o...}; if (zb::failure(out(std::uint16_t(1)))) return 999; return d.size() * 100 + out.position(); }
static_assert(app() == 302 && app(zb::append{}) == 505 && app(zb::append{}, zb::endian::big{}) == 505 && app(zb::endian::big{}, zb::append{}) == 505 && app(zb::size1b{}, zb::append{}, zb::alloc_limit<100>{}) == 505 && app(zb::reserve{50}) == 302 && app(zb::resize{10}) == 1002);
""", "an archive option has not the effect it names", rule="option-effect")


# ---- C23 constant evaluation ------------------------------------------------------------------
def consteval_(acc, rej):
    tmpl = """
template <typename T, typename... O> constexpr bool rt(const T & v, O... o) { std::array<std::byte, 200> d{}; zb::out out{d, o...}; if (zb::failure(out(v))) return false; T w{}; zb::in in{d, O{}...}; if (zb::failure(in(w))) return false; return w == v && in.position() == out.position(); }
template <typename T, typename... O> constexpr bool gr(const T & v, O... o) { std::vector<std::byte> d; zb::out out{d, o...}; if (zb::failure(out(v))) return false; T w{}; zb::in in{d, O{}...}; if (zb::failure(in(w))) return false; return w == v && in.position() == out.position() && d.size() == out.position(); }
#define BOTH(...) static_assert(rt(__VA_ARGS__)); static_assert(gr(__VA_ARGS__)); static_assert(rt(__VA_ARGS__, zb::endian::big{})); static_assert(gr(__VA_ARGS__, zb::endian::big{}));
"""
    items = {
        "scalar": "BOTH(std::uint8_t(200)) BOTH(std::int64_t(-5)) BOTH(true) BOTH('x') BOTH(1.5) BOTH(2.5f) BOTH(std::byte(9)) enum class e : std::uint16_t { a = 300 }; BOTH(e::a)",
        "varint": "BOTH(zb::vint32_t(300)) BOTH(zb::vint64_t(1ll << 60)) BOTH(zb::vsint32_t(-300)) BOTH(zb::vuint64_t(~0ull)) BOTH(zb::vint32_t(0)) BOTH(zb::varint<std::uint16_t>(65535))",
        "aggregate": "struct s { std::uint8_t a; std::uint32_t b; bool operator==(const s &) const = default; }; BOTH(s{1, 2}) struct t { std::uint16_t a; std::uint16_t b; bool operator==(const t &) const = default; }; BOTH(t{1, 2}) struct n { s x; t y; bool operator==(const n &) const = default; }; BOTH(n{{1, 2}, {3, 4}}) struct m { int a; int b; using serialize = zb::members<2>; bool operator==(const m &) const = default; }; BOTH(m{1, 2})",
        "arrays": "BOTH(std::array<std::uint16_t, 3>{1, 2, 3}) BOTH(std::array<std::uint8_t, 5>{1, 2, 3, 4, 5}) BOTH(std::array<std::array<std::uint32_t, 2>, 2>{})",
        "tuples": "BOTH(std::tuple<std::uint8_t, std::uint32_t>{1, 2}) BOTH(std::pair<std::uint8_t, std::uint32_t>{1, 2})",
        "vector": "BOTH(std::vector<std::uint8_t>{1, 2, 3}) BOTH(std::vector<std::uint32_t>{1, 2, 3}) BOTH(std::vector<std::uint32_t>{}) BOTH(std::vector<std::vector<std::uint16_t>>{{1}, {}, {2, 3}})",
        "string": "BOTH(std::string(\"hello\")) BOTH(std::string()) BOTH(std::vector<std::string>{\"a\", \"bc\"})",
        "optional": "BOTH(std::optional<std::uint32_t>{}) ",
        "user": "struct u { std::uint32_t a{}; std::uint8_t b{}; constexpr static auto serialize(auto & archive, auto & self) { return archive(self.b, self.a); } bool operator==(const u &) const = default; }; BOTH(u{1, 2})",
    }
    for n, c in items.items():
        acc("ce_" + n, "C23", tmpl + c, "an operation that works at run time is ill-formed or different in a constant expression", rule="constant-evaluation")
    acc("ce_result", "C23 C27", """
constexpr int f(int x) { zb::value_or_errc<int> a{zb::errc{std::errc(x)}}; zb::value_or_errc<int> b{std::move(a)}; return b.success() ? -1 : int(b.error().code); }
static_assert(f(74) == 74 && f(1) == 1);
constexpr int g(int x) { zb::value_or_errc<int> a{int(x)}; zb::value_or_errc<int> b{std::move(a)}; return b.failure() ? -1 : b.value(); }
static_assert(g(74) == 74 && g(0) == 0);
constexpr std::size_t h() { zb::value_or_errc<std::string> a{std::string("abc")}; zb::value_or_errc<std::string> b{std::move(a)}; return b.value().size(); }
static_assert(h() == 3);
""", "moving a result differs in a constant expression", rule="constant-evaluation")
    acc("ce_errors", "C23", """
constexpr std::errc sr(std::size_t n) { std::array<std::byte, 3> d{}; zb::in in{std::span{d.data(), n}}; std::uint32_t x{}; return in(x).code; }
static_assert(sr(3) == std::errc::result_out_of_range && sr(0) == std::errc::result_out_of_range);
constexpr std::errc sw() { std::array<std::byte, 3> d{}; zb::out out{d}; return out(std::uint32_t(1)).code; }
static_assert(sw() == std::errc::result_out_of_range);
constexpr std::errc vr(int k) { std::array<std::byte, 12> d{}; d.fill(std::byte(k)); zb::in in{d}; zb::vint32_t x{}; return in(x).code; }
static_assert(vr(255) == std::errc::value_too_large && vr(1) == std::errc{});
constexpr std::errc vt() { std::array<std::byte, 2> d{}; d.fill(std::byte(255)); zb::in in{d}; zb::vint32_t x{}; return in(x).code; }
static_assert(vt() == std::errc::result_out_of_range);
constexpr std::errc lim() { std::array<std::byte, 12> d{}; d[0] = std::byte(200); zb::in in{d, zb::alloc_limit<100>{}}; std::vector<std::uint8_t> x; return in(x).code; }
static_assert(lim() == std::errc::message_size);
constexpr std::errc big() { std::array<std::byte, 12> d{}; d[0] = std::byte(200); zb::in in{d}; std::vector<std::uint8_t> x; return in(x).code; }
static_assert(big() == std::errc::result_out_of_range);
constexpr std::errc ns() { std::vector<std::byte> d; zb::out out{d, zb::alloc_limit<3>{}}; return out(std::uint32_t(1)).code; }
static_assert(ns() == std::errc::no_buffer_space);
constexpr std::size_t vp() { std::array<std::byte, 12> d{}; d.fill(std::byte(255)); zb::in in{d}; zb::vint32_t x{}; (void)in(x); return in.position(); }
static_assert(vp() == 0);
""", "an error in a constant expression differs from the run-time one", rule="constant-evaluation")
