H = '''#include "zpp_bits.h"
#include <cstdio>
#include <cstring>
#include <vector>
#include <string>
#include <memory>
#include <map>
#include <list>
#include <optional>
#include <bitset>
using namespace zpp::bits;
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while (0)
'''
BUGS = [
dict(id="c01_span_count", property="C01", needs="reading a container of multi-byte elements whose byte size exceeds the remaining input while its element count does not",
     breaks="the bounds check of bulk element reads compares the element count instead of the byte count, reading past the input",
     edits=[("""            if (item_size_in_bytes > size - m_position) [[unlikely]] {
                return std::errc::result_out_of_range;
            }
            if (std::is_constant_evaluated()) {
                std::size_t count = item.count();""", """            if (item.count() > size - m_position) [[unlikely]] {
                return std::errc::result_out_of_range;
            }
            if (std::is_constant_evaluated()) {
                std::size_t count = item.count();""")],
     demo=H + '''int main() {
  unsigned char * b = new unsigned char[9]{4,0,0,0, 1,2,3,4,5};
  std::vector<std::uint32_t> v; in i{std::span<unsigned char>(b, 9)};
  auto r = i(v); delete [] b;
  CHECK(r.code == std::errc::result_out_of_range); return 0; }'''),
dict(id="c02_bitset_round", property="C02", needs="a bitset whose size is not a multiple of eight written to a fixed buffer that ends one byte short",
     breaks="the size check of bitsets rounds down, so the last partial byte is written past the end of a fixed buffer",
     edits=[("""        } else if (size_in_bytes > m_data.size() - m_position)
            [[unlikely]] {
            return std::errc::result_out_of_range;
        }

        auto data = m_data.data() + m_position;""", """        } else if (size / CHAR_BIT > m_data.size() - m_position)
            [[unlikely]] {
            return std::errc::result_out_of_range;
        }

        auto data = m_data.data() + m_position;""")],
     demo=H + '''int main() {
  unsigned char b[4] = {0xaa, 0xaa, 0xaa, 0xaa}; out o{std::span<unsigned char>(b, 1)};
  auto r = o(std::bitset<11>(0x7ff));
  CHECK(r.code == std::errc::result_out_of_range); CHECK(b[1] == 0xaa); return 0; }'''),
dict(id="c03_limit_required", property="C03", needs="a growing output with an allocation limit between the required size and the required size times the growth factor",
     breaks="the allocation limit is compared with the size before the growth factor is applied, so the buffer grows beyond the limit",
     edits=[("if (new_size > allocation_limit) [[unlikely]] {", "if (required_size > allocation_limit) [[unlikely]] {")],
     demo=H + '''struct B { using value_type = std::byte; std::vector<std::byte> v; std::size_t maxn = 0;
  auto data() { return v.data(); } auto data() const { return v.data(); } std::size_t size() const { return v.size(); }
  void resize(std::size_t n) { if (n > maxn) maxn = n; v.resize(n); } void reserve(std::size_t n) { v.reserve(n); }
  auto begin() { return v.begin(); } auto end() { return v.end(); } std::byte & operator[](std::size_t i) { return v[i]; } };
int main() { B b; out o{b, alloc_limit<100>{}}; for (int k = 0; k < 10; ++k) (void)o(std::array<std::uint64_t, 1>{1});
  CHECK(b.maxn <= 100);
  std::vector<std::byte> d; out p{d, alloc_limit<10>{}}; auto r = p(std::uint64_t{1}); CHECK(r.code == std::errc::no_buffer_space); return 0; }'''),
dict(id="c04_view_position", property="C04", needs="reading an unsized constant byte view when the position is not zero",
     breaks="after reading the rest of the input as a view the position exceeds the data size",
     edits=[("""                    auto size = m_data.size();
                    container = {m_data.data() + m_position,
                                 size - m_position};
                    m_position = size;""", """                    auto size = m_data.size();
                    container = {m_data.data() + m_position,
                                 size - m_position};
                    m_position += size;""")],
     demo=H + '''int main() {
  char b[8] = {1,2,3,4,5,6,7,8}; in i{std::span<char>(b, 8)}; std::uint16_t x; CHECK(success(i(x)));
  std::string_view s; CHECK(success(i(unsized(s)))); CHECK(s.size() == 6); CHECK(i.position() == 8); return 0; }'''),
dict(id="c05_assoc_last", property="C05", needs="a map or set whose element fails to decode",
     breaks="an element of an associative container that fails to decode ends the loop but the failure is dropped",
     edits=[("""                destructor_guard guard{*object};
                if (auto result = serialize_one(*object); failure(result))
                    [[unlikely]] {
                    return result;
                }

                container.insert(std::move(*object));
            } else {""", """                destructor_guard guard{*object};
                if (auto result = serialize_one(*object); failure(result))
                    [[unlikely]] {
                    break;
                }

                container.insert(std::move(*object));
            } else {""")],
     demo=H + '''int main() {
  unsigned char b[] = {2,0,0,0, 1,0,0,0, 2,0,0,0, 7}; std::map<int,int> m; in i{std::span<unsigned char>(b, sizeof b)};
  CHECK(failure(i(m))); return 0; }'''),
]
