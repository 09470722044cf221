// Analysis model: opaque value sources/sinks and opaque container models used by
// the generated harness functions.  Nothing here is ever executed; the harness is
// only compiled to LLVM IR and analysed.
#pragma once
#ifndef ZPP_HEADER
#define ZPP_HEADER "/repo/zpp_bits.h"
#endif
#ifdef ZX_CE
// constant-evaluation mode: every standard header is included first, then the library's own
// is_constant_evaluated() queries answer "yes", so its compile-time branches are the ones analysed
#include <algorithm>
#include <climits>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdlib>
#include <limits>
#include <numeric>
#include <version>
#include <stdexcept>
#include <iterator>
#include <system_error>
#include <type_traits>
#include <utility>
#include <vector>
#include <string>
#include <bit>
#endif
#include <bitset>
#include <optional>
#include <memory>
#include <variant>
#include <tuple>
#include <array>
#include <string_view>
#include <cstring>
#include <cstdint>
#include <span>
#ifdef ZX_CE
#include <array>
namespace std { constexpr bool zx_constant_evaluated() noexcept { return true; } }
#define is_constant_evaluated zx_constant_evaluated
#define __builtin_is_constant_evaluated() true
#endif
#include ZPP_HEADER
#ifdef ZX_CE
#undef is_constant_evaluated
#undef __builtin_is_constant_evaluated
#endif

using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using usz = std::size_t;
namespace zb = zpp::bits;

extern "C" {
bool zsrc_u1(unsigned id) noexcept;
u8 zsrc_u8(unsigned id) noexcept;
u16 zsrc_u16(unsigned id) noexcept;
u32 zsrc_u32(unsigned id) noexcept;
u64 zsrc_u64(unsigned id) noexcept;
void zsink_u8(unsigned id, u8) noexcept;
void zsink_u16(unsigned id, u16) noexcept;
void zsink_u32(unsigned id, u32) noexcept;
void zsink_u64(unsigned id, u64) noexcept;
void zsink_pos(usz) noexcept;      // archive position after the operation
void zsink_ptr(unsigned id, const void *, usz) noexcept;   // resulting view
void zmark(unsigned id) noexcept;
// growing byte buffer
void * zg_data(unsigned id) noexcept;
usz zg_size(unsigned id) noexcept;
void zg_resize(unsigned id, usz) noexcept;
void zg_reserve(unsigned id, usz) noexcept;
// element container
void * zm_data(unsigned id, usz esz) noexcept;
usz zm_size(unsigned id, usz esz) noexcept;
void zm_resize(unsigned id, usz n, usz esz) noexcept;
void zm_reserve(unsigned id, usz n, usz esz) noexcept;
void zm_clear(unsigned id) noexcept;
void zm_begin(unsigned id) noexcept;   // begin of one inserted element (followed by its sinks)
void zm_end(unsigned id) noexcept;
// opaque user serialization: returns an error code, may move the position
int zprobe(unsigned kind, const void * self, usz pos, usz size, usz * newpos) noexcept;
int zcall(unsigned id) noexcept;
void zctor(unsigned id, const void *) noexcept;
void zdtor(unsigned id, const void *) noexcept;
void * zheap_new(unsigned id, usz) noexcept;
}

namespace zx {
template <class T> inline T src(unsigned id) {
    if constexpr (std::is_same_v<T, bool>) { return zsrc_u1(id); }
    else if constexpr (sizeof(T) == 1) { auto v = zsrc_u8(id); return std::bit_cast<T>(v); }
    else if constexpr (sizeof(T) == 2) { auto v = zsrc_u16(id); return std::bit_cast<T>(v); }
    else if constexpr (sizeof(T) == 4) { auto v = zsrc_u32(id); return std::bit_cast<T>(v); }
    else { auto v = zsrc_u64(id); return std::bit_cast<T>(v); }
}
template <class T> inline void sink(unsigned id, const T & t) {
    if constexpr (sizeof(T) == 1) { u8 v; __builtin_memcpy(&v, &t, 1); zsink_u8(id, v); }
    else if constexpr (sizeof(T) == 2) { u16 v; __builtin_memcpy(&v, &t, 2); zsink_u16(id, v); }
    else if constexpr (sizeof(T) == 4) { u32 v; __builtin_memcpy(&v, &t, 4); zsink_u32(id, v); }
    else { u64 v; __builtin_memcpy(&v, &t, 8); zsink_u64(id, v); }
}

// growing byte buffer model (what std::vector / std::string offer to the archive)
template <class B, unsigned Id = 0> struct gbuf {
    using value_type = B;
    B * data() noexcept { return static_cast<B *>(zg_data(Id)); }
    const B * data() const noexcept { return static_cast<B *>(zg_data(Id)); }
    usz size() const noexcept { return zg_size(Id); }
    void resize(usz n) noexcept { zg_resize(Id, n); }
    void reserve(usz n) noexcept { zg_reserve(Id, n); }
    B * begin() noexcept { return data(); }
    B * end() noexcept { return data() + size(); }
    const B * begin() const noexcept { return data(); }
    const B * end() const noexcept { return data() + size(); }
    B & operator[](usz i) noexcept { return data()[i]; }
    const B & operator[](usz i) const noexcept { return data()[i]; }
};

// contiguous resizable container model
template <class T, unsigned Id> struct mvec {
    using value_type = T; using iterator = T *; using const_iterator = const T *;
    T * data() noexcept { return static_cast<T *>(zm_data(Id, sizeof(T))); }
    const T * data() const noexcept { return static_cast<T *>(zm_data(Id, sizeof(T))); }
    usz size() const noexcept { return zm_size(Id, sizeof(T)); }
    void resize(usz n) noexcept { zm_resize(Id, n, sizeof(T)); }
    T * begin() noexcept { return data(); }
    T * end() noexcept { return data() + size(); }
    const T * begin() const noexcept { return data(); }
    const T * end() const noexcept { return data() + size(); }
    T & operator[](usz i) noexcept { return data()[i]; }
    const T & operator[](usz i) const noexcept { return data()[i]; }
};

// resizable container without contiguous storage interface (list-like)
template <class T> struct fiter {
    using iterator_category = std::bidirectional_iterator_tag;
    using value_type = std::remove_const_t<T>; using difference_type = std::ptrdiff_t;
    using pointer = T *; using reference = T &;
    T * p;
    T & operator*() const noexcept { return *p; }
    fiter & operator++() noexcept { ++p; return *this; }
    bool operator==(const fiter & o) const noexcept { return p == o.p; }
    bool operator!=(const fiter & o) const noexcept { return p != o.p; }
};
template <class T, unsigned Id> struct mlist {
    using value_type = T; using iterator = fiter<T>; using const_iterator = fiter<const T>;
    T * ptr() const noexcept { return static_cast<T *>(zm_data(Id, sizeof(T))); }
    usz size() const noexcept { return zm_size(Id, sizeof(T)); }
    void resize(usz n) noexcept { zm_resize(Id, n, sizeof(T)); }
    iterator begin() noexcept { return {ptr()}; }
    iterator end() noexcept { return {ptr() + size()}; }
    const_iterator begin() const noexcept { return {ptr()}; }
    const_iterator end() const noexcept { return {ptr() + size()}; }
};

// opaque user-serialised element
template <unsigned Kind, class Pad = u32> struct probe {
    Pad pad;
    static auto serialize(auto & archive, auto & self) {
        usz np;
        int rc = zprobe(Kind, &self, archive.position(), archive.data().size(), &np);
        archive.position() = np;
        return zb::errc{std::errc(rc)};
    }
};
}

namespace zx {
// associative container models
template <class K, unsigned Id, unsigned Leaf> struct mset {
    using key_type = K; using value_type = K; using iterator = const K *; using const_iterator = const K *;
    usz size() const noexcept { return zm_size(Id, sizeof(K)); }
    iterator begin() const noexcept { return static_cast<const K *>(zm_data(Id, sizeof(K))); }
    iterator end() const noexcept { return begin() + size(); }
    void clear() noexcept { zm_clear(Id); }
    void insert(K && k) noexcept { zm_begin(Id); sink(Leaf, k); zm_end(Id); }
};
template <class K, class V, unsigned Id, unsigned Leaf> struct mmap {
    using key_type = K; using mapped_type = V; using value_type = std::pair<const K, V>;
    using iterator = const value_type *; using const_iterator = const value_type *;
    usz size() const noexcept { return zm_size(Id, sizeof(value_type)); }
    iterator begin() const noexcept { return static_cast<const value_type *>(zm_data(Id, sizeof(value_type))); }
    iterator end() const noexcept { return begin() + size(); }
    void clear() noexcept { zm_clear(Id); }
    void insert(std::pair<K, V> && k) noexcept { zm_begin(Id); sink(Leaf, k.first); sink(Leaf + 1, k.second); zm_end(Id); }
};
}

namespace zx {
// protobuf repeated fields and maps
template <class T> concept messageish = requires(const T & t) { t.zput(0u); };
template <class T> inline void put(unsigned leaf, const T & t) {
    if constexpr (messageish<T>) { t.zput(leaf); }
    else if constexpr (requires { t.value; }) { sink(leaf, t.value); }
    else { sink(leaf, t); }
}
// resizable, contiguous
template <class T, unsigned Id, unsigned Leaf> struct pvec {
    unsigned char pad;                          // (an empty class would be taken for a reserved field)
    using value_type = T; using iterator = T *; using const_iterator = const T *;
    T * data() noexcept { return static_cast<T *>(zm_data(Id, sizeof(T))); }
    const T * data() const noexcept { return static_cast<T *>(zm_data(Id, sizeof(T))); }
    usz size() const noexcept { return zm_size(Id, sizeof(T)); }
    void resize(usz n) noexcept { zm_resize(Id, n, sizeof(T)); }
    void reserve(usz n) noexcept { zm_reserve(Id, n, sizeof(T)); }
    void clear() noexcept { zm_clear(Id); }
    void push_back(const T & t) noexcept { zm_begin(Id); put(Leaf, t); zm_end(Id); }
    T & operator[](usz i) noexcept { return data()[i]; }
    const T & operator[](usz i) const noexcept { return data()[i]; }
    T * begin() noexcept { return data(); }
    T * end() noexcept { return data() + size(); }
    const T * begin() const noexcept { return data(); }
    const T * end() const noexcept { return data() + size(); }
};
// insertion only
template <class T, unsigned Id, unsigned Leaf> struct pset {
    unsigned char pad;                          // (an empty class would be taken for a reserved field)
    using key_type = T; using value_type = T; using iterator = const T *; using const_iterator = const T *;
    usz size() const noexcept { return zm_size(Id, sizeof(T)); }
    iterator begin() const noexcept { return static_cast<const T *>(zm_data(Id, sizeof(T))); }
    iterator end() const noexcept { return begin() + size(); }
    void clear() noexcept { zm_clear(Id); }
    void insert(const T & t) noexcept { zm_begin(Id); put(Leaf, t); zm_end(Id); }
};
template <class K, class V, unsigned Id, unsigned Leaf> struct pmap {
    unsigned char pad;                          // (an empty class would be taken for a reserved field)
    using key_type = K; using mapped_type = V; using value_type = std::pair<const K, V>;
    using iterator = const value_type *; using const_iterator = const value_type *;
    usz size() const noexcept { return zm_size(Id, sizeof(value_type)); }
    iterator begin() const noexcept { return static_cast<const value_type *>(zm_data(Id, sizeof(value_type))); }
    iterator end() const noexcept { return begin() + size(); }
    void clear() noexcept { zm_clear(Id); }
    void insert(std::pair<K, V> && k) noexcept { emplace(k.first, k.second); }
    void emplace(const K & k, const V & v) noexcept { zm_begin(Id); put(Leaf, k); put(Leaf + 1, v); zm_end(Id); }
};
}
