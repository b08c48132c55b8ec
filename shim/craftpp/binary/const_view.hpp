// Stand-in for craftpp: non-owning view of bytes. Reads outside of the view are
// reported (std::logic_error) instead of being undefined.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <algorithm>
#include <cstring>
#include <string>
#include <string_view>
#include <initializer_list>
#include <stdexcept>
#include <vector>
#include <craftpp/detail.hpp>
namespace craftpp::binary {
class ConstView {
public:
    using ByteVec = std::vector<uint8_t>;
    struct Interval {
        std::size_t offset;
        std::size_t count;
    };
    using MaybeView = craftpp::maybe::Maybe<ConstView>;

    ConstView(const void* p, std::size_t sz) noexcept : m_begin(static_cast<const uint8_t*>(p)), m_size(sz) {}
    template<std::size_t N> explicit ConstView(const std::array<uint8_t, N>& a) noexcept : m_begin(a.data()), m_size(N) {}
    template<std::size_t N> explicit ConstView(const uint8_t (&a)[N]) noexcept : m_begin(a), m_size(N) {}
    explicit ConstView(const ByteVec& v) noexcept : m_begin(v.data()), m_size(v.size()) {}

    std::size_t size() const noexcept { return m_size; }
    bool empty() const noexcept { return m_size == 0; }
    const uint8_t* data() const noexcept { return m_begin; }
    const uint8_t* begin() const noexcept { return m_begin; }
    const uint8_t* end() const noexcept { return m_begin + m_size; }
    const uint8_t* cbegin() const noexcept { return begin(); }
    const uint8_t* cend() const noexcept { return end(); }
    uint8_t operator[](std::size_t i) const { return assured_read_u8(i); }

    uint8_t assured_read_u8(std::size_t o) const { need(o, 1); return m_begin[o]; }
    uint16_t assured_read_u16be(std::size_t o) const { need(o, 2); return static_cast<uint16_t>(be(o, 2)); }
    uint32_t assured_read_u32be(std::size_t o) const { need(o, 4); return static_cast<uint32_t>(be(o, 4)); }
    uint64_t assured_read_u64be(std::size_t o) const { need(o, 8); return be(o, 8); }
    ConstView assured_subview(std::size_t o) const { need(o, 0); return ConstView(m_begin + o, m_size - o); }
    ConstView assured_subview(std::size_t o, std::size_t n) const { need(o, n); return ConstView(m_begin + o, n); }
    ConstView assured_subview(const Interval& i) const { return assured_subview(i.offset, i.count); }

    craftpp::maybe::Maybe<uint8_t> read_u8(std::size_t o) const { return fits(o, 1) ? craftpp::maybe::Maybe<uint8_t>(m_begin[o]) : none8(); }
    craftpp::maybe::Maybe<uint16_t> read_u16be(std::size_t o) const { using M = craftpp::maybe::Maybe<uint16_t>; return fits(o, 2) ? M(static_cast<uint16_t>(be(o, 2))) : M{}; }
    craftpp::maybe::Maybe<uint32_t> read_u32be(std::size_t o) const { using M = craftpp::maybe::Maybe<uint32_t>; return fits(o, 4) ? M(static_cast<uint32_t>(be(o, 4))) : M{}; }
    craftpp::maybe::Maybe<uint64_t> read_u64be(std::size_t o) const { using M = craftpp::maybe::Maybe<uint64_t>; return fits(o, 8) ? M(be(o, 8)) : M{}; }

    MaybeView subview(std::size_t o) const { return fits(o, 0) ? MaybeView(ConstView(m_begin + o, m_size - o)) : MaybeView{}; }
    MaybeView subview(std::size_t o, std::size_t n) const { return fits(o, n) ? MaybeView(ConstView(m_begin + o, n)) : MaybeView{}; }
    MaybeView subview(const Interval& i) const { return subview(i.offset, i.count); }
    bool contains(const Interval& i) const noexcept { return fits(i.offset, i.count); }
    bool contains(std::size_t o, std::size_t n) const noexcept { return fits(o, n); }

    friend bool operator==(const ConstView& a, const ConstView& b) noexcept { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }

    static ByteVec concat(const std::vector<ConstView>& views) {
        ByteVec out;
        for (const auto& v : views) { out.insert(out.end(), v.begin(), v.end()); }
        return out;
    }
private:
    static craftpp::maybe::Maybe<uint8_t> none8() { return {}; }
    bool fits(std::size_t o, std::size_t n) const noexcept { return o <= m_size && n <= m_size - o; }
    void need(std::size_t o, std::size_t n) const { if (!fits(o, n)) { throw std::out_of_range("craftpp stand-in: read outside of view"); } }
    uint64_t be(std::size_t o, unsigned n) const noexcept {
        uint64_t r = 0;
        for (unsigned i = 0; i < n; ++i) { r = (r << 8) | m_begin[o + i]; }
        return r;
    }
    const uint8_t* m_begin;
    std::size_t m_size;
};
}
