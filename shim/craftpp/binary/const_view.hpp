// Offline stand-in for craftpp: non-owning view of constant bytes. The
// assured_* accessors abort when out of bounds: calling them there is a defect
// of the caller and must be visible to the checks.
#pragma once

#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <vector>

#include <craftpp/maybe/maybe.hpp>

namespace craftpp::binary {

class ConstView {
public:
    using ByteVec = std::vector<uint8_t>;
    using value_type = uint8_t;
    using const_iterator = const uint8_t*;
    using iterator = const_iterator;

    struct Interval {
        size_t offset;
        size_t count;
        bool operator==(const Interval&) const noexcept = default;
    };

    ConstView(const void* p, size_t sz) noexcept
        : m_data(static_cast<const uint8_t*>(p)), m_size(sz)
    {}
    explicit ConstView(const ByteVec& v) noexcept
        : m_data(v.data()), m_size(v.size())
    {}
    template<size_t N>
    explicit ConstView(const std::array<uint8_t, N>& a) noexcept
        : m_data(a.data()), m_size(N)
    {}

    size_t size() const noexcept { return m_size; }
    bool empty() const noexcept { return m_size == 0; }
    const uint8_t* data() const noexcept { return m_data; }
    const_iterator begin() const noexcept { return m_data; }
    const_iterator end() const noexcept { return m_data + m_size; }
    const_iterator cbegin() const noexcept { return begin(); }
    const_iterator cend() const noexcept { return end(); }

    friend bool operator==(const ConstView& a, const ConstView& b) noexcept {
        return a.m_size == b.m_size && (a.m_size == 0 || std::memcmp(a.m_data, b.m_data, a.m_size) == 0);
    }

    bool contains(const Interval& i) const noexcept {
        return i.offset <= m_size && i.count <= m_size - i.offset;
    }

    maybe::Maybe<uint8_t> read_u8(size_t off) const noexcept { return read<uint8_t>(off); }
    maybe::Maybe<uint16_t> read_u16be(size_t off) const noexcept { return read<uint16_t>(off); }
    maybe::Maybe<uint32_t> read_u32be(size_t off) const noexcept { return read<uint32_t>(off); }
    maybe::Maybe<uint64_t> read_u64be(size_t off) const noexcept { return read<uint64_t>(off); }

    uint8_t assured_read_u8(size_t off) const noexcept { return assured_read<uint8_t>(off); }
    uint16_t assured_read_u16be(size_t off) const noexcept { return assured_read<uint16_t>(off); }
    uint32_t assured_read_u32be(size_t off) const noexcept { return assured_read<uint32_t>(off); }
    uint64_t assured_read_u64be(size_t off) const noexcept { return assured_read<uint64_t>(off); }

    maybe::Maybe<ConstView> subview(size_t off) const noexcept {
        if (off > m_size) {
            return maybe::None{};
        }
        return ConstView(m_data + off, m_size - off);
    }
    maybe::Maybe<ConstView> subview(size_t off, size_t count) const noexcept {
        return subview(Interval{off, count});
    }
    maybe::Maybe<ConstView> subview(const Interval& i) const noexcept {
        if (!contains(i)) {
            return maybe::None{};
        }
        return ConstView(m_data + i.offset, i.count);
    }
    ConstView assured_subview(size_t off) const noexcept {
        if (off > m_size) {
            std::abort();
        }
        return ConstView(m_data + off, m_size - off);
    }
    ConstView assured_subview(size_t off, size_t count) const noexcept {
        return assured_subview(Interval{off, count});
    }
    ConstView assured_subview(const Interval& i) const noexcept {
        if (!contains(i)) {
            std::abort();
        }
        return ConstView(m_data + i.offset, i.count);
    }

    static ByteVec concat(const std::vector<ConstView>& views) {
        size_t total = 0;
        for (const auto& v : views) {
            total += v.size();
        }
        ByteVec out;
        out.reserve(total);
        for (const auto& v : views) {
            out.insert(out.end(), v.begin(), v.end());
        }
        return out;
    }

private:
    template<typename T>
    T get(size_t off) const noexcept {
        uint64_t r = 0;
        for (size_t i = 0; i < sizeof(T); ++i) {
            r = (r << 8) | m_data[off + i];
        }
        return static_cast<T>(r);
    }
    template<typename T>
    maybe::Maybe<T> read(size_t off) const noexcept {
        if (!contains(Interval{off, sizeof(T)})) {
            return maybe::None{};
        }
        return get<T>(off);
    }
    template<typename T>
    T assured_read(size_t off) const noexcept {
        if (!contains(Interval{off, sizeof(T)})) {
            std::abort();
        }
        return get<T>(off);
    }
    const uint8_t* m_data = nullptr;
    size_t m_size = 0;
};

}
