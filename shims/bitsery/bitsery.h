// Stand-in for bitsery (the real library is not installed in this sandbox): little-endian,
// variable-length container sizes, reader errors, as in bitsery 5.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstddef>
#include <algorithm>
#include <type_traits>
#include <utility>
#include "traits/core/std_defaults.h"
namespace bitsery {
enum class ReaderError { NoError, ReadingError, DataOverflow, InvalidData, InvalidPointer };

class Access {
public:
    template <typename S, typename T> static auto member(S& s, T& v, int) -> decltype(v.serialize(s), std::true_type{}) { v.serialize(s); return {}; }
    template <typename S, typename T> static std::false_type member(S&, T&, long) { return {}; }
    template <typename S, typename T> static constexpr auto has(int) -> decltype(std::declval<T&>().serialize(std::declval<S&>()), true) { return true; }
    template <typename S, typename T> static constexpr bool has(long) { return false; }
};

namespace details {
template <typename S, typename T> void invokeSerialize(S& s, T& v) {
    if constexpr (Access::has<S, T>(0)) Access::member(s, v, 0);
    else serialize(s, v);   // found through S's namespace (bitsery) or T's
}
}

template <typename Adapter>
class Serializer {
public:
    template <typename... A> explicit Serializer(A&&... a) : adapter_(std::forward<A>(a)...) {}
    Adapter& adapter() { return adapter_; }
    template <typename T> void value1b(const T& v) { put<1>(v); }
    template <typename T> void value2b(const T& v) { put<2>(v); }
    template <typename T> void value4b(const T& v) { put<4>(v); }
    template <typename T> void value8b(const T& v) { put<8>(v); }
    template <typename T> void object(const T& v) { details::invokeSerialize(*this, const_cast<T&>(v)); }
    template <typename T> void text1b(const T& str, std::size_t maxSize) {
        // bitsery asserts size <= maxSize here; in release builds it writes all of it.
        (void)maxSize; writeSize(str.size());
        adapter_.write(str.data(), str.size());
    }
    template <typename T> void container(const T& c, std::size_t) {
        writeSize(c.size());
        for (auto& e : c) object(e);
    }
    template <typename T, typename F> void container(const T& c, std::size_t, F&& f) {
        writeSize(c.size());
        for (auto& e : c) f(*this, const_cast<typename T::value_type&>(e));
    }
    template <typename T, typename Ext> void ext(const T& v, const Ext& e) {
        using TV = typename traits::ExtensionTraits<Ext, T>::TValue;
        e.serialize(*this, v, [](Serializer& s, TV& x) { s.object(x); });
    }
    template <typename T, typename Ext, typename F> void ext(const T& v, const Ext& e, F&& f) { e.serialize(*this, v, std::forward<F>(f)); }
    void writeSize(std::size_t n) {
        if (n < 0x80u) { std::uint8_t b = (std::uint8_t)n; put<1>(b); }
        else if (n < 0x4000u) {
            std::uint8_t a = (std::uint8_t)((n >> 8) | 0x80u), b = (std::uint8_t)n; put<1>(a); put<1>(b);
        } else {
            std::uint8_t a = (std::uint8_t)((n >> 24) | 0xC0u), b = (std::uint8_t)(n >> 16); put<1>(a); put<1>(b);
            std::uint16_t lo = (std::uint16_t)n; put<2>(lo);
        }
    }
private:
    template <std::size_t N, typename T> void put(const T& v) { static_assert(sizeof(T) == N); adapter_.write(reinterpret_cast<const char*>(&v), N); }
    Adapter adapter_;
};

template <typename Adapter>
class Deserializer {
public:
    template <typename... A> explicit Deserializer(A&&... a) : adapter_(std::forward<A>(a)...) {}
    Adapter& adapter() { return adapter_; }
    template <typename T> void value1b(T& v) { get<1>(v); }
    template <typename T> void value2b(T& v) { get<2>(v); }
    template <typename T> void value4b(T& v) { get<4>(v); }
    template <typename T> void value8b(T& v) { get<8>(v); }
    template <typename T> void object(T& v) { details::invokeSerialize(*this, v); }
    template <typename T> void text1b(T& str, std::size_t maxSize) {
        std::size_t n = readSize(maxSize);
        if (n > adapter_.remainingHint()) { adapter_.error(ReaderError::DataOverflow); str.clear(); return; }
        str.resize(n);
        if (n) adapter_.read(&str[0], n);
    }
    template <typename T> void container(T& c, std::size_t maxSize) {
        std::size_t n = readSize(maxSize);
        if (n > adapter_.remainingHint()) { adapter_.error(ReaderError::DataOverflow); c.clear(); return; }
        c.resize(n);
        for (auto& e : c) object(e);
    }
    template <typename T, typename Ext> void ext(T& v, const Ext& e) {
        using TV = typename traits::ExtensionTraits<Ext, T>::TValue;
        e.deserialize(*this, v, [](Deserializer& s, TV& x) { s.object(x); });
    }
    template <typename T, typename Ext, typename F> void ext(T& v, const Ext& e, F&& f) { e.deserialize(*this, v, std::forward<F>(f)); }
    std::size_t readSize(std::size_t maxSize) {
        std::uint8_t hb = 0; get<1>(hb); std::size_t n;
        if (hb < 0x80u) n = hb;
        else {
            std::uint8_t lb = 0; get<1>(lb);
            if (hb & 0x40u) { std::uint16_t lw = 0; get<2>(lw); n = ((((std::size_t)(hb & 0x3Fu) << 8) | lb) << 16) | lw; }
            else n = ((std::size_t)(hb & 0x7Fu) << 8) | lb;
        }
        if (n > maxSize) { adapter_.error(ReaderError::InvalidData); return 0; }
        return n;
    }
private:
    template <std::size_t N, typename T> void get(T& v) { static_assert(sizeof(T) == N); adapter_.read(reinterpret_cast<char*>(&v), N); }
    Adapter adapter_;
};

template <typename OutputAdapter, typename Buffer, typename T>
std::size_t quickSerialization(Buffer& buf, const T& value) {
    Serializer<OutputAdapter> s(buf); s.object(value); return s.adapter().writtenBytesCount();
}
template <typename InputAdapter, typename T>
std::pair<ReaderError, bool> quickDeserialization(InputAdapter adapter, T& value) {
    Deserializer<InputAdapter> d(std::move(adapter)); d.object(value);
    return {d.adapter().error(), d.adapter().isCompletedSuccessfully()};
}
}
