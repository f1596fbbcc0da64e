#pragma once
#include <cstddef>
#include <utility>
namespace bitsery { namespace traits {
template <typename T> struct ContainerTraits;
template <typename T> struct TextTraits;
template <typename Ext, typename T> struct ExtensionTraits;
template <typename T, bool Resizable, bool Contiguous>
struct StdContainer {
    using TValue = typename T::value_type;
    static constexpr bool isResizable = Resizable;
    static constexpr bool isContiguous = Contiguous;
    static std::size_t size(const T& c) { return c.size(); }
};
}}
