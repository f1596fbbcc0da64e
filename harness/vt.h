// Small helpers shared by the harnesses.
#pragma once
#include <limits>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <iostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
#include <unistd.h>

namespace vt
{

inline std::string unhex(std::string_view s)
{
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r.push_back((char)(v(s[i]) * 16 + v(s[i + 1])));
    return r;
}

/** Bytes as a JSON array of numbers */
inline void bytes(std::string& o, std::string_view s)
{
    o += '[';
    for (size_t i = 0; i < s.size(); ++i) {
        if (i) o += ',';
        o += std::to_string((unsigned char)s[i]);
    }
    o += ']';
}

/** 64 bit integer as 8 bytes, least significant first */
inline void wide(std::string& o, int64_t v)
{
    auto u = (uint64_t)v;
    o += '[';
    for (int i = 0; i < 8; ++i) {
        if (i) o += ',';
        o += std::to_string((u >> (8 * i)) & 0xff);
    }
    o += ']';
}

/** Non-negative double as decimal digits 0.d1d2... * 10^x */
inline void dec(std::string& o, double v)
{
    if (std::isnan(v) || std::isinf(v) || v < 0) { o += "{\"k\":\"special\"}"; return; }
    char b[64];
    snprintf(b, sizeof b, "%.16e", v);
    o += "{\"k\":\"dec\",\"d\":[";
    bool first = true;
    char* p = b;
    for (; *p && *p != 'e'; ++p)
        if (*p != '.') { if (!first) o += ','; o += *p; first = false; }
    o += "],\"x\":" + std::to_string(atoi(p + 1) + 1) + "}";
}

/** Non-negative double as the exact interval of the reals that are rounded to it */
inline void interval(std::string& o, double v)
{
    if (std::isnan(v) || std::signbit(v)) { o += "{\"k\":\"special\"}"; return; }
    auto mid = [&o](long double m) {   // the midpoint of two adjacent doubles is a long double
        std::string b(1200, 0);
        b.resize(snprintf(b.data(), b.size(), "%.1100Le", m));
        auto e = b.find('e');
        auto digits = b.substr(0, 1) + b.substr(2, e - 2);
        while (digits.size() > 1 && digits.back() == '0') digits.pop_back();
        o += "{\"d\":[";
        for (size_t i = 0; i < digits.size(); ++i) { if (i) o += ','; o += digits[i]; }
        o += "],\"x\":" + std::to_string(atoi(b.c_str() + e + 1) + 1) + "}";
    };
    static_assert(sizeof(long double) > 8);
    const auto max = (long double)std::numeric_limits<double>::max();
    const auto beyond = max + (max - std::nextafter(std::numeric_limits<double>::max(), 0.0)) / 2;
    o += "{\"k\":\"dec\"";
    if (v > 0) {
        o += ",\"lo\":";
        mid(std::isinf(v) ? beyond : ((long double)v + std::nextafter(v, 0.0)) / 2);
    }
    if (!std::isinf(v)) {
        o += ",\"hi\":";
        auto up = std::nextafter(v, HUGE_VAL);
        mid(std::isinf(up) ? beyond : ((long double)v + up) / 2);
    }
    o += "}";
}

inline void jstr(std::string& o, std::string_view s)
{
    o += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    o += '"';
}

/** Calls f(line, out) for each line of stdin, and writes `out` and flushes after each. */
template <class F> int eachLine(F&& f)
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::string o;
        f(line, o);
        o += '\n';
        size_t off = 0;
        while (off < o.size()) {
            auto n = ::write(1, o.data() + off, o.size() - off);
            if (n <= 0) return 3;
            off += (size_t)n;
        }
    }
    return 0;
}

}
