// Text in every encoding, written down independently of lexy.
#ifndef UENC_HPP
#define UENC_HPP
#include <cstdint>
#include <string>
namespace uenc
{
using u32  = uint32_t;
using Text = std::basic_string<char32_t>;
template <typename S>
inline void put(S& out, u32 c)
{
    using C = typename S::value_type;
    if constexpr (sizeof(C) == 4)
        out.push_back(C(c));
    else if constexpr (sizeof(C) == 2)
    {
        if (c < 0x10000)
            out.push_back(C(c));
        else
            out.push_back(C(0xD7C0 + c / 1024)), out.push_back(C(0xDC00 + c % 1024));
    }
    else if (c < 0x80)
        out.push_back(C(c));
    else if (c < 0x800)
        out.push_back(C(192 + c / 64)), out.push_back(C(128 + c % 64));
    else if (c < 0x10000)
        out.push_back(C(224 + c / 4096)), out.push_back(C(128 + c / 64 % 64)),
            out.push_back(C(128 + c % 64));
    else
        out.push_back(C(240 + c / 262144)), out.push_back(C(128 + c / 4096 % 64)),
            out.push_back(C(128 + c / 64 % 64)), out.push_back(C(128 + c % 64));
}
template <typename C>
inline std::basic_string<C> to(const Text& t)
{
    std::basic_string<C> r;
    for (auto c : t)
        put(r, u32(c));
    return r;
}
// number of code units of the first n characters
template <typename C>
inline long units(const Text& t, size_t n)
{
    return long(to<C>(t.substr(0, n)).size());
}
inline std::string show(const Text& t)
{
    std::string r = "\"";
    char        b[16];
    for (auto c : t)
        if (c >= 32 && c < 127)
            r += char(c);
        else
        {
            snprintf(b, sizeof b, "\\u{%X}", unsigned(c));
            r += b;
        }
    return r + "\"";
}
inline bool ascii(const Text& t)
{
    for (auto c : t)
        if (c > 127)
            return false;
    return true;
}
inline Text from(const std::string& s)
{
    Text t;
    for (unsigned char c : s)
        t.push_back(c);
    return t;
}
// all strings over the alphabet of length 0..n
template <typename F>
inline void all(const Text& alphabet, int n, F f)
{
    for (int len = 0; len <= n; ++len)
    {
        Text                t(size_t(len), alphabet[0]);
        std::vector<size_t> d(size_t(len), 0);
        while (true)
        {
            f(t);
            int i = len - 1;
            while (i >= 0 && ++d[size_t(i)] == alphabet.size())
            {
                d[size_t(i)] = 0;
                t[size_t(i)] = alphabet[0];
                --i;
            }
            if (i < 0)
                break;
            t[size_t(i)] = alphabet[d[size_t(i)]];
        }
    }
}
} // namespace uenc
#endif
