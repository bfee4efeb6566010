// Records the errors of a parse: kind, range in code units behind a base pointer, payload.
#ifndef REC_HPP
#define REC_HPP
#include "uenc.hpp"
#include <lexy/error.hpp>
#include <string>
#include <type_traits>
#include <vector>
namespace rec
{
struct Err
{
    std::string kind;
    long        begin = -1, end = -1, index = -1;
    std::string text; // expected string, if any, as hex of the units when not ASCII
    std::string show() const
    {
        return kind + "[" + std::to_string(begin) + "," + std::to_string(end) + ")"
               + (index >= 0 ? "@" + std::to_string(index) : "") + (text.empty() ? "" : "'" + text + "'");
    }
    bool operator==(const Err& o) const
    {
        return kind == o.kind && begin == o.begin && end == o.end && index == o.index && text == o.text;
    }
};
inline std::vector<Err>& errs()
{
    static std::vector<Err> v;
    return v;
}
inline const char*& base()
{
    static const char* p;
    return p;
}
inline long& size()
{
    static long n;
    return n;
}
template <typename It>
inline long at(It it)
{
    return long((reinterpret_cast<const char*>(&*it) - base()) / size());
}
inline std::string show(const std::vector<Err>& v)
{
    std::string r;
    for (auto& e : v)
        r += (r.empty() ? "" : ", ") + e.show();
    return "{" + r + "}";
}
template <typename Str>
inline std::string units(Str s, std::size_t n)
{
    std::string r;
    for (std::size_t i = 0; i < n; ++i)
    {
        auto v = long(std::make_unsigned_t<std::decay_t<decltype(s[i])>>(s[i]));
        r += v >= 32 && v < 127 ? std::string(1, char(v)) : "<" + std::to_string(v) + ">";
    }
    return r;
}
struct Cb
{
    struct S
    {
        using return_type = std::size_t;
        std::size_t n     = 0;
        template <typename Ctx, typename Reader>
        void operator()(const Ctx&, const lexy::error<Reader, lexy::expected_literal>& e)
        {
            errs().push_back({"expected literal", at(e.position()), at(e.position()), long(e.index()), units(e.string(), e.length())});
            ++n;
        }
        template <typename Ctx, typename Reader>
        void operator()(const Ctx&, const lexy::error<Reader, lexy::expected_keyword>& e)
        {
            errs().push_back({"expected keyword", at(e.begin()), at(e.end()), -1, units(e.string(), e.length())});
            ++n;
        }
        template <typename Ctx, typename Reader>
        void operator()(const Ctx&, const lexy::error<Reader, lexy::expected_char_class>& e)
        {
            errs().push_back({"expected char class", at(e.position()), at(e.position()), -1, e.name()});
            ++n;
        }
        template <typename Ctx, typename Reader, typename Tag>
        void operator()(const Ctx&, const lexy::error<Reader, Tag>& e)
        {
            errs().push_back({e.message(), at(e.begin()), at(e.end()), -1, ""});
            ++n;
        }
        std::size_t finish() &&
        {
            return n;
        }
    };
    auto sink() const
    {
        return S{};
    }
};
template <typename C>
inline void start(const C* p)
{
    base() = reinterpret_cast<const char*>(p);
    size() = long(sizeof(C));
    errs().clear();
}
} // namespace rec
#endif
