// C20: buffers own exactly their bytes.
// Explicit-state exploration of operation histories over three buffer slots and three memory
// resources (two equal, one different), with an allocation failure injected at every allocation;
// plus every size, encoding, constructor and make_buffer_from_input source.
#include "parts.hpp"
#include "uenc.hpp"
#include <lexy/action/parse.hpp>
#include <lexy/action/match.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/argv_input.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/lexeme_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <algorithm>
#include <utility>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <string_view>

// Every block of the default resource: counted, sized.
inline long g_live = 0;
inline bool g_badsize = false;
#if PART == 0
static void* vnew(std::size_t n)
{
    auto p = static_cast<char*>(std::malloc(n + 16));
    if (!p)
        throw std::bad_alloc();
    std::memcpy(p, &n, sizeof n);
    ++g_live;
    return p + 16;
}
static void vdel(void* p, std::size_t n, bool sized)
{
    if (!p)
        return;
    --g_live;
    auto        q = static_cast<char*>(p) - 16;
    std::size_t m;
    std::memcpy(&m, q, sizeof m);
    if (sized && m != n)
        g_badsize = true;
    std::free(q);
}
void* operator new(std::size_t n) { return vnew(n); }
void* operator new[](std::size_t n) { return vnew(n); }
void operator delete(void* p) noexcept { vdel(p, 0, false); }
void operator delete[](void* p) noexcept { vdel(p, 0, false); }
void operator delete(void* p, std::size_t n) noexcept { vdel(p, n, true); }
void operator delete[](void* p, std::size_t n) noexcept { vdel(p, n, true); }
#endif

namespace
{
struct Block
{
    std::size_t bytes, align;
    int         group;
};
struct Ledger
{
    std::map<void*, Block> live;
    std::string            problem;
    long                   countdown = -1; // fail the allocation when it reaches 0
    long                   allocs    = 0;

    void* allocate(int group, std::size_t bytes, std::size_t align)
    {
        ++allocs;
        if (countdown >= 0 && countdown-- == 0)
            throw std::bad_alloc();
        void* p = nullptr;
        if (align > alignof(std::max_align_t) || (align & (align - 1)) != 0 || align == 0)
        {
            problem = "odd alignment requested";
            align   = 1;
        }
        p = std::malloc(bytes); // never null in ASan, also for 0
        std::memset(p, 0x5A, bytes);
        live[p] = {bytes, align, group};
        return p;
    }
    void deallocate(int group, void* p, std::size_t bytes, std::size_t align)
    {
        auto it = live.find(p);
        if (it == live.end())
        {
            problem = "memory released that is not live";
            return;
        }
        if (it->second.bytes != bytes)
            problem = "released with size " + std::to_string(bytes) + " but allocated with "
                      + std::to_string(it->second.bytes);
        if (it->second.align != align)
            problem = "released with a different alignment";
        if (it->second.group != group)
            problem = "released to a different resource";
        live.erase(it);
        std::memset(p, 0xA5, bytes);
        std::free(p);
    }
};
inline Ledger& ledger()
{
    static Ledger l;
    return l;
}
struct Res
{
    int   group;
    void* allocate(std::size_t bytes, std::size_t align)
    {
        return ledger().allocate(group, bytes, align);
    }
    void deallocate(void* p, std::size_t bytes, std::size_t align)
    {
        ledger().deallocate(group, p, bytes, align);
    }
    friend bool operator==(const Res& a, const Res& b)
    {
        return a.group == b.group;
    }
};
struct EmptyRes
{
    void* allocate(std::size_t bytes, std::size_t align)
    {
        return ledger().allocate(7, bytes, align);
    }
    void deallocate(void* p, std::size_t bytes, std::size_t align)
    {
        ledger().deallocate(7, p, bytes, align);
    }
    friend bool operator==(EmptyRes, EmptyRes)
    {
        return true;
    }
};

template <typename E>
using Str = std::vector<typename E::char_type>;

template <typename C>
std::string show(const std::vector<C>& v)
{
    std::string r = "[";
    for (std::size_t i = 0; i < v.size() && i < 20; ++i)
        r += (i ? " " : "") + std::to_string((unsigned long)(std::make_unsigned_t<C>(v[i])));
    return r + (v.size() > 20 ? " ...]" : "]") + "#" + std::to_string(v.size());
}

// text of n units, none of them the end marker
template <typename E>
Str<E> text(std::size_t n, unsigned salt)
{
    Str<E> r;
    for (std::size_t i = 0; i < n; ++i)
        r.push_back(typename E::char_type(33 + (i * 7 + salt * 13) % 90));
    return r;
}

// Reading yields the units, then the end; reading the end again does not change that.
template <typename Buf>
std::string check_content(const Buf& b, const Str<typename Buf::encoding>& want)
{
    using E = typename Buf::encoding;
    using C = typename E::char_type;
    if (b.size() != want.size())
        return "size " + std::to_string(b.size()) + " instead of " + std::to_string(want.size());
    if (b.data() == nullptr && b.size() != 0)
        return "null data";
    Str<E> got(b.data(), b.data() + b.size());
    if (got != want)
        return "content " + show(got) + " instead of " + show(want);
    auto        r = b.reader();
    auto        begin = r.position();
    std::size_t n = 0;
    for (; n < want.size(); ++n)
    {
        auto eof = r.peek() == E::eof();
        // a sentinel encoding ends early at the unit that is its end marker
        bool is_marker = E::to_int_type(want[n]) == E::eof();
        if (eof != is_marker)
            return "reader: wrong end at unit " + std::to_string(n);
        if (eof)
            break;
        if (r.peek() != E::to_int_type(want[n]))
            return "reader: wrong unit " + std::to_string(n);
        r.bump();
    }
    if (r.peek() != E::eof() || r.peek() != E::eof())
        return "reader: no end after the last unit";
    if (std::size_t(std::distance(begin, r.position())) != n)
        return "reader: end at a wrong position";
    (void)sizeof(C);
    return "";
}

//=== histories ===//
enum Op : uint8_t
{
    construct,   // slot, resource, size
    def,         // slot, resource: empty
    copy_ctor,   // slot <- src
    copy_res,    // slot <- src, resource
    move_ctor,   // slot <- src
    copy_assign, // slot = src
    move_assign, // slot = move(src)
    swap_,       // slot, src
    readopt,     // slot: release and adopt again
    build,       // slot, resource, size
    destroy,     // slot
    through_fn,  // slot = f(move(slot)): by-value round trip
};
struct Step
{
    Op          op;
    uint8_t     a, b, r;
    std::size_t n;
};
const char* op_name(Op o)
{
    const char* n[] = {"construct", "default", "copy", "copy_res", "move", "copy_assign", "move_assign",
                       "swap", "release_adopt", "build", "destroy", "pass_by_value"};
    return n[o];
}
std::string show(const Step& s)
{
    return std::string(op_name(s.op)) + "(" + std::to_string(s.a) + "," + std::to_string(s.b) + ",r"
           + std::to_string(s.r) + ",n" + std::to_string(s.n) + ")";
}

constexpr int nslots = 3;
template <typename E, typename R>
struct World
{
    using Buf = lexy::buffer<E, R>;
    Res resources[3] = {{1}, {1}, {2}}; // 0 and 1 are equal, 2 differs
    struct M
    {
        Str<E> content;
        int    res;
    };
    std::optional<Buf> slot[nslots];
    std::optional<M>   model[nslots];
    unsigned           salt = 0;

    R* res(int i)
    {
        if constexpr (std::is_void_v<R> || std::is_empty_v<R>)
            return nullptr;
        else
            return &resources[i];
    }

    // false: not applicable in this state
    bool apply(const Step& s)
    {
        auto& A = slot[s.a];
        auto& B = slot[s.b];
        auto& a = model[s.a];
        auto& b = model[s.b];
        switch (s.op)
        {
        case construct:
        case build:
        case def:
        {
            if (A)
                return false;
            auto t = text<E>(s.n, ++salt);
            if (s.op == construct)
                A.emplace(t.data(), t.size(), res(s.r));
            else if (s.op == def)
            {
                if constexpr (std::is_same_v<R, Res>)
                    A.emplace(res(s.r));
                else
                    A.emplace();
            }
            else
            {
                typename Buf::builder bl(s.n, res(s.r));
                if (bl.size() != s.n)
                    vh::fail("builder size");
                if (s.n)
                    std::memcpy(bl.data(), t.data(), s.n * sizeof(t[0]));
                A.emplace(std::move(bl).finish());
            }
            a = M{t, s.r};
            return true;
        }
        case copy_ctor:
            if (A || !B)
                return false;
            A.emplace(std::as_const(*B));
            a = b;
            return true;
        case copy_res:
            if (A || !B)
                return false;
            A.emplace(std::as_const(*B), res(s.r));
            a = M{b->content, s.r};
            return true;
        case move_ctor:
            if (A || !B)
                return false;
            A.emplace(std::move(*B));
            a = b;
            b->content.clear(); // valid and empty
            return true;
        case copy_assign:
            if (!A || !B)
                return false;
            *A        = std::as_const(*B);
            a->content = Str<E>(b->content);
            return true;
        case move_assign:
        {
            if (!A || !B)
                return false;
            auto  t    = b->content;
            auto& Bref = *B;
            *A         = std::move(Bref);
            a->content = t;
            // The source stays valid, with whatever content.
            if (s.a != s.b)
                b->content = Str<E>(B->data(), B->data() + B->size());
            return true;
        }
        case swap_:
        {
            if (!A || !B || s.a == s.b)
                return false;
            std::swap(*A, *B);
            std::swap(a->content, b->content);
            return true;
        }
        case readopt:
        {
            if (!A)
                return false;
            auto n = A->size();
            auto p = std::move(*A).release();
            if (A->size() != 0 || A->data() != nullptr)
                vh::fail("released buffer is not empty");
            A.reset();
            A.emplace(Buf::adopt(p, n, res(a->res)));
            return true;
        }
        case through_fn:
        {
            if (!A)
                return false;
            auto f = [](Buf x) { return x; };
            Buf  y = f(std::move(*A));
            A.reset();
            A.emplace(std::move(y));
            return true;
        }
        case destroy:
            if (!A)
                return false;
            A.reset();
            a.reset();
            return true;
        }
        return false;
    }
    std::string verify()
    {
        for (int i = 0; i < nslots; ++i)
            if (slot[i])
            {
                auto p = check_content(*slot[i], model[i]->content);
                if (!p.empty())
                    return "slot " + std::to_string(i) + ": " + p;
            }
        for (int i = 0; i < nslots; ++i)
            for (int j = i + 1; j < nslots; ++j)
                if (slot[i] && slot[j] && slot[i]->data() && slot[i]->data() == slot[j]->data()
                    && slot[i]->size())
                    return "two buffers share memory";
        if (!ledger().problem.empty())
            return ledger().problem;
        if (g_badsize)
            return "memory released with a different size than it was allocated with";
        if constexpr (!std::is_void_v<R>)
        {
            // every block is accounted for: no more blocks than live buffers with data
            std::size_t with_data = 0;
            for (int i = 0; i < nslots; ++i)
                with_data += slot[i] && slot[i]->data();
            if (ledger().live.size() != with_data)
                return std::to_string(ledger().live.size()) + " blocks are live for "
                       + std::to_string(with_data) + " buffers";
        }
        return "";
    }
};

template <typename E, typename R>
void run_history(const Step* h, int n, long fail_at, long* allocs)
{
    auto& l = ledger();
    if (!l.live.empty())
        l.live.clear();
    l.problem.clear();
    l.countdown = fail_at;
    l.allocs    = 0;
    g_badsize   = false;
    long before = g_live;
    {
        World<E, R> w;
        for (int i = 0; i < n; ++i)
        {
            // what is allowed after a failed allocation: the target keeps its value, or is empty
            std::vector<std::optional<Str<E>>> saved;
            if (fail_at >= 0)
                for (auto& m : w.model)
                    saved.push_back(m ? std::optional<Str<E>>(m->content) : std::nullopt);
            try
            {
                if (!w.apply(h[i]))
                    break;
            }
            catch (std::bad_alloc&)
            {
                for (int k = 0; k < nslots; ++k)
                {
                    if (!w.slot[k])
                    {
                        w.model[k].reset();
                        continue;
                    }
                    Str<E> now(w.slot[k]->data(), w.slot[k]->data() + w.slot[k]->size());
                    bool   touched = k == h[i].a || (k == h[i].b && (h[i].op == swap_ || h[i].op == move_assign));
                    if (!saved[std::size_t(k)] || (now != *saved[std::size_t(k)] && !touched)
                        || (now != *saved[std::size_t(k)] && !now.empty()
                            && h[i].op != swap_))
                        vh::fail("after a failed allocation in " + show(h[i]) + " slot " + std::to_string(k)
                                 + " holds " + show(now));
                    w.model[k]->content = now;
                }
            }
            vh::transitions(1);
            auto p = w.verify();
            if (!p.empty())
            {
                vh::fail("after step " + std::to_string(i) + " " + show(h[i]) + ": " + p);
                break;
            }
        }
    }
    if (!l.live.empty())
        vh::fail(std::to_string(l.live.size()) + " blocks were never released");
    if (!l.problem.empty())
        vh::fail("at the end: " + l.problem);
    if (g_badsize)
        vh::fail("at the end: wrong size in a release");
    if constexpr (std::is_void_v<R>)
    {
        if (g_live != before)
            vh::fail("default resource: " + std::to_string(g_live - before) + " blocks were not released");
    }
    if (allocs)
        *allocs = l.allocs;
    l.countdown = -1;
}

template <typename E, typename R>
void histories(const char* name, int depth, std::vector<std::size_t> sizes)
{
    constexpr bool stateful = std::is_same_v<R, Res>;
    const int      nres     = stateful ? 3 : 1;
    std::vector<Step> ops;
    auto add = [&](Op o, int a, int b, int r, std::size_t n) {
        ops.push_back({o, uint8_t(a), uint8_t(b), uint8_t(r), n});
    };
    for (int a = 0; a < nslots; ++a)
    {
        for (int r = 0; r < nres; ++r)
        {
            for (auto n : sizes)
                add(construct, a, 0, r, n);
            add(build, a, 0, r, sizes.back());
            add(def, a, 0, r, 0);
        }
        add(readopt, a, 0, 0, 0);
        add(through_fn, a, 0, 0, 0);
        add(destroy, a, 0, 0, 0);
        for (int b = 0; b < nslots; ++b)
        {
            add(copy_assign, a, b, 0, 0);
            add(move_assign, a, b, 0, 0);
            if (a == b)
                continue;
            add(copy_ctor, a, b, 0, 0);
            add(move_ctor, a, b, 0, 0);
            if (a < b)
                add(swap_, a, b, 0, 0);
            for (int r = 0; r < nres; ++r)
                add(copy_res, a, b, r, 0);
        }
    }
    // Histories are grown op by op; a slot's applicability is tracked, and slots are filled in
    // order (the slots are interchangeable).
    std::vector<Step> h;
    auto go = [&](auto& self, unsigned mask, int left) -> void {
        if (left == 0)
        {
            vh::step(
                [&] {
                    std::string d = std::string(name) + ":";
                    for (auto& s : h)
                        d += " " + show(s);
                    return d;
                },
                [&] {
                    long allocs = 0;
                    run_history<E, R>(h.data(), int(h.size()), -1, &allocs);
                    vh::traces(1);
                    if constexpr (stateful)
                        for (long f = 0; f < allocs; ++f)
                        {
                            run_history<E, R>(h.data(), int(h.size()), f, nullptr);
                            vh::traces(1);
                        }
                    vh::outcome(std::string(name) + std::to_string(allocs) + std::to_string(mask));
                });
            return;
        }
        for (auto& s : ops)
        {
            unsigned A = 1u << s.a, B = 1u << s.b;
            bool     creates = s.op == construct || s.op == def || s.op == build || s.op == copy_ctor
                           || s.op == copy_res || s.op == move_ctor;
            if (creates)
            {
                if (mask & A)
                    continue;
                if (s.a > 0 && !(mask & (A >> 1)) && s.op == construct)
                    continue; // fresh slots in order
                if (s.op >= copy_ctor && s.op <= move_ctor && !(mask & B))
                    continue;
            }
            else if (!(mask & A))
                continue;
            else if ((s.op == copy_assign || s.op == move_assign || s.op == swap_) && !(mask & B))
                continue;
            h.push_back(s);
            self(self, creates ? mask | A : s.op == destroy ? mask & ~A : mask, left - 1);
            h.pop_back();
        }
    };
    go(go, 0, depth);
}

//=== sizes ===//
struct Word
{
    static constexpr auto name = "w";
    template <typename E>
    static constexpr auto make()
    {
        return lexy::dsl::while_(lexy::dsl::ascii::alpha_digit) + lexy::dsl::eof;
    }
};
struct word_rule
{
    static constexpr auto rule = lexy::dsl::while_(lexy::dsl::ascii::print) + lexy::dsl::eof;
};
struct until_rule
{
    static constexpr auto rule
        = lexy::dsl::until(LEXY_LIT("~~")).or_eof() + lexy::dsl::eof;
};

template <typename E, typename R>
void check_new(const char* what, const lexy::buffer<E, R>& b, const Str<E>& want)
{
    auto p = check_content(b, want);
    if (!p.empty())
        vh::fail(std::string(what) + ": " + p);
    if constexpr (!std::is_same_v<E, lexy::byte_encoding>)
    {
        // word-at-a-time readers look past the last unit
        bool plain = true;
        for (auto c : want)
            plain &= E::to_int_type(c) != E::eof() && c >= 32 && c < 127;
        if (plain)
        {
            if (!lexy::match<word_rule>(b))
                vh::fail(std::string(what) + ": the text is not matched");
            if (!lexy::match<until_rule>(b))
                vh::fail(std::string(what) + ": until does not reach the end");
        }
    }
    auto copy = b;
    p         = check_content(copy, want);
    if (!p.empty())
        vh::fail(std::string(what) + ", copied: " + p);
    auto moved = std::move(copy);
    p          = check_content(moved, want);
    if (p.empty())
        p = check_content(copy, Str<E>());
    if (!p.empty())
        vh::fail(std::string(what) + ", moved: " + p);
}

template <typename E, typename R>
struct With
{
    Res r{3};
    R*  ptr()
    {
        if constexpr (std::is_same_v<R, Res>)
            return &r;
        else
            return nullptr;
    }
};

template <typename C>
struct Chars
{
    const C*    p;
    std::size_t n;
    const C*    data() const { return p; }
    std::size_t size() const { return n; }
};

// the text in memory whose end touches an inaccessible page
template <typename C>
const C* guarded(const std::vector<C>& t)
{
    static vh::Guard g(1 << 20);
    auto             p = g.tail<C>(t.size());
    if (!t.empty())
        std::memcpy(p, t.data(), t.size() * sizeof(C));
    return p;
}

template <typename E, typename R, typename F>
void balanced(F f)
{
    auto& l = ledger();
    l.live.clear();
    l.problem.clear();
    l.countdown = -1;
    g_badsize   = false;
    f();
    if (!l.live.empty())
        vh::fail(std::to_string(l.live.size()) + " blocks were never released");
    if (!l.problem.empty())
        vh::fail(l.problem);
    if (g_badsize)
        vh::fail("memory released with a different size than it was allocated with");
    vh::transitions(1);
    vh::traces(1);
}

// all ways to construct from text
template <typename E, typename R>
void ways(const Str<E>& t)
{
    using C   = typename E::char_type;
    using Buf = lexy::buffer<E, R>;
    With<E, R> w;
    auto       p = guarded(t);
    auto       n = t.size();
    check_new<E, R>("ptr/size", Buf(p, n, w.ptr()), t);
    check_new<E, R>("begin/end", Buf(p, p + n, w.ptr()), t);
    check_new<E, R>("view", Buf(Chars<C>{p, n}, w.ptr()), t);
    {
        typename Buf::builder b(n, w.ptr());
        if (n)
            std::memcpy(b.data(), p, n * sizeof(C));
        check_new<E, R>("builder", std::move(b).finish(), t);
    }
    {
        typename Buf::builder b(n, w.ptr()); // dropped
        if (n)
            std::memcpy(b.data(), p, n * sizeof(C));
    }
    if constexpr (std::is_void_v<R>)
    {
        check_new<E, R>("ptr/size default", Buf(p, n), t);
        check_new<E, R>("begin/end default", Buf(p, p + n), t);
        check_new<E, R>("view default", Buf(Chars<C>{p, n}), t);
        using D = lexy::deduce_encoding<C>;
        check_new<D, R>("deduced", lexy::buffer(p, n), t);
        check_new<D, R>("deduced range", lexy::buffer(p, p + n), t);
        check_new<D, R>("deduced view", lexy::buffer(Chars<C>{p, n}), t);
    }
    else if constexpr (std::is_same_v<R, Res>)
    {
        using D = lexy::deduce_encoding<C>;
        check_new<D, R>("deduced+resource", lexy::buffer(p, n, w.ptr()), t);
        check_new<D, R>("deduced range+resource", lexy::buffer(p, p + n, w.ptr()), t);
        check_new<D, R>("deduced view+resource", lexy::buffer(Chars<C>{p, n}, w.ptr()), t);
    }
    // secondary character types
    auto second = [&](auto c) {
        using X = decltype(c);
        auto q  = reinterpret_cast<const X*>(p);
        check_new<E, R>("secondary ptr/size", Buf(q, n, w.ptr()), t);
        check_new<E, R>("secondary begin/end", Buf(q, q + n, w.ptr()), t);
        check_new<E, R>("secondary view", Buf(Chars<X>{q, n}, w.ptr()), t);
    };
    if constexpr (std::is_same_v<E, lexy::utf8_encoding>)
        second(char{});
    if constexpr (std::is_same_v<E, lexy::utf8_char_encoding>)
        second(char8_t{});
    if constexpr (std::is_same_v<E, lexy::utf16_encoding>)
        if constexpr (sizeof(wchar_t) == 2)
            second(wchar_t{});
    if constexpr (std::is_same_v<E, lexy::utf32_encoding>)
        if constexpr (sizeof(wchar_t) == 4)
            second(wchar_t{});
    if constexpr (std::is_same_v<E, lexy::byte_encoding>)
    {
        second(char{});
        second(std::byte{});
    }
    // from other inputs
    check_new<E, R>("from string_input",
                    lexy::make_buffer_from_input(lexy::string_input<E>(p, n), w.ptr()), t);
    {
        lexy::buffer<E, void> src(p, n);
        check_new<E, R>("from buffer", lexy::make_buffer_from_input(src, w.ptr()), t);
        if (n >= 2)
        {
            auto b = src.reader();
            b.bump();
            auto from = b.position();
            while (std::size_t(b.position() - src.data()) + 1 < n
                   && E::to_int_type(*b.position()) != E::eof())
                b.bump();
            lexy::lexeme_for<lexy::buffer<E, void>> lx(from, b.position());
            auto in = lexy::lexeme_input<lexy::buffer<E, void>>(src, lx);
            check_new<E, R>("from lexeme_input", lexy::make_buffer_from_input(in, w.ptr()),
                            Str<E>(from, b.position()));
        }
    }
    bool marker = false;
    for (auto c : t)
        marker |= E::to_int_type(c) == E::eof();
    if (!marker)
    {
        std::list<C> li(t.begin(), t.end());
        auto         in = lexy::range_input<E, typename std::list<C>::const_iterator>(li.begin(), li.end());
        check_new<E, R>("from list", lexy::make_buffer_from_input(in, w.ptr()), t);
        std::forward_list<C> fl(t.begin(), t.end());
        auto in2 = lexy::range_input<E, typename std::forward_list<C>::const_iterator>(fl.begin(), fl.end());
        check_new<E, R>("from forward list", lexy::make_buffer_from_input(in2, w.ptr()), t);
        std::deque<C> dq(t.begin(), t.end());
        auto in3 = lexy::range_input<E, typename std::deque<C>::const_iterator>(dq.begin(), dq.end());
        check_new<E, R>("from deque", lexy::make_buffer_from_input(in3, w.ptr()), t);
        auto in4 = lexy::range_input<E, const C*>(p, p + n);
        check_new<E, R>("from pointer range", lexy::make_buffer_from_input(in4, w.ptr()), t);
    }
    if (std::find(t.begin(), t.end(), C(0)) == t.end())
        if constexpr (!std::is_same_v<E, lexy::byte_encoding>)
        {
            auto z = t;
            z.push_back(C(0));
            check_new<E, R>("from zstring",
                            lexy::make_buffer_from_input(lexy::zstring_input<E>(guarded(z)), w.ptr()), t);
        }
}

template <typename E, typename R>
void sizes(const char* name)
{
    auto one = [&](std::size_t n, unsigned salt, int special) {
        vh::step(
            [&] {
                return std::string(name) + ": size " + std::to_string(n) + " text " + std::to_string(salt)
                       + " special unit at " + std::to_string(special);
            },
            [&] {
                auto t = text<E>(n, salt);
                if (special >= 0)
                {
                    using C = typename E::char_type;
                    const C s[] = {C(0), C(~C(0)), C(0x80), C(0x7F)};
                    t[std::size_t(special) / 4] = s[special % 4];
                    if constexpr (std::is_same_v<E, lexy::ascii_encoding>)
                        if (t[std::size_t(special) / 4] == C(0x80))
                            t[std::size_t(special) / 4] = C(1);
                }
                balanced<E, R>([&] { ways<E, R>(t); });
                vh::outcome(std::string(name) + std::to_string(n));
            });
    };
    for (std::size_t n = 0; n <= (vh::thorough() ? 300u : 72u); ++n)
        one(n, unsigned(n), -1);
    for (std::size_t base : {128u, 256u, 1000u, 4096u, 65536u})
        for (std::size_t n = base - (vh::thorough() ? 20 : 9); n <= base + (vh::thorough() ? 20 : 9); ++n)
            one(n, 3, -1);
    for (std::size_t n = 1; n <= (vh::thorough() ? 33u : 18u); ++n)
        for (int s = 0; s < int(n) * 4; ++s)
            one(n, 5, s);
}

//=== copies are independent: writing through the builder's memory, releases ===//
template <typename E>
void arg_inputs()
{
    for (int mask = 0; mask < 27; ++mask)
        vh::step([&] { return "argv input " + std::to_string(mask); },
                 [&] {
                     static const char* words[3] = {"", "ab", "cdefg"};
                     std::vector<std::string> a  = {"prog", words[mask % 3], words[mask / 3 % 3],
                                                    words[mask / 9 % 3]};
                     for (int cnt = 1; cnt <= 4; ++cnt)
                     {
                         std::vector<char*> av;
                         for (int i = 0; i < cnt; ++i)
                             av.push_back(a[std::size_t(i)].data());
                         av.push_back(nullptr);
                         Str<lexy::default_encoding> want;
                         for (int i = 1; i < cnt; ++i)
                         {
                             if (i > 1)
                                 want.push_back(0);
                             for (char c : a[std::size_t(i)])
                                 want.push_back(c);
                         }
                         balanced<lexy::default_encoding, void>([&] {
                             lexy::argv_input<> in(cnt, av.data());
                             Res                r{4};
                             auto               b = lexy::make_buffer_from_input(in, &r);
                             auto               p = check_content(b, want);
                             if (!p.empty())
                                 vh::fail("from argv_input: " + p);
                         });
                     }
                 });
}
} // namespace

#define SIZES(ID, E)                                                                               \
    static int s##ID##a = parts::add<ID * 3>([](auto) { sizes<lexy::E, void>(#E " default"); });   \
    static int s##ID##b = parts::add<ID * 3 + 1>([](auto) { sizes<lexy::E, Res>(#E " resource"); });\
    static int s##ID##c = parts::add<ID * 3 + 2>([](auto) { sizes<lexy::E, EmptyRes>(#E " empty"); });
SIZES(0, default_encoding)
SIZES(1, ascii_encoding)
SIZES(2, utf8_encoding)
SIZES(3, utf8_char_encoding)
SIZES(4, utf16_encoding)
SIZES(5, utf32_encoding)
SIZES(6, byte_encoding)

static int dd() { return vh::thorough() ? 4 : 3; }
#define HIST(ID, E, R, D, ...)                                                                     \
    static int h##ID = parts::add<100 + ID>(                                                       \
        [](auto) { histories<lexy::E, R>(#E "/" #R, D, {__VA_ARGS__}); });
HIST(0, utf8_encoding, Res, dd() + 1, 3)
HIST(1, default_encoding, Res, dd() + 1, 3)
HIST(2, utf32_encoding, Res, dd(), 0, 1, 9)
HIST(3, utf16_encoding, Res, dd(), 0, 1, 9)
HIST(4, utf8_char_encoding, void, dd() + 1, 0, 8)
HIST(5, default_encoding, void, dd() + 1, 0, 8)
HIST(6, ascii_encoding, EmptyRes, dd() + 1, 0, 7)
HIST(7, byte_encoding, EmptyRes, dd() + 1, 0, 7)
static int argvp = parts::add<110>([](auto) { arg_inputs<void>(); });
PARTS_MAIN
