// C26: callbacks and sinks deliver every value exactly once.
// Every history of sink calls within the bounds, and every argument combination, with values that
// count how often they are copied and know when they have been moved from; compared with plain lists
// of ids.
#include "parts.hpp"
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <algorithm>
#include <array>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace
{
namespace dsl = lexy::dsl;
using Ids     = std::vector<int>;
inline std::string show(const Ids& v)
{
    std::string r = "[";
    for (int i : v)
        r += std::to_string(i) + " ";
    return r + "]";
}

//=== tracked values ===//
inline int g_copies = 0;
struct Tr
{
    int id = 0;
    Tr() = default;
    constexpr Tr(int i) : id(i) {}
    Tr(int a, int b) : id(a * 100 + b) {}
    constexpr Tr(const Tr& o) : id(o.id)
    {
        if (!std::is_constant_evaluated())
            ++g_copies;
    }
    constexpr Tr(Tr&& o) noexcept : id(o.id)
    {
        o.id = -1;
    }
    Tr& operator=(const Tr& o)
    {
        id = o.id;
        ++g_copies;
        return *this;
    }
    Tr& operator=(Tr&& o) noexcept
    {
        int i = o.id;
        o.id  = -1;
        id    = i;
        return *this;
    }
    friend bool operator<(const Tr& a, const Tr& b)
    {
        return a.id < b.id;
    }
    friend bool operator==(const Tr& a, const Tr& b)
    {
        return a.id == b.id;
    }
};
struct MoveOnly
{
    int id = 0;
    MoveOnly() = default;
    explicit MoveOnly(int i) : id(i) {}
    MoveOnly(MoveOnly&& o) noexcept : id(o.id)
    {
        o.id = -1;
    }
    MoveOnly& operator=(MoveOnly&& o) noexcept
    {
        int i = o.id;
        o.id  = -1;
        id    = i;
        return *this;
    }
};
struct THash
{
    std::size_t operator()(const Tr& t) const
    {
        return std::size_t(t.id % 3);
    }
};
//=== an allocator with an identity ===//
template <typename T>
struct Al
{
    using value_type = T;
    int tag          = 0;
    Al() = default;
    explicit Al(int t) : tag(t) {}
    template <typename U>
    Al(const Al<U>& o) : tag(o.tag)
    {}
    T* allocate(std::size_t n)
    {
        return std::allocator<T>().allocate(n);
    }
    void deallocate(T* p, std::size_t n)
    {
        std::allocator<T>().deallocate(p, n);
    }
    template <typename U>
    friend bool operator==(const Al& a, const Al<U>& b)
    {
        return a.tag == b.tag;
    }
    template <typename U>
    friend bool operator!=(const Al& a, const Al<U>& b)
    {
        return a.tag != b.tag;
    }
};
// the smallest container as_list can work with
struct Mini
{
    using value_type = Tr;
    std::vector<Tr> v;
    void push_back(const Tr& t)
    {
        v.push_back(t);
    }
    void push_back(Tr&& t)
    {
        v.push_back(std::move(t));
    }
    template <typename... A>
    void emplace_back(A&&... a)
    {
        v.emplace_back(std::forward<A>(a)...);
    }
    auto begin() const
    {
        return v.begin();
    }
    auto end() const
    {
        return v.end();
    }
    auto begin()
    {
        return v.begin();
    }
    auto end()
    {
        return v.end();
    }
    bool empty() const
    {
        return v.empty();
    }
};
// has append, which empties its argument
struct App : Mini
{
    int appends = 0;
    void append(App&& o)
    {
        for (auto& x : o.v)
            v.push_back(std::move(x));
        o.v.clear();
        ++appends;
    }
};
using AVec = std::vector<Tr, Al<Tr>>;
using ASet = std::multiset<Tr, std::less<Tr>, Al<Tr>>;

template <typename C>
Ids ids(const C& c)
{
    Ids r;
    for (auto& x : c)
        r.push_back(x.id);
    return r;
}
inline Ids ids(const std::map<int, Tr>& c)
{
    Ids r;
    for (auto& x : c)
    {
        r.push_back(x.first);
        r.push_back(x.second.id);
    }
    return r;
}
template <typename C>
constexpr bool has_alloc = false;
template <typename T>
constexpr bool has_alloc<std::vector<T, Al<T>>> = true;
template <>
constexpr bool has_alloc<ASet> = true;

inline void expect(const std::string& what, const Ids& got, const Ids& want, int copies, int want_copies)
{
    if (got != want)
        vh::fail(what + ": got " + show(got) + ", expected " + show(want));
    if (copies != want_copies)
        vh::fail(what + ": " + std::to_string(copies) + " copies, expected " + std::to_string(want_copies));
    vh::outcome(what + show(got));
    vh::traces(1);
}
inline void expect(const std::string& what, bool ok)
{
    if (!ok)
        vh::fail(what);
    vh::traces(1);
}
// all sequences over n symbols up to a length
template <typename F>
void sequences(int n, int maxlen, F f)
{
    std::vector<int> s;
    auto             rec = [&](auto& self) -> void {
        f(s);
        if (int(s.size()) == maxlen)
            return;
        for (int i = 0; i < n; ++i)
        {
            s.push_back(i);
            self(self);
            s.pop_back();
        }
    };
    rec(rec);
}
inline std::string name(const std::vector<int>& s)
{
    return show(s);
}

//=== as_list / as_collection ===//
// one call of a sink callback: 0 rvalue, 1 lvalue, 2 emplace from int, 3 emplace from two ints
template <typename Sink>
void push(Sink& sink, int kind, int i, Ids& want, int& copies)
{
    switch (kind)
    {
    case 0: {
        Tr t(i);
        sink(std::move(t));
        want.push_back(i);
        break;
    }
    case 1: {
        const Tr t(i);
        sink(t);
        if (t.id != i)
            vh::fail("an lvalue argument was changed");
        want.push_back(i);
        ++copies;
        break;
    }
    case 2: {
        int k = i;
        sink(k);
        want.push_back(i);
        break;
    }
    default:
        sink(2, i);
        want.push_back(200 + i);
        break;
    }
}
struct PS // parse state
{
    int tag;
    Al<Tr> al() const
    {
        return Al<Tr>(tag);
    }
};
template <typename C, typename Cb>
void list_sinks(const char* cname, Cb cb, bool sorted, bool unique)
{
    auto fix = [=](Ids w) {
        if (sorted)
            std::sort(w.begin(), w.end());
        if (unique)
            w.erase(std::unique(w.begin(), w.end()), w.end());
        return w;
    };
    // in a set, equal values are inserted repeatedly
    for (int mod : {1000, 2})
    {
        if (mod != 1000 && !sorted)
            continue;
        sequences(4, vh::thorough() ? 6 : 4, [&](const std::vector<int>& s) {
            vh::step([&] { return std::string("sink of ") + cname + " calls " + name(s) + (mod == 2 ? " repeated values" : ""); },
                     [&] {
                         auto run = [&](const char* how, auto sink, int tag) {
                             Ids want;
                             int copies = 0, i = 0;
                             g_copies = 0;
                             for (int k : s)
                                 push(sink, k, 10 + (i++ % mod), want, copies);
                             C   c   = std::move(sink).finish();
                             int got = g_copies;
                             // a rejected duplicate may or may not have been copied
                             if (unique && mod == 2)
                                 got = copies;
                             expect(std::string(cname) + " " + how, ids(c), fix(want), got, copies);
                             if constexpr (has_alloc<C>)
                                 if (c.get_allocator().tag != tag)
                                     vh::fail(std::string(how) + ": wrong allocator");
                             (void)tag;
                             vh::transitions(s.size());
                         };
                         run("sink()", cb.sink(), 0);
                         if constexpr (has_alloc<C>)
                         {
                             run("sink(alloc)", cb.sink(Al<Tr>(7)), 7);
                             PS ps{8};
                             run("allocator(fn)", cb.allocator(&PS::al).sink(ps), 8);
                             Al<Tr> al(9);
                             run("allocator()", cb.allocator().sink(al), 9);
                             run("bind_sink(parse_state)", lexy::bind_sink(cb, lexy::parse_state).sink(al), 9);
                             run("bind_sink(map)", lexy::bind_sink(cb, lexy::parse_state.map(&PS::al)).sink(ps), 8);
                             run("bind_sink(const)", lexy::bind_sink(cb, Al<Tr>(5)).sink(), 5);
                             run("bind_sink(const) with state", lexy::bind_sink(cb, Al<Tr>(5)).sink(ps), 5);
                         }
                         run("bind_sink()", lexy::bind_sink(cb).sink(), 0);
                         run(">> callback", (cb >> lexy::callback<int>([](C&&) { return 0; })).sink(), 0);
                     });
        });
    }
}
// argument kinds of a variadic call
struct RV
{
    Tr t;
    using type = Tr&&;
    explicit RV(int i) : t(i) {}
    Tr&& get()
    {
        return std::move(t);
    }
    static constexpr int copies = 0;
};
struct LV
{
    const Tr t;
    explicit LV(int i) : t(i) {}
    const Tr& get()
    {
        return t;
    }
    static constexpr int copies = 1;
};
struct IV
{
    int i;
    explicit IV(int i) : i(i) {}
    int& get()
    {
        return i;
    }
    static constexpr int copies = 0;
};
template <typename F, typename... Args>
void call_n(F f, std::tuple<Args...> args)
{
    std::apply([&](auto&... a) { f(a.get()...); }, args);
}
// calls f(tuple of kinds) for every combination of up to N kinds
template <int N, typename F, typename... Acc>
void combos(F f)
{
    f.template operator()<Acc...>();
    if constexpr (sizeof...(Acc) < N)
    {
        combos<N, F, Acc..., RV>(f);
        combos<N, F, Acc..., LV>(f);
        combos<N, F, Acc..., IV>(f);
    }
}
template <typename C, typename Cb>
struct CallCombos
{
    const char* cname;
    Cb          cb;
    bool        sorted;
    template <typename... K>
    void operator()() const
    {
        auto self = *this;
        vh::step([&] { return std::string("callback of ") + self.cname + " with " + std::to_string(sizeof...(K)) + " arguments " + (std::string() + ... + (std::is_same_v<K, RV> ? "R" : std::is_same_v<K, LV> ? "L" : "I")); },
                 [&] {
                     auto run = [&](const char* how, auto f, int tag) {
                         int             n = 20;
                         std::tuple<K...> args{K(--n)...};
                         Ids             want;
                         for (int i = 0; i < int(sizeof...(K)); ++i)
                             want.push_back(19 - i);
                         if (self.sorted)
                             std::sort(want.begin(), want.end());
                         g_copies = 0;
                         std::apply(
                             [&](auto&... a) {
                                 C   c   = f(a.get()...);
                                 int got = g_copies;
                                 expect(std::string(self.cname) + " " + how, ids(c), want, got, (0 + ... + K::copies));
                                 if constexpr (has_alloc<C>)
                                     if (c.get_allocator().tag != tag)
                                         vh::fail(std::string(how) + ": wrong allocator");
                                 (void)tag;
                                 // lvalues are untouched
                                 int  j  = 20;
                                 auto ok = [&](auto& x) {
                                     --j;
                                     if constexpr (std::is_same_v<std::decay_t<decltype(x)>, LV>)
                                         return x.t.id == j;
                                     else
                                         return true;
                                 };
                                 if (!(true && ... && ok(a)))
                                     vh::fail("an lvalue argument was changed");
                             },
                             args);
                         vh::transitions(sizeof...(K));
                     };
                     auto fwd = [](auto cb) { return [cb](auto&&... a) { return cb(std::forward<decltype(a)>(a)...); }; };
                     run("callback", fwd(self.cb), 0);
                     run("bind(values)", fwd(lexy::bind(self.cb, lexy::values)), 0);
                     run("| forward", fwd(self.cb | lexy::forward<C>), 0);
                     run("callback(sink)", fwd(lexy::callback(self.cb)), 0);
                     if constexpr (has_alloc<C>)
                     {
                         run("callback(alloc)", [&](auto&&... a) { return self.cb(Al<Tr>(7), std::forward<decltype(a)>(a)...); }, 7);
                         PS     ps{8};
                         Al<Tr> al(9);
                         run("allocator(fn)[state]", [&](auto&&... a) { return self.cb.allocator(&PS::al)[ps](std::forward<decltype(a)>(a)...); }, 8);
                         run("allocator()[state]", [&](auto&&... a) { return self.cb.allocator()[al](std::forward<decltype(a)>(a)...); }, 9);
                         run("bind(parse_state, values)", [&](auto&&... a) { return lexy::bind(self.cb, lexy::parse_state, lexy::values)[al](std::forward<decltype(a)>(a)...); }, 9);
                     }
                 });
    }
};
template <typename C, typename Cb>
void list_calls(const char* cname, Cb cb, bool sorted)
{
    combos<4>(CallCombos<C, Cb>{cname, cb, sorted});
    for (int n = 0; n < 5; ++n)
        vh::step([&] { return std::string("existing container ") + cname + std::to_string(n); },
                 [&] {
                     C   c;
                     Ids want;
                     for (int i = 0; i < n; ++i)
                     {
                         if constexpr (requires { c.push_back(Tr(i)); })
                             c.push_back(Tr(i));
                         else
                             c.insert(Tr(i));
                         want.push_back(i);
                     }
                     g_copies = 0;
                     C d      = cb(std::move(c));
                     expect(std::string(cname) + " existing", ids(d), want, g_copies, 0);
                     C e = cb(lexy::nullopt{});
                     expect(std::string(cname) + " nullopt", ids(e), {}, 0, 0);
                     if constexpr (has_alloc<C>)
                     {
                         Al<Tr> al(3);
                         C      f = cb.allocator()[al](lexy::nullopt{});
                         expect("nullopt with allocator", f.empty() && f.get_allocator().tag == 3);
                         C g = cb.allocator()[al](std::move(d));
                         expect(std::string(cname) + " existing with allocator", ids(g), want, g_copies, 0);
                     }
                 });
}
template <int>
void lists(int which)
{
    switch (which)
    {
    case 0:
        list_sinks<std::vector<Tr>>("vector", lexy::as_list<std::vector<Tr>>, false, false);
        list_calls<std::vector<Tr>>("vector", lexy::as_list<std::vector<Tr>>, false);
        list_sinks<std::list<Tr>>("list", lexy::as_list<std::list<Tr>>, false, false);
        list_calls<std::list<Tr>>("list", lexy::as_list<std::list<Tr>>, false);
        break;
    case 1:
        list_sinks<std::deque<Tr>>("deque", lexy::as_list<std::deque<Tr>>, false, false);
        list_sinks<Mini>("mini", lexy::as_list<Mini>, false, false);
        list_calls<Mini>("mini", lexy::as_list<Mini>, false);
        break;
    case 2:
        list_sinks<AVec>("vector with allocator", lexy::as_list<AVec>, false, false);
        list_calls<AVec>("vector with allocator", lexy::as_list<AVec>, false);
        break;
    case 3:
        list_sinks<std::multiset<Tr>>("multiset", lexy::as_collection<std::multiset<Tr>>, true, false);
        list_calls<std::multiset<Tr>>("multiset", lexy::as_collection<std::multiset<Tr>>, true);
        list_sinks<std::set<Tr>>("set", lexy::as_collection<std::set<Tr>>, true, true);
        break;
    case 4:
        list_sinks<ASet>("multiset with allocator", lexy::as_collection<ASet>, true, false);
        list_calls<ASet>("multiset with allocator", lexy::as_collection<ASet>, true);
        break;
    }
}
template <int>
void maps()
{
    // keys 0..2, inserted as pair or emplaced; the first value of a key stays
    sequences(6, vh::thorough() ? 6 : 4, [&](const std::vector<int>& s) {
        vh::step([&] { return "sink of map, calls " + name(s); },
                 [&] {
                     auto               sink = lexy::as_collection<std::map<int, Tr>>.sink();
                     std::map<int, int> m;
                     int                i = 50;
                     g_copies             = 0;
                     for (int k : s)
                     {
                         ++i;
                         if (k < 3)
                             sink(std::pair<const int, Tr>(k, Tr(i)));
                         else
                             sink(k - 3, Tr(i));
                         m.emplace(k % 3, i);
                     }
                     Ids want;
                     for (auto& p : m)
                     {
                         want.push_back(p.first);
                         want.push_back(p.second);
                     }
                     std::map<int, Tr> r = std::move(sink).finish();
                     expect("map", ids(r), want, g_copies, 0);
                     vh::transitions(s.size());

                     auto                             us = lexy::as_collection<std::unordered_multiset<Tr, THash>>.sink();
                     std::multiset<int>               want2;
                     for (int k : s)
                     {
                         us(Tr(k));
                         want2.insert(k);
                     }
                     auto               u = std::move(us).finish();
                     std::multiset<int> got2;
                     for (auto& x : u)
                         got2.insert(x.id);
                     expect("unordered_multiset", got2 == want2);
                 });
    });
}
//=== concat ===//
template <typename C>
C make(int n, int& next)
{
    C c;
    for (int i = 0; i < n; ++i)
        c.push_back(Tr(next++));
    return c;
}
template <typename C>
void concat_for(const char* cname)
{
    sequences(5, vh::thorough() ? 6 : 4, [&](const std::vector<int>& s) {
        vh::step([&] { return std::string("concat ") + cname + " of sizes " + name(s); },
                 [&] {
                     static const int sizes[] = {0, 1, 2, 5, 40};
                     int              next = 0;
                     g_copies              = 0;
                     auto sink             = lexy::concat<C>.sink();
                     for (int k : s)
                         sink(make<C>(sizes[k], next));
                     C   c = std::move(sink).finish();
                     Ids want;
                     for (int i = 0; i < next; ++i)
                         want.push_back(i);
                     expect(std::string("concat sink ") + cname, ids(c), want, g_copies, 0);
                     vh::transitions(s.size());
                     // as callback
                     next     = 0;
                     g_copies = 0;
                     auto m   = [&](std::size_t i) { return make<C>(sizes[s[i]], next); };
                     C    d;
                     switch (s.size())
                     {
                     case 0:
                         d = lexy::concat<C>();
                         break;
                     case 1:
                         d = lexy::concat<C>(m(0));
                         break;
                     case 2: {
                         auto a = m(0);
                         auto b = m(1);
                         d      = lexy::concat<C>(std::move(a), std::move(b));
                         break;
                     }
                     case 3: {
                         auto a = m(0);
                         auto b = m(1);
                         auto e = m(2);
                         d      = lexy::concat<C>(std::move(a), std::move(b), std::move(e));
                         break;
                     }
                     case 4: {
                         auto a = m(0);
                         auto b = m(1);
                         auto e = m(2);
                         auto f = m(3);
                         d      = lexy::concat<C>(std::move(a), std::move(b), std::move(e), std::move(f));
                         break;
                     }
                     default:
                         return;
                     }
                     expect(std::string("concat callback ") + cname, ids(d), want, g_copies, 0);
                     expect("concat nullopt", ids(lexy::concat<C>(lexy::nullopt{})), {}, 0, 0);
                 });
    });
}
template <int>
void concats()
{
    concat_for<std::vector<Tr>>("vector");
    concat_for<std::list<Tr>>("list");
    concat_for<std::deque<Tr>>("deque");
    concat_for<Mini>("mini");
    concat_for<App>("append");
    sequences(4, 5, [&](const std::vector<int>& s) {
        vh::step([&] { return "concat strings " + name(s); },
                 [&] {
                     static const char* w[] = {"", "a", "bc", "a rather long string that is not stored inline"};
                     auto               sink = lexy::concat<std::string>.sink();
                     std::string        want;
                     for (int k : s)
                     {
                         sink(std::string(w[k]));
                         want += w[k];
                     }
                     std::string got = std::move(sink).finish();
                     expect("concat strings", got == want);
                     if (s.size() == 3)
                         expect("concat strings", lexy::concat<std::string>(std::string(w[s[0]]), w[s[1]], std::string(w[s[2]])) == want);
                     vh::transitions(s.size());
                 });
    });
}
//=== collect, fold, count ===//
template <int>
void folds()
{
    sequences(4, vh::thorough() ? 7 : 5, [&](const std::vector<int>& s) {
        vh::step([&] { return "fold/collect/count calls " + name(s); },
                 [&] {
                     vh::transitions(s.size());
                     // collect: the callback is called once per call, results in order
                     int  calls = 0;
                     auto cb    = lexy::callback<Tr>([&calls](Tr&& t) { ++calls; return Tr(t.id + 1); },
                                                  [&calls](const Tr& t) { ++calls; return Tr(t.id + 2); },
                                                  [&calls](int i) { ++calls; return Tr(i + 3); },
                                                  [&calls](int a, int b) { ++calls; return Tr(a, b + 4); });
                     auto check_collect = [&](const char* how, auto sink, int tag) {
                         Ids want;
                         int dummy = 0;
                         calls     = 0;
                         int i     = 0;
                         for (int k : s)
                         {
                             push(sink, k, i++, want, dummy);
                             want.back() += k + 1;
                         }
                         auto c = std::move(sink).finish();
                         expect(std::string("collect ") + how, ids(c), want, calls, int(s.size()));
                         if constexpr (has_alloc<decltype(c)>)
                             if (c.get_allocator().tag != tag)
                                 vh::fail("collect: wrong allocator");
                         (void)tag;
                     };
                     check_collect("vector", lexy::collect<std::vector<Tr>>(cb).sink(), 0);
                     check_collect("list", lexy::collect<std::list<Tr>>(cb).sink(), 0);
                     check_collect("allocator", lexy::collect<AVec>(cb).sink(Al<Tr>(4)), 4);
                     check_collect("bound allocator", lexy::bind_sink(lexy::collect<AVec>(cb), Al<Tr>(6)).sink(), 6);
                     {
                         Ids  seen;
                         auto sink = lexy::collect(lexy::callback([&seen](auto&&... a) { seen.push_back(int(sizeof...(a))); })).sink();
                         Ids  want;
                         for (int k : s)
                         {
                             switch (k)
                             {
                             case 0:
                                 sink();
                                 break;
                             case 1:
                                 sink(1);
                                 break;
                             case 2:
                                 sink(1, 2);
                                 break;
                             default:
                                 sink(1, 2, 3);
                             }
                             want.push_back(k);
                         }
                         std::size_t n = std::move(sink).finish();
                         expect("collect void", seen, want, int(n), int(s.size()));
                     }
                     {
                         auto sink = lexy::count.sink();
                         for (int k : s)
                             k == 0 ? sink() : k == 1 ? sink(1) : k == 2 ? sink(1, Tr(2)) : sink(lexy::nullopt{}, 1, 2);
                         expect("count", std::move(sink).finish() == s.size());
                     }
                     // fold: order of application, initial value, every overload
                     {
                         auto sink = lexy::fold<Ids>(Ids{7}, [](Ids v, int i) { v.push_back(i); return v; },
                                                     [](Ids v, int a, int b) { v.push_back(a); v.push_back(b); return v; },
                                                     [](Ids v) { v.push_back(99); return v; },
                                                     [](Ids v, Tr&& t) { v.push_back(t.id); return v; })
                                         .sink();
                         Ids want{7};
                         int i = 0;
                         for (int k : s)
                         {
                             ++i;
                             if (k == 0)
                                 sink(i), want.push_back(i);
                             else if (k == 1)
                                 sink(i, i + 100), want.push_back(i), want.push_back(i + 100);
                             else if (k == 2)
                                 sink(), want.push_back(99);
                             else
                                 sink(Tr(i + 500)), want.push_back(i + 500);
                         }
                         expect("fold", std::move(sink).finish(), want, 0, 0);
                     }
                     {
                         auto f    = lexy::fold_inplace<Ids>([] { return Ids{8, 9}; }, [](Ids& v, int i) { v.push_back(i); },
                                                          [](Ids& v, int a, int b) { v.insert(v.begin(), a * b); },
                                                          [](Ids& v) { v.clear(); });
                         // a sink object is not consumed: two rounds give the same result
                         for (int round = 0; round < 2; ++round)
                         {
                             auto sink = f.sink();
                             Ids  want{8, 9};
                             int  i = 0;
                             for (int k : s)
                             {
                                 ++i;
                                 if (k == 0)
                                     sink(i), want.push_back(i);
                                 else if (k == 1)
                                     sink(i, 3), want.insert(want.begin(), i * 3);
                                 else if (k == 2)
                                     sink(), want.clear();
                                 else
                                     sink(i + 7), want.push_back(i + 7);
                             }
                             expect("fold_inplace", std::move(sink).finish(), want, 0, 0);
                         }
                     }
                     {
                         // move-only result
                         auto sink = lexy::fold<MoveOnly>([] { return MoveOnly(1); }, [](MoveOnly&& m, int i) { return MoveOnly(m.id * 3 + i); }).sink();
                         int  want = 1;
                         for (int k : s)
                         {
                             sink(k);
                             want = want * 3 + k;
                         }
                         expect("fold of a move-only value", std::move(sink).finish().id == want);
                     }
                     {
                         // as callbacks
                         auto add = lexy::callback(lexy::fold_inplace<Ids>(Ids{}, [](Ids& v, int i) { v.push_back(i); }));
                         Ids  got;
                         switch (s.size())
                         {
                         case 0:
                             got = add();
                             break;
                         case 1:
                             got = add(s[0]);
                             break;
                         case 2:
                             got = add(s[0], s[1]);
                             break;
                         case 3:
                             got = add(s[0], s[1], s[2]);
                             break;
                         case 4:
                             got = add(s[0], s[1], s[2], s[3]);
                             break;
                         default:
                             got = s;
                         }
                         expect("callback(fold)", got, s, 0, 0);
                     }
                 });
    });
}
//=== aggregates ===//
struct Agg
{
    Tr          a;
    int         b = 0;
    std::string c;
    bool        inited = true;
};

using MA = lexy::make_member_ptr<&Agg::a>;
using MB = lexy::make_member_ptr<&Agg::b>;
using MC = lexy::make_member_ptr<&Agg::c>;
inline std::string show(const Agg& g)
{
    return std::to_string(g.a.id) + "/" + std::to_string(g.b) + "/" + g.c + "/" + std::to_string(g.inited);
}
// 0 a=rvalue 1 a=lvalue 2 b 3 c
struct AggModel
{
    int         a = 0, b = 0, copies = 0;
    std::string c;
    void        set(int k, int i)
    {
        switch (k)
        {
        case 0:
            a = i;
            break;
        case 1:
            a = i;
            ++copies;
            break;
        case 2:
            b = i;
            break;
        default:
            c = "s" + std::to_string(i);
        }
    }
    std::string show() const
    {
        return std::to_string(a) + "/" + std::to_string(b) + "/" + c + "/1";
    }
};
// continuation passing: expands the runtime sequence into a variadic call
template <typename F>
void agg_call(const std::vector<int>& s, std::size_t i, F f)
{
    f();
    (void)s;
    (void)i;
}
template <int Left, typename F, typename... Args>
void agg_expand(const std::vector<int>& s, std::size_t i, F& f, Args&&... args)
{
    if (i == s.size())
    {
        f(std::forward<Args>(args)...);
        return;
    }
    if constexpr (Left > 0)
    {
        int  v = 30 + int(i);
        switch (s[i])
        {
        case 0: {
            Tr t(v);
            agg_expand<Left - 1>(s, i + 1, f, std::forward<Args>(args)..., MA{}, std::move(t));
            break;
        }
        case 1: {
            const Tr t(v);
            agg_expand<Left - 1>(s, i + 1, f, std::forward<Args>(args)..., MA{}, t);
            if (t.id != v)
                vh::fail("an lvalue argument was changed");
            break;
        }
        case 2:
            agg_expand<Left - 1>(s, i + 1, f, std::forward<Args>(args)..., MB{}, v);
            break;
        default: {
            std::string str = "s" + std::to_string(v);
            agg_expand<Left - 1>(s, i + 1, f, std::forward<Args>(args)..., MC{}, std::move(str));
        }
        }
    }
}
template <int>
void aggregates()
{
    sequences(4, 4, [&](const std::vector<int>& s) {
        vh::step([&] { return "aggregate from " + name(s); },
                 [&] {
                     AggModel m;
                     for (std::size_t i = 0; i < s.size(); ++i)
                         m.set(s[i], 30 + int(i));
                     vh::transitions(s.size());
                     // sink
                     auto sink = lexy::as_aggregate<Agg>.sink();
                     g_copies  = 0;
                     int i     = 30;
                     for (int k : s)
                     {
                         const Tr l(i);
                         if (k == 0)
                             sink(MA{}, Tr(i));
                         else if (k == 1)
                             sink(MA{}, l);
                         else if (k == 2)
                             sink(MB{}, i);
                         else
                             sink(MC{}, "s" + std::to_string(i));
                         ++i;
                     }
                     Agg r = std::move(sink).finish();
                     expect("aggregate sink is " + show(r) + ", expected " + m.show(), show(r) == m.show() && g_copies == m.copies);
                     vh::outcome(m.show());
                     if (s.size() > 4)
                         return;
                     // callback
                     if (!s.empty())
                     {
                         auto f = [&](auto&&... a) {
                             g_copies = 0;
                             if constexpr (sizeof...(a) > 0)
                             {
                                 Agg r = lexy::as_aggregate<Agg>(std::forward<decltype(a)>(a)...);
                                 expect("aggregate callback is " + show(r) + ", expected " + m.show(), show(r) == m.show() && g_copies == m.copies);
                             }
                         };
                         agg_expand<4>(s, 0, f);
                     }
                     // starting from an existing object
                     auto f = [&](auto&&... a) {
                         Agg g;
                         g.a      = Tr(1);
                         g.b      = 2;
                         g.c      = "three";
                         g.inited = false;
                         g_copies = 0;
                         Agg      r = lexy::as_aggregate<Agg>(std::move(g), std::forward<decltype(a)>(a)...);
                         AggModel n;
                         n.a = 1;
                         n.b = 2;
                         n.c = "three";
                         for (std::size_t i = 0; i < s.size(); ++i)
                             n.set(s[i], 30 + int(i));
                         auto w   = n.show();
                         w.back() = '0';
                         expect("aggregate from existing is " + show(r) + ", expected " + w, show(r) == w && g_copies == n.copies);
                     };
                     agg_expand<4>(s, 0, f);
                     expect("aggregate from nullopt", show(lexy::as_aggregate<Agg>(lexy::nullopt{})) == AggModel{}.show());
                 });
    });
}
//=== construct, new_, forward, constant, noop, as_integer, bit_cast ===//
struct Pt
{
    int x, y;
};
struct Ctor
{
    std::string how;
    Ctor() : how("()") {}
    Ctor(int) : how("(int)") {}
    Ctor(const Tr& t) : how("(const Tr&)" + std::to_string(t.id)) {}
    Ctor(Tr&& t) : how("(Tr&&)" + std::to_string(t.id)) {}
    Ctor(int, Tr&& t) : how("(int,Tr&&)" + std::to_string(t.id)) {}
    Ctor(std::initializer_list<int>) : how("{list}") {}
};
inline int g_new = 0;
struct Heap
{
    int a;
    explicit Heap(int i = 0) : a(i)
    {
        ++g_new;
    }
    Heap(int i, int j) : a(i * 10 + j)
    {
        ++g_new;
    }
    Heap(const Heap& o) : a(o.a)
    {
        ++g_new;
        ++g_copies;
    }
    Heap(Heap&& o) noexcept : a(o.a)
    {
        ++g_new;
        o.a = -1;
    }
    ~Heap()
    {
        --g_new;
    }
};
template <typename T, typename I>
void integers()
{
    long long lo = std::numeric_limits<I>::min(), hi;
    hi           = sizeof(I) <= 2 ? (long long)std::numeric_limits<I>::max() : 70000;
    if (sizeof(I) > 2 && lo < 0)
        lo = -70000;
    for (long long v = lo; v <= hi; v += sizeof(I) <= 2 || vh::thorough() ? 1 : 997)
    {
        I i = I(v);
        if (lexy::as_integer<T>(i) != T(i) || lexy::as_integer<T>(lexy::plus_sign{}, i) != T(i)
            || lexy::as_integer<T>(lexy::minus_sign{}, i) != T(-i))
            vh::fail("as_integer of " + std::to_string(v));
    }
    vh::traces(1);
}
template <int>
void objects()
{
    vh::step([] { return "construct, new_, forward, constant, noop"; },
             [] {
                 expect("construct aggregate", lexy::construct<Pt>(1, 2).x == 1 && lexy::construct<Pt>(1, 2).y == 2);
                 expect("construct aggregate, one value", lexy::construct<Pt>(3).x == 3 && lexy::construct<Pt>(3).y == 0);
                 expect("construct existing", lexy::construct<Pt>(Pt{4, 5}).y == 5);
                 expect("construct ()", lexy::construct<Ctor>().how == "()");
                 expect("construct (int)", lexy::construct<Ctor>(1).how == "(int)");
                 Tr t(3);
                 expect("construct lvalue", lexy::construct<Ctor>(t).how == "(const Tr&)3" && t.id == 3);
                 expect("construct rvalue", lexy::construct<Ctor>(Tr(4)).how == "(Tr&&)4");
                 expect("construct two", lexy::construct<Ctor>(1, Tr(5)).how == "(int,Tr&&)5");
                 expect("construct brace", lexy::construct<Ctor>(1, 2, 3).how == "{list}");
                 // parentheses before braces
                 expect("construct vector", lexy::construct<std::vector<int>>(std::size_t(3), 7).size() == 3);
                 g_copies = 0;
                 expect("construct moves", lexy::construct<Tr>(Tr(8)).id == 8 && g_copies == 0);
                 expect("construct copies", lexy::construct<Tr>(t).id == 3 && g_copies == 1 && t.id == 3);
                 lexy::construct<void>();
                 g_copies = 0;
                 {
                     std::unique_ptr<Heap> a(lexy::new_<Heap>(7));
                     auto b = lexy::new_<Heap, std::unique_ptr<Heap>>(1, 2);
                     auto c = lexy::new_<Heap, std::shared_ptr<Heap>>();
                     auto d = lexy::new_<Heap, std::unique_ptr<Heap>>(*b);
                     auto e = lexy::new_<Heap, std::unique_ptr<Heap>>(std::move(*b));
                     auto f = lexy::new_<Pt, std::unique_ptr<Pt>>(3, 4);
                     expect("new_", a->a == 7 && b->a == -1 && c->a == 0 && d->a == 12 && e->a == 12 && f->x == 3
                                        && f->y == 4 && g_new == 5 && g_copies == 1);
                 }
                 expect("new_ balance", g_new == 0);
                 g_copies = 0;
                 expect("forward rvalue", lexy::forward<Tr>(Tr(3)).id == 3 && g_copies == 0);
                 const Tr ct(6);
                 expect("forward lvalue", lexy::forward<Tr>(ct).id == 6 && g_copies == 1 && ct.id == 6);
                 expect("forward move-only", lexy::forward<MoveOnly>(MoveOnly(2)).id == 2);
                 lexy::forward<void>();
                 lexy::forward<void>(lexy::nullopt{});
                 lexy::forward<void>.sink().finish();
                 static constexpr auto k = lexy::constant(42);
                 expect("constant", k() == 42 && k() == 42);
                 static constexpr auto kp = lexy::constant(Pt{4, 9});
                 expect("constant", kp().x == 4 && kp().y == 9);
                 g_copies = 0;
                 Tr   u(1);
                 auto ns = lexy::noop.sink(u, 1);
                 ns(u, Tr(2), 3);
                 std::move(ns).finish();
                 lexy::noop(u, std::move(u), 3);
                 expect("noop", u.id == 1 && g_copies == 0);
             });
    vh::step([] { return "as_integer"; },
             [] {
                 integers<int, signed char>();
                 integers<int, unsigned char>();
                 integers<int, unsigned short>();
                 integers<short, unsigned short>();
                 integers<signed char, signed char>();
                 integers<long long, int>();
                 integers<long long, unsigned char>();
                 integers<long, unsigned long>();
                 integers<int, unsigned>();
                 integers<unsigned, unsigned>();
                 integers<double, int>();
                 expect("as_integer min", lexy::as_integer<long long>(lexy::minus_sign{}, 1ull << 63) == std::numeric_limits<long long>::min());
                 expect("as_integer max", lexy::as_integer<long long>(lexy::plus_sign{}, ~0ull >> 1) == std::numeric_limits<long long>::max());
             });
    for (int hi = 0; hi < 256; ++hi)
        vh::step([&] { return "bit_cast " + std::to_string(hi); },
                 [&] {
                     for (int lo = 0; lo < 256; ++lo)
                     {
                         struct B2
                         {
                             unsigned char a, b;
                         };
                         auto     b = lexy::bit_cast<B2>(std::uint16_t(hi * 256 + lo));
                         unsigned char raw[2] = {b.a, b.b};
                         std::uint16_t back;
                         std::memcpy(&back, raw, 2);
                         if (back != hi * 256 + lo || lexy::bit_cast<std::uint16_t>(b) != back)
                             vh::fail("bit_cast");
                         std::uint32_t w = std::uint32_t(hi) << 24 | std::uint32_t(lo) << 16 | 0x1234;
                         auto          f = lexy::bit_cast<float>(w);
                         std::uint32_t w2;
                         std::memcpy(&w2, &f, 4);
                         // the quiet bit of a NaN may change
                         if (w2 != w && (w2 & 0x7f800000) != 0x7f800000)
                             vh::fail("bit_cast float");
                         auto d = lexy::bit_cast<std::array<std::uint8_t, 8>>(std::uint64_t(w) << 32 | std::uint64_t(hi));
                         std::uint64_t q;
                         std::memcpy(&q, d.data(), 8);
                         if (q != (std::uint64_t(w) << 32 | std::uint64_t(hi)))
                             vh::fail("bit_cast array");
                     }
                     vh::traces(256);
                 });
}
//=== bind ===//
inline std::string sh(int i)
{
    return "i" + std::to_string(i);
}
inline std::string sh(const Tr& t)
{
    return "T" + std::to_string(t.id);
}
inline std::string sh(lexy::nullopt)
{
    return "~";
}
inline std::string sh(const PS& p)
{
    return "S" + std::to_string(p.tag);
}
template <typename T>
std::string sh_any(const T& t)
{
    if constexpr (std::is_same_v<T, int> || std::is_same_v<T, Tr> || std::is_same_v<T, lexy::nullopt> || std::is_same_v<T, PS>)
        return sh(t);
    else
    {
        // converts to everything by default construction
        int    i = t;
        Tr     r = t;
        double d = t;
        return i == 0 && r.id == 0 && d == 0 ? "D" : "?";
    }
}
struct Rec
{
    using return_type = std::string;
    template <typename... A>
    std::string operator()(const A&... a) const
    {
        return (std::string() + ... + (sh_any(a) + " "));
    }
};
struct MapFn
{
    int operator()(int i) const
    {
        return i * 2;
    }
    Tr operator()(const Tr& t) const
    {
        return Tr(t.id * 2);
    }
    int operator()(lexy::nullopt) const
    {
        return -100;
    }
};
// expansion of a placeholder for the given argument strings
using Strs = std::vector<std::string>;
inline std::string mapped(const std::string& s)
{
    if (s == "~")
        return "i-100";
    return s.substr(0, 1) + std::to_string(2 * std::stoi(s.substr(1)));
}
template <int K>
struct Ph;
#define PH(K, NEED, EXPR, WANT)                                                                    \
    template <>                                                                                    \
    struct Ph<K>                                                                                   \
    {                                                                                              \
        static constexpr int need = NEED;                                                          \
        static constexpr auto make()                                                               \
        {                                                                                          \
            return EXPR;                                                                           \
        }                                                                                          \
        static Strs want(const Strs& a)                                                            \
        {                                                                                          \
            (void)a;                                                                               \
            WANT                                                                                   \
        }                                                                                          \
    };
inline std::string nth(const Strs& a, std::size_t n, const char* fallback)
{
    return n > a.size() || a[n - 1] == "~" ? fallback : a[n - 1];
}
PH(0, 0, 42, return {"i42"};)
PH(1, 1, lexy::_1, return {a[0]};)
PH(2, 2, lexy::_2, return {a[1]};)
PH(3, 3, lexy::_3, return {a[2]};)
PH(4, 0, lexy::values, return a;)
PH(5, 0, lexy::parse_state, return {"S7"};)
PH(6, 0, lexy::_1.or_(-5), return {nth(a, 1, "i-5")};)
PH(7, 0, lexy::_2 || -6, return {nth(a, 2, "i-6")};)
PH(8, 0, lexy::_3.or_default(), return {nth(a, 3, "D")};)
PH(9, 1, lexy::_1.map(MapFn{}), return {mapped(a[0])};)
PH(10, 0, lexy::_2.map(MapFn{}).or_(-7), auto s = nth(a, 2, ""); return {s.empty() ? "i-7" : mapped(s)};)
PH(11, 0, lexy::_3.or_(-8).map(MapFn{}), auto s = nth(a, 3, ""); return {s.empty() ? "i-8" : mapped(s)};)
PH(12, 0, lexy::parse_state.map(&PS::tag), return {"i7"};)
PH(13, 0, (lexy::nth_value<1>.map(MapFn{}).or_default()), auto s = nth(a, 1, ""); return {s.empty() ? "D" : mapped(s)};)
constexpr int n_ph = 14;

struct ArgI
{
    static int make(int i)
    {
        return i;
    }
    static std::string str(int i)
    {
        return "i" + std::to_string(i);
    }
};
struct ArgT
{
    static Tr make(int i)
    {
        return Tr(i);
    }
    static std::string str(int i)
    {
        return "T" + std::to_string(i);
    }
};
struct ArgN
{
    static lexy::nullopt make(int)
    {
        return {};
    }
    static std::string str(int)
    {
        return "~";
    }
};
template <typename... P, typename... A>
void bind_one(std::tuple<A...>)
{
    constexpr int need = std::max({0, P::need...});
    if constexpr (int(sizeof...(A)) >= need)
    {
        int  n = 0;
        Strs args{A::str(++n)...};
        Strs want;
        (void)std::initializer_list<int>{([&] {
            for (auto& s : P::want(args))
                want.push_back(s);
            return 0;
        }())...};
        std::string w;
        for (auto& s : want)
            w += s + " ";
        auto b  = lexy::bind(Rec{}, P::make()...);
        PS   ps{7};
        n = 0;
        std::tuple<decltype(A::make(0))...> vals{A::make(++n)...};
        auto got = std::apply([&](auto&... v) { return b[ps](std::move(v)...); }, vals);
        if (got != w)
            vh::fail("bind gave " + got + ", expected " + w);
        constexpr bool uses_state = ((std::is_same_v<P, Ph<5>> || std::is_same_v<P, Ph<12>>) || ...);
        if constexpr (!uses_state)
        {
            n = 0;
            std::tuple<decltype(A::make(0))...> vals2{A::make(++n)...};
            auto got2 = std::apply([&](auto&... v) { return b(std::move(v)...); }, vals2);
            if (got2 != w)
                vh::fail("bind without state gave " + got2 + ", expected " + w);
        }
        vh::outcome(w);
        vh::traces(1);
        vh::transitions(sizeof...(P));
    }
}
template <typename... P>
void bind_args()
{
    using I = ArgI;
    using T = ArgT;
    using N = ArgN;
    bind_one<P...>(std::tuple<>{});
    bind_one<P...>(std::tuple<I>{});
    bind_one<P...>(std::tuple<T>{});
    bind_one<P...>(std::tuple<N>{});
    bind_one<P...>(std::tuple<I, T>{});
    bind_one<P...>(std::tuple<N, I>{});
    bind_one<P...>(std::tuple<T, N>{});
    bind_one<P...>(std::tuple<I, T, I>{});
    bind_one<P...>(std::tuple<T, I, N>{});
    bind_one<P...>(std::tuple<N, N, T>{});
    bind_one<P...>(std::tuple<I, T, N, I>{});
}
template <int A, int... B>
void bind_pairs(std::integer_sequence<int, B...>)
{
    vh::step([] { return "bind placeholder " + std::to_string(A); }, [] { bind_args<Ph<A>>(); });
    (vh::step([] { return "bind placeholders " + std::to_string(A) + " and " + std::to_string(B); },
              [] {
                  bind_args<Ph<A>, Ph<B>>();
                  bind_args<Ph<B>, Ph<4>, Ph<A>>();
              }),
     ...);
}
template <int>
void bind_misc()
{
    vh::step([] { return "bind: no placeholders, move-only arguments, references"; },
             [] {
                 expect("bind()", lexy::bind(Rec{})(1, 2, 3) == "");
                 auto sum = lexy::callback<int>([](MoveOnly&& a, MoveOnly b) { return a.id * 10 + b.id; });
                 expect("bind move-only", lexy::bind(sum, lexy::_2, lexy::_1)(MoveOnly(3), MoveOnly(4)) == 43);
                 expect("bind values move-only", lexy::bind(sum, lexy::values)(MoveOnly(3), MoveOnly(4)) == 34);
                 // the state is passed by reference
                 struct St
                 {
                     int n = 0;
                 } st;
                 auto inc = lexy::callback<void>([](St& s, int i) { s.n += i; });
                 auto b   = lexy::bind(inc, lexy::parse_state, lexy::_1);
                 b[st](5);
                 b[st](6);
                 expect("bind state by reference", st.n == 11);
                 auto inc2 = lexy::callback<void>([](int& n, int i) { n += i; });
                 lexy::bind(inc2, lexy::parse_state.map(&St::n), lexy::_1)[st](4);
                 auto m = lexy::bind(lexy::callback<int>([](const int& n, int i) { return n + i; }), lexy::parse_state.map(&St::n), lexy::_1);
                 (void)m;
                 // bound objects are not consumed by a call
                 std::vector<int> big(50, 3);
                 auto             bb = lexy::bind(lexy::callback<std::size_t>([](std::vector<int> v, int) { return v.size(); }), big, lexy::_1);
                 expect("bound value", bb(1) == 50 && bb(2) == 50);
                 g_copies = 0;
                 auto one = lexy::bind(lexy::construct<Tr>, lexy::_1);
                 expect("bind moves", one(Tr(5)).id == 5 && g_copies == 0);
                 Tr l(6);
                 expect("bind copies an lvalue once", one(l).id == 6 && l.id == 6 && g_copies == 1);
                 auto e8 = lexy::bind(Rec{}, lexy::_8, lexy::_7, lexy::_6, lexy::_5, lexy::_4, lexy::_3, lexy::_2, lexy::_1);
                 expect("eight", e8(1, 2, 3, 4, 5, 6, 7, 8) == "i8 i7 i6 i5 i4 i3 i2 i1 ");
                 expect("nth_value", lexy::bind(Rec{}, lexy::nth_value<9>)(1, 2, 3, 4, 5, 6, 7, 8, 9) == "i9 ");
             });
}
//=== adapters and composition ===//
struct MF
{
    int  v;
    int  get(int i) const
    {
        return v + i;
    }
    int add(int i) &
    {
        return v += i;
    }
    int take() && noexcept
    {
        return v * 2;
    }
};
template <int>
void adapters()
{
    vh::step([] { return "callback overloads, mem_fn"; },
             [] {
                 auto cb = lexy::callback<std::string>([](int) { return "int"; }, [](const Tr&) { return "Tr"; },
                                                       [](int, int) { return "int,int"; }, [] { return "none"; },
                                                       [](lexy::nullopt) { return "nullopt"; }, &std::string::c_str);
                 using Str = std::string;
                 Str x     = "x";
                 expect("overloads", Str(cb(1)) == "int" && Str(cb(Tr(1))) == "Tr" && Str(cb(1, 2)) == "int,int" && Str(cb()) == "none"
                                         && Str(cb(lexy::nullopt{})) == "nullopt" && Str(cb(x)) == "x");
                 auto c2 = lexy::callback(lexy::construct<Pt>, lexy::callback<Pt>([](Tr&& t) { return Pt{t.id, -1}; }));
                 static_assert(std::is_same_v<typename decltype(c2)::return_type, Pt>);
                 expect("callback of callbacks", c2(1, 2).y == 2 && c2(Tr(9)).x == 9);
                 auto fp = lexy::callback<int>(+[](int a) { return a + 1; });
                 expect("function pointer", fp(4) == 5);
                 PS   ps{3};
                 auto cs = lexy::callback_with_state<int>([](PS& s, int i) { return ++s.tag * 10 + i; }, [](PS& s) { return s.tag; },
                                                          [](const PS& s, Tr&& t) { return s.tag * 100 + t.id; });
                 expect("callback_with_state", cs[ps](5) == 45 && ps.tag == 4 && cs[ps]() == 4 && cs[ps](Tr(7)) == 407);
                 auto cv = lexy::callback_with_state([](PS& s, int i) { s.tag = i; });
                 cv[ps](77);
                 expect("callback_with_state void", ps.tag == 77);
                 MF m{5};
                 expect("mem_fn", lexy::mem_fn(&MF::get)(m, 2) == 7 && lexy::mem_fn(&MF::v)(m) == 5
                                      && lexy::mem_fn(&MF::add)(m, 3) == 8 && m.v == 8 && lexy::mem_fn(&MF::take)(MF{6}) == 12
                                      && lexy::mem_fn(&MF::get)(&m, 1) == 9);
                 static_assert(std::is_same_v<typename decltype(lexy::mem_fn(&MF::take))::return_type, int>);
                 static_assert(std::is_same_v<typename decltype(lexy::mem_fn(&MF::v))::return_type, int>);
             });
}
// a step of a chain, with or without state; each multiplies by 10 and adds its number
template <int N, bool State>
auto stage()
{
    if constexpr (State)
        return lexy::callback_with_state<Ids>([](PS& s, auto&&... a) {
            Ids r{a...};
            r.push_back(N);
            r.push_back(1000 + s.tag++);
            return r;
        });
    else
        return lexy::callback<Ids>([](auto&&... a) {
            Ids r{a...};
            r.push_back(N);
            return r;
        });
}
// later stages take the vector
template <int N, bool State>
auto later()
{
    if constexpr (State)
        return lexy::callback_with_state<Ids>([](PS& s, Ids&& v) {
            v.push_back(N);
            v.push_back(1000 + s.tag++);
            return std::move(v);
        });
    else
        return lexy::callback<Ids>([](Ids&& v) {
            v.push_back(N);
            return std::move(v);
        });
}
template <bool... St>
void chain()
{
    vh::step([] { return "composition with states " + (std::string() + ... + (St ? "1" : "0")); },
             [] {
                 std::array<bool, sizeof...(St)> st{St...};
                 auto run = [&](auto cb, Ids start, bool use_sink) {
                     PS  ps{1};
                     Ids want = start;
                     int tag  = 1, n = 0;
                     for (bool b : st)
                     {
                         want.push_back(n++);
                         if (b)
                             want.push_back(1000 + tag++);
                     }
                     constexpr bool any = (St || ...);
                     Ids            got;
                     if (use_sink)
                     {
                         // the sink of sink >> callback yields the list, which is then given to the callback
                     }
                     if constexpr (any)
                         got = cb[ps](1, 2, 3);
                     else
                         got = cb(1, 2, 3);
                     expect("composition", got, want, 0, 0);
                     if (ps.tag != tag)
                         vh::fail("the state was not passed on");
                     vh::transitions(sizeof...(St));
                 };
                 constexpr std::array<bool, sizeof...(St)> s{St...};
                 auto first = stage<0, s[0]>();
                 if constexpr (sizeof...(St) == 1)
                     run(first, {1, 2, 3}, false);
                 if constexpr (sizeof...(St) == 2)
                     run(first | later<1, s[1]>(), {1, 2, 3}, false);
                 if constexpr (sizeof...(St) == 3)
                 {
                     run(first | later<1, s[1]>() | later<2, s[2]>(), {1, 2, 3}, false);
                     run(first | (later<1, s[1]>() | later<2, s[2]>()), {1, 2, 3}, false);
                 }
                 if constexpr (sizeof...(St) == 4)
                 {
                     run(first | later<1, s[1]>() | later<2, s[2]>() | later<3, s[3]>(), {1, 2, 3}, false);
                     run((first | later<1, s[1]>()) | (later<2, s[2]>() | later<3, s[3]>()), {1, 2, 3}, false);
                 }
                 // sink >> chain: as callback it is the chain, as sink it is the sink
                 auto sunk = [&] {
                     if constexpr (sizeof...(St) == 1)
                         return lexy::as_list<std::vector<Tr>> >> first;
                     else if constexpr (sizeof...(St) == 2)
                         return lexy::as_list<std::vector<Tr>> >> first | later<1, s[1]>();
                     else if constexpr (sizeof...(St) == 3)
                         return lexy::as_list<std::vector<Tr>> >> first | later<1, s[1]>() | later<2, s[2]>();
                     else
                         return lexy::as_list<std::vector<Tr>> >> first | later<1, s[1]>() | later<2, s[2]>() | later<3, s[3]>();
                 }();
                 run(sunk, {1, 2, 3}, true);
                 auto k = sunk.sink();
                 k(Tr(4));
                 k(Tr(5));
                 std::vector<Tr> l = std::move(k).finish();
                 expect("sink of a composition", ids(l), {4, 5}, 0, 0);
             });
}
template <int>
void chains()
{
    chain<0>();
    chain<1>();
    chain<0, 0>();
    chain<0, 1>();
    chain<1, 0>();
    chain<1, 1>();
    chain<0, 0, 0>();
    chain<0, 0, 1>();
    chain<0, 1, 0>();
    chain<0, 1, 1>();
    chain<1, 0, 0>();
    chain<1, 0, 1>();
    chain<1, 1, 0>();
    chain<1, 1, 1>();
    chain<1, 0, 0, 1>();
    chain<0, 1, 1, 0>();
    chain<0, 0, 1, 0>();
    chain<1, 1, 1, 1>();
}
//=== strings ===//
inline int decode(const std::string& s, std::size_t i, char32_t& cp)
{
    auto u = [&](std::size_t k) { return i + k < s.size() ? (unsigned char)s[i + k] : 0u; };
    auto c = [&](std::size_t k) { return (u(k) & 0xC0) == 0x80; };
    unsigned b = u(0);
    if (b < 0x80)
        return cp = b, 1;
    if (b >= 0xC2 && b <= 0xDF && c(1))
        return cp = (b & 31) << 6 | (u(1) & 63), 2;
    if (b >= 0xE0 && b <= 0xEF && c(1) && c(2))
    {
        cp = (b & 15) << 12 | (u(1) & 63) << 6 | (u(2) & 63);
        return cp >= 0x800 && (cp < 0xD800 || cp > 0xDFFF) ? 3 : 0;
    }
    if (b >= 0xF0 && b <= 0xF4 && c(1) && c(2) && c(3))
    {
        cp = (b & 7) << 18 | (u(1) & 63) << 12 | (u(2) & 63) << 6 | (u(3) & 63);
        return cp >= 0x10000 && cp <= 0x10FFFF ? 4 : 0;
    }
    return 0;
}
inline std::string enc8(char32_t c)
{
    std::string r;
    if (c < 0x80)
        r += char(c);
    else if (c < 0x800)
        (r += char(0xC0 | c >> 6)) += char(0x80 | (c & 63));
    else if (c < 0x10000)
        ((r += char(0xE0 | c >> 12)) += char(0x80 | (c >> 6 & 63))) += char(0x80 | (c & 63));
    else
        (((r += char(0xF0 | c >> 18)) += char(0x80 | (c >> 12 & 63))) += char(0x80 | (c >> 6 & 63))) += char(0x80 | (c & 63));
    return r;
}
// the only foldings that occur in the texts below
inline char32_t fold(char32_t c)
{
    if (c >= 'A' && c <= 'Z')
        return c + 32;
    switch (c)
    {
    case 0xC0: // of two pieces
        return 0xE0;
    case 0xC4:
        return 0xE4;
    case 0x1E9E:
        return 0xDF;
    case 0x212A:
        return 'k';
    case 0x10400:
        return 0x10428;
    case 0x23A:
        return 0x2C65; // two units become three
    }
    return c;
}
// mode 0 plain, 1 ascii, 2 unicode
inline std::string fold8(const std::string& s, int mode)
{
    std::string r;
    for (std::size_t i = 0; i < s.size();)
    {
        char32_t cp = 0;
        int      n  = decode(s, i, cp);
        if (mode == 0 || n == 0 || (mode == 1 && n > 1))
        {
            r += s[i++];
            continue;
        }
        r += mode == 1 ? std::string(1, cp >= 'A' && cp <= 'Z' ? char(cp + 32) : char(cp)) : enc8(fold(cp));
        i += std::size_t(n);
    }
    return r;
}
inline const std::vector<std::string>& pieces()
{
    static std::vector<std::string> p = {"aB", "", "\xC3\x84", "\xE1\xBA\x9E", "K\xE2\x84\xAA", "\xF0\x90\x90\x80", "\xC8\xBA",
                                         // ill-formed
                                         "\x80", "\xC3", "\xE2\x82", "\xED\xA0\x80", "\xF8", "\xF0\x90",
                                         std::string("A\0B", 3)};
    return p;
}
using Al8  = std::basic_string<char, std::char_traits<char>, Al<char>>;
template <int>
void strings()
{
    const int n = int(pieces().size());
    sequences(n, vh::thorough() ? 4 : 3, [&](const std::vector<int>& s) {
        vh::step([&] { return "string pieces " + name(s); },
                 [&] {
                     std::string all;
                     for (int k : s)
                         all += pieces()[std::size_t(k)];
                     vh::transitions(s.size());
                     auto with = [&](auto cb, int mode) {
                         auto        want = fold8(all, mode);
                         std::string m    = mode == 0 ? "as_string" : mode == 1 ? "as_string.case_folding(ascii)" : "as_string.case_folding(unicode)";
                         auto        eq   = [&](const char* how, const std::string& got) {
                             if (got != want)
                                 vh::fail(m + " " + how + " gave \"" + vh::esc(got) + "\", expected \"" + vh::esc(want) + "\"");
                             vh::traces(1);
                         };
                         lexy::string_input<lexy::utf8_char_encoding> in(all.data(), all.size());
                         using Reader = lexy::input_reader<decltype(in)>;
                         eq("string", cb(std::string(all)));
                         eq("iterators", cb(all.begin(), all.end()));
                         eq("lexeme", cb(lexy::lexeme<Reader>(all.data(), all.data() + all.size())));
                         // every way of pushing a piece
                         for (int how = 0; how < 5; ++how)
                         {
                             auto sink = cb.sink();
                             int  j    = how;
                             for (int k : s)
                             {
                                 auto& p = pieces()[std::size_t(k)];
                                 switch (j++ % 5)
                                 {
                                 case 0:
                                     sink(std::string(p));
                                     break;
                                 case 1:
                                     sink(p.begin(), p.end());
                                     break;
                                 case 2:
                                     sink(lexy::lexeme<Reader>(p.data(), p.data() + p.size()));
                                     break;
                                 case 3:
                                     for (char c : p)
                                         sink(c);
                                     break;
                                 default: {
                                     char32_t cp = 0;
                                     if (!p.empty() && decode(p, 0, cp) == int(p.size()))
                                         sink(lexy::code_point(cp));
                                     else
                                         sink(std::string(p));
                                 }
                                 }
                             }
                             eq("sink", std::move(sink).finish());
                         }
                         char32_t cp = 0;
                         if (!all.empty() && decode(all, 0, cp) == int(all.size()))
                             eq("code point", cb(lexy::code_point(cp)));
                         eq("list input", [&] {
                             std::list<char> l(all.begin(), all.end());
                             using RR = lexy::input_reader<lexy::range_input<lexy::utf8_char_encoding, std::list<char>::iterator>>;
                             return cb(lexy::lexeme<RR>(l.begin(), l.end()));
                         }());
                     };
                     with(lexy::as_string<std::string, lexy::utf8_char_encoding>, 0);
                     with(lexy::as_string<std::string, lexy::utf8_char_encoding>.case_folding(dsl::ascii::case_folding), 1);
                     with(lexy::as_string<std::string, lexy::utf8_char_encoding>.case_folding(dsl::unicode::simple_case_folding), 2);
                     vh::outcome(fold8(all, 2));
                     {
                         auto  cb = lexy::as_string<Al8, lexy::utf8_char_encoding>;
                         auto  cf = cb.case_folding(dsl::unicode::simple_case_folding);
                         using R  = lexy::input_reader<lexy::string_input<lexy::utf8_char_encoding>>;
                         lexy::lexeme<R> lex(all.data(), all.data() + all.size());
                         Al8             a = cb(Al<char>(4), lex);
                         Al8             b = cb(Al<char>(5), all.begin(), all.end());
                         Al8             c = cf(Al<char>(6), lex);
                         auto            k = cf.sink(Al<char>(7));
                         k(lex);
                         Al8 d = std::move(k).finish();
                         Al8 e = cb(Al<char>(8), lexy::code_point(0x10400));
                         if (std::string(a.begin(), a.end()) != all || std::string(b.begin(), b.end()) != all
                             || std::string(c.begin(), c.end()) != fold8(all, 2) || std::string(d.begin(), d.end()) != fold8(all, 2)
                             || std::string(e.begin(), e.end()) != "\xF0\x90\x90\x80")
                             vh::fail("as_string with allocator");
                         if (a.get_allocator().tag != 4 || b.get_allocator().tag != 5 || c.get_allocator().tag != 6
                             || d.get_allocator().tag != 7 || e.get_allocator().tag != 8)
                             vh::fail("as_string uses the wrong allocator");
                     }
                     if (s.size() <= 2)
                     {
                         // UTF-16 and UTF-32, including lone surrogates
                         std::u16string w;
                         std::u32string v;
                         for (int k : s)
                         {
                             static const std::u16string p16[] = {u"aB", u"", u"\xC4", u"\x1E9E", u"K\x212A", u"\xD801\xDC00", u"\x23A", u"\xDC00", u"\xD801", u"\xD801\xD801", u"\xFFFE", u"Z", u"z", std::u16string(u"A\0B", 3)};
                             static const std::u32string p32[] = {U"aB", U"", U"\xC4", U"\x1E9E", U"K\x212A", U"\x10400", U"\x23A", {0xDC00}, {0xD801}, {0x110000}, U"\xFFFE", U"Z", U"z", std::u32string(U"A\0B", 3)};
                             w += p16[k];
                             v += p32[k];
                         }
                         std::u16string ww, wa;
                         for (std::size_t i = 0; i < w.size(); ++i)
                         {
                             wa += w[i] >= 'A' && w[i] <= 'Z' ? char16_t(w[i] + 32) : w[i];
                             if (w[i] >= 0xD800 && w[i] < 0xDC00 && i + 1 < w.size() && w[i + 1] >= 0xDC00 && w[i + 1] < 0xE000)
                             {
                                 char32_t cp = 0x10000 + ((w[i] - 0xD800u) << 10) + (w[i + 1] - 0xDC00u);
                                 cp          = fold(cp) - 0x10000;
                                 ww += char16_t(0xD800 + (cp >> 10));
                                 ww += char16_t(0xDC00 + (cp & 1023));
                                 ++i;
                                 wa += w[i];
                             }
                             else
                                 ww += char16_t(fold(w[i]));
                         }
                         std::u32string vv;
                         for (auto c : v)
                             vv += fold(c);
                         auto c16 = lexy::as_string<std::u16string>.case_folding(dsl::unicode::simple_case_folding);
                         auto c32 = lexy::as_string<std::u32string>.case_folding(dsl::unicode::simple_case_folding);
                         if (c16(std::u16string(w)) != ww || c32(std::u32string(v)) != vv)
                             vh::fail("case folding of UTF-16/UTF-32");
                         if (lexy::as_string<std::u16string>.case_folding(dsl::ascii::case_folding)(std::u16string(w)) != wa)
                             vh::fail("ASCII case folding of UTF-16");
                         auto k = c16.sink();
                         for (auto c : w)
                             k(c);
                         if (std::move(k).finish() != ww)
                             vh::fail("case folding sink of UTF-16");
                         vh::traces(4);
                     }
                 });
    });
    vh::step([] { return "string_view"; },
             [] {
                 std::string t = "hello";
                 using R       = lexy::input_reader<lexy::string_input<lexy::utf8_char_encoding>>;
                 auto sv       = lexy::as_string<std::string_view>(lexy::lexeme<R>(t.data() + 1, t.data() + 4));
                 expect("string_view", sv == "ell" && sv.data() == t.data() + 1);
                 expect("nullopt", lexy::as_string<std::string>(lexy::nullopt{}) == "" && lexy::as_string<std::string_view>(lexy::nullopt{}).empty());
             });
}
//=== in grammars ===//
inline const char* g_base = nullptr;
struct Item
{
    static constexpr auto rule  = dsl::capture(LEXY_ASCII_ONE_OF("ab"));
    static constexpr auto value = lexy::callback<Tr>([](auto lex) { return Tr(int(lex.begin() - g_base) * 10 + (*lex.begin() == 'b')); });
};
template <typename L>
constexpr auto items = dsl::terminator(LEXY_LIT(";")).opt_list(dsl::p<Item>, dsl::sep(LEXY_LIT(",")));
struct GVec
{
    static constexpr auto rule  = items<void>;
    static constexpr auto value = lexy::as_list<std::vector<Tr>>;
};
struct GMini
{
    static constexpr auto rule  = items<void>;
    static constexpr auto value = lexy::as_list<Mini>;
};
struct GSet
{
    static constexpr auto rule  = items<void>;
    static constexpr auto value = lexy::as_collection<std::set<Tr>>;
};
struct GAlloc
{
    static constexpr auto rule  = items<void>;
    static constexpr auto value = lexy::as_list<AVec>.allocator(&PS::al);
};
struct GCollect
{
    static constexpr auto rule  = items<void>;
    static constexpr auto value = lexy::collect<std::vector<Tr>>(lexy::callback<Tr>([](Tr&& t) { return Tr(t.id + 1); })) >> lexy::callback<std::vector<Tr>>([](std::vector<Tr>&& v) { return std::move(v); }, [](lexy::nullopt) { return std::vector<Tr>(); });
};
struct GFold
{
    static constexpr auto rule  = items<void>;
    static constexpr auto value = lexy::fold_inplace<int>(1, [](int& r, Tr&& t) { r = r * 7 + t.id; }) >> lexy::callback<int>([](int i) { return i; }, [](lexy::nullopt) { return 1; });
};
struct GCount
{
    static constexpr auto rule  = items<void>;
    static constexpr auto value = lexy::count >> lexy::callback<std::size_t>([](std::size_t i) { return i; }, [](lexy::nullopt) { return std::size_t(0); });
};
// values before and after a list, and the parse state
struct GMixed
{
    static constexpr auto rule  = dsl::p<Item> + items<void> + dsl::opt(dsl::p<Item>);
    static constexpr auto value = lexy::as_list<std::vector<Tr>> >> lexy::bind(lexy::callback<Ids>([](PS& s, Tr&& head, std::vector<Tr>&& l, const Tr& tail) {
                                      Ids r{s.tag, head.id};
                                      for (auto& x : l)
                                          r.push_back(x.id);
                                      r.push_back(tail.id);
                                      return r;
                                  }),
                                                                                         lexy::parse_state, lexy::_1, lexy::_2.or_default(), lexy::_3 || Tr(-7));
};
struct GConcat
{
    static constexpr auto rule  = dsl::list(dsl::p<GVec>, dsl::sep(LEXY_LIT("|")));
    static constexpr auto value = lexy::concat<std::vector<Tr>>;
};
struct GNested
{
    static constexpr auto rule  = dsl::list(dsl::p<GVec>, dsl::sep(LEXY_LIT("|")));
    static constexpr auto value = lexy::as_list<std::vector<std::vector<Tr>>>;
};
struct GVals
{
    static constexpr auto rule  = dsl::p<Item> + LEXY_LIT(",") + dsl::p<Item> + LEXY_LIT(",") + dsl::opt(dsl::p<Item>);
    static constexpr auto value = lexy::callback<Ids>([](Tr&& a, Tr&& b, Tr&& c) { return Ids{a.id, b.id, c.id}; }, [](Tr a, Tr b, lexy::nullopt) { return Ids{a.id, b.id}; });
};
struct GStr
{
    static constexpr auto rule  = dsl::list(dsl::capture(LEXY_ASCII_ONE_OF("ab,")));
    static constexpr auto value = lexy::as_string<std::string>;
};
template <int>
void grammars()
{
    const std::string al = "ab,;|";
    sequences(5, vh::thorough() ? 8 : 6, [&](const std::vector<int>& sq) {
        std::string s;
        for (int k : sq)
            s += al[std::size_t(k)];
        vh::step([&] { return "values of \"" + s + "\""; },
                 [&] {
                     g_base = s.data();
                     lexy::string_input<lexy::utf8_char_encoding> in(s.data(), s.size());
                     vh::transitions(s.size());
                     // parses "x,x,x;" at i
                     auto parse_items = [&](std::size_t& i, Ids& out) {
                         if (i < s.size() && s[i] == ';')
                             return ++i, true;
                         while (i < s.size() && (s[i] == 'a' || s[i] == 'b'))
                         {
                             out.push_back(int(i) * 10 + (s[i] == 'b'));
                             ++i;
                             if (i < s.size() && s[i] == ';')
                                 return ++i, true;
                             if (i >= s.size() || s[i] != ',')
                                 return false;
                             ++i;
                         }
                         return false;
                     };
                     std::size_t i = 0;
                     Ids         want;
                     bool        ok = parse_items(i, want);
                     auto        go = [&](const char* what, auto g, auto get) {
                         g_copies = 0;
                         auto r   = lexy::parse<decltype(g)>(in, lexy::noop);
                         if (r.is_success() != ok)
                             vh::fail(std::string(what) + ": success is " + std::to_string(r.is_success()));
                         if (ok && r.has_value())
                             expect(what, get(r.value()), want, g_copies, 0);
                     };
                     go("as_list", GVec{}, [](auto& c) { return ids(c); });
                     go("as_list of a minimal container", GMini{}, [](auto& c) { return ids(c); });
                     go("as_collection", GSet{}, [](auto& c) { return ids(c); });
                     go("collect", GCollect{}, [](auto& c) {
                         auto v = ids(c);
                         for (auto& x : v)
                             --x;
                         return v;
                     });
                     if (ok)
                     {
                         PS  ps{6};
                         auto r = lexy::parse<GAlloc>(in, ps, lexy::noop);
                         if (!r.is_success() || ids(r.value()) != want || r.value().get_allocator().tag != 6)
                             vh::fail("as_list with the allocator of the state");
                         int f = 1;
                         for (int x : want)
                             f = f * 7 + x;
                         auto fr = lexy::parse<GFold>(in, lexy::noop);
                         auto cr = lexy::parse<GCount>(in, lexy::noop);
                         if (!fr.is_success() || fr.value() != f || !cr.is_success() || cr.value() != want.size())
                             vh::fail("fold or count");
                     }
                     {
                         // mixed
                         std::size_t j = 0;
                         Ids         w{9};
                         bool        good = s.size() > 0 && (s[0] == 'a' || s[0] == 'b');
                         if (good)
                         {
                             w.push_back(s[0] == 'b');
                             j    = 1;
                             good = parse_items(j, w);
                         }
                         if (good)
                         {
                             if (j < s.size() && (s[j] == 'a' || s[j] == 'b'))
                                 w.push_back(int(j) * 10 + (s[j] == 'b'));
                             else
                                 w.push_back(-7);
                         }
                         PS ps{9};
                         g_copies = 0;
                         auto r   = lexy::parse<GMixed>(in, ps, lexy::noop);
                         if (r.is_success() != good)
                             vh::fail("values around a list: success");
                         else if (good)
                             expect("values around a list", r.value(), w, 0, 0);
                     }
                     {
                         std::size_t      j = 0;
                         Ids              w;
                         std::vector<Ids> ww(1);
                         bool             good = true;
                         while (true)
                         {
                             if (!parse_items(j, ww.back()))
                             {
                                 good = false;
                                 break;
                             }
                             if (j < s.size() && s[j] == '|')
                             {
                                 ++j;
                                 ww.emplace_back();
                                 continue;
                             }
                             break;
                         }
                         for (auto& x : ww)
                             w.insert(w.end(), x.begin(), x.end());
                         g_copies = 0;
                         auto r   = lexy::parse<GConcat>(in, lexy::noop);
                         if (r.is_success() != good)
                             vh::fail("concat: success");
                         else if (good)
                             expect("concat", ids(r.value()), w, g_copies, 0);
                         auto r2 = lexy::parse<GNested>(in, lexy::noop);
                         if (good)
                         {
                             std::vector<Ids> got;
                             for (auto& x : r2.value())
                                 got.push_back(ids(x));
                             if (got != ww)
                                 vh::fail("nested lists");
                         }
                     }
                     if (s.size() >= 4 && s[1] == ',' && s[3] == ',' && (s[0] == 'a' || s[0] == 'b') && (s[2] == 'a' || s[2] == 'b'))
                     {
                         Ids w{s[0] == 'b', 20 + (s[2] == 'b')};
                         if (s.size() > 4 && (s[4] == 'a' || s[4] == 'b'))
                             w.push_back(40 + (s[4] == 'b'));
                         auto r = lexy::parse<GVals>(in, lexy::noop);
                         if (!r.is_success() || r.value() != w)
                             vh::fail("values of a sequence");
                     }
                     {
                         auto n = s.find_first_not_of("ab,");
                         auto r = lexy::parse<GStr>(in, lexy::noop);
                         if (r.is_success() != (n != 0 && !s.empty()))
                             vh::fail("list of lexemes as string: success");
                         else if (r.is_success() && r.value() != s.substr(0, n))
                             vh::fail("list of lexemes as string");
                     }
                 });
    });
}
} // namespace
#define Z int(sizeof x) * 0
static int p0  = parts::add<0>([](auto x) { lists<Z>(0); });
static int p1  = parts::add<1>([](auto x) { lists<Z>(1); });
static int p2  = parts::add<2>([](auto x) { lists<Z>(2); });
static int p3  = parts::add<3>([](auto x) { lists<Z>(3); });
static int p4  = parts::add<4>([](auto x) { lists<Z>(4); });
static int p5  = parts::add<5>([](auto x) { maps<Z>(); });
static int p6  = parts::add<6>([](auto x) { concats<Z>(); });
static int p7  = parts::add<7>([](auto x) { folds<Z>(); });
static int p8  = parts::add<8>([](auto x) { aggregates<Z>(); });
static int p9  = parts::add<9>([](auto x) { objects<Z>(); });
static int p10 = parts::add<10>([](auto x) { bind_misc<Z>(); adapters<Z>(); chains<Z>(); });
static int p11 = parts::add<11>([](auto x) { strings<Z>(); });
static int p12 = parts::add<12>([](auto x) { grammars<Z>(); });
#define BP(I) static int b##I = parts::add<13 + I>([](auto x) { bind_pairs<I + Z>(std::make_integer_sequence<int, n_ph>{}); });
BP(0) BP(1) BP(2) BP(3) BP(4) BP(5) BP(6) BP(7) BP(8) BP(9) BP(10) BP(11) BP(12) BP(13)
PARTS_MAIN
