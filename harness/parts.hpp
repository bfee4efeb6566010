// Lets one harness source be compiled as NPARTS translation units that each instantiate a slice.
#ifndef PARTS_HPP
#define PARTS_HPP
#include "vh.hpp"
#ifndef PART
#    define PART 0
#    define NPARTS 1
#endif
namespace parts
{
struct Item
{
    int id;
    void (*fn)();
};
inline std::vector<Item>& items()
{
    static std::vector<Item> v;
    return v;
}
template <int Id, typename F>
inline int add(F)
{
    if constexpr (Id % NPARTS == PART)
        items().push_back({Id, [] {
            // a generic lambda is only instantiated in the part that runs it
            if constexpr (std::is_invocable_v<F>)
                F{}();
            else
                F{}(0);
        }});
    return 0;
}
inline void run_all()
{
    auto v = items();
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = i + 1; j < v.size(); ++j)
            if (v[j].id < v[i].id)
                std::swap(v[i], v[j]);
    for (auto& it : v)
        it.fn();
}
} // namespace parts
// Declares one slice of the exploration; BODY is a function template's instantiation.
#define PARTS_ADD(ID, ...)                                                                         \
    namespace                                                                                      \
    {                                                                                              \
        template <int I>                                                                           \
        struct slice_;                                                                             \
    }
#if PART == 0
#    define PARTS_MAIN VH_MAIN(parts::run_all)
#else
#    define PARTS_MAIN
#endif
#endif
