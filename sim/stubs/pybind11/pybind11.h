// Stand-in for the few things of pybind11 the compile driver's interface mentions.
#pragma once
#include <any>
#include <map>
#include <string>
namespace pybind11 {
enum class return_value_policy { automatic, reference, copy };
struct object {
    std::any v;
    template<typename T>
    object& operator=(const T& x) {
        if constexpr (std::is_same_v<T, object>) v = x.v;
        else v = x;
        return *this;
    }
};
struct dict {
    std::map<std::string, object> items;
    object& operator[](const char* k) { return items[k]; }
};
template<typename T>
object cast(const T& x, return_value_policy = return_value_policy::automatic) {
    object o;
    o.v = (const void*) &x;
    return o;
}
} // namespace pybind11
namespace py = pybind11;
