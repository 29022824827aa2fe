// Declarations with the shape of pybind11's, so that the syntax tree of the module function is small. Only analysed.
#pragma once
#include <cstddef>
#include <string>
#include <type_traits>
#include <utility>
namespace cft_py {
namespace detail {
template <class T> struct undefer { using type = T; };
}
struct handle { void* m_ptr; };
struct object : handle {};
struct str : object {};
struct list : object {};
struct dict : object {};
struct tuple : object {};
struct none : object {};
struct args : tuple {};
struct kwargs : dict {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct arg {
    constexpr explicit arg(char const* n) : name(n) {}
    template <class T> arg& operator=(T&&) { hasdef = true; return *this; }
    arg& noconvert(bool = true) { return *this; }
    arg& none(bool = true) { return *this; }
    char const* name;
    bool hasdef = false;
};
struct doc { explicit doc(char const*) {} };
struct name { explicit name(char const*) {} };
struct is_method { template <class T> explicit is_method(T const&) {} };
struct is_operator {};
struct dynamic_attr {};
struct module_local { explicit module_local(bool = true) {} };
template <std::size_t, std::size_t> struct keep_alive {};
template <class... Ts> struct call_guard {};
struct gil_scoped_release {};
struct gil_scoped_acquire {};
struct scoped_ostream_redirect {};
struct scoped_estream_redirect {};
struct value_error { explicit value_error(char const*) {} explicit value_error(std::string const&) {} };
struct type_error { explicit type_error(char const*) {} explicit type_error(std::string const&) {} };
struct index_error { explicit index_error(char const*) {} explicit index_error(std::string const&) {} };
struct key_error { explicit key_error(char const*) {} explicit key_error(std::string const&) {} };
template <class... Args> struct init_ctor {};
template <class F> struct init_factory {};
template <class... Args> init_ctor<Args...> init();
template <class F> init_factory<typename std::decay<F>::type> init(F&&) { return {}; }
struct self_t {};
template <class... Ts> struct overload_cast_impl {
    template <class R> constexpr auto operator()(R (*p)(Ts...)) const -> R (*)(Ts...) { return p; }
    template <class R, class C> constexpr auto operator()(R (C::*p)(Ts...), std::false_type = {}) const -> R (C::*)(Ts...) { return p; }
};
struct module_ : object {
    template <class F, class... X> module_& def(char const* name_, F&& f, X const&... x) { return *this; }
    struct attr_proxy { template <class T> attr_proxy& operator=(T&&); };
    attr_proxy attr(char const*);
    attr_proxy doc();
    module_ def_submodule(char const*, char const* = nullptr);
};
using module = module_;
template <class T, class... Opt> struct class_ : object {
    template <class... X> class_(handle scope, char const* name, X const&... x);
    template <class F, class... X> class_& def(char const* name_, F&& f, X const&... x) { return *this; }
    template <class... A, class... X> class_& def(init_ctor<A...> const&, X const&... x) { return *this; }
    template <class F, class... X> class_& def(init_factory<F> const&, X const&... x) { return *this; }
    template <class F, class... X> class_& def_static(char const* name_, F&& f, X const&... x) { return *this; }
    template <class C, class D, class... X> class_& def_readwrite(char const* name, D C::* pm, X const&... x) { return *this; }
    template <class C, class D, class... X> class_& def_readonly(char const* name, D const C::* pm, X const&... x) { return *this; }
    template <class G, class... X> class_& def_property_readonly(char const* name, G const& g, X const&... x) { return *this; }
    template <class G, class S, class... X> class_& def_property(char const* name, G const& g, S const& s, X const&... x) { return *this; }
};
template <class T> struct enum_ : class_<T> { using class_<T>::class_; enum_& value(char const*, T, char const* = nullptr); enum_& export_values(); };
template <class E> void register_exception(handle, char const*);
template <class T> object cast(T&&);
inline void print() {}
template <class... T> void print(T&&...);
namespace literals { inline arg operator"" _a(char const* n, std::size_t) { return arg(n); } }
}
namespace pybind11 = cft_py;
#define PYBIND11_MODULE(name, variable, ...) \
    void cft_py_module(::cft_py::module_& variable)
#define PYBIND11_MAKE_OPAQUE(...)
