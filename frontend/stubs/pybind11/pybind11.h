// declarations the generated bindings use; only their syntax tree is read
#pragma once
#include <utility>
#include <string>
namespace pybind11 {
struct arg_v {};
struct arg { explicit arg(const char *); template <class T> arg_v operator=(T &&) const; arg &noconvert(bool = true); arg &none(bool = true); };
template <class... A> struct init_ {};
template <class... A> init_<A...> init();
template <class F> init_<F> init(F &&);
struct doc { explicit doc(const char *); };
template <class... T> struct call_guard {};
template <int N, int M> struct keep_alive {};
struct gil_scoped_release {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct attr_ { template <class T> attr_ &operator=(T &&); };
struct module_ { attr_ &doc(); attr_ attr(const char *); template <class F, class... E> module_ &def(const char *, F &&, const E &...); };
template <class T, class... O> struct class_ {
  template <class... E> class_(module_ &, const char *, const E &...);
  template <class... A, class... E> class_ &def(init_<A...>, const E &...);
  template <class F, class... E> class_ &def(const char *, F &&, const E &...);
  template <class F, class... E> class_ &def_static(const char *, F &&, const E &...);
  template <class F, class... E> class_ &def_readonly(const char *, F &&, const E &...);
  template <class F, class... E> class_ &def_readwrite(const char *, F &&, const E &...);
  template <class F, class... E> class_ &def_property_readonly(const char *, F &&, const E &...);
};
}
#define PYBIND11_MODULE(name, var) void pybind11_init_##name(pybind11::module_ &var)
