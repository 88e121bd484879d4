// Recording stand-in for embind: what the bindings register can be called by name from the driver.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace emscripten {
struct NoBinding : std::logic_error { using std::logic_error::logic_error; };
struct Value {
    long long i = 0;                       // numbers, booleans, enums
    std::string s;                         // text
    std::vector<uint8_t> b;                // byte vectors
    std::shared_ptr<void> o;               // objects
    Value() {}
    Value(long long x) : i(x) {}
    Value(const std::string &x) : s(x) {}
    Value(const std::vector<uint8_t> &x) : b(x) {}
    Value(std::shared_ptr<void> x) : o(x) {}
};
typedef std::vector<Value> Values;
typedef std::function<Value(Values &)> Fn;
inline std::map<std::string, Fn> &registry() { static std::map<std::string, Fn> m; return m; }
inline Value call(const std::string &n, Values v) {
    auto it = registry().find(n);
    if (it == registry().end()) throw NoBinding(n);
    return it->second(v);
}
template <class T> struct Conv {           // objects
    static T &from(Value &v) { return *static_cast<T *>(v.o.get()); }
    static Value to(T &&x) { return Value(std::shared_ptr<void>(std::make_shared<T>(std::move(x)))); }
};
template <> struct Conv<std::string> { static std::string &from(Value &v) { return v.s; } static Value to(std::string &&x) { return Value(x); } };
template <> struct Conv<std::vector<uint8_t>> { static std::vector<uint8_t> &from(Value &v) { return v.b; } static Value to(std::vector<uint8_t> &&x) { return Value(x); } };
template <class T> using Dec = typename std::decay<T>::type;
template <class T> struct IsNum : std::integral_constant<bool, std::is_integral<T>::value || std::is_enum<T>::value> {};
template <class A, bool N = IsNum<Dec<A>>::value> struct Arg { static Dec<A> &get(Value &v) { return Conv<Dec<A>>::from(v); } };
template <class A> struct Arg<A, true> { static Dec<A> get(Value &v) { return static_cast<Dec<A>>(v.i); } };
template <class R> Value ret(R &&r) {
    if constexpr (IsNum<Dec<R>>::value) return Value((long long)r);
    else { Dec<R> c(std::forward<R>(r)); return Conv<Dec<R>>::to(std::move(c)); }
}
template <class R, class F> Value run(F &&f) { if constexpr (std::is_void<R>::value) { f(); return Value(); } else return ret(f()); }
template <class R, class... A, size_t... I> Fn wrapf(R (*f)(A...), std::index_sequence<I...>) { return [f](Values &v) { return run<R>([&]() -> R { return f(Arg<A>::get(v.at(I))...); }); }; }
template <class R, class... A> Fn wrap(R (*f)(A...)) { return wrapf(f, std::index_sequence_for<A...>()); }
template <class C, class R, class... A, size_t... I> Fn wrapm(R (C::*f)(A...), std::index_sequence<I...>) { return [f](Values &v) { return run<R>([&]() -> R { return (Conv<C>::from(v.at(0)).*f)(Arg<A>::get(v.at(I + 1))...); }); }; }
template <class C, class R, class... A> Fn wrap(R (C::*f)(A...)) { return wrapm(f, std::index_sequence_for<A...>()); }
template <class C, class R, class... A, size_t... I> Fn wrapc(R (C::*f)(A...) const, std::index_sequence<I...>) { return [f](Values &v) { return run<R>([&]() -> R { return (Conv<C>::from(v.at(0)).*f)(Arg<A>::get(v.at(I + 1))...); }); }; }
template <class C, class R, class... A> Fn wrap(R (C::*f)(A...) const) { return wrapc(f, std::index_sequence_for<A...>()); }
template <class F> auto decay_fn(F f) { if constexpr (std::is_pointer<F>::value || std::is_member_function_pointer<F>::value) return f; else return +f; }
template <class S> S select_overload(S s) { return s; }
struct allow_raw_pointers {};
inline const char *&module() { static const char *m = ""; return m; }
inline std::string full(const std::string &n) { return std::string(module()) + n; }
template <class F, class... P> void function(const char *n, F f, P...) { registry()[full(n)] = wrap(decay_fn(f)); }
template <class T> struct Dummy {};
template <class T> void register_vector(const char *) {}
template <class T> struct enum_ {
    std::string n;
    explicit enum_(const char *x) : n(x) {}
    enum_ &value(const char *k, T v) { long long x = (long long)v; registry()[full(n + "." + k)] = [x](Values &) { return Value(x); }; return *this; }
};
template <class T> struct class_ {
    std::string n;
    explicit class_(const char *x) : n(x) {}
    template <class F, class... P> class_ &class_function(const char *k, F f, P...) { registry()[full(n + "." + k)] = wrap(decay_fn(f)); return *this; }
    template <class F, class... P> class_ &function(const char *k, F f, P...) { registry()[full(n + "#" + k)] = wrap(decay_fn(f)); return *this; }
    template <class... A> class_ &constructor() { return *this; }
};
}  // namespace emscripten
#ifndef VERIF_JS_MODULE
#define VERIF_JS_MODULE ""
#endif
#define EMSCRIPTEN_BINDINGS(name) \
    static struct verif_bind_##name { verif_bind_##name(); void go(); } verif_bound_##name; \
    verif_bind_##name::verif_bind_##name() { emscripten::module() = VERIF_JS_MODULE; go(); } \
    void verif_bind_##name::go()
