// A small stand-in for pybind11 (which is not installed here), on the CPython
// API: enough of its interface, conversions and error translation to compile
// and drive the wrapper module of the code under test.
#pragma once
#include <Python.h>
#include <Eigen/Core>
#include <array>
#include <cstdint>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <typeindex>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#define PYBIND11_VERSION_MAJOR 2
#define PYBIND11_VERSION_MINOR 11

namespace pybind11 {
using ssize_t = Py_ssize_t;

struct error_already_set : std::exception {
  const char *what() const noexcept override { return "python error"; }
};
struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct key_error : std::runtime_error { using std::runtime_error::runtime_error; };

struct handle {
  PyObject *m_ptr = nullptr;
  handle() = default;
  handle(PyObject *p) : m_ptr(p) {}
  PyObject *ptr() const { return m_ptr; }
  explicit operator bool() const { return m_ptr; }
  bool is_none() const { return m_ptr == Py_None; }
  template <class T> T cast() const;
};
struct object : handle {
  object() = default;
  object(PyObject *p, bool take) : handle(p) {
    if (!take)
      Py_XINCREF(p);
  }
  object(const object &o) : handle(o.m_ptr) { Py_XINCREF(m_ptr); }
  object(object &&o) : handle(o.m_ptr) { o.m_ptr = nullptr; }
  object &operator=(object o) {
    std::swap(m_ptr, o.m_ptr);
    return *this;
  }
  ~object() { Py_XDECREF(m_ptr); }
  PyObject *release() {
    PyObject *p = m_ptr;
    m_ptr = nullptr;
    return p;
  }
};
struct none : object {
  none() : object(Py_None, false) {}
};

namespace detail {
struct Own { // a reference that is given back
  PyObject *p;
  explicit Own(PyObject *q) : p(q) {}
  ~Own() { Py_XDECREF(p); }
  Own(const Own &) = delete;
};
inline std::map<std::type_index, PyObject *> &types() {
  static auto *t = new std::map<std::type_index, PyObject *>;
  return *t;
}
template <class T> PyObject *type_of() {
  auto i = types().find(typeid(T));
  return i == types().end() ? nullptr : i->second;
}
struct instance {
  PyObject_HEAD
  void *value;
};

// ---- values
template <class T, class = void> struct conv { // registered classes, by pointer
  static constexpr bool by_pointer = true;
};
template <> struct conv<bool> {
  static constexpr bool by_pointer = false;
  static bool load(PyObject *o, bool &v) {
    if (o == Py_True || o == Py_False) {
      v = o == Py_True;
      return true;
    }
    if (std::string(Py_TYPE(o)->tp_name).find("numpy.bool") != std::string::npos) {
      v = PyObject_IsTrue(o) == 1;
      return true;
    }
    if (o == Py_None) {
      v = false;
      return true;
    }
    if (Py_TYPE(o)->tp_as_number && Py_TYPE(o)->tp_as_number->nb_bool) {
      int r = PyObject_IsTrue(o);
      if (r < 0)
        PyErr_Clear();
      v = r == 1;
      return r >= 0;
    }
    return false;
  }
  static PyObject *cast(bool v) { return PyBool_FromLong(v); }
};
template <class T> struct conv<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static constexpr bool by_pointer = false;
  static bool load(PyObject *o, T &v) {
    double d = PyFloat_AsDouble(o);
    if (d == -1.0 && PyErr_Occurred()) {
      PyErr_Clear();
      if (!PyNumber_Check(o))
        return false;
      Own f(PyNumber_Float(o));
      if (!f.p) {
        PyErr_Clear();
        return false;
      }
      d = PyFloat_AsDouble(f.p);
    }
    v = T(d);
    return true;
  }
  static PyObject *cast(T v) { return PyFloat_FromDouble(double(v)); }
};
template <class T> struct conv<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
  static constexpr bool by_pointer = false;
  static bool load(PyObject *o, T &v) {
    if (PyFloat_Check(o))
      return false;
    Own i(PyNumber_Index(o));
    if (!i.p) {
      PyErr_Clear();
      return false;
    }
    if (std::is_unsigned<T>::value) {
      unsigned long long u = PyLong_AsUnsignedLongLong(i.p);
      if (PyErr_Occurred()) {
        PyErr_Clear();
        return false;
      }
      v = T(u);
      return (unsigned long long)v == u;
    }
    long long s = PyLong_AsLongLong(i.p);
    if (PyErr_Occurred()) {
      PyErr_Clear();
      return false;
    }
    v = T(s);
    return (long long)v == s;
  }
  static PyObject *cast(T v) { return std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong((unsigned long long)v) : PyLong_FromLongLong((long long)v); }
};
template <> struct conv<std::string> {
  static constexpr bool by_pointer = false;
  static bool load(PyObject *o, std::string &v) {
    if (PyBytes_Check(o)) {
      v.assign(PyBytes_AsString(o), size_t(PyBytes_Size(o)));
      return true;
    }
    if (!PyUnicode_Check(o))
      return false;
    Py_ssize_t n = 0;
    const char *s = PyUnicode_AsUTF8AndSize(o, &n);
    if (!s) {
      PyErr_Clear();
      return false;
    }
    v.assign(s, size_t(n));
    return true;
  }
  static PyObject *cast(const std::string &v) {
    PyObject *r = PyUnicode_DecodeUTF8(v.data(), Py_ssize_t(v.size()), nullptr);
    if (!r)
      throw error_already_set();
    return r;
  }
};
template <> struct conv<const char *> {
  static constexpr bool by_pointer = false;
  static PyObject *cast(const char *v) { return PyUnicode_FromString(v); }
};
template <class T> struct conv<T, std::enable_if_t<std::is_enum<T>::value>> {
  static constexpr bool by_pointer = false;
  static bool load(PyObject *o, T &v) {
    PyObject *t = type_of<T>();
    if (!t || PyObject_IsInstance(o, t) != 1)
      return false;
    Own a(PyObject_GetAttrString(o, "value"));
    v = T(PyLong_AsLong(a.p));
    return true;
  }
  static PyObject *cast(T v) {
    Own ms(PyObject_GetAttrString(type_of<T>(), "__members__"));
    PyObject *k, *m;
    Py_ssize_t pos = 0;
    while (PyDict_Next(ms.p, &pos, &k, &m)) {
      Own a(PyObject_GetAttrString(m, "value"));
      if (PyLong_AsLong(a.p) == long(v)) {
        Py_INCREF(m);
        return m;
      }
    }
    throw cast_error("no such enumerator");
  }
};
inline bool sequence_size(PyObject *o, Py_ssize_t &n) {
  if (!PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o))
    return false;
  n = PySequence_Size(o);
  if (n < 0)
    PyErr_Clear();
  return n >= 0;
}
template <class T> bool load_item(PyObject *seq, Py_ssize_t i, T &v) {
  Own it(PySequence_GetItem(seq, i));
  if (!it.p)
    throw error_already_set();
  return conv<T>::load(it.p, v);
}
template <class C> struct seq_conv {
  static constexpr bool by_pointer = false;
  static bool load(PyObject *o, C &v) {
    Py_ssize_t n;
    if (!sequence_size(o, n))
      return false;
    v.clear();
    for (Py_ssize_t i = 0; i < n; ++i) {
      typename C::value_type x{};
      if (!load_item(o, i, x))
        return false;
      v.insert(v.end(), std::move(x));
    }
    return true;
  }
  static PyObject *cast(const C &v) {
    PyObject *l = PyList_New(Py_ssize_t(v.size()));
    Py_ssize_t i = 0;
    for (const auto &x : v)
      PyList_SET_ITEM(l, i++, conv<typename C::value_type>::cast(x));
    return l;
  }
};
template <class T, class A> struct conv<std::vector<T, A>> : seq_conv<std::vector<T, A>> {};
template <class T, class A> struct conv<std::list<T, A>> : seq_conv<std::list<T, A>> {};
template <class T, size_t N> struct conv<std::array<T, N>> {
  static constexpr bool by_pointer = false;
  static bool load(PyObject *o, std::array<T, N> &v) {
    Py_ssize_t n;
    if (!sequence_size(o, n) || size_t(n) != N)
      return false;
    for (size_t i = 0; i < N; ++i)
      if (!load_item(o, Py_ssize_t(i), v[i]))
        return false;
    return true;
  }
  static PyObject *cast(const std::array<T, N> &v) {
    PyObject *l = PyList_New(Py_ssize_t(N));
    for (size_t i = 0; i < N; ++i)
      PyList_SET_ITEM(l, Py_ssize_t(i), conv<T>::cast(v[i]));
    return l;
  }
};
template <class A, class B> struct conv<std::pair<A, B>> {
  static constexpr bool by_pointer = false;
  static bool load(PyObject *o, std::pair<A, B> &v) {
    Py_ssize_t n;
    return sequence_size(o, n) && n == 2 && load_item(o, 0, v.first) && load_item(o, 1, v.second);
  }
  static PyObject *cast(const std::pair<A, B> &v) {
    PyObject *t = PyTuple_New(2);
    PyTuple_SET_ITEM(t, 0, conv<A>::cast(v.first));
    PyTuple_SET_ITEM(t, 1, conv<B>::cast(v.second));
    return t;
  }
};
template <class... A> struct conv<std::tuple<A...>> {
  static constexpr bool by_pointer = false;
  template <size_t... I> static PyObject *go(const std::tuple<A...> &v, std::index_sequence<I...>) {
    PyObject *t = PyTuple_New(sizeof...(A));
    int dummy[] = {0, (PyTuple_SET_ITEM(t, I, conv<A>::cast(std::get<I>(v))), 0)...};
    (void)dummy;
    return t;
  }
  static PyObject *cast(const std::tuple<A...> &v) { return go(v, std::index_sequence_for<A...>()); }
};
template <class M> struct map_conv {
  static constexpr bool by_pointer = false;
  static PyObject *cast(const M &v) {
    PyObject *d = PyDict_New();
    for (const auto &kv : v) {
      Own k(conv<typename M::key_type>::cast(kv.first)), x(conv<typename M::mapped_type>::cast(kv.second));
      PyDict_SetItem(d, k.p, x.p);
    }
    return d;
  }
};
template <class K, class V, class... R> struct conv<std::map<K, V, R...>> : map_conv<std::map<K, V, R...>> {};
template <class K, class V, class... R> struct conv<std::unordered_map<K, V, R...>> : map_conv<std::unordered_map<K, V, R...>> {};
template <> struct conv<object> {
  static constexpr bool by_pointer = false;
  static bool load(PyObject *o, object &v) {
    v = object(o, false);
    return true;
  }
  static PyObject *cast(const object &v) {
    PyObject *p = v.ptr() ? v.ptr() : Py_None;
    Py_INCREF(p);
    return p;
  }
};
// matrices go out as arrays of float64, one-dimensional for vector types
template <class S, int R, int C, int... O> struct conv<Eigen::Matrix<S, R, C, O...>> {
  using M = Eigen::Matrix<S, R, C, O...>;
  static constexpr bool by_pointer = false;
  static constexpr bool vec = R == 1 || C == 1;
  static bool load(PyObject *o, M &v) {
    if (vec) {
      std::vector<S> x;
      if (!conv<std::vector<S>>::load(o, x) || (M::SizeAtCompileTime != Eigen::Dynamic && Eigen::Index(x.size()) != M::SizeAtCompileTime))
        return false;
      v.resize(R == 1 ? 1 : Eigen::Index(x.size()), R == 1 ? Eigen::Index(x.size()) : 1);
      for (size_t i = 0; i < x.size(); ++i)
        v(Eigen::Index(i)) = x[i];
      return true;
    }
    std::vector<std::vector<S>> x;
    if (!conv<std::vector<std::vector<S>>>::load(o, x))
      return false;
    Eigen::Index r = Eigen::Index(x.size()), c = r ? Eigen::Index(x[0].size()) : 0;
    if ((R != Eigen::Dynamic && R != r) || (C != Eigen::Dynamic && C != c))
      return false;
    v.resize(r, c);
    for (Eigen::Index i = 0; i < r; ++i) {
      if (Eigen::Index(x[size_t(i)].size()) != c)
        return false;
      for (Eigen::Index j = 0; j < c; ++j)
        v(i, j) = x[size_t(i)][size_t(j)];
    }
    return true;
  }
  static PyObject *cast(const M &v) {
    std::vector<double> d;
    for (Eigen::Index i = 0; i < v.rows(); ++i)
      for (Eigen::Index j = 0; j < v.cols(); ++j)
        d.push_back(double(v(i, j)));
    Own np(PyImport_ImportModule("numpy"));
    Own b(PyBytes_FromStringAndSize(reinterpret_cast<const char *>(d.data()), Py_ssize_t(d.size() * sizeof(double))));
    if (!np.p || !b.p)
      throw error_already_set();
    Own a(d.empty() ? PyObject_CallMethod(np.p, "zeros", "i", 0) : PyObject_CallMethod(np.p, "frombuffer", "O", b.p));
    if (!a.p)
      throw error_already_set();
    Own r(vec ? PyObject_CallMethod(a.p, "reshape", "n", Py_ssize_t(v.size())) : PyObject_CallMethod(a.p, "reshape", "nn", Py_ssize_t(v.rows()), Py_ssize_t(v.cols())));
    if (!r.p)
      throw error_already_set();
    PyObject *c = PyObject_CallMethod(r.p, "copy", nullptr);
    if (!c)
      throw error_already_set();
    return c;
  }
};

// ---- arguments
template <class A, bool P = conv<std::decay_t<A>>::by_pointer> struct arg_holder {
  std::decay_t<A> v{};
  bool load(PyObject *o) { return conv<std::decay_t<A>>::load(o, v); }
  std::decay_t<A> &get() { return v; }
};
template <class A> struct arg_holder<A, true> {
  std::decay_t<A> *p = nullptr;
  bool load(PyObject *o) {
    PyObject *t = type_of<std::decay_t<A>>();
    if (!t || PyObject_IsInstance(o, t) != 1)
      return false;
    p = static_cast<std::decay_t<A> *>(reinterpret_cast<instance *>(o)->value);
    return p != nullptr;
  }
  std::decay_t<A> &get() { return *p; }
};
template <class A> struct arg_holder<A *, false> : arg_holder<A> {};
template <class A> decltype(auto) pass(arg_holder<A> &h, std::true_type) { return std::move(h.get()); }
template <class A> decltype(auto) pass(arg_holder<A> &h, std::false_type) { return h.get(); }

template <class R> struct ret {
  template <class F> static PyObject *call(F &&f) { return make(f(), std::integral_constant<bool, conv<std::decay_t<R>>::by_pointer>()); }
  template <class T> static PyObject *make(T &&v, std::false_type) { return conv<std::decay_t<R>>::cast(v); }
  template <class T> static PyObject *make(T &&v, std::true_type) {
    using C = std::decay_t<R>;
    PyObject *t = type_of<C>();
    if (!t)
      throw cast_error("unregistered type");
    PyObject *o = reinterpret_cast<PyTypeObject *>(t)->tp_alloc(reinterpret_cast<PyTypeObject *>(t), 0);
    reinterpret_cast<instance *>(o)->value = new C(std::forward<T>(v));
    return o;
  }
};
template <> struct ret<void> {
  template <class F> static PyObject *call(F &&f) {
    f();
    Py_RETURN_NONE;
  }
};

struct Overload {
  std::vector<std::string> names;     // of the arguments, if given
  std::vector<object> defaults;       // null where there is none
  size_t nargs = 0;
  bool method = false;
  std::function<PyObject *(std::vector<PyObject *> &)> call; // null result and no error set: no match
};
template <class... A> struct tuple_of {
  std::tuple<arg_holder<A>...> t;
  template <size_t... I> bool load(std::vector<PyObject *> &a, std::index_sequence<I...>) {
    bool ok[] = {true, std::get<I>(t).load(a[I])...};
    for (bool b : ok)
      if (!b)
        return false;
    return true;
  }
};
template <class R, class... A, class F, size_t... I> PyObject *call_it(const F &f, std::vector<PyObject *> &a, std::index_sequence<I...> seq) {
  tuple_of<A...> h;
  if (!h.load(a, seq))
    return nullptr;
  return ret<R>::call([&]() -> R { return f(pass<A>(std::get<I>(h.t), std::integral_constant<bool, !std::is_reference<A>::value && !conv<std::decay_t<A>>::by_pointer>())...); });
}
template <class R, class... A, class F> Overload make_overload(F f, bool method) {
  Overload o;
  o.nargs = sizeof...(A);
  o.method = method;
  o.call = [f](std::vector<PyObject *> &a) -> PyObject * {
    return call_it<R, A...>(f, a, std::index_sequence_for<A...>());
  };
  return o;
}

struct function {
  PyObject_HEAD
  std::string *name;
  std::vector<Overload> *overloads;
};
inline PyObject *translate(std::exception_ptr e) {
  try {
    std::rethrow_exception(e);
  } catch (const error_already_set &) {
  } catch (const cast_error &x) {
    PyErr_SetString(PyExc_RuntimeError, x.what());
  } catch (const type_error &x) {
    PyErr_SetString(PyExc_TypeError, x.what());
  } catch (const value_error &x) {
    PyErr_SetString(PyExc_ValueError, x.what());
  } catch (const index_error &x) {
    PyErr_SetString(PyExc_IndexError, x.what());
  } catch (const key_error &x) {
    PyErr_SetString(PyExc_KeyError, x.what());
  } catch (const std::bad_alloc &x) {
    PyErr_SetString(PyExc_MemoryError, x.what());
  } catch (const std::domain_error &x) {
    PyErr_SetString(PyExc_ValueError, x.what());
  } catch (const std::invalid_argument &x) {
    PyErr_SetString(PyExc_ValueError, x.what());
  } catch (const std::length_error &x) {
    PyErr_SetString(PyExc_ValueError, x.what());
  } catch (const std::out_of_range &x) {
    PyErr_SetString(PyExc_IndexError, x.what());
  } catch (const std::range_error &x) {
    PyErr_SetString(PyExc_ValueError, x.what());
  } catch (const std::overflow_error &x) {
    PyErr_SetString(PyExc_OverflowError, x.what());
  } catch (const std::exception &x) {
    PyErr_SetString(PyExc_RuntimeError, x.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
  }
  return nullptr;
}
inline PyObject *function_call(PyObject *self, PyObject *args, PyObject *kw) {
  auto *f = reinterpret_cast<function *>(self);
  size_t n = size_t(PyTuple_Size(args));
  for (auto &o : *f->overloads) {
    std::vector<PyObject *> a(o.nargs, nullptr);
    if (n > o.nargs)
      continue;
    for (size_t i = 0; i < n; ++i)
      a[i] = PyTuple_GetItem(args, Py_ssize_t(i));
    bool ok = true;
    size_t off = o.method ? 1 : 0, used = 0;
    for (size_t i = n; i < o.nargs; ++i) {
      if (i >= off && i - off < o.names.size()) {
        PyObject *v = kw ? PyDict_GetItemString(kw, o.names[i - off].c_str()) : nullptr;
        if (v)
          ++used;
        else if (o.defaults[i - off].ptr())
          v = o.defaults[i - off].ptr();
        a[i] = v;
      }
      ok &= a[i] != nullptr;
    }
    if (!ok || (kw && size_t(PyDict_Size(kw)) != used))
      continue;
    PyObject *r = nullptr;
    try {
      r = o.call(a);
    } catch (...) {
      return translate(std::current_exception());
    }
    if (r)
      return r;
    if (PyErr_Occurred())
      return nullptr;
  }
  PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", f->name->c_str());
  return nullptr;
}
inline PyObject *function_get(PyObject *self, PyObject *obj, PyObject *) {
  if (!obj || obj == Py_None) {
    Py_INCREF(self);
    return self;
  }
  return PyMethod_New(self, obj);
}
inline PyTypeObject *function_type() {
  static PyTypeObject *t = nullptr;
  if (!t) {
    PyType_Slot slots[] = {{Py_tp_call, (void *)function_call}, {Py_tp_descr_get, (void *)function_get}, {0, nullptr}};
    PyType_Spec spec = {"shim.function", sizeof(function), 0, Py_TPFLAGS_DEFAULT, slots};
    t = reinterpret_cast<PyTypeObject *>(PyType_FromSpec(&spec));
  }
  return t;
}
inline void add_function(PyObject *where, const char *name, Overload o) {
  Own d(PyObject_GetAttrString(where, "__dict__"));
  Own key(PyUnicode_FromString(name));
  PyObject *old = PyObject_GetItem(d.p, key.p);
  if (!old)
    PyErr_Clear();
  if (old && Py_TYPE(old) == function_type()) {
    reinterpret_cast<function *>(old)->overloads->push_back(std::move(o));
    Py_DECREF(old);
    return;
  }
  Py_XDECREF(old);
  PyObject *f = function_type()->tp_alloc(function_type(), 0);
  reinterpret_cast<function *>(f)->name = new std::string(name);
  reinterpret_cast<function *>(f)->overloads = new std::vector<Overload>;
  reinterpret_cast<function *>(f)->overloads->push_back(std::move(o));
  PyObject_SetAttrString(where, name, f);
  Py_DECREF(f);
}

// ---- signatures
template <class F> struct sig : sig<decltype(&std::decay_t<F>::operator())> {};
template <class R, class... A> struct sig<R (*)(A...)> {
  template <class F> static Overload make(F f, bool method) { return make_overload<R, A...>(f, method); }
};
template <class C, class R, class... A> struct sig<R (C::*)(A...)> : sig<R (*)(A...)> {};
template <class C, class R, class... A> struct sig<R (C::*)(A...) const> : sig<R (*)(A...)> {};
} // namespace detail

template <class T> T handle::cast() const {
  T v{};
  if (!detail::conv<T>::load(m_ptr, v))
    throw cast_error("Unable to cast Python instance");
  return v;
}
template <class T> object cast(const T &v) { return object(detail::conv<T>::cast(v), true); }

struct arg_v;
struct arg {
  std::string name;
  explicit arg(const char *n) : name(n) {}
  template <class T> arg_v operator=(T &&v) const;
  arg &noconvert(bool = true) { return *this; }
  arg &none(bool = true) { return *this; }
};
struct arg_v : arg {
  object value;
  arg_v(arg a, object v) : arg(std::move(a)), value(std::move(v)) {}
};
template <class T> arg_v arg::operator=(T &&v) const { return arg_v(*this, cast<std::decay_t<T>>(v)); }
namespace literals {
inline arg operator"" _a(const char *n, size_t) { return arg(n); }
} // namespace literals
template <class...> struct call_guard {};
struct gil_scoped_release {};
struct gil_scoped_acquire {};
template <size_t, size_t> struct keep_alive {};
struct is_method {};
struct dynamic_attr {};
struct module_local {
  explicit module_local(bool = true) {}
};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

namespace detail {
inline void apply(Overload &o, const arg_v &a) {
  o.names.push_back(a.name);
  o.defaults.push_back(a.value);
}
inline void apply(Overload &o, const arg &a) {
  o.names.push_back(a.name);
  o.defaults.push_back(object());
}
template <class T> std::enable_if_t<!std::is_base_of<arg, T>::value> apply(Overload &, const T &) {}
template <class... E> void apply_all(Overload &o, const E &...e) {
  int d[] = {0, (apply(o, e), 0)...};
  (void)d;
}
template <class... A> struct overload_cast_impl {
  template <class R> constexpr auto operator()(R (*p)(A...)) const { return p; }
  template <class R, class C> constexpr auto operator()(R (C::*p)(A...), std::false_type = {}) const { return p; }
  template <class R, class C> constexpr auto operator()(R (C::*p)(A...) const, std::true_type) const { return p; }
};
struct accessor {
  PyObject *o;
  std::string n;
  void operator=(const char *v) {
    Own s(PyUnicode_FromString(v));
    PyObject_SetAttrString(o, n.c_str(), s.p);
  }
  void operator=(const object &v) { PyObject_SetAttrString(o, n.c_str(), v.ptr()); }
  template <class T> std::enable_if_t<std::is_arithmetic<T>::value> operator=(const T &v) {
    Own s(conv<T>::cast(v));
    PyObject_SetAttrString(o, n.c_str(), s.p);
  }
};
} // namespace detail
template <class... A> static constexpr detail::overload_cast_impl<A...> overload_cast{};
static constexpr auto const_ = std::true_type{};

struct module_ : object {
  explicit module_(PyObject *p) : object(p, false) {}
  detail::accessor doc() const { return {m_ptr, "__doc__"}; }
  detail::accessor attr(const char *n) const { return {m_ptr, n}; }
  template <class F, class... E> module_ &def(const char *name, F &&f, const E &...e) {
    detail::Overload o = detail::sig<std::decay_t<F>>::make(std::decay_t<F>(f), false);
    detail::apply_all(o, e...);
    detail::add_function(m_ptr, name, std::move(o));
    return *this;
  }
};
using module = module_;

template <class... A> struct init_tag {};
template <class... A> init_tag<A...> init() { return {}; }
template <class F> struct init_factory {
  F f;
};
template <class F> init_factory<std::decay_t<F>> init(F &&f) { return {std::forward<F>(f)}; }

template <class T, class... O> class class_ : public object {
  static void dealloc(PyObject *o) {
    auto *i = reinterpret_cast<detail::instance *>(o);
    PyTypeObject *t = Py_TYPE(o);
    delete static_cast<T *>(i->value);
    t->tp_free(o);
    Py_DECREF(t);
  }
  static PyObject *create(PyTypeObject *t, PyObject *, PyObject *) { return t->tp_alloc(t, 0); }
  // member functions, possibly of a base class
  template <class R, class C, class... A> static detail::Overload member(R (C::*p)(A...)) {
    return detail::make_overload<R, T &, A...>([p](T &t, auto &&...a) -> R { return (static_cast<C &>(t).*p)(std::forward<decltype(a)>(a)...); }, true);
  }
  template <class R, class C, class... A> static detail::Overload member(R (C::*p)(A...) const) {
    return detail::make_overload<R, T &, A...>([p](T &t, auto &&...a) -> R { return (static_cast<const C &>(t).*p)(std::forward<decltype(a)>(a)...); }, true);
  }
  template <class F> static std::enable_if_t<!std::is_member_function_pointer<F>::value, detail::Overload> member(F f) { return detail::sig<F>::make(f, true); }
  template <class... A, class F> static detail::Overload maker(F f) {
    detail::Overload o;
    o.nargs = 1 + sizeof...(A);
    o.method = true;
    o.call = [f](std::vector<PyObject *> &a) -> PyObject * { return construct<A...>(f, a, std::index_sequence_for<A...>()); };
    return o;
  }
  template <class... A, class F, size_t... I> static PyObject *construct(const F &f, std::vector<PyObject *> &a, std::index_sequence<I...>) {
    std::tuple<detail::arg_holder<A>...> h;
    bool ok[] = {true, std::get<I>(h).load(a[I + 1])...};
    for (bool b : ok)
      if (!b)
        return nullptr;
    T *v = f(detail::pass<A>(std::get<I>(h), std::integral_constant<bool, !std::is_reference<A>::value && !detail::conv<std::decay_t<A>>::by_pointer>())...);
    auto *i = reinterpret_cast<detail::instance *>(a[0]);
    delete static_cast<T *>(i->value);
    i->value = v;
    Py_RETURN_NONE;
  }
  template <class F, class R, class... A> static detail::Overload from_factory(F f, R (F::*)(A...) const) {
    return maker<A...>([f](auto &&...a) -> T * { return own(f(std::forward<decltype(a)>(a)...)); });
  }
  static T *own(T *p) { return p; }
  static T *own(std::unique_ptr<T> p) { return p.release(); }
  static T *own(T v) { return new T(std::move(v)); }

public:
  template <class... E> class_(const handle &scope, const char *name, const E &...) {
    static std::string full;
    full = std::string("_tinyfk.") + name;
    PyType_Slot slots[] = {{Py_tp_dealloc, (void *)dealloc}, {Py_tp_new, (void *)create}, {0, nullptr}};
    PyType_Spec spec = {full.c_str(), sizeof(detail::instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    m_ptr = PyType_FromSpec(&spec);
    Py_INCREF(m_ptr);
    detail::types()[typeid(T)] = m_ptr;
    PyObject_SetAttrString(scope.ptr(), name, m_ptr);
  }
  template <class F, class... E> class_ &def(const char *name, F f, const E &...e) {
    detail::Overload o = member(f);
    detail::apply_all(o, e...);
    detail::add_function(m_ptr, name, std::move(o));
    return *this;
  }
  template <class... A, class... E> class_ &def(init_tag<A...>, const E &...e) {
    detail::Overload o = maker<A...>([](auto &&...a) { return new T(std::forward<decltype(a)>(a)...); });
    detail::apply_all(o, e...);
    detail::add_function(m_ptr, "__init__", std::move(o));
    return *this;
  }
  template <class F, class... E> class_ &def(init_factory<F> i, const E &...e) {
    detail::Overload o = from_factory(i.f, &F::operator());
    detail::apply_all(o, e...);
    detail::add_function(m_ptr, "__init__", std::move(o));
    return *this;
  }
  template <class F> class_ &property(const char *name, F get) {
    detail::Overload o = member(get);
    PyObject *f = detail::function_type()->tp_alloc(detail::function_type(), 0);
    reinterpret_cast<detail::function *>(f)->name = new std::string(name);
    reinterpret_cast<detail::function *>(f)->overloads = new std::vector<detail::Overload>(1, o);
    detail::Own p(PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject *>(&PyProperty_Type), f, nullptr));
    Py_DECREF(f);
    PyObject_SetAttrString(m_ptr, name, p.p);
    return *this;
  }
  template <class D, class C, class... E> class_ &def_readonly(const char *name, D C::*p, const E &...) {
    return property(name, [p](T &t) -> D { return static_cast<C &>(t).*p; });
  }
  template <class D, class C, class... E> class_ &def_readwrite(const char *name, D C::*p, const E &...e) { return def_readonly(name, p, e...); }
  template <class F, class... E> class_ &def_property_readonly(const char *name, F f, const E &...) { return property(name, f); }
};

template <class E> class enum_ : public object {
public:
  template <class... X> enum_(const handle &scope, const char *name, const X &...) {
    detail::Own globals(PyDict_New());
    PyDict_SetItemString(globals.p, "__builtins__", PyEval_GetBuiltins());
    std::string code = std::string("class ") + name + R"(:
    __members__ = {}
    def __init__(self, value, name):
        self.value = value
        self.name = name
    def __eq__(self, o):
        return type(self) is type(o) and self.value == o.value
    def __hash__(self):
        return hash(self.value)
    def __int__(self):
        return self.value
    __index__ = __int__
    def __repr__(self):
        return '<' + type(self).__name__ + '.' + self.name + ': ' + str(self.value) + '>'
)";
    detail::Own r(PyRun_String(code.c_str(), Py_file_input, globals.p, globals.p));
    if (!r.p)
      throw error_already_set();
    m_ptr = PyDict_GetItemString(globals.p, name);
    Py_INCREF(m_ptr);
    Py_INCREF(m_ptr);
    detail::Own mod(PyUnicode_FromString("_tinyfk"));
    PyObject_SetAttrString(m_ptr, "__module__", mod.p);
    detail::types()[typeid(E)] = m_ptr;
    PyObject_SetAttrString(scope.ptr(), name, m_ptr);
  }
  template <class... X> enum_ &value(const char *name, E v, const X &...) {
    detail::Own o(PyObject_CallFunction(m_ptr, "ls", long(v), name));
    detail::Own d(PyObject_GetAttrString(m_ptr, "__members__"));
    PyDict_SetItemString(d.p, name, o.p);
    PyObject_SetAttrString(m_ptr, name, o.p);
    return *this;
  }
  enum_ &export_values() { return *this; }
};
} // namespace pybind11

#define PYBIND11_MODULE(name, var)                                                                 \
  static void shim_init_##name(::pybind11::module_ &);                                             \
  extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name() {                    \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr};                 \
    PyObject *m = PyModule_Create(&def);                                                           \
    if (!m)                                                                                        \
      return nullptr;                                                                              \
    try {                                                                                          \
      ::pybind11::module_ mod(m);                                                                  \
      shim_init_##name(mod);                                                                       \
    } catch (...) {                                                                                \
      return ::pybind11::detail::translate(std::current_exception());                              \
    }                                                                                              \
    return m;                                                                                      \
  }                                                                                                \
  static void shim_init_##name(::pybind11::module_ &var)
