// A small nanobind-compatible binding layer over the CPython C API.
//
// The real nanobind (and the Eigen release the build pins) cannot be fetched in
// this sandbox.  This header implements the subset of nanobind that irspack's
// binding files use, so that the *unmodified* C++ sources of the repository can
// be compiled into importable extension modules, plain or under a sanitizer.
// Behaviours of nanobind that the Python layer can observe are reproduced:
//   - overload resolution in two passes (without / with implicit conversion)
//   - std::invalid_argument -> ValueError, std::out_of_range -> IndexError,
//     other std::exception -> RuntimeError, no matching overload -> TypeError
//   - a method that returns a reference to *this returns the same object
//   - def_rw of an Eigen matrix is a live view of the member (base = owner)
//   - scipy matrices of another format are converted, indices get sorted,
//     an uncompressed Eigen sparse matrix cannot be returned (ValueError)
//   - an Eigen::Ref argument is never converted and may have a row stride
//   - __setstate__ receives an object whose C++ part is not constructed yet
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

namespace nanobind {

struct python_error : std::exception {
  const char *what() const noexcept override { return "python error is set"; }
};
struct cast_error : std::runtime_error {
  cast_error() : std::runtime_error("bad cast") {}
};

// ------------------------------------------------------------------ objects
struct handle {
  PyObject *p = nullptr;
  handle() = default;
  handle(PyObject *q) : p(q) {}
  PyObject *ptr() const { return p; }
};

struct object : handle {
  object() = default;
  object(const object &o) : handle(o.p) { Py_XINCREF(p); }
  object(object &&o) noexcept : handle(o.p) { o.p = nullptr; }
  object &operator=(object o) noexcept {
    std::swap(p, o.p);
    return *this;
  }
  ~object() { Py_XDECREF(p); }
  static object steal(PyObject *q) {
    object o;
    o.p = q;
    return o;
  }
  static object borrow(PyObject *q) {
    Py_XINCREF(q);
    return steal(q);
  }
  PyObject *release() {
    PyObject *q = p;
    p = nullptr;
    return q;
  }
};

inline object checked(PyObject *q) {
  if (!q)
    throw python_error();
  return object::steal(q);
}

struct tuple : object {
  tuple() = default;
  tuple(const object &o) : object(o) {}
  size_t size() const { return static_cast<size_t>(PyTuple_GET_SIZE(p)); }
  handle operator[](size_t i) const {
    PyObject *q = PyTuple_GetItem(p, static_cast<Py_ssize_t>(i));
    if (!q)
      throw python_error();
    return handle(q);
  }
};

// -------------------------------------------------------------- annotations
struct arg {
  std::string name;
  object def;
  bool has_def = false;
  explicit arg(const char *n) : name(n) {}
  template <typename T> arg operator=(T v) const;
};
template <typename... A> struct init {};

// Marks the time during which the bound code itself runs, for the fault injector
// of /verif/shim/faults.cpp (absent otherwise).
extern "C" __attribute__((weak, visibility("default"))) void vf_scope(int);
struct fault_scope {
  fault_scope() {
    if (vf_scope)
      vf_scope(1);
  }
  ~fault_scope() {
    if (vf_scope)
      vf_scope(-1);
  }
};

// ------------------------------------------------------- registered C++ types
struct type_record {
  PyTypeObject *type = nullptr;
  size_t size = 0;
  void (*destroy)(void *) = nullptr;
  std::string name;
};
inline std::unordered_map<std::type_index, type_record> &registry() {
  static std::unordered_map<std::type_index, type_record> r;
  return r;
}
inline std::unordered_map<std::type_index, object> &enum_registry() {
  static auto *r = new std::unordered_map<std::type_index, object>();
  return *r;
}

struct instance {
  PyObject_HEAD void *value; // heap block of exactly sizeof(T)
  bool ready;                // is there a constructed T in it?
  type_record *rec;
};

template <typename T> void destroy_impl(void *p) { static_cast<T *>(p)->~T(); }

// ------------------------------------------------------------------- casters
// caster<T>:
//   bool load(PyObject *, bool convert)   (no Python error left behind)
//   T& / T   get()
//   static PyObject *to(const T &, PyObject *self)  (new reference or throws)
template <typename T, typename = void> struct caster;

template <typename T> using plain_t = std::remove_cv_t<std::remove_reference_t<T>>;

// registered classes ------------------------------------------------------
template <typename T, typename> struct caster {
  T *value = nullptr;
  bool load(PyObject *o, bool) {
    auto it = registry().find(std::type_index(typeid(T)));
    if (it == registry().end())
      return false;
    if (!PyObject_TypeCheck(o, it->second.type))
      return false;
    auto *inst = reinterpret_cast<instance *>(o);
    if (!inst->ready)
      return false;
    value = static_cast<T *>(inst->value);
    return true;
  }
  T &get() { return *value; }
  static PyObject *wrap_new(T &&v) {
    auto it = registry().find(std::type_index(typeid(T)));
    if (it == registry().end())
      throw std::runtime_error("returning an unregistered C++ type");
    object o = checked(it->second.type->tp_alloc(it->second.type, 0));
    auto *inst = reinterpret_cast<instance *>(o.ptr());
    inst->rec = &it->second;
    inst->ready = false;
    inst->value = ::operator new(it->second.size);
    new (inst->value) T(std::move(v));
    inst->ready = true;
    return o.release();
  }
  static PyObject *to(const T &v, PyObject *self) {
    if (self) {
      auto it = registry().find(std::type_index(typeid(T)));
      if (it != registry().end() && PyObject_TypeCheck(self, it->second.type)) {
        auto *inst = reinterpret_cast<instance *>(self);
        if (inst->value == static_cast<const void *>(&v)) {
          Py_INCREF(self);
          return self;
        }
      }
    }
    return wrap_new(T(v));
  }
};

// enums --------------------------------------------------------------------
template <typename T> struct caster<T, std::enable_if_t<std::is_enum_v<T>>> {
  T value{};
  bool load(PyObject *o, bool) {
    auto it = enum_registry().find(std::type_index(typeid(T)));
    if (it == enum_registry().end())
      return false;
    int r = PyObject_IsInstance(o, it->second.ptr());
    if (r <= 0) {
      PyErr_Clear();
      return false;
    }
    object v = object::steal(PyObject_GetAttrString(o, "value"));
    if (!v.ptr()) {
      PyErr_Clear();
      return false;
    }
    value = static_cast<T>(PyLong_AsLongLong(v.ptr()));
    return true;
  }
  T &get() { return value; }
  static PyObject *to(const T &v, PyObject *) {
    auto it = enum_registry().find(std::type_index(typeid(T)));
    if (it == enum_registry().end())
      throw std::runtime_error("returning an unregistered enum");
    object i = checked(PyLong_FromLongLong(static_cast<long long>(v)));
    return checked(PyObject_CallFunctionObjArgs(it->second.ptr(), i.ptr(), nullptr))
        .release();
  }
};

template <> struct caster<bool> {
  bool value = false;
  bool load(PyObject *o, bool) {
    if (o == Py_True) {
      value = true;
      return true;
    }
    if (o == Py_False) {
      value = false;
      return true;
    }
    return false;
  }
  bool &get() { return value; }
  static PyObject *to(const bool &v, PyObject *) { return PyBool_FromLong(v); }
};

template <typename T>
struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  T value = 0;
  bool load(PyObject *o, bool convert) {
    object tmp;
    if (!PyLong_Check(o)) {
      if (!convert || PyFloat_Check(o))
        return false;
      if (!PyIndex_Check(o))
        return false;
      tmp = object::steal(PyNumber_Index(o));
      if (!tmp.ptr()) {
        PyErr_Clear();
        return false;
      }
      o = tmp.ptr();
    }
    if constexpr (std::is_unsigned_v<T>) {
      unsigned long long v = PyLong_AsUnsignedLongLong(o);
      if (PyErr_Occurred()) {
        PyErr_Clear();
        return false;
      }
      if (v > std::numeric_limits<T>::max())
        return false;
      value = static_cast<T>(v);
    } else {
      long long v = PyLong_AsLongLong(o);
      if (PyErr_Occurred()) {
        PyErr_Clear();
        return false;
      }
      if (v > std::numeric_limits<T>::max() || v < std::numeric_limits<T>::min())
        return false;
      value = static_cast<T>(v);
    }
    return true;
  }
  T &get() { return value; }
  static PyObject *to(const T &v, PyObject *) {
    if constexpr (std::is_unsigned_v<T>)
      return PyLong_FromUnsignedLongLong(v);
    else
      return PyLong_FromLongLong(v);
  }
};

template <typename T> struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  T value = 0;
  bool load(PyObject *o, bool convert) {
    if (!PyFloat_Check(o) && !convert)
      return false;
    double d = PyFloat_AsDouble(o);
    if (PyErr_Occurred()) {
      PyErr_Clear();
      return false;
    }
    value = static_cast<T>(d);
    return true;
  }
  T &get() { return value; }
  static PyObject *to(const T &v, PyObject *) {
    return PyFloat_FromDouble(static_cast<double>(v));
  }
};

template <> struct caster<std::string> {
  std::string value;
  bool load(PyObject *o, bool) {
    if (!PyUnicode_Check(o))
      return false;
    Py_ssize_t n = 0;
    const char *s = PyUnicode_AsUTF8AndSize(o, &n);
    if (!s) {
      PyErr_Clear();
      return false;
    }
    value.assign(s, static_cast<size_t>(n));
    return true;
  }
  std::string &get() { return value; }
  static PyObject *to(const std::string &v, PyObject *) {
    return PyUnicode_FromStringAndSize(v.data(), static_cast<Py_ssize_t>(v.size()));
  }
};

template <> struct caster<tuple> {
  tuple value;
  bool load(PyObject *o, bool) {
    if (!PyTuple_Check(o))
      return false;
    value = tuple(object::borrow(o));
    return true;
  }
  tuple &get() { return value; }
  static PyObject *to(const tuple &v, PyObject *) {
    Py_XINCREF(v.ptr());
    return v.ptr();
  }
};

template <> struct caster<object> {
  object value;
  bool load(PyObject *o, bool) {
    value = object::borrow(o);
    return true;
  }
  object &get() { return value; }
  static PyObject *to(const object &v, PyObject *) {
    Py_XINCREF(v.ptr());
    return v.ptr();
  }
};

template <typename E> struct caster<std::vector<E>> {
  std::vector<E> value;
  bool load(PyObject *o, bool convert) {
    if (PyUnicode_Check(o) || PyBytes_Check(o) || !PySequence_Check(o))
      return false;
    object seq = object::steal(PySequence_Fast(o, "sequence"));
    if (!seq.ptr()) {
      PyErr_Clear();
      return false;
    }
    Py_ssize_t n = PySequence_Fast_GET_SIZE(seq.ptr());
    value.clear();
    value.reserve(static_cast<size_t>(n));
    for (Py_ssize_t i = 0; i < n; i++) {
      caster<E> c;
      if (!c.load(PySequence_Fast_GET_ITEM(seq.ptr(), i), convert))
        return false;
      value.push_back(c.get());
    }
    return true;
  }
  std::vector<E> &get() { return value; }
  static PyObject *to(const std::vector<E> &v, PyObject *) {
    object l = checked(PyList_New(static_cast<Py_ssize_t>(v.size())));
    for (size_t i = 0; i < v.size(); i++) {
      PyObject *e = caster<E>::to(v[i], nullptr);
      if (!e)
        throw python_error();
      PyList_SET_ITEM(l.ptr(), static_cast<Py_ssize_t>(i), e);
    }
    return l.release();
  }
};

template <typename A, typename B> struct caster<std::pair<A, B>> {
  std::pair<A, B> value;
  bool load(PyObject *o, bool convert) {
    if (!PyTuple_Check(o) || PyTuple_GET_SIZE(o) != 2)
      return false;
    caster<A> a;
    caster<B> b;
    if (!a.load(PyTuple_GET_ITEM(o, 0), convert) || !b.load(PyTuple_GET_ITEM(o, 1), convert))
      return false;
    value = std::pair<A, B>(a.get(), b.get());
    return true;
  }
  std::pair<A, B> &get() { return value; }
  static PyObject *to(const std::pair<A, B> &v, PyObject *) {
    object a = checked(caster<A>::to(v.first, nullptr));
    object b = checked(caster<B>::to(v.second, nullptr));
    return checked(PyTuple_Pack(2, a.ptr(), b.ptr())).release();
  }
};

template <typename... T> struct caster<std::tuple<T...>> {
  std::tuple<caster<T>...> parts;
  std::optional<std::tuple<T...>> value;
  template <size_t... I> bool load_(PyObject *o, bool convert, std::index_sequence<I...>) {
    bool ok = (std::get<I>(parts).load(PyTuple_GET_ITEM(o, I), convert) && ...);
    if (ok)
      value.emplace(std::get<I>(parts).get()...);
    return ok;
  }
  bool load(PyObject *o, bool convert) {
    if (!PyTuple_Check(o) || PyTuple_GET_SIZE(o) != static_cast<Py_ssize_t>(sizeof...(T)))
      return false;
    return load_(o, convert, std::index_sequence_for<T...>{});
  }
  std::tuple<T...> &get() { return *value; }
  template <size_t... I>
  static PyObject *to_(const std::tuple<T...> &v, std::index_sequence<I...>) {
    object t = checked(PyTuple_New(sizeof...(T)));
    auto put = [&](Py_ssize_t i, PyObject *e) {
      if (!e)
        throw python_error();
      PyTuple_SET_ITEM(t.ptr(), i, e);
    };
    (put(I, caster<T>::to(std::get<I>(v), nullptr)), ...);
    return t.release();
  }
  static PyObject *to(const std::tuple<T...> &v, PyObject *) {
    return to_(v, std::index_sequence_for<T...>{});
  }
};

template <typename V> struct caster<std::map<std::string, V>> {
  static PyObject *to(const std::map<std::string, V> &v, PyObject *) {
    object d = checked(PyDict_New());
    for (auto &kv : v) {
      object e = checked(caster<V>::to(kv.second, nullptr));
      if (PyDict_SetItemString(d.ptr(), kv.first.c_str(), e.ptr()) != 0)
        throw python_error();
    }
    return d.release();
  }
};

template <typename... T> struct caster<std::variant<T...>> {
  std::variant<T...> value;
  template <typename A> bool try_one(PyObject *o, bool convert) {
    caster<A> c;
    if (!c.load(o, convert))
      return false;
    value = std::move(c.get());
    return true;
  }
  bool load(PyObject *o, bool convert) { return (try_one<T>(o, convert) || ...); }
  std::variant<T...> &get() { return value; }
};

template <typename T> arg arg::operator=(T v) const {
  arg r(*this);
  r.has_def = true;
  r.def = object::steal(caster<plain_t<T>>::to(v, nullptr));
  return r;
}

template <typename T> T cast(handle h) {
  caster<T> c;
  if (!c.load(h.ptr(), true))
    throw cast_error();
  return T(c.get());
}

template <typename... A> tuple make_tuple(const A &...a) {
  std::vector<object> parts;
  (parts.push_back(checked(caster<plain_t<A>>::to(a, nullptr))), ...);
  object t = checked(PyTuple_New(static_cast<Py_ssize_t>(parts.size())));
  for (size_t i = 0; i < parts.size(); i++)
    PyTuple_SET_ITEM(t.ptr(), static_cast<Py_ssize_t>(i), parts[i].release());
  return tuple(t);
}

// ----------------------------------------------------------------- functions
// One overload.  `call` returns a new reference, or nullptr with *matched set
// to false when the arguments do not fit.
struct overload {
  std::vector<arg> args; // names/defaults, without self
  size_t n_args = 0;     // without self
  std::function<PyObject *(PyObject *self, std::vector<PyObject *> &, bool convert,
                           bool *matched)>
      call;
};

struct func_object {
  PyObject_HEAD std::vector<overload> *overloads;
  std::string *name;
  bool is_method;
};

inline void set_python_error() {
  try {
    throw;
  } catch (const python_error &) {
    if (!PyErr_Occurred())
      PyErr_SetString(PyExc_SystemError, "python_error without an error");
  } catch (const std::invalid_argument &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::domain_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::length_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::out_of_range &e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const std::range_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::overflow_error &e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (const std::bad_alloc &e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (const std::exception &e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "unknown C++ exception");
  }
}

inline PyObject *dispatch(func_object *f, PyObject *self, PyObject *const *pos,
                          size_t n_pos, PyObject *kwnames, PyObject *const *kwvals) {
  size_t n_kw = kwnames ? static_cast<size_t>(PyTuple_GET_SIZE(kwnames)) : 0;
  try {
    for (int pass = 0; pass < 2; pass++) {
      bool convert = pass == 1;
      if (f->overloads->size() == 1 && pass == 0)
        continue;
      for (auto &o : *f->overloads) {
        if (n_pos > o.n_args)
          continue;
        std::vector<PyObject *> a(o.n_args, nullptr);
        for (size_t i = 0; i < n_pos; i++)
          a[i] = pos[i];
        bool ok = true;
        for (size_t k = 0; k < n_kw && ok; k++) {
          const char *kn = PyUnicode_AsUTF8(PyTuple_GET_ITEM(kwnames, static_cast<Py_ssize_t>(k)));
          bool found = false;
          for (size_t i = 0; i < o.args.size(); i++) {
            if (o.args[i].name == kn) {
              if (a[i])
                ok = false;
              a[i] = kwvals[k];
              found = true;
              break;
            }
          }
          ok = ok && found;
        }
        if (!ok)
          continue;
        for (size_t i = 0; i < o.n_args; i++) {
          if (!a[i]) {
            if (i < o.args.size() && o.args[i].has_def)
              a[i] = o.args[i].def.ptr();
            else {
              ok = false;
              break;
            }
          }
        }
        if (!ok)
          continue;
        bool matched = false;
        PyObject *r = o.call(self, a, convert, &matched);
        if (matched) {
          if (!r && !PyErr_Occurred())
            PyErr_SetString(PyExc_SystemError, "binding returned null");
          return r;
        }
      }
    }
  } catch (...) {
    set_python_error();
    return nullptr;
  }
  PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", f->name->c_str());
  return nullptr;
}

inline PyTypeObject *func_type();

inline PyObject *func_call_unguarded(PyObject *callable, PyObject *args, PyObject *kwargs) {
  auto *f = reinterpret_cast<func_object *>(callable);
  std::vector<PyObject *> pos;
  for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(args); i++)
    pos.push_back(PyTuple_GET_ITEM(args, i));
  object names;
  std::vector<PyObject *> vals;
  if (kwargs && PyDict_GET_SIZE(kwargs) > 0) {
    std::vector<PyObject *> ks;
    PyObject *k, *v;
    Py_ssize_t p = 0;
    while (PyDict_Next(kwargs, &p, &k, &v)) {
      ks.push_back(k);
      vals.push_back(v);
    }
    names = object::steal(PyTuple_New(static_cast<Py_ssize_t>(ks.size())));
    for (size_t i = 0; i < ks.size(); i++) {
      Py_INCREF(ks[i]);
      PyTuple_SET_ITEM(names.ptr(), static_cast<Py_ssize_t>(i), ks[i]);
    }
  }
  PyObject *self = nullptr;
  size_t skip = 0;
  if (f->is_method) {
    if (pos.empty()) {
      PyErr_SetString(PyExc_TypeError, "missing self");
      return nullptr;
    }
    self = pos[0];
    skip = 1;
  }
  return dispatch(f, self, pos.data() + skip, pos.size() - skip, names.ptr(), vals.data());
}
inline PyObject *func_call(PyObject *callable, PyObject *args, PyObject *kwargs) {
  try {
    return func_call_unguarded(callable, args, kwargs);
  } catch (...) {
    set_python_error();
    return nullptr;
  }
}
inline PyObject *func_get(PyObject *self, PyObject *obj, PyObject *) {
  if (!obj || obj == Py_None || !reinterpret_cast<func_object *>(self)->is_method) {
    Py_INCREF(self);
    return self;
  }
  return PyMethod_New(self, obj);
}
inline void func_dealloc(PyObject *self) {
  auto *f = reinterpret_cast<func_object *>(self);
  delete f->overloads;
  delete f->name;
  PyTypeObject *t = Py_TYPE(self);
  t->tp_free(self);
  Py_DECREF(t);
}
inline PyTypeObject *func_type() {
  static PyTypeObject *t = nullptr;
  if (!t) {
    static PyType_Slot slots[] = {{Py_tp_call, reinterpret_cast<void *>(func_call)},
                                  {Py_tp_descr_get, reinterpret_cast<void *>(func_get)},
                                  {Py_tp_dealloc, reinterpret_cast<void *>(func_dealloc)},
                                  {0, nullptr}};
    static PyType_Spec spec = {"nbshim.function", sizeof(func_object), 0, Py_TPFLAGS_DEFAULT,
                               slots};
    t = reinterpret_cast<PyTypeObject *>(PyType_FromSpec(&spec));
  }
  return t;
}
inline object new_func(const std::string &name, bool is_method) {
  auto *f = PyObject_New(func_object, func_type());
  if (!f)
    throw python_error();
  f->overloads = new std::vector<overload>();
  f->name = new std::string(name);
  f->is_method = is_method;
  return object::steal(reinterpret_cast<PyObject *>(f));
}
inline void add_overload(PyObject *scope, const std::string &name, bool is_method, overload o) {
  object cur;
  if (PyType_Check(scope)) {
    PyObject *d = reinterpret_cast<PyTypeObject *>(scope)->tp_dict;
    cur = object::borrow(PyDict_GetItemString(d, name.c_str()));
  } else {
    cur = object::steal(PyObject_GetAttrString(scope, name.c_str()));
    PyErr_Clear();
  }
  if (!cur.ptr() || Py_TYPE(cur.ptr()) != func_type()) {
    cur = new_func(name, is_method);
    if (PyObject_SetAttrString(scope, name.c_str(), cur.ptr()) != 0)
      throw python_error();
  }
  reinterpret_cast<func_object *>(cur.ptr())->overloads->push_back(std::move(o));
}

inline void collect_args(std::vector<arg> &) {}
template <typename... E> void collect_args(std::vector<arg> &v, const arg &a, const E &...e) {
  v.push_back(a);
  collect_args(v, e...);
}

template <typename R> PyObject *convert_result(R &&r, PyObject *self) {
  return caster<plain_t<R>>::to(r, self);
}

// free function / function taking the object as its first argument
template <typename R, typename... A, typename F, size_t... I>
overload make_free(F f, std::index_sequence<I...>) {
  overload o;
  o.n_args = sizeof...(A);
  o.call = [f](PyObject *, std::vector<PyObject *> &a, bool convert, bool *matched) -> PyObject * {
    std::tuple<caster<plain_t<A>>...> c;
    if (!(std::get<I>(c).load(a[I], convert) && ...))
      return nullptr;
    *matched = true;
    if constexpr (std::is_void_v<R>) {
      fault_scope running;
      f(std::get<I>(c).get()...);
      Py_RETURN_NONE;
    } else {
      auto run = [&]() -> R {
        fault_scope running;
        return f(std::get<I>(c).get()...);
      };
      return convert_result<R>(run(), nullptr);
    }
    (void)a;
    (void)convert;
  };
  return o;
}

template <typename C, typename R, typename... A, typename F, size_t... I>
overload make_method(F f, bool raw, std::index_sequence<I...>) {
  overload o;
  o.n_args = sizeof...(A);
  o.call = [f, raw](PyObject *self, std::vector<PyObject *> &a, bool convert,
                    bool *matched) -> PyObject * {
    (void)a;
    (void)convert;
    auto it = registry().find(std::type_index(typeid(C)));
    if (it == registry().end() || !PyObject_TypeCheck(self, it->second.type))
      return nullptr;
    auto *inst = reinterpret_cast<instance *>(self);
    if (raw) {
      if (inst->ready)
        return nullptr; // __setstate__ on a constructed object
    } else if (!inst->ready) {
      return nullptr;
    }
    C &c_self = *static_cast<C *>(inst->value);
    std::tuple<caster<plain_t<A>>...> c;
    if (!(std::get<I>(c).load(a[I], convert) && ...))
      return nullptr;
    *matched = true;
    if constexpr (std::is_void_v<R>) {
      fault_scope running;
      f(c_self, std::get<I>(c).get()...);
      if (raw)
        inst->ready = true;
      Py_RETURN_NONE;
    } else {
      auto run = [&]() -> R {
        fault_scope running;
        return f(c_self, std::get<I>(c).get()...);
      };
      return convert_result<R>(run(), self);
    }
  };
  return o;
}

template <typename F> struct lambda_sig : lambda_sig<decltype(&F::operator())> {};
template <typename L, typename R, typename S, typename... A>
struct lambda_sig<R (L::*)(S, A...) const> {
  template <typename C, typename F> static overload method(F f, bool raw) {
    return make_method<C, R, A...>(f, raw, std::index_sequence_for<A...>{});
  }
};

// -------------------------------------------------------------------- module
struct doc_proxy {
  PyObject *m;
  void operator=(const std::string &s) {
    object d = checked(PyUnicode_FromStringAndSize(s.data(), static_cast<Py_ssize_t>(s.size())));
    PyObject_SetAttrString(m, "__doc__", d.ptr());
  }
};
struct attr_proxy {
  PyObject *m;
  std::string name;
  template <typename T> void operator=(const T &v) {
    object d = checked(caster<T>::to(v, nullptr));
    PyObject_SetAttrString(m, name.c_str(), d.ptr());
  }
};
struct module_ {
  PyObject *m;
  doc_proxy doc() { return {m}; }
  attr_proxy attr(const char *n) { return {m, n}; }
  template <typename R, typename... A, typename... E>
  module_ &def(const char *name, R (*f)(A...), const E &...e) {
    overload o = make_free<R, A...>(f, std::index_sequence_for<A...>{});
    collect_args(o.args, e...);
    add_overload(m, name, false, std::move(o));
    return *this;
  }
};

template <typename T> struct enum_ {
  PyObject *m;
  std::string name;
  std::vector<std::pair<std::string, T>> values;
  enum_(module_ &mod, const char *n) : m(mod.m), name(n) {}
  enum_ &value(const char *n, T v) {
    values.emplace_back(n, v);
    return *this;
  }
  ~enum_() {
    object mod = object::steal(PyImport_ImportModule("enum"));
    object cls = object::steal(PyObject_GetAttrString(mod.ptr(), "Enum"));
    object members = object::steal(PyList_New(0));
    for (auto &kv : values) {
      object t = object::steal(
          Py_BuildValue("(sL)", kv.first.c_str(), static_cast<long long>(kv.second)));
      PyList_Append(members.ptr(), t.ptr());
    }
    object kw = object::steal(PyDict_New());
    object mn = object::steal(PyObject_GetAttrString(m, "__name__"));
    PyDict_SetItemString(kw.ptr(), "module", mn.ptr());
    object args = object::steal(Py_BuildValue("(sO)", name.c_str(), members.ptr()));
    object e = object::steal(PyObject_Call(cls.ptr(), args.ptr(), kw.ptr()));
    if (!e.ptr()) {
      PyErr_Print();
      std::abort();
    }
    PyObject_SetAttrString(m, name.c_str(), e.ptr());
    enum_registry()[std::type_index(typeid(T))] = e;
  }
};

inline PyObject *inst_new(PyTypeObject *type, PyObject *, PyObject *) {
  PyObject *o = type->tp_alloc(type, 0);
  if (!o)
    return nullptr;
  auto *inst = reinterpret_cast<instance *>(o);
  inst->ready = false;
  inst->rec = nullptr;
  for (auto &kv : registry())
    if (PyType_IsSubtype(type, kv.second.type))
      inst->rec = &kv.second;
  inst->value = inst->rec ? ::operator new(inst->rec->size) : nullptr;
  return o;
}
inline int inst_init(PyObject *self, PyObject *args, PyObject *kwargs) {
  object f = object::steal(
      PyObject_GetAttrString(reinterpret_cast<PyObject *>(Py_TYPE(self)), "_nb_init"));
  if (!f.ptr())
    return -1;
  auto *fo = reinterpret_cast<func_object *>(f.ptr());
  object full = object::steal(PyTuple_New(PyTuple_GET_SIZE(args) + 1));
  Py_INCREF(self);
  PyTuple_SET_ITEM(full.ptr(), 0, self);
  for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(args); i++) {
    PyObject *a = PyTuple_GET_ITEM(args, i);
    Py_INCREF(a);
    PyTuple_SET_ITEM(full.ptr(), i + 1, a);
  }
  (void)fo;
  object r = object::steal(PyObject_Call(f.ptr(), full.ptr(), kwargs));
  return r.ptr() ? 0 : -1;
}
inline void inst_dealloc(PyObject *self) {
  auto *inst = reinterpret_cast<instance *>(self);
  if (inst->value) {
    if (inst->ready)
      inst->rec->destroy(inst->value);
    ::operator delete(inst->value);
  }
  PyTypeObject *t = Py_TYPE(self);
  t->tp_free(self);
  Py_DECREF(t);
}

template <typename T> struct class_ {
  PyObject *type;
  class_(module_ &m, const char *name) {
    object mn = checked(PyObject_GetAttrString(m.m, "__name__"));
    std::string full = std::string(PyUnicode_AsUTF8(mn.ptr())) + "." + name;
    static std::vector<std::unique_ptr<std::string>> keep;
    keep.push_back(std::make_unique<std::string>(full));
    PyType_Slot slots[] = {{Py_tp_new, reinterpret_cast<void *>(inst_new)},
                           {Py_tp_init, reinterpret_cast<void *>(inst_init)},
                           {Py_tp_dealloc, reinterpret_cast<void *>(inst_dealloc)},
                           {0, nullptr}};
    PyType_Spec spec = {keep.back()->c_str(), sizeof(instance), 0,
                        Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    type = PyType_FromSpec(&spec);
    if (!type)
      throw python_error();
    type_record r;
    r.type = reinterpret_cast<PyTypeObject *>(type);
    r.size = sizeof(T);
    r.destroy = destroy_impl<T>;
    r.name = name;
    registry()[std::type_index(typeid(T))] = r;
    PyObject_SetAttrString(m.m, name, type);
  }

  template <typename... A, typename... E> class_ &def(init<A...>, const E &...e) {
    add_init<A...>(std::index_sequence_for<A...>{}, e...);
    return *this;
  }
  template <typename... A, size_t... I, typename... E>
  void add_init(std::index_sequence<I...>, const E &...e) {
    overload o;
    o.n_args = sizeof...(A);
    collect_args(o.args, e...);
    o.call = [](PyObject *self, std::vector<PyObject *> &a, bool convert,
                bool *matched) -> PyObject * {
      (void)a;
      (void)convert;
      auto *inst = reinterpret_cast<instance *>(self);
      if (inst->ready)
        return nullptr;
      std::tuple<caster<plain_t<A>>...> c;
      if (!(std::get<I>(c).load(a[I], convert) && ...))
        return nullptr;
      *matched = true;
      {
        fault_scope running;
        new (inst->value) T(std::get<I>(c).get()...);
      }
      inst->ready = true;
      Py_RETURN_NONE;
    };
    add_overload(type, "_nb_init", true, std::move(o));
  }

  template <typename R, typename... A, typename... E>
  class_ &def(const char *name, R (T::*f)(A...), const E &...e) {
    return add(name,
               make_method<T, R, A...>([f](T &t, auto &&...x) -> R { return (t.*f)(x...); }, false,
                                       std::index_sequence_for<A...>{}),
               e...);
  }
  template <typename B, typename R, typename... A, typename... E>
  class_ &def(const char *name, R (B::*f)(A...) const, const E &...e) {
    return add(name,
               make_method<T, R, A...>(
                   [f](T &t, auto &&...x) -> R { return (static_cast<const B &>(t).*f)(x...); },
                   false, std::index_sequence_for<A...>{}),
               e...);
  }
  template <typename F, typename... E, typename = decltype(&F::operator())>
  class_ &def(const char *name, F f, const E &...e) {
    bool raw = std::strcmp(name, "__setstate__") == 0;
    return add(name, lambda_sig<F>::template method<T>(f, raw), e...);
  }
  template <typename... E> class_ &add(const char *name, overload o, const E &...e) {
    collect_args(o.args, e...);
    add_overload(type, name, true, std::move(o));
    return *this;
  }

  template <typename D> class_ &def_rw(const char *name, D T::*member) {
    overload g, s;
    g.n_args = 0;
    g.call = [member](PyObject *self, std::vector<PyObject *> &, bool,
                      bool *matched) -> PyObject * {
      auto *inst = reinterpret_cast<instance *>(self);
      if (!inst->ready)
        return nullptr;
      *matched = true;
      return caster<D>::view(static_cast<T *>(inst->value)->*member, self);
    };
    s.n_args = 1;
    s.call = [member](PyObject *self, std::vector<PyObject *> &a, bool convert,
                      bool *matched) -> PyObject * {
      auto *inst = reinterpret_cast<instance *>(self);
      if (!inst->ready)
        return nullptr;
      caster<D> c;
      if (!c.load(a[0], convert))
        return nullptr;
      *matched = true;
      static_cast<T *>(inst->value)->*member = c.get();
      Py_RETURN_NONE;
    };
    object gf = new_func(name, true), sf = new_func(name, true);
    reinterpret_cast<func_object *>(gf.ptr())->overloads->push_back(std::move(g));
    reinterpret_cast<func_object *>(sf.ptr())->overloads->push_back(std::move(s));
    object prop = checked(PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject *>(&PyProperty_Type),
                                                       gf.ptr(), sf.ptr(), nullptr));
    if (PyObject_SetAttrString(type, name, prop.ptr()) != 0)
      throw python_error();
    return *this;
  }
};

#define NB_MODULE(NAME, VAR)                                                                       \
  static void nbshim_fill_##NAME(nanobind::module_ &VAR);                                          \
  extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##NAME() {                    \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #NAME, nullptr, -1, nullptr,                  \
                              nullptr,               nullptr, nullptr, nullptr};                   \
    PyObject *m = PyModule_Create(&def);                                                           \
    if (!m)                                                                                        \
      return nullptr;                                                                              \
    PyObject *full = PyUnicode_FromString(NBSHIM_FULLNAME);                                        \
    PyObject_SetAttrString(m, "__name__", full);                                                   \
    Py_XDECREF(full);                                                                              \
    nanobind::module_ mod{m};                                                                      \
    try {                                                                                          \
      nbshim_fill_##NAME(mod);                                                                     \
    } catch (...) {                                                                                \
      nanobind::set_python_error();                                                                \
      Py_DECREF(m);                                                                                \
      return nullptr;                                                                              \
    }                                                                                              \
    return m;                                                                                      \
  }                                                                                                \
  static void nbshim_fill_##NAME(nanobind::module_ &VAR)

#ifndef NBSHIM_FULLNAME
#define NBSHIM_FULLNAME "nbshim_module"
#endif

} // namespace nanobind
