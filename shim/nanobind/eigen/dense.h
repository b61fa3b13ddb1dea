// Eigen <-> numpy/scipy conversions of the nanobind shim.
#pragma once
#include "../nanobind.h"
#include <Eigen/Core>
#include <Eigen/Sparse>

namespace nanobind {

template <typename S> struct np_format;
template <> struct np_format<float> { static constexpr const char *name = "float32"; };
template <> struct np_format<double> { static constexpr const char *name = "float64"; };
template <> struct np_format<int32_t> { static constexpr const char *name = "int32"; };
template <> struct np_format<int64_t> { static constexpr const char *name = "int64"; };

inline object py_attr(PyObject *o, const char *n) { return checked(PyObject_GetAttrString(o, n)); }
inline object &cached_module(const char *n) {
  static auto *cache = new std::map<std::string, object>();
  auto &slot = (*cache)[n];
  if (!slot.ptr())
    slot = checked(PyImport_ImportModule(n));
  return slot;
}
inline bool is_ndarray(PyObject *o) {
  object t = py_attr(cached_module("numpy").ptr(), "ndarray");
  return PyObject_IsInstance(o, t.ptr()) == 1;
}
inline bool has_dtype(PyObject *arr, const char *name) {
  object dt = py_attr(arr, "dtype");
  object nm = py_attr(dt.ptr(), "name");
  object nat = py_attr(dt.ptr(), "isnative");
  return std::strcmp(PyUnicode_AsUTF8(nm.ptr()), name) == 0 && nat.ptr() == Py_True;
}
// C-contiguous array of the given dtype (copy if needed)
inline object as_contiguous(PyObject *o, const char *dtype) {
  object f = py_attr(cached_module("numpy").ptr(), "ascontiguousarray");
  object kw = checked(Py_BuildValue("{s:s}", "dtype", dtype));
  object args = checked(PyTuple_Pack(1, o));
  return checked(PyObject_Call(f.ptr(), args.ptr(), kw.ptr()));
}

struct buffer {
  Py_buffer b{};
  bool held = false;
  bool acquire(PyObject *o, int flags) {
    if (PyObject_GetBuffer(o, &b, flags) != 0) {
      PyErr_Clear();
      return false;
    }
    held = true;
    return true;
  }
  ~buffer() {
    if (held)
      PyBuffer_Release(&b);
  }
};

// new numpy array holding a copy of n elements
template <typename S> object new_array(const S *data, const std::vector<Py_ssize_t> &shape) {
  object np_empty = py_attr(cached_module("numpy").ptr(), "empty");
  object sh = checked(PyTuple_New(static_cast<Py_ssize_t>(shape.size())));
  Py_ssize_t n = 1;
  for (size_t i = 0; i < shape.size(); i++) {
    n *= shape[i];
    PyTuple_SET_ITEM(sh.ptr(), static_cast<Py_ssize_t>(i), PyLong_FromSsize_t(shape[i]));
  }
  object arr = checked(
      PyObject_CallFunction(np_empty.ptr(), "Os", sh.ptr(), np_format<S>::name));
  if (n > 0) {
    buffer b;
    if (!b.acquire(arr.ptr(), PyBUF_WRITABLE | PyBUF_C_CONTIGUOUS))
      throw std::runtime_error("numpy buffer");
    std::memcpy(b.b.buf, data, static_cast<size_t>(n) * sizeof(S));
  }
  return arr;
}

// an object exposing C++ memory through the buffer protocol, keeping `owner` alive
struct mem_object {
  PyObject_HEAD void *data;
  PyObject *owner;
  Py_ssize_t shape[2], strides[2];
  Py_ssize_t itemsize;
  const char *format;
};
inline int mem_getbuffer(PyObject *self, Py_buffer *view, int) {
  auto *m = reinterpret_cast<mem_object *>(self);
  view->buf = m->data;
  view->obj = self;
  Py_INCREF(self);
  view->len = m->shape[0] * m->shape[1] * m->itemsize;
  view->itemsize = m->itemsize;
  view->readonly = 0;
  view->ndim = 2;
  view->format = const_cast<char *>(m->format);
  view->shape = m->shape;
  view->strides = m->strides;
  view->suboffsets = nullptr;
  view->internal = nullptr;
  return 0;
}
inline void mem_dealloc(PyObject *self) {
  Py_XDECREF(reinterpret_cast<mem_object *>(self)->owner);
  PyTypeObject *t = Py_TYPE(self);
  t->tp_free(self);
  Py_DECREF(t);
}
inline PyTypeObject *mem_type() {
  static PyTypeObject *t = nullptr;
  if (!t) {
    static PyType_Slot slots[] = {{Py_bf_getbuffer, reinterpret_cast<void *>(mem_getbuffer)},
                                  {Py_tp_dealloc, reinterpret_cast<void *>(mem_dealloc)},
                                  {0, nullptr}};
    static PyType_Spec spec = {"nbshim.memory", sizeof(mem_object), 0, Py_TPFLAGS_DEFAULT, slots};
    t = reinterpret_cast<PyTypeObject *>(PyType_FromSpec(&spec));
  }
  return t;
}

// dynamic row-major dense matrix
template <typename S>
struct caster<Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>> {
  using M = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
  M value;
  bool load(PyObject *o, bool convert) {
    try {
      if (!is_ndarray(o) && !convert)
        return false;
      if (is_ndarray(o)) {
        object nd = py_attr(o, "ndim");
        if (PyLong_AsLong(nd.ptr()) != 2)
          return false;
        if (!has_dtype(o, np_format<S>::name) && !convert)
          return false;
      }
      object a = as_contiguous(o, np_format<S>::name);
      buffer b;
      if (!b.acquire(a.ptr(), PyBUF_C_CONTIGUOUS | PyBUF_FORMAT) || b.b.ndim != 2)
        return false;
      value.resize(b.b.shape[0], b.b.shape[1]);
      if (value.size() > 0)
        std::memcpy(value.data(), b.b.buf, static_cast<size_t>(value.size()) * sizeof(S));
      return true;
    } catch (const python_error &) {
      PyErr_Clear();
      return false;
    }
  }
  M &get() { return value; }
  static PyObject *to(const M &v, PyObject *) {
    return new_array<S>(v.data(), {v.rows(), v.cols()}).release();
  }
  // nanobind's def_rw getter: reference_internal, i.e. a view of the member
  static PyObject *view(M &v, PyObject *owner) {
    if (v.size() == 0)
      return to(v, nullptr);
    auto *m = PyObject_New(mem_object, mem_type());
    if (!m)
      throw python_error();
    m->data = v.data();
    m->owner = owner;
    Py_INCREF(owner);
    m->shape[0] = v.rows();
    m->shape[1] = v.cols();
    m->itemsize = sizeof(S);
    m->strides[0] = v.cols() * static_cast<Py_ssize_t>(sizeof(S));
    m->strides[1] = sizeof(S);
    m->format = sizeof(S) == 4 ? "f" : "d";
    object mo = object::steal(reinterpret_cast<PyObject *>(m));
    object f = py_attr(cached_module("numpy").ptr(), "asarray");
    return checked(PyObject_CallFunctionObjArgs(f.ptr(), mo.ptr(), nullptr)).release();
  }
};

// Eigen::Ref<row-major matrix>: no conversion, any row stride, writable
template <typename S>
struct caster<Eigen::Ref<Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>>> {
  using M = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
  using R = Eigen::Ref<M>;
  using Map = Eigen::Map<M, Eigen::Unaligned, Eigen::OuterStride<>>;
  buffer b;
  std::optional<Map> map;
  std::optional<R> ref;
  bool load(PyObject *o, bool) {
    try {
      if (!is_ndarray(o) || !has_dtype(o, np_format<S>::name))
        return false;
    } catch (const python_error &) {
      PyErr_Clear();
      return false;
    }
    if (!b.acquire(o, PyBUF_STRIDES | PyBUF_WRITABLE | PyBUF_FORMAT) || b.b.ndim != 2)
      return false;
    Py_ssize_t r = b.b.shape[0], c = b.b.shape[1];
    Py_ssize_t so = b.b.strides[0], si = b.b.strides[1];
    if (c > 1 && si != static_cast<Py_ssize_t>(sizeof(S)))
      return false;
    if (r <= 1 || c == 0)
      so = c * static_cast<Py_ssize_t>(sizeof(S));
    if (so < 0 || so % static_cast<Py_ssize_t>(sizeof(S)) != 0)
      return false;
    map.emplace(static_cast<S *>(b.b.buf), r, c,
                Eigen::OuterStride<>(so / static_cast<Py_ssize_t>(sizeof(S))));
    ref.emplace(*map);
    return true;
  }
  R &get() { return *ref; }
};

// sparse
template <typename S, int Opt, typename Idx> struct caster<Eigen::SparseMatrix<S, Opt, Idx>> {
  using M = Eigen::SparseMatrix<S, Opt, Idx>;
  static constexpr bool row_major = (Opt & Eigen::RowMajor) != 0;
  M value;
  bool load(PyObject *o, bool convert) {
    try {
      object &sps = cached_module("scipy.sparse");
      object issparse = py_attr(sps.ptr(), "issparse");
      object r = checked(PyObject_CallFunctionObjArgs(issparse.ptr(), o, nullptr));
      if (r.ptr() != Py_True)
        return false;
      object cls = py_attr(sps.ptr(), row_major ? "csr_matrix" : "csc_matrix");
      object m = object::borrow(o);
      if (reinterpret_cast<PyObject *>(Py_TYPE(o)) != cls.ptr()) {
        if (!convert)
          return false;
        m = checked(PyObject_CallFunctionObjArgs(cls.ptr(), o, nullptr));
      }
      object sorted = py_attr(m.ptr(), "has_sorted_indices");
      if (PyObject_IsTrue(sorted.ptr()) != 1) {
        object f = py_attr(m.ptr(), "sort_indices");
        checked(PyObject_CallNoArgs(f.ptr()));
      }
      object data = py_attr(m.ptr(), "data");
      if (!convert && !has_dtype(data.ptr(), np_format<S>::name))
        return false;
      data = as_contiguous(data.ptr(), np_format<S>::name);
      object indices = py_attr(m.ptr(), "indices"), indptr = py_attr(m.ptr(), "indptr");
      indices = as_contiguous(indices.ptr(), np_format<Idx>::name);
      indptr = as_contiguous(indptr.ptr(), np_format<Idx>::name);
      object shape = py_attr(m.ptr(), "shape");
      Py_ssize_t rows = PyLong_AsSsize_t(PyTuple_GetItem(shape.ptr(), 0));
      Py_ssize_t cols = PyLong_AsSsize_t(PyTuple_GetItem(shape.ptr(), 1));
      buffer bd, bi, bp;
      if (!bd.acquire(data.ptr(), PyBUF_C_CONTIGUOUS | PyBUF_FORMAT) ||
          !bi.acquire(indices.ptr(), PyBUF_C_CONTIGUOUS | PyBUF_FORMAT) ||
          !bp.acquire(indptr.ptr(), PyBUF_C_CONTIGUOUS | PyBUF_FORMAT))
        return false;
      auto *ip = static_cast<const Idx *>(bp.b.buf);
      Py_ssize_t outer = row_major ? rows : cols;
      Idx nnz = ip[outer];
      if (bd.b.shape[0] < nnz || bi.b.shape[0] < nnz)
        return false;
      value = Eigen::Map<const M>(rows, cols, nnz, ip, static_cast<const Idx *>(bi.b.buf),
                                  static_cast<const S *>(bd.b.buf));
      return true;
    } catch (const python_error &) {
      PyErr_Clear();
      return false;
    }
  }
  M &get() { return value; }
  static PyObject *to(const M &v, PyObject *) {
    if (!v.isCompressed())
      throw std::invalid_argument("nanobind: unable to return an Eigen sparse matrix that is not in "
                                  "a compressed format.");
    Py_ssize_t nnz = v.nonZeros();
    object data = new_array<S>(v.valuePtr(), {nnz});
    object ind = new_array<Idx>(v.innerIndexPtr(), {nnz});
    object ptr = new_array<Idx>(v.outerIndexPtr(), {v.outerSize() + 1});
    object cls = py_attr(cached_module("scipy.sparse").ptr(), row_major ? "csr_matrix" : "csc_matrix");
    object args = checked(Py_BuildValue("((OOO)(nn))", data.ptr(), ind.ptr(), ptr.ptr(),
                                        static_cast<Py_ssize_t>(v.rows()),
                                        static_cast<Py_ssize_t>(v.cols())));
    return checked(PyObject_Call(cls.ptr(), args.ptr(), nullptr)).release();
  }
};

} // namespace nanobind
