// A Python module around the C++ array and ragged-tensor library (k2/csrc),
// so that it can be compared with operations on nested lists.
#include <sstream>

#include "k2/csrc/algorithms.h"
#include "k2/csrc/array_ops.h"
#include "k2/csrc/fsa.h"
#include "k2/csrc/ragged_ops.h"
#include "k2/csrc/ragged_utils.h"
#include "k2/csrc/tensor_ops.h"
#include "k2/csrc/torch_util.h"
#include "k2/torch/csrc/utils.h"
#include "torch/extension.h"

namespace py = pybind11;
using namespace k2;  // NOLINT
using I = int32_t;
using V = std::vector<I>;
using VV = std::vector<V>;
using S = RaggedShape;
using R = Ragged<I>;
using RF = Ragged<float>;

static ContextPtr C() { return GetCpuContext(); }

template <typename T>
static Array1<T> A(const std::vector<T> &v) { return Array1<T>(C(), v); }

// an array in the middle of a region
template <typename T>
static Array1<T> Mid(const std::vector<T> &v) {
  std::vector<T> w(v.size() + 5, T(77));
  std::copy(v.begin(), v.end(), w.begin() + 2);
  return A(w).Arange(2, 2 + v.size());
}

template <typename T>
static std::vector<T> L(const Array1<T> &a) {
  return std::vector<T>(a.Data(), a.Data() + a.Dim());
}
static V U(const Array1<uint32_t> &a) { return V(a.Data(), a.Data() + a.Dim()); }

// how: 0 row splits only, 1 everything known, 2 row ids where possible and row
// splits, 3 arrays in the middle of regions
static S MakeShape(const VV &splits, int how) {
  std::vector<RaggedShapeLayer> layers(splits.size());
  for (size_t i = 0; i < splits.size(); ++i) {
    auto &l = layers[i];
    l.row_splits = how == 3 ? Mid(splits[i]) : A(splits[i]);
    l.cached_tot_size = how == 1 ? splits[i].back() : -1;
    if (how == 1 || how == 2) {
      V ids;
      for (size_t r = 0; r + 1 < splits[i].size(); ++r)
        ids.insert(ids.end(), splits[i][r + 1] - splits[i][r], r);
      l.row_ids = A(ids);
    }
  }
  return S(layers, true);
}

template <typename T>
static Ragged<T> Make(const VV &splits, const std::vector<T> &vals, int how) {
  return Ragged<T>(MakeShape(splits, how), how == 3 ? Mid(vals) : A(vals));
}

static py::object DumpShape(S &s) {
  s.Check();
  VV splits, ids;
  V tot, mx;
  tot.push_back(s.TotSize(0));
  for (I i = 1; i < s.NumAxes(); ++i) {
    splits.push_back(L(s.RowSplits(i)));
    tot.push_back(s.TotSize(i));
    ids.push_back(L(s.RowIds(i)));
    mx.push_back(s.MaxSize(i));
  }
  return py::make_tuple(splits, ids, tot, mx);
}

template <typename T>
static std::vector<T *> Ptrs(std::vector<T> &v) {
  std::vector<T *> p;
  for (auto &x : v) p.push_back(&x);
  return p;
}

static torch::Tensor TT(k2::Tensor t) { return TensorToTorch(t).clone(); }

static Renumbering Ren(const V &keep) {
  Renumbering r(C(), keep.size());
  for (size_t i = 0; i < keep.size(); ++i) r.Keep().Data()[i] = keep[i];
  return r;
}

template <typename T>
static void Typed(py::class_<Ragged<T>> &c) {
  using RT = Ragged<T>;
  using X = std::vector<T>;
  c.def(py::init([](VV s, X v, int how) { return Make<T>(s, v, how); }))
      .def("dump",
           [](RT &r) {
             return py::make_tuple(DumpShape(r.shape), L(r.values));
           })
      .def("shape", [](RT &r) { return r.shape; })
      .def("str", [](RT &r) { std::ostringstream os; os << r; return os.str(); })
      .def("at", [](RT &r, V i) { return r[i]; })
      .def("index0", [](RT &r, I i) { return r.Index(0, i); })
      .def("stack",
           [](std::vector<RT> v, I axis) {
             Array1<uint32_t> m;
             auto p = Ptrs(v);
             RT a = Stack(axis, (I)v.size(), p.data(), &m);
             return py::make_tuple(a, U(m));
           })
      .def("cat",
           [](std::vector<RT> v, I axis) {
             Array1<uint32_t> m;
             auto p = Ptrs(v);
             RT a = Cat(axis, (I)v.size(), p.data(), &m);
             return py::make_tuple(a, U(m));
           })
      .def("unstack",
           [](RT &r, I axis, bool right) {
             std::vector<RT> out;
             std::vector<Array1<I>> m;
             Unstack(r, axis, right, &out, &m);
             VV maps;
             for (auto &x : m) maps.push_back(L(x));
             return py::make_tuple(out, maps);
           })
      .def("arange", [](RT &r, I axis, I b, I e) { return Arange(r, axis, b, e); })
      .def("unsqueeze", [](RT &r, I axis) { return Unsqueeze(r, axis); })
      .def("remove_axis", [](RT &r, I axis) { return RemoveAxis(r, axis); })
      .def("transpose",
           [](RT &r) {
             Array1<I> m;
             RT a = Transpose(r, &m);
             return py::make_tuple(a, L(m));
           })
      .def("subset",
           [](RT &r, V keep, I axis) {
             Renumbering n = Ren(keep);
             Array1<I> m;
             RT a = SubsetRagged(r, n, axis, &m);
             return py::make_tuple(a, L(m));
           })
      .def("index",
           [](RT &r, I axis, V idx, int how) {
             Array1<I> m, i = how ? Mid(idx) : A(idx);
             RT a = Index(r, axis, i, &m);
             return py::make_tuple(a, L(m));
           })
      .def("index_ragged",
           [](RT &r, R &idx, bool remove) { return Index(r, idx, remove); })
      .def("merge",
           [](std::vector<RT> v, V map) {
             Array1<uint32_t> m, mm = A(std::vector<uint32_t>(map.begin(), map.end()));
             auto p = Ptrs(v);
             RT a = Merge((I)v.size(), p.data(), mm, &m);
             return py::make_tuple(a, U(m));
           })
      .def("remove_leq", [](RT &r, T v) { return RemoveValuesLeq(r, v); })
      .def("remove_eq", [](RT &r, T v) { return RemoveValuesEq(r, v); })
      .def("split0",
           [](RT &r) {
             RaggedAxis0Splitter<T> sp(r);
             py::list out;
             for (I i = 0; i < r.Dim0(); ++i) {
               I off = -5;
               RT e = sp.GetElement(i, &off);
               V offs;
               for (I a = 0; a < r.NumAxes(); ++a) offs.push_back(sp.GetOffset(i, a));
               out.append(py::make_tuple(e, off, offs));
             }
             return out;
           })
      .def("reduce",
           [](RT &r, std::string op, T init) {
             Array1<T> a(C(), r.TotSize(r.NumAxes() - 2));
             if (op == "max") MaxPerSublist(r, init, &a);
             if (op == "min") MinPerSublist(r, init, &a);
             if (op == "sum") SumPerSublist(r, init, &a);
             return L(a);
           })
      .def("argmax",
           [](RT &r, T init) {
             Array1<I> a(C(), r.TotSize(r.NumAxes() - 2));
             ArgMaxPerSublist(r, init, &a);
             return L(a);
           })
      .def("add_per_sublist",
           [](RT &r, X v, T alpha) {
             auto a = A(v);
             return AddPerSublist(r, a, alpha);
           })
      .def("exclusive_sum",
           [](RT &r, bool inplace) {
             if (inplace) {
               SegmentedExclusiveSum(r, &r.values);
               return L(r.values);
             }
             Array1<T> a(C(), r.NumElements());
             SegmentedExclusiveSum(r, &a);
             return L(a);
           })
      .def("pad",
           [](RT &r, std::string mode, T v, bool left) {
             Array2<T> a = PadRagged(r, mode, v, left);
             std::vector<X> out(a.Dim0(), X(a.Dim1()));
             for (I i = 0; i < a.Dim0(); ++i)
               for (I j = 0; j < a.Dim1(); ++j)
                 out[i][j] = a.Data()[i * a.ElemStride0() + j];
             return py::make_tuple(a.Dim0(), a.Dim1(), out);
           })
      .def("sort",
           [](RT &r, bool greater) {
             RT a = r.Clone();
             Array1<I> m(C(), r.NumElements());
             if (greater) SortSublists<T, GreaterThan<T>>(&a, &m);
             else SortSublists<T, LessThan<T>>(&a, &m);
             return py::make_tuple(a, L(m));
           })
      .def("to_int", [](RT &r) { return r.ToInt(); })
      .def("to_float", [](RT &r) { return r.ToFloat(); })
      .def("vecvec", [](RT &r) { return r.ToVecVec(); })
      .def("equal", [](RT &a, RT &b) { return Equal(a, b); })
      .def("create2", [](std::vector<X> v) { return CreateRagged2<T>(v); });
}

template <typename T>
static py::object Num(std::string op, std::vector<T> x, std::vector<T> y, T t,
                      bool mid) {
  Array1<T> a = mid ? Mid(x) : A(x), b = mid ? Mid(y) : A(y), d(C(), 1);
  if (op == "exclusive_sum") return py::cast(L(ExclusiveSum(a)));
  if (op == "exclusive_sum_more") {   // one more element than the source
    Array1<T> big = A([&] { auto w = x; w.push_back(T(77)); return w; }());
    Array1<T> src = big.Arange(0, x.size()), e(C(), (I)x.size() + 1);
    ExclusiveSum(src, &e);
    return py::cast(L(e));
  }
  if (op == "exclusive_sum_inplace") {
    ExclusiveSum(a, &a);
    return py::cast(L(a));
  }
  if (op == "inclusive_sum") return py::cast(L(InclusiveSum(a)));
  if (op == "max") { Max(a, t, &d); return py::cast(L(d)); }
  if (op == "max_value") return py::cast(MaxValue(a));
  if (op == "plus") return py::cast(L(Plus(a, b)));
  if (op == "minus") return py::cast(L(Minus(a, b)));
  if (op == "times") return py::cast(L(Times(a, b)));
  if (op == "plus_c") return py::cast(L(Plus(a, t)));
  if (op == "minus_c") return py::cast(L(Minus(a, t)));
  if (op == "equal") return py::cast(Equal(a, b));
  if (op == "equal_c") return py::cast(Equal(a, t));
  if (op == "monotonic") return py::cast(IsMonotonic(a));
  if (op == "monotonic_dec") return py::cast(IsMonotonicDecreasing(a));
  if (op == "lower") {
    Array1<T> e(C(), a.Dim());
    MonotonicLowerBound(a, &e);
    MonotonicLowerBound(a, &a);
    return py::make_tuple(L(e), L(a));
  }
  if (op == "upper") {
    Array1<T> e(C(), a.Dim());
    MonotonicDecreasingUpperBound(a, &e);
    MonotonicDecreasingUpperBound(a, &a);
    return py::make_tuple(L(e), L(a));
  }
  if (op == "sum") return py::cast(Sum(a));
  if (op == "sort" || op == "sort_greater") {
    Array1<I> m;
    if (op == "sort") Sort<T>(&a, &m);
    else Sort<T, GreaterThan<T>>(&a, &m);
    return py::make_tuple(L(a), L(m));
  }
  if (op == "assign") {
    Array1<T> e(C(), a.Dim());
    Assign(a, &e);
    return py::cast(L(e));
  }
  if (op == "cat2") {
    const Array1<T> *p[] = {&a, &b, &a};
    return py::cast(L(Cat<T>(C(), 3, p)));
  }
  throw std::runtime_error("unknown " + op);
}

template <typename T>
static std::vector<std::vector<T>> M(const Array2<T> &a) {
  std::vector<std::vector<T>> out(a.Dim0(), std::vector<T>(a.Dim1()));
  for (I i = 0; i < a.Dim0(); ++i)
    for (I j = 0; j < a.Dim1(); ++j)
      out[i][j] = a.Data()[(int64_t)i * a.ElemStride0() + j];
  return out;
}

// a matrix inside a wider one, if pad != 0
template <typename T>
static Array2<T> Mat(const std::vector<std::vector<T>> &v, I cols, I pad) {
  Array2<T> big(C(), (I)v.size(), cols + 2 * pad);
  big = T(77);
  Array2<T> a = pad ? big.ColArange(pad, pad + cols) : big;
  for (size_t i = 0; i < v.size(); ++i)
    for (I j = 0; j < cols; ++j)
      a.Data()[(int64_t)i * a.ElemStride0() + j] = v[i][j];
  return a;
}

template <typename T>
static py::object Mat2(std::string op, std::vector<std::vector<T>> v, I cols,
                       I pad, V idx) {
  Array2<T> a = Mat(v, cols, pad);
  if (op == "transpose") {
    Array2<T> d(C(), cols, (I)v.size());
    ContextPtr c = C();
    Transpose(c, a, &d);
    return py::cast(M(d));
  }
  if (op == "contiguous") {
    auto d = ToContiguous(a);
    return py::make_tuple(M(d), d.ElemStride0() == d.Dim1());
  }
  if (op == "assign") {
    Array2<T> d = Mat(v, cols, 1);
    d = T(5);
    Assign(a, &d);
    return py::cast(M(d));
  }
  if (op == "rows" || op == "rows_minus_one") {
    auto i = A(idx);
    return py::cast(M(IndexRows(a, i, op == "rows_minus_one")));
  }
  if (op == "equal") {
    Array2<T> d = Mat(v, cols, 1);
    bool same = Equal(a, d);
    bool differ = false;
    if (v.size() && cols) {
      d.Data()[(int64_t)idx[0] * d.ElemStride0() + idx[1]] += 1;
      differ = Equal(a, d);
    }
    return py::make_tuple(same, differ);
  }
  if (op == "flatten") return py::cast(L(a.Flatten()));
  if (op == "row") return py::cast(L(a.Row(idx[0])));
  if (op == "rowarange") return py::cast(M(a.RowArange(idx[0], idx[1])));
  if (op == "colarange") return py::cast(M(a.ColArange(idx[0], idx[1])));
  throw std::runtime_error("unknown " + op);
}

PYBIND11_MODULE(k2lib, m) {
  py::class_<S>(m, "Shape", py::module_local())
      .def(py::init([](VV s, int how) { return MakeShape(s, how); }))
      .def("dump", &DumpShape)
      .def("str", [](S &s) { std::ostringstream os; os << s; return os.str(); })
      .def("at", [](S &s, V i) { return s[i]; })
      .def("iterate",
           [](S &s) {
             VV out;
             for (auto it = s.Iterator(); !it.Done(); it.Next())
               out.push_back(it.Value());
             return out;
           })
      .def("index0",
           [](S &s, I i) {
             I off = -5;
             S a = s.Index(0, i, &off);
             return py::make_tuple(a, off);
           })
      .def("change", [](S &s, I d) { return ChangeSublistSize(s, d); })
      .def("change_pinned", [](S &s, I d) { return ChangeSublistSizePinned(s, d); })
      .def("prefix", [](S &s, I n) { return Prefix(s, n); })
      .def("prefixes", [](S &s, V n) { return GetPrefixes(s, n); })
      .def("arange",
           [](S &s, I axis, I b, I e) {
             std::pair<I, I> r(-5, -5);
             S a = Arange(s, axis, b, e, &r);
             return py::make_tuple(a, r.first, r.second);
           })
      .def("unsqueeze", [](S &s, I axis) { return Unsqueeze(s, axis); })
      .def("unsqueeze_parallel",
           [](std::vector<S> v) {
             auto p = Ptrs(v);
             return UnsqueezeParallel((I)v.size(), p.data(), 0);
           })
      .def("remove_axis", [](S &s, I axis) { return RemoveAxis(s, axis); })
      .def("layer", [](S &s, I i) { return GetLayer(s, i); })
      .def("decompose",
           [](S &s, I axis) {
             S a, b;
             DecomposeRaggedShape(s, axis, &a, &b);
             return py::make_tuple(a, b);
           })
      .def("compose", [](S &a, S &b) { return ComposeRaggedShapes(a, b); })
      .def("compose3", [](S &a, S &b, S &c) { return ComposeRaggedShapes3(a, b, c); })
      .def("offsets",
           [](std::vector<S> v) {
             auto p = Ptrs(v);
             return M(GetOffsets((I)v.size(), p.data()));
           })
      .def("make_transposable", [](S &s) { return MakeTransposable(s); })
      .def("subset2",
           [](S &s, V before, V last) {
             Renumbering a = Ren(before), b = Ren(last);
             return SubsetRaggedShape(s, a, b);
           })
      .def("remove_empty",
           [](S &s, I axis) {
             Renumbering r;
             S a = RemoveEmptyLists(s, axis, &r);
             return py::make_tuple(a, L(r.New2Old()), L(r.Old2New()), r.NumOldElems());
           })
      .def("remove_some_empty",
           [](S &s, I axis, V keep) {
             Renumbering r = Ren(keep);
             return RemoveSomeEmptyLists(s, axis, r);
           })
      .def("remove_empty0",
           [](S &s) {
             Renumbering r;
             S a = RemoveEmptyListsAxis0(s, &r);
             return py::make_tuple(a, L(r.New2Old()), L(r.Old2New()), r.NumOldElems());
           })
      .def("renumber0",
           [](S &s, V keep) {
             Renumbering r = Ren(keep);
             return RenumberAxis0Simple(s, r);
           })
      .def("decreasing", [](S &s) { return L(GetDecreasingSizeOrder(s)); })
      .def("covering",
           [](std::vector<S> v) {
             auto p = Ptrs(v);
             return CoveringShape((I)v.size(), p.data());
           })
      .def("covering_map",
           [](S &s, S &c) { return L(CoveringShapeForwardMap(s, c)); })
      .def("equal", [](S &a, S &b) { return Equal(a, b); })
      .def("copy", [](S &s) { return s.To(C(), true); })
      .def("populate", [](S &s) { s.Populate(); });
  m.def("shape_of", [](std::string s) { return S(s); });
  m.def("ragged_of", [](std::string s) { return R(s, true); });
  m.def("trivial", [](I n) { auto c = C(); return TrivialShape(c, n); });
  m.def("regular", [](I a, I b) { auto c = C(); return RegularRaggedShape(c, a, b); });
  m.def("empty", [](I n) { auto c = C(); return EmptyRaggedShape(c, n); });
  // mask: bit 0 splits given, bit 1 ids given, bit 2 total size given
  m.def("build", [](VV splits, VV ids, V mask) {
    int n = splits.size();
    std::vector<Array1<I>> s(n), d(n);
    std::vector<Array1<I> *> sp(n), dp(n);
    V t(n, -1);
    for (int i = 0; i < n; ++i) {
      s[i] = A(splits[i]);
      d[i] = A(ids[i]);
      sp[i] = mask[i] & 1 ? &s[i] : nullptr;
      dp[i] = mask[i] & 2 ? &d[i] : nullptr;
      if (mask[i] & 4) t[i] = splits[i].back();
    }
    if (n == 1) return RaggedShape2(sp[0], dp[0], t[0]);
    if (n == 2) return RaggedShape3(sp[0], dp[0], t[0], sp[1], dp[1], t[1]);
    return RaggedShape4(sp[0], dp[0], t[0], sp[1], dp[1], t[1], sp[2], dp[2], t[2]);
  });

  py::class_<R> r(m, "Ragged", py::module_local());
  Typed<I>(r);
  r.def("and_or",
        [](R &x, std::string op, I init) {
          Array1<I> a(C(), x.TotSize(x.NumAxes() - 2));
          if (op == "and") AndPerSublist(x, init, &a);
          else OrPerSublist(x, init, &a);
          return L(a);
        })
      .def("add_suffix", [](R &x, V v) { return AddSuffixToRagged(x, A(v)); })
      .def("add_prefix", [](R &x, V v) { return AddPrefixToRagged(x, A(v)); })
      .def("transpose_order",
           [](R &x, I cols) { return L(GetTransposeReordering(x, cols)); })
      .def("counts",
           [](R &x, S &s) { return GetCountsPartitioned(x, s); })
      .def("hash32", [](R &x) { return L(ComputeHash<int32_t>(x)); })
      .def("hash64", [](R &x) { return L(ComputeHash<int64_t>(x)); })
      .def("unique",
           [](R &x) {
             R n;
             Array1<I> o;
             R a = UniqueSequences(x, &n, &o);
             return py::make_tuple(a, n, L(o));
           })
      .def("pick",
           [](V src, R &idx) { auto a = A(src); return Index(a, idx); })
      .def("pick_default",
           [](V src, R &idx, I d) { auto a = A(src); return Index(a, idx, d); });
  py::class_<RF> rf(m, "RaggedF", py::module_local());
  Typed<float>(rf);
  rf.def("logsum",
         [](RF &x, float init) {
           Array1<float> a(C(), x.TotSize(x.NumAxes() - 2));
           LogSumPerSublist(x, init, &a);
           return L(a);
         })
      .def("normalize", [](RF &x, bool log) { return NormalizePerSublist(x, log); })
      .def("prune", [](RF &x, I axis, float beam, I mx) {
        Renumbering n = PruneRagged(x, axis, beam, mx);
        return py::make_tuple(n.NumOldElems(), L(n.New2Old()), L(n.Old2New()));
      });

  m.def("num", &Num<I>);
  m.def("numf", &Num<float>);
  m.def("mat", &Mat2<I>);
  m.def("matf", &Mat2<float>);
  m.def("exsum2", [](VV v, I cols, I pad, I axis, I more) {
    I rows = v.size();
    // one more element than needed is allocated
    VV w = v;
    w.push_back(V(cols, 77));
    Array2<I> big = Mat(w, cols, pad);
    Array2<I> a = big.RowArange(0, rows);
    Array2<I> d(C(), rows + (axis == 0 ? more : 0), cols + (axis == 1 ? more : 0));
    ExclusiveSum(a, &d, axis);
    return M(d);
  });
  m.def("exsum_deref", [](V v, I more) {
    V w = v;
    w.push_back(77);
    std::vector<const I *> p;
    for (auto &x : w) p.push_back(&x);
    Array1<const I *> big(C(), p);
    Array1<const I *> a = big.Arange(0, v.size());
    Array1<I> d(C(), (I)v.size() + more);
    ExclusiveSumDeref(a, &d);
    return L(d);
  });
  m.def("bits", [](V v, I init, bool is_and) {
    auto a = A(v);
    Array1<I> d(C(), 1);
    if (is_and) And(a, init, &d);
    else Or(a, init, &d);
    return d[0];
  });
  m.def("cat", [](VV v) {
    std::vector<Array1<I>> a;
    for (auto &x : v) a.push_back(Mid(x));
    auto p = Ptrs(a);
    return py::make_tuple(
        L(Cat<I>(C(), (I)v.size(), const_cast<const Array1<I> **>(p.data()))),
        L(Cat<I>(C(), (I)v.size(), a.data())));
  });
  m.def("cat_offsets", [](V off, VV v) {
    std::vector<Array1<I>> a;
    for (auto &x : v) a.push_back(A(x));
    auto p = Ptrs(a);
    return L(CatWithOffsets(A(off), const_cast<const Array1<I> **>(p.data())));
  });
  m.def("splice", [](VV v) {
    std::vector<Array1<I>> a;
    for (auto &x : v) a.push_back(A(x));
    auto p = Ptrs(a);
    return L(SpliceRowSplits((I)v.size(), const_cast<const Array1<I> **>(p.data())));
  });
  m.def("range", [](I n, I f, I inc) { return L(Range<I>(C(), n, f, inc)); });
  m.def("arange", [](I b, I e, I inc) { return L(Arange<I>(C(), b, e, inc)); });
  m.def("splits_to_ids", [](V s) {
    Array1<I> a(C(), s.back());
    RowSplitsToRowIds(A(s), &a);
    return L(a);
  });
  m.def("splits_to_ids_part", [](V s) {
    Array1<I> a(C(), s.back() - s[0]);
    RowSplitsToRowIdsOffset(A(s), &a);
    return L(a);
  });
  m.def("splits_to_sizes", [](V s) { return L(RowSplitsToSizes(A(s))); });
  m.def("ids_to_splits", [](V ids, I rows) {
    Array1<I> a(C(), rows + 1);
    RowIdsToRowSplits(A(ids), &a);
    return L(a);
  });
  m.def("merge_map", [](V sizes) { return U(SizesToMergeMap(C(), sizes)); });
  m.def("permutation", [](V v) { return IsPermutation(A(v)); });
  m.def("invert_decreasing", [](V v) { return L(InvertMonotonicDecreasing(A(v))); });
  m.def("invert_permutation", [](V v) { return L(InvertPermutation(A(v))); });
  m.def("validate", [](V s, V ids, bool temp) {
    Array1<I> t(C(), 1);
    Array1<I> *p = temp ? &t : nullptr;
    auto a = A(s), b = A(ids);
    return py::make_tuple(ValidateRowSplits(a, p), ValidateRowIds(b, p),
                          ValidateRowSplitsAndIds(a, b, p));
  });
  m.def("counts", [](V v, I n) { return L(GetCounts(A(v), n)); });
  m.def("index", [](V v, V idx, bool minus, I d) {
    return L(Index(A(v), A(idx), minus, d));
  });
  m.def("pick", [](V v, V idx) { auto a = Mid(v); return L(a[Mid(idx)]); });
  m.def("merge_with_map", [](V map, VV v) {
    std::vector<Array1<I>> a;
    for (auto &x : v) a.push_back(Mid(x));
    auto p = Ptrs(a);
    return L(MergeWithMap(A(std::vector<uint32_t>(map.begin(), map.end())),
                          (I)v.size(), const_cast<const Array1<I> **>(p.data())));
  });
  m.def("renumbering", [](V keep, bool order) {
    Renumbering r = Ren(keep);
    V a, b, c, d;
    I n = -1;
    if (order) { a = L(r.New2Old()); b = L(r.Old2New()); n = r.NumNewElems(); }
    else { n = r.NumNewElems(); b = L(r.Old2New()); a = L(r.New2Old()); }
    c = L(r.New2Old(true));
    d = L(r.Old2New(true));
    return py::make_tuple(a, b, c, d, n, r.NumOldElems());
  });
  m.def("identity_renumbering", [](I n) {
    Renumbering r = IdentityRenumbering(C(), n);
    return py::make_tuple(L(r.New2Old()), L(r.Old2New()), L(r.New2Old(true)),
                          L(r.Old2New(true)), r.NumNewElems());
  });
  m.def("new2old", [](V keep, I chunk) {
    const I *k = keep.data();
    auto f = [=](I i) -> bool { return k[i]; };
    return L(GetNew2Old(C(), (I)keep.size(), f, chunk));
  });
  m.def("new2old_ids", [](V splits, V keep, I chunk) {
    const I *k = keep.data();
    V rows(keep.size(), -9);
    I *rw = rows.data();
    auto f = [=](I i, I row) -> bool { rw[i] = row; return k[i]; };
    Array1<I> a, b, s = A(splits);
    GetNew2OldAndRowIds(s, (I)keep.size(), f, &a, &b, chunk);
    return py::make_tuple(L(a), L(b), rows);
  });
  // --------------------------------------------------------------- tensors
  m.def("t_index", [](torch::Tensor t, V idx, bool minus, double d) {
    k2::Tensor x = TensorFromTorch(t);
    auto i = A(idx);
    return TT(Index(x, i, minus, d));
  });
  m.def("t_index_add_to", [](torch::Tensor t, V idx, bool minus, torch::Tensor d) {
    k2::Tensor x = TensorFromTorch(t), y = TensorFromTorch(d);
    auto i = A(idx);
    IndexAdd(x, i, minus, &y);
  });
  m.def("t_contiguous", [](torch::Tensor t) {
    k2::Tensor y = ToContiguous(TensorFromTorch(t));
    return py::make_tuple(TensorToTorch(y).clone(), y.IsContiguous());
  });
  m.def("t_cast", [](torch::Tensor t, torch::Tensor like) {
    return TT(Cast(TensorFromTorch(t), TensorFromTorch(like).GetDtype()));
  });
  m.def("t_simple", [](torch::Tensor t, R &idx) {
    k2::Tensor x = TensorFromTorch(t);
    return TT(SimpleRaggedIndexSelect1D(x, idx));
  });
  m.def("t_flip", [](torch::Tensor t, I axis) {
    k2::Tensor x = TensorFromTorch(t);
    k2::Tensor y = ToContiguous(Flip(x, axis));
    return TT(y);
  });
  m.def("t_index0", [](torch::Tensor t, I axis, I i) {
    k2::Tensor x = TensorFromTorch(t);
    k2::Tensor y = ToContiguous(x.Index(axis, i));
    return TT(y);
  });
}
