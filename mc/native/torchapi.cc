// A Python module around the C++ API for deployment (k2/torch/csrc), so that
// it can be compared with the Python implementation within one process.
#include <sstream>

#include "k2/csrc/fsa.h"
#include "k2/csrc/fsa_utils.h"
#include "k2/csrc/rnnt_decode.h"
#include "k2/torch/csrc/beam_search.h"
#include "k2/torch/csrc/decode.h"
#include "k2/torch/csrc/dense_fsa_vec.h"
#include "k2/torch/csrc/deserialization.h"
#include "k2/torch/csrc/fsa_algo.h"
#include "k2/torch/csrc/fsa_class.h"
#include "k2/torch/csrc/hypothesis.h"
#include "k2/torch/csrc/nbest.h"
#include "k2/torch/csrc/parse_options.h"
#include "k2/torch/csrc/symbol_table.h"
#include "k2/torch/csrc/torch_api.h"
#include "k2/torch/csrc/utils.h"
#include "k2/torch/csrc/wave_reader.h"
#include "torch/extension.h"

namespace py = pybind11;
using namespace k2;  // NOLINT
using Ptr = FsaClassPtr;
using T = torch::Tensor;

static T Copy(Array1<int32_t> a) { return Array1ToTorch(a).clone(); }

static py::object Dump(const Ptr &f) {
  py::dict attrs, ragged;
  for (auto &p : f->tensor_attrs) attrs[py::str(p.first)] = p.second.clone();
  for (auto &p : f->ragged_tensor_attrs)
    ragged[py::str(p.first)] = py::make_tuple(Copy(p.second.RowSplits(1)),
                                              Copy(p.second.values));
  py::list splits;
  for (int32_t i = 1; i < f->fsa.NumAxes(); ++i)
    splits.append(Copy(f->fsa.RowSplits(i)));
  int32_t n = f->fsa.NumElements();
  T arcs = torch::empty({n, 4}, torch::kInt);
  if (n)
    std::copy_n(reinterpret_cast<const int32_t *>(f->fsa.values.Data()), 4 * n,
                arcs.data_ptr<int32_t>());
  return py::make_tuple(splits, arcs, attrs, ragged);
}

static Ragged<int32_t> MakeRagged(T splits, T values) {
  Array1<int32_t> s = Array1FromTorch<int32_t>(splits.clone()),
                  v = Array1FromTorch<int32_t>(values.clone());
  return Ragged<int32_t>(RaggedShape2(&s, nullptr, v.Dim()), v);
}

static Ptr Make(T arcs, std::map<std::string, T> attrs,
                std::map<std::string, std::pair<T, T>> ragged) {
  k2::Tensor t = TensorFromTorch(arcs.clone());
  bool error = false;
  Fsa fsa = arcs.dim() == 2 ? FsaFromTensor(t, &error)
                            : FsaVecFromTensor(t, &error);
  if (error) throw std::runtime_error("bad arcs");
  auto ans = std::make_shared<FsaClass>(fsa);
  for (auto &p : attrs) ans->SetTensorAttr(p.first, p.second.clone());
  for (auto &p : ragged)
    ans->SetRaggedTensorAttr(p.first,
                             MakeRagged(p.second.first, p.second.second));
  return ans;
}

static Ptr Clone(const Ptr &f) {
  auto ans = std::make_shared<FsaClass>();
  ans->fsa = Fsa(f->fsa.shape, f->fsa.values.Clone());
  ans->properties = f->properties;
  for (auto &p : f->tensor_attrs) ans->tensor_attrs[p.first] = p.second.clone();
  ans->ragged_tensor_attrs = f->ragged_tensor_attrs;
  return ans;
}

struct Streams {
  RnntStreamsPtr p;
};
struct Stream {
  RnntStreamPtr p;
};

PYBIND11_MODULE(k2cpp, m) {
  py::class_<FsaClass, Ptr>(m, "FsaClass")
      .def("dump", &Dump)
      .def("clone", &Clone)
      .def("properties", [](Ptr &f) { return f->Properties(); })
      .def("num_attrs", [](Ptr &f) { return f->NumAttrs(); })
      .def("delete", [](Ptr &f, std::string s) { f->DeleteTensorAttr(s); })
      .def("delete_ragged",
           [](Ptr &f, std::string s) { f->DeleteRaggedTensorAttr(s); })
      .def("scores", [](Ptr &f) { return f->Scores(); })
      .def("labels", [](Ptr &f) { return f->Labels(); });
  m.def("make", &Make);
  m.def("load", [](std::string s) { return LoadFsaClass(s); });
  m.def("ctc_topo", [](int n, bool mod) { return GetCtcTopo(n, mod); });
  m.def("trivial_graph", [](int n) { return GetTrivialGraph(n); });
  m.def("get_lattice",
        [](T x, T lens, Ptr g, float sb, float ob, int lo, int hi, int sub) {
          return GetLattice(x, lens, g, sb, ob, lo, hi, sub);
        });
  m.def("get_lattice_segments",
        [](T x, T segs, Ptr g, float sb, float ob, int lo, int hi, int sub) {
          return std::make_shared<FsaClass>(
              GetLattice(x, *g, segs, sb, ob, lo, hi, sub));
        });
  m.def("best_path", [](Ptr f) { return BestPath(f); });
  m.def("shortest_path", [](const Ptr &f) { return ShortestPath(f); });
  m.def("scale", [](Ptr f, float s, std::string n) {
    ScaleTensorAttribute(f, s, n);
  });
  m.def("get_attr",
        [](Ptr f, std::string n) { return GetTensorAttr(f, n); });
  m.def("set_attr",
        [](Ptr f, std::string n, T v) { SetTensorAttr(f, n, v); });
  m.def("get_texts", [](Ptr f) { return GetTexts(*f).ToVecVec(); });
  m.def("invert", [](Ptr f) { Invert(f.get()); });
  m.def("arc_sort", [](Ptr f) { ArcSort(f.get()); });
  m.def("connect", [](Ptr f) { Connect(f.get()); });
  m.def("top_sort", [](Ptr f) { TopSort(f.get()); });
  m.def("tot_scores", [](Ptr f, bool log) {
    auto a = GetTotScores<double>(*f, log);
    return Array1ToTorch(a).clone();
  });
  m.def("intersect_device", [](Ptr a, Ptr b, T map, bool s) {
    auto x = Array1FromTorch<int32_t>(map);
    return std::make_shared<FsaClass>(IntersectDevice(*a, *b, x, s));
  });
  m.def("linear_with_loops", [](Ptr a) {
    return std::make_shared<FsaClass>(LinearFsaWithSelfLoops(*a));
  });
  m.def("whole_lattice_rescoring", [](Ptr g, float scale, Ptr lat) {
    WholeLatticeRescoring(*g, scale, lat.get());
  });
  m.def("best_paths", [](Ptr lat, bool use_max, int n, float scale) {
    return std::make_shared<FsaClass>(GetBestPaths(*lat, use_max, n, scale));
  });
  py::class_<Nbest, std::shared_ptr<Nbest>>(m, "Nbest")
      .def(py::init([](Ptr f, T splits) {
        auto s = Array1FromTorch<int32_t>(splits);
        return std::make_shared<Nbest>(
            *f, RaggedShape2(&s, nullptr, s.Back()));
      }))
      .def_static("from_lattice",
                  [](Ptr lat, int n, float scale) {
                    return std::make_shared<Nbest>(
                        Nbest::FromLattice(*lat, n, scale));
                  })
      .def("intersect", [](Nbest &n, Ptr lat) { n.Intersect(lat.get()); })
      .def("am", [](Nbest &n) { return n.ComputeAmScores(); })
      .def("lm", [](Nbest &n) { return n.ComputeLmScores(); })
      .def("str", [](Nbest &n) { return n.ToString(); })
      .def("fsa", [](Nbest &n) { return std::make_shared<FsaClass>(n.fsa); })
      .def("splits", [](Nbest &n) { return Copy(n.shape.RowSplits(1)); });
  m.def("dense", [](T x, T segs, int allow) {
    DenseFsaVec d = CreateDenseFsaVec(x, segs, allow);
    return py::make_tuple(Copy(d.shape.RowSplits(1)),
                          Array2ToTorch(d.scores).clone());
  });
  m.def("segments", [](T idx, T start, T num, int sub) {
    c10::impl::GenericDict d(c10::StringType::get(), c10::TensorType::get());
    d.insert("sequence_idx", idx);
    d.insert("start_frame", start);
    d.insert("num_frames", num);
    return GetSupervisionSegments(torch::IValue(d), sub);
  });
  // transducer streams
  py::class_<Stream>(m, "Stream");
  py::class_<Streams>(m, "Streams")
      .def("contexts",
           [](Streams &s) {
             auto p = GetRnntContexts(s.p);
             return py::make_tuple(RowSplits(p.first, 1).clone(),
                                   RowIds(p.first, 1).clone(),
                                   p.second.clone());
           })
      .def("advance", [](Streams &s, T x) { AdvanceRnntStreams(s.p, x); })
      .def("flush", [](Streams &s) { TerminateAndFlushRnntStreams(s.p); })
      .def("format", [](Streams &s, std::vector<int32_t> n, bool partial) {
        return FormatOutput(s.p, n, partial);
      });
  m.def("stream", [](Ptr g) { return Stream{CreateRnntStream(g)}; });
  m.def("streams", [](std::vector<Stream> v, int vocab, int ctx, float beam,
                      int max_contexts, int max_states) {
    std::vector<RnntStreamPtr> p;
    for (auto &x : v) p.push_back(x.p);
    return Streams{
        CreateRnntStreams(p, vocab, ctx, beam, max_contexts, max_states)};
  });
  m.def("decode_one_chunk", [](std::vector<Ptr> graphs, int vocab, int ctx,
                               double beam, int max_states, int max_contexts,
                               std::string file, std::vector<T> chunks,
                               bool partial) {
    torch::jit::Module mod = torch::jit::load(file);
    std::vector<std::shared_ptr<rnnt_decoding::RnntDecodingStream>> s;
    for (auto &g : graphs)
      s.push_back(rnnt_decoding::CreateStream(std::make_shared<Fsa>(g->fsa)));
    rnnt_decoding::RnntDecodingConfig cfg(vocab, ctx, beam, max_states,
                                          max_contexts);
    int32_t frames = 0;
    FsaVec ofsa;
    Array1<int32_t> map;
    for (size_t i = 0; i < chunks.size(); ++i) {
      rnnt_decoding::RnntDecodingStreams st(s, cfg);
      frames += chunks[i].size(1);
      DecodeOneChunk(st, mod, chunks[i]);
      if (i + 1 == chunks.size()) {
        std::vector<int32_t> n(s.size(), frames);
        st.FormatOutput(n, partial, &ofsa, &map);
      }
    }
    return std::make_shared<FsaClass>(ofsa);
  });
  // beam search
  m.def("greedy", [](std::string file, T x, T lens) {
    return GreedySearch(torch::jit::load(file), x, lens);
  });
  m.def("beam", [](std::string file, T x, T lens, int n) {
    return ModifiedBeamSearch(torch::jit::load(file), x, lens, n);
  });
  m.def("hypotheses",
        [](std::vector<std::pair<std::vector<int32_t>, double>> adds,
           std::vector<std::vector<int32_t>> removes, bool norm) {
          Hypotheses h;
          for (auto &p : adds) h.Add({p.first, p.second});
          for (auto &p : removes) h.Remove({p, 0});
          std::vector<std::pair<std::vector<int32_t>, double>> all;
          for (auto &x : h.Vec()) all.emplace_back(x.ys, x.log_prob);
          Hypothesis best;
          if (h.Size()) best = h.GetMostProbable(norm);
          return py::make_tuple(h.Size(), all, best.ys, best.log_prob);
        });
  // files
  m.def("symbols", [](std::string file, std::vector<int32_t> ids,
                      std::vector<std::string> syms) {
    SymbolTable t(file);
    py::dict a, b;
    for (int32_t i : ids)
      if (t.contains(i)) a[py::int_(i)] = py::bytes(t[i]);
    for (auto &s : syms)
      if (t.contains(s)) b[py::bytes(s)] = t[s];
    return py::make_tuple(a, b, py::bytes(t.ToString()));
  });
  m.def("wave", [](std::string file) {
    WaveReader r(file);
    return py::make_tuple(r.Data(), r.SampleRate());
  });
  m.def("waves", [](std::vector<std::string> files, float rate) {
    return ReadWave(files, rate);
  });
  m.def("options", [](std::vector<std::string> args) {
    std::vector<const char *> argv{"prog"};
    for (auto &a : args) argv.push_back(a.c_str());
    bool b = false;
    int32_t i = 3;
    uint32_t u = 4;
    float f = 0.5;
    double d = 0.25;
    std::string s = "dflt";
    ParseOptions po("usage");
    po.Register("bool-opt", &b, "b");
    po.Register("int-opt", &i, "i");
    po.Register("uint_opt", &u, "u");
    po.Register("float-opt", &f, "f");
    po.Register("double-opt", &d, "d");
    ParseOptions pre("pre", &po);
    pre.Register("str-opt", &s, "s");
    int n = po.Read(argv.size(), argv.data());
    py::list pos;
    for (int k = 1; k <= po.NumArgs(); ++k) pos.append(py::bytes(po.GetArg(k)));
    std::ostringstream os;
    po.PrintConfig(os);
    return py::make_tuple(b, i, u, f, d, py::bytes(s), n, pos,
                          py::bytes(os.str()));
  });
  m.def("escape",
        [](std::string s) { return py::bytes(ParseOptions::Escape(s)); });
  m.def("exclusive_sum", [](T src, bool shared) {
    T dst = shared ? src : torch::empty_like(src);
    ExclusiveSum(src, &dst);
    return dst;
  });
  m.def("shape2", [](c10::optional<T> splits, c10::optional<T> ids, int tot) {
    auto s = k2::RaggedShape2(splits ? *splits : T(), ids ? *ids : T(), tot);
    return py::make_tuple(TotSize(s, 0), TotSize(s, 1),
                          RowSplits(s, 1).clone(), RowIds(s, 1).clone());
  });
  m.def("gather", [](std::vector<Ptr> srcs, Ptr ans, T splits, T values) {
    std::vector<FsaClass> v;
    for (auto &s : srcs) v.push_back(*s);
    auto map = MakeRagged(splits, values);
    ans->CopyAttrs(v, map);
    return ans;
  });
}
