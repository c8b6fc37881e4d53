// Explicit-state exploration of k2's hash tables: breadth-first over every
// operation sequence, to a fixpoint, on the real classes, against std::map.
#include <algorithm>
#include <cstring>
#include <deque>
#include <map>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#include "k2/csrc/hash.h"

using namespace k2;
typedef uint64_t u64;
typedef std::map<u64, u64> Model;

struct Bad { std::string what; };

static std::string Str(const Model &m) {
  std::ostringstream os;
  os << "{";
  for (auto &p : m) os << p.first << ":" << p.second << " ";
  os << "}";
  return os.str();
}

// ---- uniform view of the accessors -----------------------------------------
struct Config {
  int kind;  // 0 Accessor<N>, 1 GenericAccessor, 2 PackedAccessor, 3 Hash64
  int nb, kb, vb;
  bool Fits(u64 k, u64 v) const {
    if (kind == 3) return ~k != 0 && ~v != 0;
    u64 km = (u64(1) << kb) - 1, vm = (vb == 64) ? ~u64(0) : (u64(1) << vb) - 1;
    return k <= km && v <= vm && !(k == km && v == vm) &&
           // with implicit bits the stored bits must not be all ones either
           !((k >> (kb + vb - 64)) == (km >> (kb + vb - 64)) && v == vm);
  }
  std::string Name() const {
    std::ostringstream os;
    os << (kind == 0 ? "Accessor" : kind == 1 ? "GenericAccessor" :
           kind == 2 ? "PackedAccessor" : "Hash64") << "(buckets=" << nb
       << ",key_bits=" << kb << ",value_bits=" << vb << ")";
    return os.str();
  }
};

template <typename F> static void WithAcc(Hash &h, const Config &c, F &&f) {
#define ACC(N) if (c.kb == N) { \
    auto a = h.GetAccessor<Hash::Accessor<N>>(); f(a); return; }
  if (c.kind == 0) {
    ACC(1) ACC(8) ACC(10) ACC(32) ACC(40) ACC(54) ACC(63)
    throw Bad{"no such accessor"};
  } else if (c.kind == 1) {
    auto a = h.GetAccessor<Hash::GenericAccessor>();
    f(a);
  } else {
    auto a = h.GetAccessor<Hash::PackedAccessor>();
    f(a);
  }
}

struct Table {
  Config c;
  Hash h;
  Hash64 h64;
  bool Is64() const { return c.kind == 3; }
  explicit Table(const Config &c) : c(c) {
    ContextPtr ctx = GetCpuContext();
    if (Is64()) h64 = Hash64(ctx, c.nb);
    else h = Hash(ctx, c.nb, c.kb, c.kb + c.vb == 64 ? -1 : c.vb);
  }
  ~Table() { h.Destroy(); h64.Destroy(); }
  u64 *Data() { return Is64() ? h64.Data() : h.Data(); }
  int Words() { return Is64() ? 2 * c.nb : c.nb; }
  bool Insert(u64 k, u64 v, u64 *old, u64 **loc) {
    bool r;
    if (Is64()) return h64.GetAccessor().Insert(k, v, old, loc);
    WithAcc(h, c, [&](auto &a) { r = a.Insert(k, v, old, loc); });
    return r;
  }
  bool Find(u64 k, u64 *v, u64 **loc) {
    bool r;
    if (Is64()) return h64.GetAccessor().Find(k, v, loc);
    WithAcc(h, c, [&](auto &a) { r = a.Find(k, v, loc); });
    return r;
  }
  // with: 0 the overload given the key, 1 the one that reads it
  void SetValue(u64 *loc, u64 k, u64 v, int with) {
    if (Is64()) { h64.GetAccessor().SetValue(loc, v); return; }
    WithAcc(h, c, [&](auto &a) {
      if (with == 0) a.SetValue(loc, k, v);
      else {
        u64 got = a.SetValue(loc, v);
        if (got != k) throw Bad{"SetValue() returned a wrong key"};
      }
    });
  }
  void Delete(u64 k) {
    if (Is64()) { h64.GetAccessor().Delete(k); return; }
    WithAcc(h, c, [&](auto &a) { a.Delete(k); });
  }
  void Resize(const Config &to, bool copy) {
    if (Is64()) h64.Resize(to.nb, copy);
    else h.Resize(to.nb, to.kb, to.kb + to.vb == 64 ? -1 : to.vb, copy);
    c = to;
  }
};

// ---- state: configuration + raw buckets --------------------------------------
struct State {
  int cfg;
  std::vector<std::pair<int, u64>> words;  // those that are not all ones
  bool operator==(const State &o) const {
    return cfg == o.cfg && words == o.words;
  }
};
struct StateHash {
  size_t operator()(const State &s) const {
    size_t h = s.cfg * 1000003;
    for (auto &p : s.words)
      h = (h ^ (p.first * 0x9E3779B97F4A7C15ull) ^ p.second) * 0xff51afd7ed558ccdull;
    return h ^ (h >> 29);
  }
};

static State Snapshot(Table &t, int cfg) {
  State s{cfg, {}};
  u64 *d = t.Data();
  for (int i = 0; i < t.Words(); ++i)
    if (~d[i] != 0) s.words.push_back({i, d[i]});
  return s;
}
static void Restore(Table &t, const State &s) {
  u64 *d = t.Data();
  for (auto &p : s.words) d[p.first] = p.second;
}

// every observable of a reached state
static void Audit(Table &t, const Model &m, const std::vector<u64> &keys) {
  const Config &c = t.c;
  if (!t.Is64()) {
    if (t.h.NumBuckets() != c.nb || t.h.NumKeyBits() != c.kb ||
        t.h.NumValueBits() != c.vb)
      throw Bad{"the table reports another configuration than it was given"};
  } else if (t.h64.NumBuckets() != c.nb) {
    throw Bad{"the table reports another number of buckets"};
  }
  u64 *d = t.Data();
  int used = 0;
  for (int i = 0; i < c.nb; ++i)
    used += t.Is64() ? (~d[2 * i] != 0) : (~d[i] != 0);
  if (used != (int)m.size()) throw Bad{"number of occupied buckets"};
  if (used < c.nb) {
    for (u64 k : keys) {
      if (!c.Fits(k, 0)) continue;
      u64 v = 12345, *loc = nullptr;
      bool f = t.Find(k, &v, &loc);
      auto it = m.find(k);
      if (f != (it != m.end()))
        throw Bad{"Find(" + std::to_string(k) + ") = " + (f ? "yes" : "no")};
      if (f && v != it->second)
        throw Bad{"Find(" + std::to_string(k) + ") gives value " +
                  std::to_string(v)};
      if (!f && (v != 12345 || loc))
        throw Bad{"Find() of an absent key wrote its outputs"};
      u64 v2 = 0;
      if (t.Find(k, &v2, nullptr) != f || (f && v2 != v))
        throw Bad{"Find() without a location differs"};
    }
  }
  bool threw = false;
  try {
    if (t.Is64()) t.h64.CheckEmpty(); else t.h.CheckEmpty();
  } catch (const std::exception &) { threw = true; }
  if (threw != !m.empty()) throw Bad{"CheckEmpty()"};
}

struct Result { u64 states = 0, transitions = 0; };

static void Explore(const std::vector<Config> &cfgs, const std::vector<u64> &keys,
                    const std::vector<std::vector<u64>> &vals, bool check_empty,
                    Result *res) {
  struct Info { State parent; std::string op; Model m; };
  std::unordered_map<State, Info, StateHash> seen;
  std::deque<State> queue;
  auto History = [&](State s) {
    std::vector<std::string> ops;
    while (true) {
      Info &i = seen.at(s);
      ops.push_back(i.op);
      if (i.parent.cfg < 0) break;
      s = i.parent;
    }
    std::reverse(ops.begin(), ops.end());
    std::string o;
    for (auto &x : ops) o += x + "; ";
    return o;
  };
  State cur;
  std::string op;
  try {
    auto Reach = [&](Table &t, int cfg, const Model &m) {
      ++res->transitions;
      State n = Snapshot(t, cfg);
      auto it = seen.find(n);
      if (it != seen.end()) {
        if (it->second.m != m)
          throw Bad{"same buckets as after another history with contents " +
                    Str(it->second.m)};
        return;
      }
      Audit(t, m, keys);
      seen[n] = Info{cur, op, m};
      queue.push_back(n);
    };
    cur.cfg = -1;
    {
      Table t(cfgs[0]);
      op = "construct " + cfgs[0].Name();
      Reach(t, 0, Model());
    }
    while (!queue.empty()) {
      cur = queue.front();
      queue.pop_front();
      const Model m = seen.at(cur).m;
      const Config &c = cfgs[cur.cfg];
      auto Fresh = [&](Table &t) { Restore(t, cur); };
      // Insert
      for (size_t ki = 0; ki < keys.size(); ++ki) {
        u64 k = keys[ki];
        for (u64 v : vals[ki]) {
          if (!c.Fits(k, v)) continue;
          if (!m.count(k) && (int)m.size() >= c.nb) continue;
          Table t(c);
          Fresh(t);
          op = "Insert(" + std::to_string(k) + "," + std::to_string(v) + ")";
          u64 old = 777, *loc = nullptr;
          bool r = t.Insert(k, v, &old, &loc);
          auto it = m.find(k);
          if (r != (it == m.end()))
            throw Bad{std::string("Insert returned ") + (r ? "true" : "false")};
          if (!r && old != it->second) throw Bad{"wrong old value"};
          if (r && old != 777) throw Bad{"old value written by a new insertion"};
          u64 fv, *floc = nullptr;
          if (!t.Find(k, &fv, &floc)) throw Bad{"inserted key is not found"};
          if (floc != loc) throw Bad{"Insert and Find report different places"};
          Model m2 = m;
          if (r) m2[k] = v;
          Reach(t, cur.cfg, m2);
          // without the optional outputs
          Table t2(c);
          Fresh(t2);
          if (t2.Insert(k, v, nullptr, nullptr) != r)
            throw Bad{"Insert without outputs differs"};
          if (!(Snapshot(t2, cur.cfg) == Snapshot(t, cur.cfg)))
            throw Bad{"Insert without outputs stores something else"};
          if (it == m.end()) continue;
          // SetValue, both overloads, through either location
          for (int with = 0; with < (t.Is64() ? 1 : 2); ++with)
            for (int via = 0; via < 2; ++via) {
              Table t3(c);
              Fresh(t3);
              op = "SetValue" + std::to_string(with) + "(" + std::to_string(k) +
                   "," + std::to_string(v) + ")";
              u64 x, *l = nullptr;
              if (via) t3.Insert(k, v, &x, &l); else t3.Find(k, &x, &l);
              if (!l) throw Bad{"no location for an existing key"};
              t3.SetValue(l, k, v, with);
              m2[k] = v;
              Reach(t3, cur.cfg, m2);
            }
        }
      }
      // Delete everything, in every order
      {
        std::vector<u64> ks;
        for (auto &p : m) ks.push_back(p.first);
        do {
          Table t(c);
          Fresh(t);
          op = "Delete";
          for (u64 k : ks) op += " " + std::to_string(k);
          for (u64 k : ks) t.Delete(k);
          Reach(t, cur.cfg, Model());
        } while (std::next_permutation(ks.begin(), ks.end()));
      }
      // Resize / change of layout, with and without the contents
      for (size_t j = 0; j < cfgs.size(); ++j) {
        const Config &d = cfgs[j];
        if ((d.kind == 3) != (c.kind == 3)) continue;
        bool fit = (int)m.size() <= d.nb;
        for (auto &p : m) fit = fit && d.Fits(p.first, p.second);
        if (!fit) continue;
        for (int copy = 0; copy < 2; ++copy) {
          Table t(c);
          Fresh(t);
          op = "Resize" + std::string(copy ? "" : " without copying") + " to " +
               d.Name();
          t.Resize(d, copy);
          Reach(t, j, copy ? m : Model());
        }
      }
    }
  } catch (const Bad &b) {
    std::string h = cur.cfg >= 0 ? History(cur) : "";
    throw Bad{h + op + " -> " + b.what + "; expected contents before it " +
              (cur.cfg >= 0 ? Str(seen.at(cur).m) : "")};
  } catch (const std::exception &e) {
    std::string h = cur.cfg >= 0 ? History(cur) : "";
    throw Bad{h + op + " -> exception " + e.what()};
  }
  res->states += seen.size();
}

static int Finish(const std::string &s, char *err, int n) {
  std::strncpy(err, s.c_str(), n - 1);
  err[n - 1] = 0;
  return 1;
}

extern "C" int hash_explore(int ncfg, const int *cfg, int nkey, const u64 *keys,
                            const int *nval, const u64 *vals, u64 *out,
                            char *err, int errlen) {
  std::vector<Config> cfgs;
  for (int i = 0; i < ncfg; ++i)
    cfgs.push_back({cfg[4 * i], cfg[4 * i + 1], cfg[4 * i + 2], cfg[4 * i + 3]});
  std::vector<u64> ks(keys, keys + nkey);
  std::vector<std::vector<u64>> vs;
  for (int i = 0, p = 0; i < nkey; p += nval[i], ++i)
    vs.push_back(std::vector<u64>(vals + p, vals + p + nval[i]));
  Result r;
  try {
    Explore(cfgs, ks, vs, true, &r);
  } catch (const Bad &b) {
    return Finish(b.what, err, errlen);
  }
  out[0] = r.states;
  out[1] = r.transitions;
  return 0;
}

// Fills a table with keys[0..n) one by one up to the last free place, checking
// everything after every step, then resizes to `to` and deletes all.
extern "C" int hash_fill(const int *cfg, const int *to, int nkey,
                         const u64 *keys, int vbits, int stride, u64 *out, char *err,
                         int errlen) {
  Config c{cfg[0], cfg[1], cfg[2], cfg[3]}, d{to[0], to[1], to[2], to[3]};
  std::vector<u64> ks(keys, keys + nkey);
  std::string at = "construct";
  u64 steps = 0;
  try {
    Table t(c);
    Model m;
    for (int i = 0; i < nkey; ++i) {
      u64 k = ks[i], v = (i * 2654435761u) % (vbits >= 31 ? 1u << 30 : (1u << vbits) - 1);
      if (vbits <= 1) v = 0;
      at = "insert number " + std::to_string(i) + " key " + std::to_string(k);
      u64 *loc = nullptr, old;
      if (!t.Insert(k, v, &old, &loc)) throw Bad{"Insert returned false"};
      m[k] = v;
      ++steps;
      if (t.Insert(k, c.Fits(k, v + 1) ? v + 1 : 0, &old, nullptr) || old != v)
        throw Bad{"second Insert"};
      // every key present so far is found (absent ones only while every
      // group of buckets has a free place)
      for (int j = 0; j <= i; ++j) {
        u64 got;
        if (!t.Find(ks[j], &got, nullptr) || got != m[ks[j]])
          throw Bad{"key " + std::to_string(ks[j]) + " is lost"};
        ++steps;
      }
      if ((i + 1) * (1 << (c.kind == 3 ? 0 : c.kb + c.vb - 64)) < c.nb)
        for (int j = i + 1; j < nkey; ++j) {
          u64 got;
          if (t.Find(ks[j], &got, nullptr))
            throw Bad{"key " + std::to_string(ks[j]) + " is found early"};
          ++steps;
        }
    }
    at = "resize";
    t.Resize(d, true);
    std::vector<u64> none;
    Audit(t, m, ks);
    at = "delete";
    std::vector<char> gone(nkey, 0);
    for (int s = 0; s < stride; ++s)
      for (int i = s; i < nkey; i += stride) { t.Delete(ks[i]); ++steps; }
    Audit(t, Model(), ks);
  } catch (const Bad &b) {
    return Finish(c.Name() + " " + at + ": " + b.what, err, errlen);
  } catch (const std::exception &e) {
    return Finish(c.Name() + " " + at + ": exception " + e.what(), err, errlen);
  }
  out[0] = steps;
  return 0;
}

// constructor and accessor preconditions: 0 accepted, 1 refused
extern "C" int hash_construct(int kind, int nb, int kb, int vb) {
  try {
    ContextPtr ctx = GetCpuContext();
    if (kind == 3) {
      Hash64 h(ctx, nb);
      h.Destroy();
      return 0;
    }
    Hash h(ctx, nb, kb, vb);
    try {
      Config c{kind, nb, kb, vb};
      WithAcc(h, c, [](auto &a) {});
    } catch (const std::exception &) {
      h.Destroy();
      return 2;
    }
    h.Destroy();
    return 0;
  } catch (const std::exception &) {
    return 1;
  }
}

extern "C" int hash_bits_needed(int64_t n) { return NumBitsNeededFor(n); }
