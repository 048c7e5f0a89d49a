// Deviation-bounded exhaustive exploration of element values.
// A run of the syntax model asks for one value per syntax element.  Run 0
// takes the baseline value everywhere; every other run is a baseline run with
// a set of deviations (element occurrence -> other candidate value).  All
// deviation sets whose total cost is within the budget are executed.
#pragma once
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include "common.h"
#include "model.h"

struct Base {
  const char* name = "zero";
  bool rich = false;                                // hash-valued instead of zero
  std::map<std::string, int64_t> fix;               // baseline value by element name
  std::map<std::string, std::vector<int64_t>> seq;  // baseline values by occurrence (cyclic)
};

struct Space {
  int budget = 2;
  bool wide = false;                                // full value ranges instead of boundary values
  int max_occ = 3;                                  // later occurrences of an element do not deviate (not in wide runs)
  std::map<std::string, int> cost;                  // default 1; 0 free; 99 never
  std::map<std::string, std::vector<int64_t>> cands; // explicit candidate values (core runs)
  std::map<std::string, std::vector<int64_t>> wcands; // explicit candidate values (wide runs)
  bool only_listed = false;                         // elements without an explicit cost entry never deviate
  int shard_depth = 0;                              // deviations that decide the shard (0: by budget)
  uint64_t vary = 0;                                // baseline values of a rich base depend on this and on the deviations before them
  std::map<std::string, std::vector<int64_t>> rich; // with vary: values to choose the baseline value from
  uint64_t wide_limit = 5000;                       // ranges up to this size are enumerated completely
};

struct Explorer : m::Chooser {
  Ctx& ctx; Base base; Space sp;
  std::function<void(Explorer&)> body;
  bool mine = false;
  struct Dev { uint32_t pos, idx; };
  std::vector<Dev> devs;
  struct Pt { uint32_t n; int cost; };
  std::vector<Pt> pts;
  uint32_t pos = 0; size_t nd = 0; int shard_depth = 2;
  std::string devtext; uint64_t salt = 0;
  Explorer(Ctx& c, Base b, Space s, std::function<void(Explorer&)> f) : ctx(c), base(b), sp(s), body(f) {}

  struct NI { const char* n; std::string s; bool hasfix; int64_t fix; const std::vector<int64_t>* seq; int cost; const std::vector<int64_t>* cands; const std::vector<int64_t>* rich; uint32_t occ; uint64_t epoch; uint64_t h; };
  std::unordered_map<const char*, size_t> byptr; std::vector<NI> names; uint64_t epoch = 0;
  std::map<std::string, size_t> byname;
  NI& info(const char* n) {
    auto it = byptr.find(n);
    if (it != byptr.end()) return names[it->second];
    auto jt = byname.find(n);
    if (jt != byname.end()) { byptr[n] = jt->second; return names[jt->second]; }
    NI x; x.n = n; x.s = n; x.occ = 0; x.epoch = 0; x.h = hash_str(n);
    auto f = base.fix.find(n); x.hasfix = f != base.fix.end(); x.fix = x.hasfix ? f->second : 0;
    auto q = base.seq.find(n); x.seq = q != base.seq.end() ? &q->second : nullptr;
    auto c = sp.cost.find(n); x.cost = c != sp.cost.end() ? c->second : (sp.only_listed ? 99 : 1);
    auto& cm = sp.wide ? sp.wcands : sp.cands;
    auto k = cm.find(n); x.cands = k != cm.end() ? &k->second : nullptr;
    auto rk = sp.rich.find(n); x.rich = rk != sp.rich.end() ? &rk->second : nullptr;
    names.push_back(x); byptr[n] = names.size() - 1; byname[n] = names.size() - 1;
    return names.back();
  }
  static int64_t rich_value(uint64_t h, int64_t lo, int64_t hi) {
    uint64_t span = (uint64_t)(hi - lo) + 1;
    if (hi - lo <= 4096) return lo + (int64_t)(h % span);
    if (lo < 0) return (int64_t)(h % 2001) - 1000 < lo ? lo : (int64_t)(h % 2001) - 1000;
    return lo + (int64_t)(h % 3001) % span;
  }
  std::vector<int64_t> tmp;
  std::unordered_map<uint64_t, std::vector<int64_t>> cache;
  const std::vector<int64_t>& range(char kind, int64_t lo, int64_t hi, bool hard) {
    uint64_t key = mix(mix(mix((uint64_t)lo, (uint64_t)hi), kind), hard * 2 + sp.wide);
    auto it = cache.find(key); if (it != cache.end()) return it->second;
    std::vector<int64_t> v;
    auto add = [&](int64_t x) {
      if (kind == 'u' || kind == 'm') { if (x < lo || x > hi) return; }
      if (kind == 'e' && (x < 0 || x > 0xFFFFFFFEll)) return;
      if (kind == 's' && (x < -0x7FFFFFFFll || x > 0x7FFFFFFFll)) return;
      for (auto y : v) if (y == x) return;
      v.push_back(x);
    };
    add(lo); add(hi);
    if (kind == 's') add(0);
    add(lo + 1); add(hi - 1);
    if (kind == 'e' || kind == 's') {
      if (hi - lo > 8) add((lo + hi) / 2);
      add(hi + 1); if (kind == 's') add(lo - 1);
    } else if (hi - lo >= 8) { add((hi + 1) / 2); }
    if (sp.wide) {
      if ((uint64_t)(hi - lo) < sp.wide_limit) {
        v.clear(); for (int64_t x = lo; x <= hi; ++x) v.push_back(x);
      } else {
        for (int64_t x = lo; x <= lo + 40; ++x) add(x);
        for (int64_t x = hi - 3; x <= hi; ++x) add(x);
      }
      for (int b = 1; b <= 32; ++b) for (int64_t d = -2; d <= 1; ++d) {
        int64_t x = ((int64_t)1 << b) + d; 
        if (hard ? true : (x <= hi)) add(x);
        if (kind == 's') { if (hard || -x >= lo) add(-x); }
      }
      if (kind == 'e') { add(hi + 1); add(hi + 2); if (hard) add(0xFFFFFFFEll); }
      if (kind == 's') { add(hi + 1); add(lo - 1); if (hard) { add(0x7FFFFFFFll); add(-0x7FFFFFFFll); } }
    }
    return cache[key] = v;
  }
  int64_t pick(const char* name, char kind, int64_t lo, int64_t hi, bool hard, std::initializer_list<int64_t> extra) override {
    NI& x = info(name);
    if (x.epoch != epoch) { x.epoch = epoch; x.occ = 0; }
    uint32_t occ = x.occ++;
    int64_t b;
    if (x.seq) b = (*x.seq)[occ % x.seq->size()];
    else if (x.hasfix) b = x.fix;
    else if (kind == 'm') b = 0;
    else if (base.rich) { uint64_t h = mix(x.h, occ * 77 + 13); if (!vh) b = rich_value(h, lo, hi); else { h = mix(h, vh); if (x.rich) b = (*x.rich)[h % x.rich->size()]; else { uint64_t w = (h >> 40) % 8; b = w < 2 ? lo : w < 4 ? hi : rich_value(h, lo, hi); } } }
    else b = lo <= 0 ? 0 : lo;
    if (kind == 'u' && b > hi) b %= hi + 1;
    if (kind == 'm' && occ >= 24) b = 0;
    uint32_t p = pos++;
    bool frozen = x.cost >= 99 || (!sp.wide && occ >= (uint32_t)sp.max_occ && x.cost > 0) || (kind == 'm' && occ >= 24);
    const std::vector<int64_t>* cs = nullptr;
    if (!frozen) {
      cs = x.cands ? x.cands : &range(kind, lo, hi, hard);
      if (extra.size()) {
        tmp.assign(cs->begin(), cs->end());
        for (auto e : extra) { bool dup = e < lo || e > hi; for (auto y : tmp) if (y == e) dup = true; if (!dup) tmp.push_back(e); }
        cs = &tmp;
      }
    }
    uint32_t n = frozen ? 1 : (uint32_t)cs->size() + 1;
    pts.push_back({n, x.cost});
    if (nd < devs.size() && devs[nd].pos == p) {
      uint32_t idx = devs[nd].idx; nd++; if (vh) vh = mix(vh, p * 64 + idx);
      if (idx >= n) ctx.broken("replay divergence at %s", name);
      int64_t v = (*cs)[idx - 1];
      if (ctx.s) { char t[160]; snprintf(t, sizeof t, " %s[%u]=%lld", name, occ, (long long)v); devtext += t; }
      if (v == b) skip = true;  // same as the baseline: not a new execution
      return v;
    }
    return b;
  }
  bool skip = false; uint64_t vh = 0;
  void run_once() { vh = sp.vary; epoch++; pos = 0; nd = 0; pts.clear(); devtext.clear(); skip = false; body(*this); }
  // A body must produce all picks first and then call prepared(): false means
  // there is nothing to check in this run (other shard, or duplicate).
  bool prepared() {
    if (skip || !mine) return false;
    ctx.add(C_TRANS, pts.size()); ctx.add(C_STATES);
    return true;
  }
  void go() {
    shard_depth = sp.shard_depth ? sp.shard_depth : sp.budget >= 2 ? 2 : 1; devs.clear(); rec(0, mix(hash_str(base.name), 5 + salt));
  }
  void rec(int cost, uint64_t h) {
    bool deep = (int)devs.size() >= shard_depth;
    mine = deep ? true : (h % ctx.nshards) == (uint64_t)ctx.shard;
    run_once(); ctx.beat();
    if (skip) return;
    uint32_t from = devs.empty() ? 0 : devs.back().pos + 1;
    bool any = false;
    for (uint32_t p = from; p < pts.size() && !any; ++p) any = pts[p].n >= 2 && cost + pts[p].cost <= sp.budget;
    if (!any) return;
    std::vector<Pt> my(pts);
    for (uint32_t p = from; p < my.size(); ++p) {
      if (my[p].n < 2 || cost + my[p].cost > sp.budget) continue;
      for (uint32_t i = 1; i < my[p].n; ++i) {
        uint64_t h2 = mix(mix(h, p), i);
        if ((int)devs.size() + 1 == shard_depth && (h2 % ctx.nshards) != (uint64_t)ctx.shard) continue;
        devs.push_back({p, i}); rec(cost + my[p].cost, h2); devs.pop_back();
      }
    }
  }
};
