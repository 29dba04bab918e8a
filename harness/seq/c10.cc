// Hash table against std::map: all sequences of insertions and clears over a few
// keys that collide, with a lookup of every key after every operation.
#include "mc.h"
#include "filling_curve.h"
#include "hashtable.h"
#include <optional>
using namespace flecsi;
using u64 = uint64_t;
template<class K> void run(mc::Ctx & c, const char * nm, const std::vector<u64> & keys) {
  int nk = (int)keys.size();
  using H = hashtable<K, long>;
  std::optional<H> tab; // one table per process, brought back by clear()
  int L = c.thorough ? 5 : 4;
  std::vector<int> seq;
  long stamp = 0;
  // ops: 0..nk-1 insert key i, nk clear
  std::function<void()> rec = [&] {
    if((int)seq.size() == L) {
      // sequences with more than one clear after the first repeat shorter ones
      int cl = 0;
      for(int o : seq) cl += o == nk;
      if(cl > 1) return;
      if(!c.want([&] { std::string s = std::string(nm) + ":"; for(int o : seq) s += o == nk ? " clear" : mc::fmt(" insert(%llx)", (unsigned long long)keys[o]); return s; })) return;
      c.exec();
      if(!tab) { tab.emplace(); c.check(tab->size() == 0, "new-size", mc::fmt("new table reports %zu entries", tab->size())); }
      else { tab->clear(); c.check(tab->size() == 0, "clear-size", mc::fmt("cleared table reports %zu entries", tab->size())); }
      std::map<u64, long> ref;
      size_t n = 0;
      for(size_t s = 0; s < seq.size(); ++s) {
        int o = seq[s];
        if(o == nk) { tab->clear(); ref.clear(); n = 0; }
        else { ++stamp; tab->emplace(K(keys[o]), stamp); ref.emplace(keys[o], stamp); ++n; }
        c.steps(1);
        uint64_t h = ref.size();
        if(!c.check(tab->size() == n, "size", mc::fmt("after operation %zu size() is %zu, %zu insertions since the last clear", s, tab->size(), n))) return;
        for(int i = 0; i < nk; ++i) {
          auto it = tab->find(K(keys[i]));
          bool f = it != tab->end(), want = ref.count(keys[i]) > 0;
          h = mc::mix(h, f ? 1 + i : 0);
          if(!c.check(f == want, want ? "lost" : "phantom", mc::fmt("after operation %zu key %llx is %s", s, (unsigned long long)keys[i], f ? "found though not inserted" : "not found"))) return;
          if(f) {
            if(!c.check((u64)it->first.value() == keys[i] && it->second == ref[keys[i]], "value", mc::fmt("after operation %zu key %llx gives the entry of %llx, value %ld instead of %ld", s, (unsigned long long)keys[i], (unsigned long long)it->first.value(), it->second, ref[keys[i]]))) return;
          }
        }
        c.outcome(h);
        c.state(mc::mix(h, nk));
      }
      return;
    }
    for(int o = 0; o <= nk; ++o) { seq.push_back(o); rec(); seq.pop_back(); }
  };
  rec();
}
template<class K> void bulk(mc::Ctx & c, const char * nm, int dim) {
  // every key of the tree to a depth, all in one table
  for(int depth = 1; depth <= (c.thorough ? 15 : 12) / dim; ++depth)
    if(c.want([&] { return mc::fmt("%s bulk: all keys to depth %d", nm, depth); })) {
      c.exec();
      hashtable<K, long> t;
      std::vector<u64> all;
      for(int d = 0; d <= depth; ++d) for(u64 v = 0; v < (u64(1) << (dim * d)); ++v) all.push_back((u64(1) << (dim * d)) | v);
      // deep relatives that share their low bits
      for(u64 v = 0; v < 64; ++v) { all.push_back((u64(1) << 50) | (v << 30) | 5); all.push_back((u64(1) << 45) | (v << 23)); }
      for(size_t i = 0; i < all.size(); ++i) { t.emplace(K(all[i]), (long)i); c.steps(1); }
      c.check(t.size() == all.size(), "size", mc::fmt("%zu entries reported, %zu inserted", t.size(), all.size()));
      for(size_t i = 0; i < all.size(); ++i) {
        auto it = t.find(K(all[i]));
        if(!c.check(it != t.end() && it->second == (long)i, "lost", mc::fmt("key %llx", (unsigned long long)all[i]))) return;
      }
      for(u64 v = 0; v < 4096; ++v) { u64 k = (u64(1) << 60) | v; if(!c.check(t.find(K(k)) == t.end(), "phantom", mc::fmt("key %llx", (unsigned long long)k))) return; }
      t.clear();
      for(size_t i = 0; i < all.size(); ++i) if(!c.check(t.find(K(all[i])) == t.end(), "clear", mc::fmt("key %llx found after clear", (unsigned long long)all[i]))) return;
      c.outcome(all.size());
    }
}
static void enumerate(mc::Ctx & c) {
  const u64 B = u64(1) << 22;
  run<morton_curve_u<3, u64>>(c, "3D keys in one bucket", {8 | 5, B * 8 | 13, B * B | 13, 1});
  run<morton_curve_u<2, u64>>(c, "2D keys in bucket 0 and its neighbours", {B, B * 4, 1, B - 1, B * 2 - 1});
  run<morton_curve_u<1, u64>>(c, "1D keys", {1, 2, 3, B | 1, B | 2});
  bulk<morton_curve_u<3, u64>>(c, "3D", 3);
  bulk<morton_curve_u<2, u64>>(c, "2D", 2);
  bulk<morton_curve_u<1, u64>>(c, "1D", 1);
}
int main(int a, char ** v) { return mc::main_run(a, v, enumerate, 1); }
