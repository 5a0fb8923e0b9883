// Reference model of the cache and key material for C01-C04.
#pragma once
#include "h.h"
#include "lsmdb/cache.h"
#include "lsmdb/slice.h"
using lsmdb::Cache;
using lsmdb::Slice;

struct KeySet {
  std::string a, b;          // different keys, equal 32-bit hash
  std::string c;             // same partition, different hash, same low bits
  std::string d;             // same partition, different low bits
  std::string e;             // another partition
  std::vector<std::string> chain;   // one partition, one bucket in tables up to 64
  std::vector<std::string> shardkeys;  // one key per partition
  std::vector<std::string> many;     // one partition
  KeySet() {
    std::map<uint32_t, uint32_t> seen;
    auto key = [](uint32_t i) { std::string s = "k"; s.append((const char*)&i, 4); s += (char)(i * 37); if (i & 1) s += '\0'; return s; };
    uint32_t i = 0;
    for (; i < 2000000; i++) {
      std::string s = key(i); uint32_t h = ref_hash(s.data(), s.size(), 0);
      auto it = seen.find(h);
      if (it != seen.end()) { a = key(it->second); b = s; break; }
      seen[h] = i;
    }
    uint32_t ha = ref_hash(a.data(), a.size(), 0);
    std::set<uint32_t> hs; hs.insert(ha);
    shardkeys.assign(16, "");
    for (uint32_t j = i + 1;; j++) {
      std::string s = key(j); uint32_t h = ref_hash(s.data(), s.size(), 0);
      bool same = h >> 28 == ha >> 28;
      if (shardkeys[h >> 28].empty()) shardkeys[h >> 28] = s;
      if (same && (h & 1023) == (ha & 1023) && h != ha && c.empty()) c = s;
      else if (same && (h & 3) != (ha & 3) && d.empty()) d = s;
      else if (!same && e.empty()) e = s;
      else if (same && chain.size() < 10 && (h & 63) == (ha & 63)) chain.push_back(s);
      else if (same && many.size() < 1200) many.push_back(s);
      if (!c.empty() && !d.empty() && !e.empty() && chain.size() == 10 && many.size() == 1200) break;
    }
  }
};
inline const KeySet& keys() { static KeySet* k = nullptr; if (!k) { lmc_host(1); k = new KeySet; lmc_host(0); } return *k; }

// n keys of one partition
inline const std::vector<std::string>& crowd(size_t n) {
  static std::vector<std::string>* v = nullptr; static uint32_t next = 1;
  lmc_host(1);
  if (!v) v = new std::vector<std::string>;
  for (; v->size() < n; next++) { std::string s((const char*)&next, 4); s += "x"; if (ref_hash(s.data(), s.size(), 0) >> 28 == 5) v->push_back(s); }
  lmc_host(0);
  return *v;
}
// An inserted entry as the harness knows it.
struct Ent {
  std::string key; uintptr_t val; size_t charge;
  int held = 0; bool in = false; bool dead = false; int shard = 0;
};
// What the deleters report.
struct DelLog { std::vector<int> calls; };

inline int shard_of(const std::string& k) { return ref_hash(k.data(), k.size(), 0) >> 28; }

// Exact model: one LRU list per partition.
struct Model {
  size_t cap;                  // per partition
  std::vector<Ent> ents;
  std::vector<int> lru[16];    // unused entries, oldest first
  size_t usage[16];
  std::vector<int> deleted;    // since last clear
  explicit Model(size_t capacity) {
    cap = capacity / 16 + (capacity % 16 ? 1 : 0);
    memset(usage, 0, sizeof usage);
  }
  int find(const std::string& k) const { for (size_t i = ents.size(); i-- > 0;) if (ents[i].in && ents[i].key == k) return i; return -1; }
  void destroy(int i) { ents[i].dead = true; deleted.push_back(i); }
  void out(int i) {            // leave the cache
    Ent& e = ents[i]; e.in = false; usage[e.shard] -= e.charge;
    auto& l = lru[e.shard]; for (size_t k = 0; k < l.size(); k++) if (l[k] == i) { l.erase(l.begin() + k); break; }
    if (!e.held) destroy(i);
  }
  int insert(const std::string& k, uintptr_t v, size_t charge) {
    Ent e; e.key = k; e.val = v; e.charge = charge; e.held = 1; e.shard = shard_of(k); e.in = cap > 0;
    int old = find(k);
    ents.push_back(e); int id = ents.size() - 1;
    if (cap > 0) {
      usage[e.shard] += charge;
      if (old >= 0) out(old);
      while (usage[e.shard] > cap && !lru[e.shard].empty()) out(lru[e.shard][0]);
    }
    return id;
  }
  int lookup(const std::string& k) {
    int i = find(k); if (i < 0) return -1;
    Ent& e = ents[i];
    if (e.held++ == 0) { auto& l = lru[e.shard]; for (size_t j = 0; j < l.size(); j++) if (l[j] == i) { l.erase(l.begin() + j); break; } }
    return i;
  }
  void release(int i) { Ent& e = ents[i]; if (--e.held == 0) { if (e.in) lru[e.shard].push_back(i); else destroy(i); } }
  void erase(const std::string& k) { int i = find(k); if (i >= 0) out(i); }
  void prune() { for (auto& l : lru) while (!l.empty()) out(l[0]); }
  size_t total() const { size_t t = 0; for (size_t u : usage) t += u; return t; }
};

inline std::string show(const std::string& k0) { std::string r, k = k0.substr(0, 40); char b[8]; if (k0.size() > 40) r = "(" + std::to_string(k0.size()) + " bytes)"; for (unsigned char c : k) { if (c > 32 && c < 127) r += c; else { snprintf(b, 8, "\\%02x", c); r += b; } } return r; }
