// Drives tosca::LruCache with a symbolic operation sequence next to an ideal
// least-recently-used map and compares every answer.
#include <cstdint>
#include <new>
#include "common/lru_cache.h"
#include "rt/sym.h"
namespace {
struct Ideal {
  uint64_t cap, n = 0, clock = 0;
  uint8_t key[8]; uint32_t val[8]; uint64_t age[8];
  int find(uint8_t k) { for (uint64_t i = 0; i < n; i++) if (key[i] == k) return (int)i; return -1; }
  bool get(uint8_t k, uint32_t* v) { int i = find(k); if (i < 0) return false; age[i] = ++clock; *v = val[i]; return true; }
  void put(uint8_t k, uint32_t v) {
    int i = find(k);
    if (i >= 0) { val[i] = v; return; }
    if (n < cap) i = (int)n++;
    else { i = 0; for (uint64_t j = 1; j < n; j++) if (age[j] < age[i]) i = (int)j; }
    key[i] = k; val[i] = v; age[i] = ++clock;
  }
};
template <size_t CAP> void run() {
  using Cache = tosca::LruCache<uint8_t, uint32_t, CAP>;
  alignas(64) static unsigned char room[sizeof(Cache)];
  Cache* c = new (room) Cache();
  sym_guard(room, sizeof(Cache));
  Ideal m; m.cap = CAP;
  uint64_t n = sym_param("ops"), kinds = sym_param("kinds"), clears = 0;
  uint64_t other = sym_param("other");
  auto fresh_key = [&](uint64_t i) { uint8_t k; sym_bytes_i(&k, 1, "key", i); return k; };
  auto fresh_val = [&](uint64_t i) { uint16_t v; sym_bytes_i(&v, 2, "val", i); return (uint32_t)v; };
  auto lookup = [&](uint8_t k) {
    uint32_t want = 0; bool in = m.get(k, &want);
    auto r = c->Get(k);
    sym_check(r.has_value() == in, "a lookup finds a key exactly when the ideal cache holds it");
    if (r.has_value() && in) sym_check_u64(*r, want, "a lookup returns the stored value");
  };
  uint64_t pre = sym_param("prefill");
  for (uint64_t i = 0; i < pre; i++) { m.put((uint8_t)(200 + i), (uint32_t)i); c->InsertOrAssign((uint8_t)(200 + i), (uint32_t)i); }
  for (uint64_t i = 0; i < n; i++, kinds /= 4) {
    uint64_t kind = kinds % 4;
    if (kind == 3) { c->Clear(); m.n = 0; continue; }
    uint8_t k = fresh_key(i);
    if (kind == 0) lookup(k);
    if (kind == 1) {
      uint32_t v = fresh_val(i); m.put(k, v);
      sym_check_u64(c->InsertOrAssign(k, v), v, "storing returns the stored value");
    }
    if (kind == 2) {
      uint32_t v = fresh_val(i), want = v; bool in = m.get(k, &want);
      uint64_t made = 0; bool same = false; uint32_t v2 = 0;
      uint32_t r = c->GetOrInsert(k, [&] {
        made++;
        // another thread's complete operation may fall between the lookup and the insertion
        if (other && i + 1 == n) {
          uint8_t k2 = fresh_key(100);
          sym_interfere(1);
          if (other == 1) lookup(k2);
          if (other == 2) { v2 = fresh_val(100); same = k2 == k; m.put(k2, v2); c->InsertOrAssign(k2, v2); }
          if (other == 3) { c->Clear(); m.n = 0; }
          sym_interfere(0);
        }
        return v;
      });
      sym_check_u64(made, in ? 0 : 1, "the producer runs exactly once when the key is absent and never otherwise");
      if (same) { sym_check(r == v || r == v2, "a raced insertion returns one of the values stored"); return; }
      sym_check_u64(r, want, "get-or-insert returns the stored or the produced value");
      if (!in) m.put(k, v);
    }
  }
  sym_check_u64(c->GetMaxSize(), CAP, "maximum size is the capacity");
  for (uint64_t e = 0; e < sym_param("evict"); e++) { uint8_t k = fresh_key(50 + e); uint32_t v = fresh_val(50 + e); m.put(k, v); sym_check_u64(c->InsertOrAssign(k, v), v, "storing returns the stored value"); lookup(k); }
  // contents: every key ever used, plus an arbitrary one
  kinds = sym_param("kinds");
  for (uint64_t i = 0; i < n; i++, kinds /= 4) if (kinds % 4 != 3) lookup(fresh_key(i));
  for (uint64_t i = 0; i < pre; i++) lookup((uint8_t)(200 + i));
  lookup(fresh_key(60));
}
}
extern "C" void h_lru() {
  switch (sym_param("cap")) { case 1: run<1>(); break; case 2: run<2>(); break; case 3: run<3>(); break; case 4: run<4>(); break; case 5: run<5>(); break; case 6: run<6>(); break; }
}
#ifdef LRU_THREADS
#include <thread>
// native confirmation of an unguarded access: two threads repeat the operation under ThreadSanitizer
extern "C" void h_threads() {
  tosca::LruCache<uint8_t, uint32_t, 3> c;
  uint64_t kind = sym_param("kind");
  auto body = [&](unsigned t) {
    for (unsigned i = 0; i < 200; i++) {
      uint8_t k = (uint8_t)((i * 7 + t) % 5);
      switch (kind) { case 0: if (i % 3 == 0) c.InsertOrAssign(k, i); c.Get(k); break; case 1: c.InsertOrAssign(k, i); break; case 2: c.GetOrInsert(k, [&] { return i; }); break; default: if (i % 2) c.Clear(); else c.InsertOrAssign(k, i); }
    }
  };
  std::thread a(body, 0), b(body, 1); a.join(); b.join();
}
#endif
