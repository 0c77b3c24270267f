// Property-based testing engine: a case is a byte string; every choice of a
// generator is drawn from it, so cases are random, shrinkable, replayable and
// (through the same entry point) drivable by a coverage-guided fuzzer.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <functional>

struct Src {
  // replay mode: bytes come from `in` (exhausted -> 0); random mode: from rng, and are recorded
  std::vector<uint8_t> buf; size_t pos = 0; bool random = false; uint64_t st = 0;
  size_t cap = 1 << 20;
  uint8_t byte();
  uint64_t draw(uint64_t bound);            // 0..bound-1; 0 is the simplest choice
  int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo + 1)); } // inclusive, lo simplest
  bool chance(int num, int den) { return (int)draw((uint64_t)den) >= den - num; } // false is simplest
  double unit();                            // [0,1), 0 simplest
  template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
};

struct Failure { std::string key, msg; };
struct Discard {};

struct Ctx {
  bool verbose = false;
  bool nontriv = false;
  std::string desc;       // decoded case (only collected when verbose or for samples)
  bool want_desc = false;
  std::map<std::string, long> labels;
  void label(const std::string& s) { labels[s]++; }
  void nontrivial() { nontriv = true; }
  void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  [[noreturn]] void discard() { throw Discard(); }
};
#define CHECK(ctx, cond, key, ...) do { if (!(cond)) (ctx).fail(key, __VA_ARGS__); } while (0)

struct Prop {
  const char* id; const char* sub;   // property id and sub-check name
  int weight;                        // share of the cases
  void (*fn)(Src&, Ctx&);
  const char* rule;                  // when a case counts as non-trivial
};
std::vector<Prop>& registry();
struct Reg { Reg(const char* id, const char* sub, int w, void (*fn)(Src&, Ctx&), const char* rule) { registry().push_back({id, sub, w, fn, rule}); } };
#define PROPERTY(id, sub, weight, rule) \
  static void prop_##id##_##sub(Src&, Ctx&); \
  static Reg reg_##id##_##sub(#id, #sub, weight, prop_##id##_##sub, rule); \
  static void prop_##id##_##sub(Src& s, Ctx& c)
