#include "engine.hpp"
#include "env.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>

extern "C" int __real_clock_gettime(clockid_t, struct timespec*);
void warm_up();   // provided by the harness: touch slow-to-load libraries

static double wall() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }

uint8_t Src::byte() {
  if (!random) return pos < buf.size() ? buf[pos++] : (pos++, 0);
  if (buf.size() >= cap) return 0;
  st = st + 0x9E3779B97F4A7C15ull;
  uint8_t b = (uint8_t)(mix(st) >> 32);
  buf.push_back(b); pos++;
  return b;
}
uint64_t Src::draw(uint64_t bound) {
  if (bound <= 1) return 0;
  uint64_t v = 0; int nb = bound <= 64 ? 1 : bound <= (1u << 13) ? 2 : bound <= (1u << 24) ? 4 : 8;
  for (int i = 0; i < nb; i++) v = v << 8 | byte();
  return v % bound;
}
double Src::unit() { return (double)draw(1ull << 24) / (double)(1 << 24); }

void Ctx::log(const char* fmt, ...) {
  if (!want_desc || desc.size() > 200000) return;
  char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  desc += b; desc += '\n';
}
void Ctx::fail(const std::string& key, const char* fmt, ...) {
  char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  throw Failure{key, b};
}

static std::string g_prop; static uint64_t g_seed = 1; static int g_cpu = 60;
static std::vector<Prop> g_sel; static int g_wsum;
static std::string jesc(const std::string& s) {
  std::string o; for (unsigned char c : s) { char b[8];
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; }
  return o;
}

// Result of one case
struct Out { int kind; /*0 ok,1 fail,2 discard*/ std::string key, msg; bool nontriv; std::map<std::string,long> labels; std::string desc; };

static const Prop& choose(Src& s) { int k = (int)s.draw(g_wsum); for (auto& p : g_sel) { if (k < p.weight) return p; k -= p.weight; } return g_sel.back(); }

static Out run_case(Src& s, bool want_desc) {
  Out o{0, "", "", false, {}, ""}; Ctx c; c.want_desc = want_desc;
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = g_cpu; setitimer(ITIMER_PROF, &it, 0);
  vmem_reset(); vclk_virtual(1000.0, 1e-6);
  { static const int fills[] = {0x21, 0xFF, 0x7E}; vmem_set_fill(fills[s.draw(3)]); }
  try { const Prop& p = choose(s); c.log("sub-check: %s/%s", p.id, p.sub); c.label(std::string("sub:") + p.sub); p.fn(s, c); }
  catch (Failure& f) { o.kind = 1; o.key = f.key; o.msg = f.msg; }
  catch (Discard&) { o.kind = 2; c.label("discarded"); }
  memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, 0);
  vclk_real();
  o.nontriv = c.nontriv && o.kind != 2; o.labels = c.labels; o.desc = c.desc; return o;
}
static void on_prof(int) { static const char m[] = "SUMMARY: cpu-limit exceeded in one case\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }

static uint64_t fnv(const std::vector<uint8_t>& b) { uint64_t h = 1469598103934665603ull; for (auto c : b) { h ^= c; h *= 1099511628211ull; } return h; }

// Execute a byte string in a forked child; returns "" if it passes, else the failure key
static std::string crash_key(int st, const std::string& err) {
  std::string s;
  size_t p = err.rfind("SUMMARY:");
  if (p != std::string::npos) { size_t e = err.find('\n', p); s = err.substr(p + 9, e - p - 9);
    // strip addresses/paths so keys are stable
    size_t sl = s.rfind('/'); if (sl != std::string::npos) { size_t sp = s.rfind(' ', sl); s = s.substr(0, sp == std::string::npos ? 0 : sp + 1) + s.substr(sl + 1); } }
  char b[64]; if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crash:signal%d", WTERMSIG(st)); else snprintf(b, sizeof b, WEXITSTATUS(st) == 97 ? "hang" : "crash:exit%d", WEXITSTATUS(st));
  return s.empty() ? b : std::string(b) + ":" + s;
}
static std::string exec_bytes(const std::vector<uint8_t>& bytes, std::string* msg, std::string* desc, size_t* used) {
  int pfd[2]; if (pipe(pfd)) exit(3);
  char tmpl[] = "/tmp/vh-errXXXXXX"; int efd = mkstemp(tmpl); unlink(tmpl);
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]); dup2(efd, 2); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
    signal(SIGPROF, on_prof);
    Src s; s.buf = bytes; Out o = run_case(s, desc != 0);
    std::string r; r += (char)('0' + o.kind); uint64_t u = s.pos; r.append((char*)&u, 8); r += o.key; r += '\0'; r += o.msg; r += '\0'; r += o.desc;
    size_t off = 0; while (off < r.size()) { ssize_t w = write(pfd[1], r.data() + off, r.size() - off); if (w <= 0) break; off += w; }
    _exit(0);
  }
  close(pfd[1]);
  std::string r; char b[65536]; ssize_t k; while ((k = read(pfd[0], b, sizeof b)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) r.append(b, k);
  close(pfd[0]); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  std::string key;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && r.size() >= 9) {
    if (r[0] == '1') { size_t z = r.find('\0', 9); key = r.substr(9, z - 9); size_t z2 = r.find('\0', z + 1); if (msg) *msg = r.substr(z + 1, z2 - z - 1); if (desc) *desc = r.substr(z2 + 1); }
    else if (desc) { size_t z = r.find('\0', 9); size_t z2 = r.find('\0', z + 1); *desc = r.substr(z2 + 1); }
    if (used) { uint64_t u; memcpy(&u, r.data() + 1, 8); *used = u; }
  } else {
    off_t n = lseek(efd, 0, SEEK_END); if (n > 60000) n = 60000; std::string e(n, 0); (void)!pread(efd, &e[0], n, 0);
    key = crash_key(st, e); if (msg) *msg = e.substr(0, 6000); if (used) *used = bytes.size();
  }
  close(efd);
  return key;
}

static void shrink(std::vector<uint8_t>& best, const std::string& key, double budget, int maxtry, int* tries) {
  double t0 = wall(); *tries = 0;
  auto attempt = [&](const std::vector<uint8_t>& c) -> bool {
    if (wall() - t0 > budget || *tries >= maxtry) return false;
    ++*tries; size_t used = 0; std::string k = exec_bytes(c, 0, 0, &used);
    if (k != key) return false;
    best = c; if (used < best.size()) best.resize(used); return true;
  };
  { size_t used = 0; exec_bytes(best, 0, 0, &used); if (used < best.size()) best.resize(used); }
  bool progress = true;
  while (progress && wall() - t0 < budget && *tries < maxtry) {
    progress = false;
    for (size_t len = best.size() / 2; len >= 1; len /= 2) {              // truncate / delete / zero chunks
      for (size_t i = 0; i + len <= best.size();) {
        std::vector<uint8_t> c(best.begin(), best.begin() + i); c.insert(c.end(), best.begin() + i + len, best.end());
        if (attempt(c)) { progress = true; continue; }
        bool nz = false; for (size_t j = i; j < i + len; j++) nz |= best[j] != 0;
        if (nz) { c = best; for (size_t j = i; j < i + len; j++) c[j] = 0; if (attempt(c)) progress = true; }
        i += len;
        if (wall() - t0 > budget || *tries >= maxtry) return;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size(); i++) {                              // lower single bytes
      uint8_t v = best[i]; if (!v) continue;
      for (uint8_t w : {(uint8_t)(v / 2), (uint8_t)(v - 1)}) { auto c = best; c[i] = w; if (attempt(c)) { progress = true; break; } }
      if (wall() - t0 > budget || *tries >= maxtry) return;
    }
  }
}

struct Shared { volatile long cur[64]; volatile int stop; volatile long done; };

// worker: appends records to fd.  R = stats at end, F = failure
struct Stat { long n = 0, nt = 0, disc = 0; std::set<uint64_t> nth; std::map<std::string,long> labels; std::vector<std::string> samples; };

static void write_all(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t w = write(fd, s.data() + o, s.size() - o); if (w < 0) { if (errno == EINTR) continue; _exit(4); } o += w; } }

static void worker(int w, int N, long start, long cases, Shared* sh, int fd, const std::set<std::string>& known, double deadline) {
  signal(SIGPROF, on_prof);
  Stat st;
  auto flush_stats = [&]() {
    std::string r = "S " + std::to_string(st.n) + " " + std::to_string(st.nt) + " " + std::to_string(st.disc) + "\n";
    for (auto h : st.nth) r += "H " + std::to_string(h) + "\n";
    for (auto& l : st.labels) r += "L " + std::to_string(l.second) + " " + l.first + "\n";
    for (auto& s : st.samples) r += "X " + jesc(s) + "\n";
    write_all(fd, r); st = Stat();
  };
  long since = 0;
  for (long i = start; i < cases && !sh->stop; i += N) {
    if (wall() > deadline) break;
    sh->cur[w] = i;
    Src s; s.random = true; uint64_t ph = 0; for (char c : g_prop) ph = ph * 131 + c;
    s.st = mix(g_seed * 0x9E37 + mix(ph + mix((uint64_t)i)));
    bool want = i < 6 * N && st.samples.size() < 2;
    Out o = run_case(s, want);
    st.n++; if (o.kind == 2) st.disc++;
    if (o.nontriv) { st.nt++; if (st.nth.size() < 2000000) st.nth.insert(fnv(s.buf)); if (want) st.samples.push_back(o.desc.substr(0, 1500)); }
    for (auto& l : o.labels) st.labels[l.first] += l.second;
    if (o.kind == 1) {
      if (known.count(o.key)) st.labels["known-finding:" + o.key]++;
      else { write_all(fd, "F " + std::to_string(i) + " " + jesc(o.key) + "\n"); if (!getenv("VH_KEEP_GOING")) sh->stop = 1; }
    }
    if (++since >= 2000) { flush_stats(); since = 0; }
  }
  flush_stats();
  _exit(0);
}

static bool save(const std::string& path, const std::string& data) { FILE* f = fopen(path.c_str(), "wb"); if (!f) return false; fwrite(data.data(), 1, data.size(), f); fclose(f); return true; }
static bool load(const std::string& path, std::vector<uint8_t>& b) { FILE* f = fopen(path.c_str(), "rb"); if (!f) return false; b.clear(); int c; while ((c = fgetc(f)) != EOF) b.push_back((uint8_t)c); fclose(f); return true; }

#ifdef FUZZ_TARGET
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  g_prop = getenv("VH_PROP") ? getenv("VH_PROP") : "C01"; const char* sub = getenv("VH_SUB");
  for (auto& p : registry()) if (g_prop == p.id && (!sub || !strcmp(sub, p.sub))) { g_sel.push_back(p); g_wsum += p.weight; }
  if (g_sel.empty()) { fprintf(stderr, "no such property\n"); exit(3); }
  warm_up(); return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  Src s; s.buf.assign(d, d + n); Out o = run_case(s, false);
  if (o.kind == 1) { fprintf(stderr, "FUZZ-FAIL key=%s %s\n", o.key.c_str(), o.msg.c_str()); abort(); }
  return o.kind == 2 ? -1 : 0;
}
#else
int main(int argc, char** argv) {
  long cases = 1000; double wallcap = 60; std::string out = "", replay, replaydir = "/tmp", sub; int N = 8; bool list = false; double shrinkbudget = 40;
  std::set<std::string> known; std::vector<std::string> corpus; long only = -1;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") g_prop = nx(); else if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10); else if (a == "--cases") cases = atol(nx().c_str());
    else if (a == "--wall") wallcap = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--replaydir") replaydir = nx();
    else if (a == "--workers") N = atoi(nx().c_str()); else if (a == "--sub") sub = nx(); else if (a == "--known") known.insert(nx()); else if (a == "--corpus") corpus.push_back(nx());
    else if (a == "--list") list = true; else if (a == "--cpu") g_cpu = atoi(nx().c_str()); else if (a == "--shrink") shrinkbudget = atof(nx().c_str()); else if (a == "--case") only = atol(nx().c_str());
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; } }
  if (list) { for (auto& p : registry()) printf("%s %s %d\n", p.id, p.sub, p.weight); return 0; }
  for (auto& p : registry()) if (g_prop == p.id && (sub.empty() || sub == p.sub)) { g_sel.push_back(p); g_wsum += p.weight; }
  if (g_sel.empty()) { fprintf(stderr, "no such property %s\n", g_prop.c_str()); return 3; }
  warm_up();
  if (only >= 0) {   // run one random case in-process (debugging)
    Src s; s.random = true; uint64_t ph = 0; for (char c : g_prop) ph = ph * 131 + c; s.st = mix(g_seed * 0x9E37 + mix(ph + mix((uint64_t)only)));
    Out o = run_case(s, true); printf("%s\nkind=%d key=%s\n%s\n", o.desc.c_str(), o.kind, o.key.c_str(), o.msg.c_str()); return o.kind == 1;
  }
  if (!replay.empty()) {
    std::vector<uint8_t> b; if (!load(replay, b)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 3; }
    if (getenv("VH_INPROC")) { Src s; s.buf = b; Out o = run_case(s, true); printf("%s\nkind=%d key=%s\n%s\n", o.desc.c_str(), o.kind, o.key.c_str(), o.msg.c_str()); return o.kind == 1; }
    std::string msg, desc; std::string k = exec_bytes(b, &msg, &desc, 0);
    printf("%s\n%s\n", desc.c_str(), k.empty() ? "PASS" : ("FAIL key=" + k).c_str()); printf("%s\n", msg.c_str());
    return k.empty() ? 0 : 1;
  }
  double t0 = wall(), deadline = t0 + wallcap;
  Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct Rec { std::vector<uint8_t> bytes; std::string key, msg; long idx; };
  std::vector<Rec> fails; std::map<std::string,long> failcount; long corpus_n = 0, corpus_known = 0; std::set<std::string> seen_known;
  for (auto& f : corpus) { std::vector<uint8_t> b; if (!load(f, b)) continue; corpus_n++; std::string msg; std::string k = exec_bytes(b, &msg, 0, 0);
    if (!k.empty()) { if (known.count(k)) { corpus_known++; seen_known.insert(k); } else fails.push_back({b, k, msg, -1}); } }
  Stat tot; std::vector<std::string> err(N); std::vector<pid_t> pids(N, 0); std::vector<int> fds(N), efds(N);
  std::string tmpd = "/tmp/vh." + std::to_string(getpid()); mkdir(tmpd.c_str(), 0700);
  auto rfile = [&](int w) { return tmpd + "/r" + std::to_string(w); }; auto efile = [&](int w) { return tmpd + "/e" + std::to_string(w); };
  auto spawn = [&](int w, long start) {
    fflush(0); pid_t p = fork();
    if (p == 0) {
      int fd = open(rfile(w).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600); int e = open(efile(w).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(e, 2); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
      worker(w, N, start, cases, sh, fd, known, deadline);
    }
    pids[w] = p;
  };
  if (fails.empty()) for (int w = 0; w < N; w++) { sh->cur[w] = -1; spawn(w, w); }
  int alive = fails.empty() ? N : 0; std::vector<std::pair<long,std::string>> hits; long crashes = 0;
  while (alive) {
    int st; pid_t p = wait(&st); if (p < 0) { if (errno == EINTR) continue; break; }
    int w = -1; for (int i = 0; i < N; i++) if (pids[i] == p) w = i; if (w < 0) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; continue; }
    std::vector<uint8_t> eb; load(efile(w), eb); std::string e(eb.begin(), eb.end());
    std::string k = crash_key(st, e); long idx = sh->cur[w]; crashes++;
    if (idx < 0) { fprintf(stderr, "worker died outside a case: %s\n%s\n", k.c_str(), e.substr(0, 2000).c_str()); return 3; }
    if (known.count(k)) { tot.labels["known-finding:" + k]++; }
    else { hits.push_back({idx, k}); if (!getenv("VH_KEEP_GOING")) sh->stop = 1; }
    tot.n++;
    if (sh->stop && !getenv("VH_KEEP_GOING")) { alive--; continue; }
    sh->cur[w] = -1; spawn(w, idx + N);
  }
  for (int w = 0; w < N; w++) { std::vector<uint8_t> b; if (!load(rfile(w), b)) continue; std::string s(b.begin(), b.end()); size_t i = 0;
    while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) break; std::string ln = s.substr(i, e - i); i = e + 1;
      if (ln[0] == 'S') { long a, b2, c; sscanf(ln.c_str(), "S %ld %ld %ld", &a, &b2, &c); tot.n += a; tot.nt += b2; tot.disc += c; }
      else if (ln[0] == 'H') tot.nth.insert(strtoull(ln.c_str() + 2, 0, 10));
      else if (ln[0] == 'L') { size_t sp = ln.find(' ', 2); tot.labels[ln.substr(sp + 1)] += atol(ln.c_str() + 2); }
      else if (ln[0] == 'X') { if (tot.samples.size() < 6) tot.samples.push_back(ln.substr(2)); }
      else if (ln[0] == 'F') { size_t sp = ln.find(' ', 2); hits.push_back({atol(ln.c_str() + 2), ln.substr(sp + 1)}); } } }
  for (int w = 0; w < N; w++) { unlink(rfile(w).c_str()); unlink(efile(w).c_str()); } rmdir(tmpd.c_str());
  std::set<std::string> hk; long unrepro = 0;
  for (auto& h : hits) failcount[h.second]++;
  std::string json_f; int nviol = 0; std::vector<std::string> vlines;
  for (auto& h : hits) {
    if (hk.count(h.second) || hk.size() >= 12) continue;
    // regenerate the bytes of this case without running it: record by replaying generator in a child is
    // not possible for crashes, so produce a long random byte string with the same stream
    std::vector<uint8_t> b; { uint64_t ph = 0; for (char c : g_prop) ph = ph * 131 + c; Src s; s.random = true; s.st = mix(g_seed * 0x9E37 + mix(ph + mix((uint64_t)h.first))); for (int i = 0; i < 60000; i++) s.byte(); b = s.buf; }
    std::string msg; size_t used = 0; std::string k = exec_bytes(b, &msg, 0, &used);
    if (k.empty()) { unrepro++; fprintf(stderr, "note: case %ld (%s) does not fail when run alone\n", h.first, h.second.c_str()); continue; }
    if (known.count(k)) continue;
    if (used < b.size()) b.resize(used); hk.insert(h.second); hk.insert(k);
    fails.push_back({b, k, msg, h.first});
  }
  for (auto& f : fails) {
    int tries = 0; shrink(f.bytes, f.key, nviol ? shrinkbudget / 4 : shrinkbudget, 2500, &tries);
    int ok = 0; std::string desc; for (int r = 0; r < 3; r++) { std::string m; desc.clear(); if (exec_bytes(f.bytes, &m, &desc, 0) == f.key) { ok++; f.msg = m; } }
    if (ok < 3) { fprintf(stderr, "note: failure %s reproduced only %d/3 times; not reported\n", f.key.c_str(), ok); unrepro++; continue; }
    char nm[64]; snprintf(nm, sizeof nm, "/%s-%016llx", g_prop.c_str(), (unsigned long long)fnv(f.bytes)); std::string path = replaydir + nm + ".bin";
    save(path, std::string(f.bytes.begin(), f.bytes.end())); save(replaydir + nm + ".txt", desc + "\nFAIL key=" + f.key + "\n" + f.msg + "\n");
    nviol++; printf("FAILURE prop=%s key=%s case=%ld replay=%s (%zu bytes, %d shrink runs)\n  %s\n", g_prop.c_str(), f.key.c_str(), f.idx, path.c_str(), f.bytes.size(), tries, f.msg.substr(0, 1200).c_str());
    if (!json_f.empty()) json_f += ","; json_f += "{\"key\":\"" + jesc(f.key) + "\",\"msg\":\"" + jesc(f.msg.substr(0, 1500)) + "\",\"replay\":\"" + jesc(path) + "\"}";
  }
  for (auto& fc : failcount) printf("count %ld  %s\n", fc.second, fc.first.c_str());
  std::string j = "{\"prop\":\"" + g_prop + "\",\"seed\":" + std::to_string(g_seed) + ",\"evaluations\":" + std::to_string(tot.n) + ",\"nontrivial\":" + std::to_string(tot.nt) + ",\"distinct_nontrivial\":" + std::to_string(tot.nth.size()) + ",\"discarded\":" + std::to_string(tot.disc) + ",\"corpus\":" + std::to_string(corpus_n) + ",\"unreproduced\":" + std::to_string(unrepro) + ",\"wall_s\":" + std::to_string(wall() - t0) + ",\"labels\":{";
  bool first = true; for (auto& l : tot.labels) { j += (first ? "\"" : ",\"") + jesc(l.first) + "\":" + std::to_string(l.second); first = false; }
  j += "},\"rules\":["; first = true; for (auto& p : g_sel) { j += (first ? "\"" : ",\"") + jesc(std::string(p.sub) + ": " + p.rule) + "\""; first = false; }
  j += "],\"samples\":["; first = true; for (auto& s : tot.samples) { j += (first ? "\"" : ",\"") + s + "\""; first = false; }
  j += "],\"known_seen\":["; first = true; for (auto& s : seen_known) { j += (first ? "\"" : ",\"") + jesc(s) + "\""; first = false; }
  j += "],\"failures\":[" + json_f + "]}";
  if (!out.empty()) save(out, j); else printf("%s\n", j.c_str());
  return nviol ? 1 : 0;
}
#endif
