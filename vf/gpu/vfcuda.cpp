// A CUDA runtime on the CPU whose kernels are observed access by access.
//
// Kernels are compiled with the instrumentation of ThreadSanitizer, but linked
// to this runtime, which receives every load and store. It runs the threads of
// a launch as fibers under seeded schedules and checks, like the four tools of
// NVIDIA's compute-sanitizer: bounds and direction of all accesses (memcheck),
// conflicting accesses which no barrier orders (racecheck), reads of global memory
// nobody wrote (initcheck) and barriers (synccheck). Streams are asynchronous.
#include "tensorflow/core/framework/op_kernel.h"
#include "tensorflow/core/framework/tensor.h"
#include <sys/mman.h>
#include <algorithm>
#include <cstdio>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <vector>

namespace vf {
namespace {

// ---------------------------------------------------------------- configuration
struct Conf { uint64_t seed = 1; int mps = 2, bpsm = 2, mode = 0, lazy = 1, resident = 4; } conf;
uint64_t rng_state = 1;
uint32_t rnd() {
  rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17;
  return (uint32_t)(rng_state >> 16);
}
struct Stats { uint64_t ops, launches, blocks, threads, reads, writes, atomics, barriers, switches, copies, memsets, bytes, words, unset; } st;
// what memory contains before anything is written: NaN, huge, negative, ...
int poison() { static const int p[] = {0xA5, 0xFF, 0x7F, 0x80}; return p[conf.seed % 4]; }

// ------------------------------------------------------------------- violations
std::vector<std::string> violations; std::set<std::string> seen;
std::string op_name, kernel_name;
std::map<std::string, uint64_t> kernels;
void violation(const std::string& kind, const std::string& where, const std::string& detail) {
  std::string k = kind + "|" + op_name + "|" + kernel_name + "|" + where;
  if (!seen.insert(k).second || violations.size() > 40) return;
  std::string s = kind + ": op " + op_name + ", kernel " + (kernel_name.empty() ? "-" : kernel_name) + ", " + where + ": " + detail;
  violations.push_back(s);
}

// ---------------------------------------------------------------------- regions
struct Rec {
  uint32_t launch = 0, wt = 0, wb = 0, we = 0; bool wa = false, w = false;
  uint32_t rt[2], rb[2], re[2]; uint8_t nr = 0;
};
enum Kind { INPUT, OUTPUT, TEMP, PINNED, HOSTIN, SHAREDIN, SHARED };
struct Region {
  uintptr_t base; size_t size; Kind kind; std::string name;
  std::vector<uint8_t> init; std::vector<Rec> rec;
  Region(void* p, size_t n, Kind k, const std::string& nm, bool ini) : base((uintptr_t)p), size(n), kind(k), name(nm), init(n, ini ? 1 : 0) {}
  bool has(uintptr_t a) const { return a - base < size; }
  bool device() const { return kind == INPUT || kind == OUTPUT || kind == TEMP || kind == PINNED; }
};
std::vector<Region*> regions; Region* last_region = nullptr;
Region* find(uintptr_t a) {
  if (last_region && last_region->has(a)) return last_region;
  for (Region* r : regions) if (r->has(a)) return last_region = r;
  return nullptr;
}

// ----------------------------------------------------------------------- fibers
extern "C" void vf_switch(void** save, void* to);
asm(R"(
.text
.globl vf_switch
.type vf_switch,@function
vf_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
const size_t STACK = 96 * 1024;
struct Block;
struct Thread { void* sp; char* stack; Block* blk; unsigned tid; int state; std::string site; };  // 0 ready 1 barrier 2 done
struct Block {
  unsigned id, live, arrived; uint32_t epoch;
  std::map<const void*, Region*> statics; Region* dyn = nullptr;
  std::vector<Region*> shared; std::vector<Thread*> th; std::string site; bool div = false;
};
std::vector<char*> pool;
Thread* cur = nullptr; void* sched_sp; const std::function<void()>* body; dim3 gdim, bdim; size_t dynsize; uint32_t launch_id = 0;
uintptr_t args_lo = 0; size_t args_size = 0;  // the arguments of the running kernel
uint64_t hooks_left; std::vector<Thread*> ready; std::vector<std::pair<uintptr_t, uintptr_t>> modules;
size_t rr = 0;

void yield_to_sched() { Thread* t = cur; vf_switch(&t->sp, sched_sp); }
void kill_thread() { cur->state = 2; yield_to_sched(); abort(); }
void entry() { (*body)(); kill_thread(); }
void make(Thread* t) {
  if (pool.empty()) {
    char* m = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(m, 4096, PROT_NONE); pool.push_back(m);
  }
  t->stack = pool.back(); pool.pop_back();
  void** s = (void**)(t->stack + STACK - 64);
  *--s = nullptr; *--s = (void*)entry; for (int i = 0; i < 6; ++i) *--s = nullptr;
  t->sp = s;
}
void maybe_yield(uint32_t one_in) {
  if (conf.mode < 2 || one_in == 0) return;
  if (one_in == 1 || rnd() % one_in == 0) { ready.push_back(cur); yield_to_sched(); }
}
void load_modules() {
  modules.clear(); FILE* f = fopen("/proc/self/maps", "r"); char line[1024];
  while (f && fgets(line, sizeof line, f)) {
    unsigned long a, b; char perm[8];
    if (sscanf(line, "%lx-%lx %7s", &a, &b, perm) == 3 && strstr(line, "vfgpu")) modules.push_back({a, b});
  }
  if (f) fclose(f);
}

std::string hex(uintptr_t a) { char b[32]; snprintf(b, sizeof b, "%#lx", (unsigned long)a); return b; }
std::string who(Thread* t) { return "block " + std::to_string(t->blk->id) + " thread " + std::to_string(t->tid); }

void race(Region* r, size_t off, const char* what, uint32_t ob, uint32_t ot) {
  violation("race", r->name, std::string(what) + " at byte " + std::to_string(off) + " by " + who(cur) +
            " conflicts with block " + std::to_string(ob) + " thread " + std::to_string(ot) + ", no barrier orders them");
}
void track(Region* r, uintptr_t a, size_t n, bool write, bool atomic) {
  if (r->rec.empty()) { r->rec.resize((r->size + 3) / 4 + 1); st.words += r->rec.size(); }
  uint32_t b = cur->blk->id, e = cur->blk->epoch, t = cur->tid;
  for (size_t w = (a - r->base) / 4; w <= (a + n - 1 - r->base) / 4; ++w) {
    Rec& c = r->rec[w];
    if (c.launch != launch_id) { c.launch = launch_id; c.w = false; c.nr = 0; }
    auto conc = [&](uint32_t ob, uint32_t ot, uint32_t oe) { return (ob != b) || (ot != t && oe == e); };
    if (c.w && conc(c.wb, c.wt, c.we) && !(atomic && c.wa)) race(r, w * 4, write ? "write after write" : "read after write", c.wb, c.wt);
    if (write) {
      for (int i = 0; i < c.nr; ++i) if (conc(c.rb[i], c.rt[i], c.re[i])) { race(r, w * 4, "write after read", c.rb[i], c.rt[i]); break; }
      c.w = true; c.wb = b; c.wt = t; c.we = e; c.wa = atomic;
    } else {
      bool done = false;
      for (int i = 0; i < c.nr; ++i) if (c.rb[i] == b && (c.rt[i] == t || c.re[i] != e)) { c.rt[i] = t; c.re[i] = e; done = true; break; }
      if (!done && c.nr < 2) { c.rb[c.nr] = b; c.rt[c.nr] = t; c.re[c.nr] = e; c.nr++; }
    }
  }
}

// One access of a kernel or of the host code of an operation.
bool in_runtime = false; thread_local bool mine = false;
void access(uintptr_t a, size_t n, bool write, bool atomic = false) {
  if (!mine) return;
  if (!cur) {
    if (in_runtime || regions.empty()) return;
    Region* r = find(a);
    if (r && r->device() && r->kind != PINNED) violation("host-access", r->name, "the host dereferences device memory");
    return;
  }
  uintptr_t s = (uintptr_t)cur->stack;
  if (a - s < STACK) return;
  if (!write && a - args_lo < args_size) return;
  if (write) st.writes++; else st.reads++;
  if (atomic) st.atomics++;
  if (--hooks_left == 0) { violation("endless", "launch", "the kernel does not terminate"); kill_thread(); }
  if (hooks_left > (1ull << 60)) { hooks_left = 1; kill_thread(); }
  Region* r = nullptr;
  for (Region* q : cur->blk->shared) if (q->has(a)) { r = q; break; }
  if (!r) r = find(a);
  if (!r) {
    for (auto& m : modules) if (a >= m.first && a + n <= m.second) {
      if (write) { violation("bounds", "static data", "write to " + hex(a)); kill_thread(); }
      return;
    }
    std::string near; uintptr_t best = 4096;
    for (Region* q : regions) {
      if (a >= q->base + q->size && a - (q->base + q->size) < best) { best = a - (q->base + q->size); near = std::to_string(best) + " bytes after " + q->name; }
      if (a < q->base && q->base - a < best) { best = q->base - a; near = std::to_string(best) + " bytes before " + q->name; }
    }
    for (Region* q : cur->blk->shared) if (a >= q->base + q->size && a - (q->base + q->size) < best) { best = a - (q->base + q->size); near = std::to_string(best) + " bytes after " + q->name; }
    violation("bounds", near.empty() ? "wild" : near.substr(near.find(" bytes")), std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes by " + who(cur) + " " + near);
    kill_thread();
  }
  if (a + n > r->base + r->size) { violation("bounds", r->name, std::string(write ? "write" : "read") + " crosses the end, by " + who(cur)); kill_thread(); }
  if (r->kind == HOSTIN) { violation("bounds", r->name, "the kernel dereferences host memory"); kill_thread(); }
  size_t o = a - r->base;
  if (write && (r->kind == INPUT || r->kind == SHAREDIN)) violation("bounds", r->name, "write to an input of the operation");
  if (!write || atomic)
    for (size_t i = 0; i < n; ++i) if (!r->init[o + i]) {
      // a padding thread may load shared memory that it does not use; poison shows a use
      if (r->kind == SHARED) { st.unset++; break; }
      violation("uninitialized", r->name, "read at byte " + std::to_string(o + i) + " by " + who(cur)); break; }
  if (write) for (size_t i = 0; i < n; ++i) r->init[o + i] = 1;
  if (r->kind != INPUT && r->kind != SHAREDIN) track(r, a, n, write || atomic, atomic);
  if (atomic) maybe_yield(conf.mode == 3 ? 1 : 3);
  else if (write) maybe_yield(conf.mode == 3 ? 4 : 24);
}

// ------------------------------------------------------------------ kernel runs
void release(Block* b) {
  if (b->arrived == 0 || b->arrived < b->live) return;
  st.barriers++; b->epoch++; b->arrived = 0; b->site.clear();
  for (Thread* t : b->th) if (t->state == 1) { t->state = 0; ready.push_back(t); }
}
void run_kernel(const std::string& name, dim3 g, dim3 bl, size_t shm, const std::function<void()>& f) {
  kernel_name = name; kernels[name]++; ++launch_id; st.launches++; last_region = nullptr;
  if (modules.empty()) load_modules();
  body = &f; gdim = g; bdim = bl; dynsize = shm; hooks_left = 400000000ull;
  unsigned total = g.x * g.y * g.z, per = bl.x * bl.y * bl.z;
  st.blocks += total; st.threads += (uint64_t)total * per;
  std::vector<unsigned> order(total); for (unsigned i = 0; i < total; ++i) order[i] = i;
  if (conf.mode == 1) std::reverse(order.begin(), order.end());
  if (conf.mode >= 2) for (unsigned i = total; i > 1; --i) std::swap(order[i - 1], order[rnd() % i]);
  size_t next = 0; std::vector<Block*> resident; ready.clear(); rr = 0;
  size_t cap = conf.mode < 2 ? 1 : std::max(1, conf.resident);
  while (next < total || !resident.empty()) {
    while (resident.size() < cap && next < total) {
      Block* b = new Block; b->id = order[next++]; b->live = per; b->arrived = 0; b->epoch = 0;
      for (unsigned i = 0; i < per; ++i) { Thread* t = new Thread; t->blk = b; t->tid = i; t->state = 0; make(t); b->th.push_back(t); }
      std::vector<Thread*> o = b->th; if (conf.mode == 1) std::reverse(o.begin(), o.end());
      ready.insert(ready.end(), o.begin(), o.end()); resident.push_back(b);
    }
    while (!ready.empty()) {
      size_t k = 0;
      if (conf.mode == 2) k = rnd() % ready.size();
      else if (conf.mode == 3) k = rr++ % std::min<size_t>(ready.size(), 32);
      Thread* t = ready[k];
      if (conf.mode == 2) { ready[k] = ready.back(); ready.pop_back(); } else ready.erase(ready.begin() + k);
      cur = t; st.switches++;
      vf_switch(&sched_sp, t->sp);
      cur = nullptr;
      Block* b = t->blk;
      if (t->state == 2) { pool.push_back(t->stack); t->stack = nullptr; b->live--; }
      release(b);
      if (b->live == 0 && (conf.mode >= 2)) break;
    }
    for (size_t i = 0; i < resident.size();) {
      Block* b = resident[i];
      if (b->live == 0) {
        for (Thread* t : b->th) delete t;
        for (Region* r : b->shared) { if (last_region == r) last_region = nullptr; free((void*)r->base); delete r; }
        delete b; resident.erase(resident.begin() + i);
      } else ++i;
    }
  }
  kernel_name.clear();
}

// ---------------------------------------------------------------------- streams
std::deque<std::function<void()>> pending;
tensorflow::OpKernelContext* ctx = nullptr; std::vector<tensorflow::Tensor> kept; std::mutex mu; bool out_seen[64];
void flush() { while (!pending.empty()) { auto f = std::move(pending.front()); pending.pop_front(); f(); } }
void refresh() {
  if (!ctx) return;
  for (int i = 0; i < ctx->num_outputs() && i < 64; ++i) {
    tensorflow::Tensor* t = ctx->mutable_output(i);
    if (!t || out_seen[i]) continue;
    out_seen[i] = true; size_t n = t->TotalBytes();
    if (n) { memset(t->data(), poison(), n); regions.push_back(new Region(t->data(), n, OUTPUT, "output " + std::to_string(i), false)); st.bytes += n; }
  }
}
void enqueue(std::function<void()> f) {
  pending.push_back(std::move(f));
  if (!conf.lazy) flush();
}
bool check_range(const char* what, const void* p, size_t n, bool write) {
  if (n == 0) return true;
  Region* r = find((uintptr_t)p);
  if (!r) { violation("bounds", what, std::string(write ? "writes" : "reads") + " outside of the device memory of the operation"); return false; }
  if ((uintptr_t)p + n > r->base + r->size) {
    violation("bounds", std::string(what) + " " + r->name, std::string(write ? "writes " : "reads ") + std::to_string((uintptr_t)p + n - r->base - r->size) + " bytes after the end"); return false;
  }
  if (write && (r->kind == INPUT || r->kind == SHAREDIN)) violation("bounds", std::string(what) + " " + r->name, "writes an input of the operation");
  return true;
}
void set_init(void* p, size_t n, const uint8_t* from) {
  Region* r = find((uintptr_t)p); if (!r) return;
  size_t o = (uintptr_t)p - r->base; for (size_t i = 0; i < n; ++i) r->init[o + i] = from ? from[i] : 1;
}
}  // namespace

dim3 thread_idx() { return dim3(cur ? cur->tid % bdim.x : 0, cur ? cur->tid / bdim.x % bdim.y : 0, cur ? cur->tid / bdim.x / bdim.y : 0); }
dim3 block_idx() { return dim3(cur ? cur->blk->id % gdim.x : 0, cur ? cur->blk->id / gdim.x % gdim.y : 0, cur ? cur->blk->id / gdim.x / gdim.y : 0); }
dim3 block_dim() { return bdim; }
dim3 grid_dim() { return gdim; }
void sync_threads(const char* file, int line) {
  if (!cur) return;
  Block* b = cur->blk; std::string site = std::string(file).substr(std::string(file).rfind('/') + 1) + ":" + std::to_string(line);
  if (b->arrived && b->site != site) violation("barrier", "barrier", "threads of a block wait at " + b->site + " and " + site);
  b->site = site; b->arrived++; cur->state = 1;
  yield_to_sched();
}
static Region* add_shared(size_t n, const char* nm) {
  void* p = malloc(n ? n : 1); memset(p, poison(), n);
  Region* r = new Region(p, n, SHARED, nm, false); cur->blk->shared.push_back(r); return r;
}
void* shared_static(const void* key, size_t size) {
  auto& m = cur->blk->statics; auto it = m.find(key);
  if (it == m.end()) it = m.emplace(key, add_shared(size, "static shared memory")).first;
  return (void*)it->second->base;
}
void* shared_dyn() {
  if (!cur->blk->dyn) cur->blk->dyn = add_shared(dynsize, "dynamic shared memory");
  return (void*)cur->blk->dyn->base;
}
unsigned now() { return (unsigned)(conf.seed * 2654435761u) % 2000000000u; }
void launch_closure(const char* name, const Cfg& cfg, void (*run)(void*), void (*drop)(void*), void* closure, size_t size) {
  std::shared_ptr<void> own(closure, drop); std::function<void()> f = [own, run] { run(own.get()); };
  dim3 g = cfg.g, b = cfg.b; size_t shm = cfg.s;
  in_runtime = true; refresh();
  std::string nm = name; uint64_t total = (uint64_t)g.x * g.y * g.z, per = (uint64_t)b.x * b.y * b.z;
  kernel_name = nm;
  if (total == 0 || per == 0 || per > 1024 || total > 2147483647ull || shm > 49152)
    violation("launch", "configuration", "grid of " + std::to_string(total) + " blocks of " + std::to_string(per) + " threads with " + std::to_string(shm) + " bytes");
  else enqueue([=] { args_lo = (uintptr_t)own.get(); args_size = size; run_kernel(nm, g, b, shm, f); args_size = 0; });
  kernel_name.clear(); in_runtime = false;
}
#define VF_ATOMIC(T, name, expr) T name(T* p, T v) { access((uintptr_t)p, sizeof(T), true, true); T o = *p; *p = (expr); return o; }
VF_ATOMIC(int, atomic_add, (int)((unsigned)o + (unsigned)v)) VF_ATOMIC(unsigned, atomic_add, o + v) VF_ATOMIC(unsigned long long, atomic_add, o + v)
VF_ATOMIC(float, atomic_add, o + v) VF_ATOMIC(double, atomic_add, o + v)
VF_ATOMIC(int, atomic_exch, v) VF_ATOMIC(unsigned, atomic_exch, v) VF_ATOMIC(unsigned long long, atomic_exch, v) VF_ATOMIC(float, atomic_exch, v)
VF_ATOMIC(int, atomic_max, o > v ? o : v) VF_ATOMIC(int, atomic_min, o < v ? o : v)
VF_ATOMIC(unsigned, atomic_max, o > v ? o : v) VF_ATOMIC(unsigned, atomic_min, o < v ? o : v)
VF_ATOMIC(int, atomic_or, o | v) VF_ATOMIC(int, atomic_and, o & v)
#define VF_CAS(T) T atomic_cas(T* p, T c, T v) { access((uintptr_t)p, sizeof(T), true, true); T o = *p; if (o == c) *p = v; return o; }
VF_CAS(int) VF_CAS(unsigned) VF_CAS(unsigned long long)

const cudaStream_t& stream() { static cudaStream_t s = nullptr; return s; }
tensorflow::Status allocate_temp(tensorflow::OpKernelContext* c, tensorflow::DataType t, const tensorflow::TensorShape& s,
                                 tensorflow::Tensor* o, tensorflow::AllocatorAttributes a) {
  in_runtime = true;
  tensorflow::Status r = c->allocate_temp(t, s, o);
  if (r.ok() && o->TotalBytes()) {
    memset(o->data(), poison(), o->TotalBytes()); kept.push_back(*o);
    regions.push_back(new Region(o->data(), o->TotalBytes(), a.on_host() ? PINNED : TEMP, (a.on_host() ? "pinned temporary " : "temporary ") + std::to_string(kept.size()), false));
    if (a.on_host()) std::fill(regions.back()->init.begin(), regions.back()->init.end(), 1);
    st.bytes += o->TotalBytes();
  }
  in_runtime = false;
  return r;
}
void begin(tensorflow::OpKernel* k, tensorflow::OpKernelContext* c) {
  mu.lock(); mine = true; in_runtime = true; ctx = c; op_name = k->type_string(); st.ops++; memset(out_seen, 0, sizeof out_seen);
  rng_state = conf.seed * 0x9E3779B97F4A7C15ull + st.ops * 0xD1B54A32D192ED03ull + 1; for (int i = 0; i < 4; ++i) rnd();
  for (int i = 0; i < c->num_inputs(); ++i) {
    const tensorflow::Tensor& t = c->input(i); size_t n = t.TotalBytes();
    bool host = c->input_memory_type(i) == tensorflow::HOST_MEMORY;
    // one buffer may be several inputs: given on the host too, both may read it
    bool dup = false;
    for (Region* r : regions) if (n && r->base == (uintptr_t)t.data()) { dup = true; if ((r->kind == HOSTIN) != host) r->kind = SHAREDIN; }
    if (n && !dup) { regions.push_back(new Region(t.data(), n, host ? HOSTIN : INPUT, "input " + std::to_string(i), true)); st.bytes += n; }
  }
  last_region = nullptr; in_runtime = false;
}
void end(tensorflow::OpKernel* k, tensorflow::OpKernelContext* c) {
  in_runtime = true; refresh(); flush(); kernel_name.clear();
  if (c->status().ok())
    for (Region* r : regions) if (r->kind == OUTPUT) {
      size_t bad = 0; for (uint8_t b : r->init) bad += !b;
      if (bad) violation("uninitialized", r->name, std::to_string(bad) + " of " + std::to_string(r->size) + " bytes of the result are never written");
    }
  for (Region* r : regions) delete r;
  regions.clear(); last_region = nullptr; kept.clear(); ctx = nullptr; pending.clear(); in_runtime = false; mine = false; mu.unlock();
}
}  // namespace vf

using namespace vf;
struct VfEvent { int x; };
static cudaError_t copy(void* d, const void* s, size_t n, cudaMemcpyKind k) {
  in_runtime = true; refresh(); st.copies++;
  bool dd = k == cudaMemcpyHostToDevice || k == cudaMemcpyDeviceToDevice, sd = k == cudaMemcpyDeviceToHost || k == cudaMemcpyDeviceToDevice;
  Region* rd = find((uintptr_t)d); Region* rs = find((uintptr_t)s);
  if (dd && !check_range("copy", d, n, true)) { in_runtime = false; return cudaSuccess; }
  if (sd && !check_range("copy", s, n, false)) { in_runtime = false; return cudaSuccess; }
  if (!dd && rd && rd->kind != PINNED) violation("bounds", "copy " + rd->name, "the target of a copy to the host is device memory");
  if (!sd && rs && rs->kind != PINNED && rs->kind != HOSTIN) violation("bounds", "copy " + rs->name, "the source of a copy from the host is device memory");
  if (!dd && rd && !check_range("copy", d, n, true)) { in_runtime = false; return cudaSuccess; }
  if (!sd && rs && !check_range("copy", s, n, false)) { in_runtime = false; return cudaSuccess; }
  auto now = [=](const void* src) {
    std::vector<uint8_t> ini(n, 1);
    Region* r = find((uintptr_t)s); if (r) std::copy_n(r->init.begin() + ((uintptr_t)s - r->base), n, ini.begin());
    memcpy(d, src, n); set_init(d, n, ini.data());
    if (!dd && std::count(ini.begin(), ini.end(), 0)) violation("uninitialized", r ? r->name : "copy", "copied to the host before anything was written");
  };
  if (!dd && !rd) { flush(); now(s); }                                   // pageable target: synchronous
  else if (!sd && !rs) { std::string buf((const char*)s, n); enqueue([=] { now(buf.data()); }); }  // pageable source: staged
  else enqueue([=] { now(s); });
  in_runtime = false; return cudaSuccess;
}
cudaError_t cudaMemsetAsync(void* p, int v, size_t n, cudaStream_t) {
  in_runtime = true; refresh(); st.memsets++;
  if (n && check_range("memset", p, n, true)) enqueue([=] { memset(p, v, n); set_init(p, n, nullptr); });
  in_runtime = false; return cudaSuccess;
}
cudaError_t cudaMemset(void* p, int v, size_t n) { return cudaMemsetAsync(p, v, n); }
cudaError_t cudaMemcpyAsync(void* d, const void* s, size_t n, cudaMemcpyKind k, cudaStream_t) { return copy(d, s, n, k); }
cudaError_t cudaMemcpy(void* d, const void* s, size_t n, cudaMemcpyKind k) { cudaError_t r = copy(d, s, n, k); in_runtime = true; flush(); in_runtime = false; return r; }
cudaError_t cudaMemcpyToSymbolAsync(const void*, const void*, size_t, size_t, cudaMemcpyKind, cudaStream_t) { violation("launch", "symbol", "constant memory is not modelled"); return cudaSuccess; }
cudaError_t cudaEventCreate(cudaEvent_t* e) { static VfEvent v; *e = &v; return cudaSuccess; }
cudaError_t cudaEventCreateWithFlags(cudaEvent_t* e, unsigned) { return cudaEventCreate(e); }
cudaError_t cudaEventDestroy(cudaEvent_t) { return cudaSuccess; }
cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t) { return cudaSuccess; }
cudaError_t cudaEventSynchronize(cudaEvent_t) { in_runtime = true; flush(); in_runtime = false; return cudaSuccess; }
cudaError_t cudaEventQuery(cudaEvent_t) { return cudaSuccess; }
cudaError_t cudaEventElapsedTime(float* f, cudaEvent_t, cudaEvent_t) { *f = 0; return cudaSuccess; }
cudaError_t cudaStreamSynchronize(cudaStream_t) { in_runtime = true; flush(); in_runtime = false; return cudaSuccess; }
cudaError_t cudaDeviceSynchronize() { in_runtime = true; flush(); in_runtime = false; return cudaSuccess; }
cudaError_t cudaPeekAtLastError() { return cudaSuccess; }
cudaError_t cudaGetLastError() { return cudaSuccess; }
const char* cudaGetErrorString(cudaError_t) { return "error"; }
cudaError_t cudaGetDevice(int* d) { *d = 0; return cudaSuccess; }
cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int) {
  memset(p, 0, sizeof *p); p->warpSize = 32; p->multiProcessorCount = conf.mps; p->maxThreadsPerBlock = 1024;
  p->maxThreadsPerMultiProcessor = 2048; p->regsPerBlock = p->regsPerMultiprocessor = 65536; p->major = 7;
  p->sharedMemPerBlock = 49152; p->sharedMemPerMultiprocessor = 98304; return cudaSuccess;
}
cudaError_t cudaOccupancyMaxActiveBlocksPerMultiprocessor(int* o, const void*, int b, size_t shm) {
  int n = conf.bpsm; if (b > 0) n = std::min(n, 2048 / b); if (shm > 49152) n = 0; else if (shm) n = std::min<int>(n, 98304 / shm);
  *o = n; return cudaSuccess;
}

extern "C" {
void vf_config(uint64_t seed, int mps, int bpsm, int mode, int lazy, int resident) {
  std::lock_guard<std::mutex> l(mu); conf.seed = seed; conf.mps = mps; conf.bpsm = bpsm; conf.mode = mode; conf.lazy = lazy; conf.resident = resident;
}
static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r; }
int vf_report(char* buf, int n, int reset) {
  std::lock_guard<std::mutex> l(mu); std::string s = "{\"violations\":[";
  for (size_t i = 0; i < violations.size(); ++i) s += (i ? ",\"" : "\"") + esc(violations[i]) + "\"";
  s += "],\"kernels\":{"; bool f = true;
  for (auto& k : kernels) { s += (f ? "\"" : ",\"") + esc(k.first) + "\":" + std::to_string(k.second); f = false; }
  s += "},\"stats\":{";
#define F(x) s += "\"" #x "\":" + std::to_string(st.x) + ","
  F(ops); F(launches); F(blocks); F(threads); F(reads); F(writes); F(atomics); F(barriers); F(switches); F(copies); F(memsets); F(bytes); F(words); F(unset);
  s.back() = '}'; s += "}";
  if ((int)s.size() + 1 > n) return -(int)s.size() - 1;
  memcpy(buf, s.c_str(), s.size() + 1);
  if (reset) { violations.clear(); seen.clear(); kernels.clear(); st = Stats(); }
  return (int)s.size();
}
#define VF_RW(n) void __tsan_read##n(void* p) { access((uintptr_t)p, n, false); } void __tsan_write##n(void* p) { access((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false); } void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false); } void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access((uintptr_t)p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { access((uintptr_t)p, n, true); } \
  void __tsan_read_write##n(void* p) { access((uintptr_t)p, n, false); access((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read_write##n(void* p) { access((uintptr_t)p, n, false); access((uintptr_t)p, n, true); }
VF_RW(1) VF_RW(2) VF_RW(4) VF_RW(8) VF_RW(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void*, void*) {}
void __tsan_vptr_read(void*) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { if (n) access((uintptr_t)d, n, true); return memset(d, v, n); }
}
