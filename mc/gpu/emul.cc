// A CUDA block on one CPU thread: every device thread is a fiber, a controlled scheduler
// decides the order of atomic operations, and every memory access of the kernel (compiled
// with -fsanitize=thread, whose calls end up here) is checked against its allowed regions
// and against the unsynchronised accesses of the other threads.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdarg.h>
#include <vector>
#include <unordered_map>
#include <link.h>
#include <dlfcn.h>
#include <sys/mman.h>

struct emu_dim3 { unsigned int x, y, z; };
struct emu_ctx { emu_dim3 threadIdx, blockIdx, blockDim, gridDim; };
typedef void (*kernel_t)(void *, void *, void *, void *, void *, void *, void *, void *);

static const size_t STACK = 64 * 1024;
static const int SHMAX = 1 << 18;
extern "C" { char emu_shared[SHMAX] __attribute__((aligned(64))); extern char __start_kshared[] __attribute__((weak)), __stop_kshared[] __attribute__((weak)); }
#define shared emu_shared

enum { RUN, BARRIER, WARP, ATOMIC, DONE };
struct Fiber { void *sp; int tid, state, kind; unsigned mask; uintptr_t addr; int asize; unsigned wsync; };
struct Region { uintptr_t a, n; int writable; };
struct Access { int tid; unsigned w; char wr, at; };
struct Cell { unsigned epoch; int block; std::vector<Access> v; };

static std::vector<Fiber> F;
static std::vector<uint64_t> slots;
static char *stacks = 0; static size_t nstack = 0;
static int cur = -1;
static void *sched_sp;
static emu_ctx ctx;
extern "C" { emu_ctx *emu_now = &ctx; }
static kernel_t kern; static void *kargs[8];
static std::vector<Region> regions;
static uintptr_t img_lo, img_hi;
static int shsize;
static unsigned epoch;          // barriers passed in this block
static int block_serial;
static std::unordered_map<uintptr_t, Cell> cells;
static std::vector<char> shinit;
static char msg[512]; static bool bad;
static long n_access, n_atomic, n_barrier, n_warp;

static void fail(const char *f, ...) { if (bad) return; bad = true; va_list a; va_start(a, f); vsnprintf(msg, sizeof msg, f, a); va_end(a); }

// ---- fibers ----------------------------------------------------------------
extern "C" void emu_switch(void **save, void *load);
asm(".text\n.globl emu_switch\n.hidden emu_switch\nemu_switch:\n"
    " pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
    " movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
    " popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
static void yield_() { int c = cur; emu_switch(&F[c].sp, sched_sp); }
static void entry() { kern(kargs[0], kargs[1], kargs[2], kargs[3], kargs[4], kargs[5], kargs[6], kargs[7]); F[cur].state = DONE; yield_(); abort(); }
static void resume(int i) {
    cur = i; ctx.threadIdx.x = i; F[i].state = RUN;
    emu_switch(&sched_sp, F[i].sp); cur = -1;
}
static void start(int n) {
    if (nstack < (size_t)n) { if (stacks) munmap(stacks, nstack * STACK); stacks = (char *)mmap(0, n * STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); nstack = n; }
    F.assign(n, Fiber()); slots.assign((n + 31) / 32 * 32, 0);
    for (int i = 0; i < n; i++) {
        void **sp = (void **)(stacks + (i + 1) * STACK - 64);
        *--sp = 0;              // alignment at entry
        *--sp = (void *)entry;
        for (int k = 0; k < 6; k++) *--sp = 0;
        F[i].sp = sp; F[i].tid = i; F[i].state = RUN; F[i].wsync = 0;
    }
}

extern "C" {
int emu_lane() { return cur & 31; }
uint64_t *emu_slots() { return &slots[cur & ~31]; }
void emu_barrier() { F[cur].state = BARRIER; yield_(); }
void emu_warp(unsigned mask, int kind) {
    if (!(mask >> (cur & 31) & 1)) fail("thread %d calls a warp operation whose mask does not include it", cur);
    F[cur].state = WARP; F[cur].kind = kind; F[cur].mask = mask; n_warp++; yield_();
}
}

// ---- memory ----------------------------------------------------------------
static void touch_(uintptr_t a, int n, bool wr, bool at);
static void touch(uintptr_t a, int n, bool wr, bool at) {
    if (cur < 0 || bad) return;
    touch_(a, n, wr, at);
    if (bad) yield_();          // for good: the access is not made
}
static void touch_(uintptr_t a, int n, bool wr, bool at) {
    n_access++;
    if (a >= (uintptr_t)stacks && a + n <= (uintptr_t)stacks + nstack * STACK) {
        if (a < (uintptr_t)stacks + cur * STACK || a + n > (uintptr_t)stacks + (cur + 1) * STACK) fail("thread %d uses memory of another thread's stack", cur);
        return;
    }
    if (a == (uintptr_t)&emu_now || (a >= (uintptr_t)&ctx && a < (uintptr_t)(&ctx + 1))) return;
    bool glob = false;
    if (a >= (uintptr_t)shared && a < (uintptr_t)shared + SHMAX) {
        long o = a - (uintptr_t)shared;
        if (o + n > shsize) { fail("block %u thread %d %s shared memory at byte %ld of the %d asked for", ctx.blockIdx.x, cur, wr ? "writes" : "reads", o, shsize); return; }
        for (int k = 0; k < n; k++) {
            if (wr && !at) shinit[o + k] = 1;
            else if (!shinit[o + k]) { fail("block %u thread %d reads shared memory at byte %ld before it is set", ctx.blockIdx.x, cur, o); return; }
        }
    } else if (a >= img_lo && a < img_hi) {
        // static shared variables
    } else {
        bool ok = false;
        for (auto &r : regions) if (a >= r.a && a + n <= r.a + r.n) {
            if (wr && !r.writable) { fail("block %u thread %d writes to an input array", ctx.blockIdx.x, cur); return; }
            if (!r.writable) return;
            ok = true; break;
        }
        if (!ok) { fail("block %u thread %d %s outside of all arrays", ctx.blockIdx.x, cur, wr ? "writes" : "reads"); return; }
        glob = true;
    }
    for (uintptr_t w = a & ~(uintptr_t)3; w < a + n; w += 4) {
        Cell &c = cells[w];
        if (glob && c.block && c.block != block_serial && (wr || [&] { for (auto &x : c.v) if (x.wr) return true; return false; }())) { fail("blocks %u and an earlier one both use an output and one of them writes", ctx.blockIdx.x); return; }
        if (!c.v.empty() && (c.block != block_serial || c.epoch != epoch)) c.v.clear();
        c.block = block_serial; c.epoch = epoch;
        bool seen = false;
        for (auto &x : c.v) {
            if (x.tid == cur) { if (x.wr >= wr && x.at == at && x.w == F[cur].wsync) seen = true; continue; }
            if ((x.wr || wr) && !(x.at && at) && !((x.tid >> 5) == (cur >> 5) && x.w != F[cur].wsync)) {
                fail("block %u: thread %d %s and thread %d %s the same memory (%s) with nothing to order them", ctx.blockIdx.x, x.tid, x.wr ? "writes" : "reads", cur, wr ? "writes" : "reads", glob ? "global" : "shared");
                return;
            }
        }
        if (!seen) c.v.push_back({cur, F[cur].wsync, (char)wr, (char)at});
    }
}
extern "C" {
void emu_atomic(void *p, int size) {
    F[cur].state = ATOMIC; F[cur].addr = (uintptr_t)p; F[cur].asize = size; yield_();
    n_atomic++; touch((uintptr_t)p, size, true, true);
}
#define RW(n) void __tsan_read##n(void *a) { touch((uintptr_t)a, n, 0, 0); } void __tsan_write##n(void *a) { touch((uintptr_t)a, n, 1, 0); } \
    void __tsan_unaligned_read##n(void *a) { touch((uintptr_t)a, n, 0, 0); } void __tsan_unaligned_write##n(void *a) { touch((uintptr_t)a, n, 1, 0); } \
    void __tsan_volatile_read##n(void *a) { touch((uintptr_t)a, n, 0, 0); } void __tsan_volatile_write##n(void *a) { touch((uintptr_t)a, n, 1, 0); } \
    void __tsan_read_write##n(void *a) { touch((uintptr_t)a, n, 0, 0); touch((uintptr_t)a, n, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { for (unsigned long k = 0; k < n; k += 4) touch((uintptr_t)a + k, n - k < 4 ? n - k : 4, 0, 0); }
void __tsan_write_range(void *a, unsigned long n) { for (unsigned long k = 0; k < n; k += 4) touch((uintptr_t)a + k, n - k < 4 ? n - k : 4, 1, 0); }
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void *, void *) {} void __tsan_vptr_read(void *) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { __tsan_read_range((void *)s, n); __tsan_write_range(d, n); return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { __tsan_write_range(d, n); return memset(d, c, n); }
}

// ---- one block to its end, atomics in the order that choose() says -----------------------
struct Choice { std::vector<int> tids; std::vector<uintptr_t> addr; };
template <class CH> static void run_block(int n, CH choose) {
    start(n); epoch = 0; block_serial++;
    memset(shared, 0xCD, shsize); if (__start_kshared) memset(__start_kshared, 0xCD, __stop_kshared - __start_kshared); shinit.assign(shsize, 0);
    while (!bad) {
        bool moved = true;
        while (moved && !bad) {
            moved = false;
            for (int i = 0; i < n && !bad; i++) if (F[i].state == RUN) { resume(i); moved = true; }
            for (int w = 0; w < n && !bad; w += 32) {
                // complete warp operations all of whose lanes have come
                for (int l = w; l < w + 32 && l < n; l++) if (F[l].state == WARP) {
                    unsigned m = F[l].mask; bool all = true;
                    for (int j = 0; j < 32; j++) if (m >> j & 1) {
                        if (w + j >= n) continue;
                        Fiber &g = F[w + j];
                        if (g.state == WARP && (g.mask != m || g.kind != F[l].kind)) { fail("block %u: threads %d and %d meet at different warp operations", ctx.blockIdx.x, l, w + j); all = false; }
                        else if (g.state != WARP) all = false;
                    }
                    if (all) { for (int j = 0; j < 32; j++) if ((m >> j & 1) && w + j < n) { F[w + j].state = RUN; F[w + j].wsync++; } moved = true; }
                }
            }
        }
        if (bad) break;
        Choice c; int nb = 0, nd = 0, nw = -1;
        for (int i = 0; i < n; i++) {
            if (F[i].state == ATOMIC) { c.tids.push_back(i); c.addr.push_back(F[i].addr); }
            nb += F[i].state == BARRIER; nd += F[i].state == DONE; if (F[i].state == WARP) nw = i;
        }
        if (!c.tids.empty()) { int k = choose(c); if (k < 0) return; resume(c.tids[k]); continue; }
        if (nd == n) return;
        if (nw >= 0) { fail("block %u: thread %d waits at a warp operation that not all of its lanes reach", ctx.blockIdx.x, nw); return; }
        if (nb + nd != n || nd) { fail("block %u: %d threads wait at a barrier that %d never reach", ctx.blockIdx.x, nb, nd); return; }
        n_barrier++; epoch++;
        for (int i = 0; i < n; i++) F[i].state = RUN;
    }
}

struct Node { Choice c; std::vector<char> sleep; int at; };
extern "C" {
struct emu_out { void *p; int type, n; const double *ref, *tol; };     // type 0 float, 1 double; ref NaN: must stay as it was
struct emu_stats { long runs, choices, access, atomics, barriers, warps, widest, cut; char msg[512]; };

static int phdr(struct dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
        uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
        if ((uintptr_t)&ctx >= a && (uintptr_t)&ctx < b) {      // this object: all of its segments
            for (int m = 0; m < i->dlpi_phnum; m++) if (i->dlpi_phdr[m].p_type == PT_LOAD) {
                uintptr_t x = i->dlpi_addr + i->dlpi_phdr[m].p_vaddr, y = x + i->dlpi_phdr[m].p_memsz;
                if (!img_lo || x < img_lo) img_lo = x; if (y > img_hi) img_hi = y;
            }
            return 1;
        }
    }
    return 0;
}

// Explore: every order of the atomic operations of each block (one per equivalence class,
// by sleep sets; operations on different addresses commute), with at most `delays` choices
// that are not the first one (-1: any number).  order: block order (0 up, 1 down); focus: the
// only block whose orders are explored (-1: all of them together).
int emu_explore(const char *name, void **args, int gridx, int blockx, int shared_size, const uintptr_t *reg, int nreg, emu_out *outs, int nout, int delays, long maxruns, int order, int focus, emu_stats *st) {
    memset(st, 0, sizeof *st); bad = false; msg[0] = 0;
    img_lo = img_hi = 0; dl_iterate_phdr(phdr, 0);
    kern = (kernel_t)dlsym(RTLD_DEFAULT, name);
    Dl_info di; void *self = 0;
    if (dladdr((void *)&emu_explore, &di)) self = dlopen(di.dli_fname, RTLD_NOW | RTLD_NOLOAD);
    kern = (kernel_t)dlsym(self, name);
    if (!kern) { snprintf(st->msg, 512, "no kernel %s", name); return 2; }
    memcpy(kargs, args, sizeof kargs);
    regions.clear(); for (int i = 0; i < nreg; i++) regions.push_back({reg[3 * i], reg[3 * i + 1], (int)reg[3 * i + 2]});
    if (shared_size > SHMAX) { snprintf(st->msg, 512, "shared size"); return 2; }
    shsize = shared_size;
    n_access = n_atomic = n_barrier = n_warp = 0;
    std::vector<std::vector<char>> before;
    for (int o = 0; o < nout; o++) { size_t b = (size_t)outs[o].n * (outs[o].type ? 8 : 4); before.emplace_back((char *)outs[o].p, (char *)outs[o].p + b); }
    ctx.blockDim = {(unsigned)blockx, 1, 1}; ctx.gridDim = {(unsigned)gridx, 1, 1}; ctx.threadIdx = {0, 0, 0};
    std::vector<Node> stack; std::vector<std::vector<char>> last;
    while (true) {
        for (int o = 0; o < nout; o++) memcpy(outs[o].p, before[o].data(), before[o].size());
        cells.clear(); block_serial = 0;
        size_t depth = 0; int used = 0; bool blocked = false;
        auto choose = [&](Choice &c) -> int {
            if (focus >= 0 && (int)ctx.blockIdx.x != focus) return 0;
            if (depth < stack.size()) { Node &n = stack[depth++]; if (n.at) used++; return n.at; }
            Node n; n.c = c; n.sleep.assign(c.tids.size(), 0);
            if (!stack.empty() && delays < 0) {
                Node &p = stack.back();
                for (size_t k = 0; k < p.c.tids.size(); k++) if ((p.sleep[k] == 1 || (int)k < p.at) && p.c.addr[k] != p.c.addr[p.at])
                    for (size_t j = 0; j < c.tids.size(); j++) if (c.tids[j] == p.c.tids[k] && c.addr[j] == p.c.addr[k]) n.sleep[j] = 1;
            }
            n.at = 0; while (n.at < (int)n.sleep.size() && n.sleep[n.at]) n.at++;
            if ((long)n.sleep.size() > st->widest) st->widest = n.sleep.size();
            if (n.at == (int)n.sleep.size()) { blocked = true; return -1; }
            if (n.at) used++;
            stack.push_back(n); depth++; st->choices++;
            return stack.back().at;
        };
        for (int b = 0; b < gridx && !bad && !blocked; b++) {
            int k = order ? gridx - 1 - b : b;
            ctx.blockIdx = {(unsigned)k, 0, 0};
            run_block(blockx, choose);
        }
        if (!blocked) {
            st->runs++; last.clear();
            for (int o = 0; o < nout; o++) last.emplace_back((char *)outs[o].p, (char *)outs[o].p + before[o].size());
        }
        if (!bad && !blocked) for (int o = 0; o < nout && !bad; o++) for (int i = 0; i < outs[o].n; i++) {
            double v = outs[o].type ? ((double *)outs[o].p)[i] : ((float *)outs[o].p)[i], r = outs[o].ref[i];
            size_t w = outs[o].type ? 8 : 4;
            if (isnan(r)) { if (memcmp((char *)outs[o].p + i * w, before[o].data() + i * w, w)) fail("entry %d of output %d is written", i, o); }
            else if (!(fabs(v - r) <= outs[o].tol[i])) fail("entry %d of output %d is %.9g, expected %.9g", i, o, v, r);
            if (bad) break;
        }
        if (bad) break;
        // next schedule
        bool more = false;
        while (!stack.empty()) {
            Node &n = stack.back();
            int k = n.at + 1; while (k < (int)n.sleep.size() && n.sleep[k]) k++;
            bool ok = k < (int)n.sleep.size();
            if (ok && delays >= 0) { int u = 0; for (size_t j = 0; j + 1 < stack.size(); j++) u += stack[j].at != 0; ok = u + 1 <= delays; }
            if (ok) { n.at = k; more = true; break; }
            stack.pop_back();
        }
        if (!more) break;
        if (st->runs >= maxruns) { st->cut = 1; break; }
    }
    for (size_t o = 0; o < last.size(); o++) memcpy(outs[o].p, last[o].data(), last[o].size());     // of the last complete schedule
    st->access = n_access; st->atomics = n_atomic; st->barriers = n_barrier; st->warps = n_warp;
    memcpy(st->msg, msg, 512);
    return bad ? 1 : 0;
}
}
