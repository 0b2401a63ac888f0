/* Runs one call on its own stack with the trap flag set and records, for every machine instruction, its address,
   the registers its memory operand is formed from, and the operands of a division.  Two runs that differ only in
   secrets must record the same trace. */
#define _GNU_SOURCE
#include <signal.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>

static uint64_t *rec, cap, cnt;
static char *stk;
#define STK (1 << 20)
static ucontext_t mainc, callc;
static uint64_t (*fn)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
static uint64_t av[10], result;

static const int G[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI,
                          REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
#define MIX(x) (h = (h ^ (x)) * 0x9E3779B97F4A7C15ull, h ^= h >> 29)

static uint64_t observe(greg_t *g) {
    const uint8_t *p = (const uint8_t *)g[REG_RIP];
    uint64_t h = 0x1234567;
    int B = 0, X = 0, map = 0, op, modrm = 0, mem = 1, vecidx = 0, W = 0, rep = 0;
    for (;; p++) {
        uint8_t c = *p;
        if (c == 0xf2 || c == 0xf3) rep = 1;
        if (!(c == 0x66 || c == 0x67 || c == 0xf2 || c == 0xf3 || c == 0x2e || c == 0x36 || c == 0x3e || c == 0x26 || c == 0x64 ||
              c == 0x65 || c == 0xf0))
            break;
    }
    if ((*p & 0xf0) == 0x40) { B = *p & 1; X = (*p >> 1) & 1; W = (*p >> 3) & 1; p++; }
    if (*p == 0xc5) { map = 4; p += 2; op = *p++; modrm = op != 0x77; }
    else if (*p == 0xc4) { B = !(p[1] & 0x20); X = !(p[1] & 0x40); map = 4; vecidx = (p[1] & 0x1f) == 2; p += 3; op = *p++; modrm = 1; }
    else if (*p == 0x62) { B = !(p[1] & 0x20); X = !(p[1] & 0x40); map = 4; vecidx = (p[1] & 7) == 2; p += 4; op = *p++; modrm = 1; }
    else if (*p == 0x0f) {
        p++;
        if (*p == 0x38 || *p == 0x3a) { map = 2; p++; op = *p++; modrm = 1; }
        else {
            map = 1; op = *p++;
            modrm = !(op == 5 || op == 6 || op == 8 || op == 9 || op == 0xb || op == 0xe || (op >= 0x30 && op <= 0x37) || op == 0x77 ||
                      (op >= 0x80 && op <= 0x8f) || (op >= 0xa0 && op <= 0xa2) || (op >= 0xa8 && op <= 0xaa) || (op >= 0xc8 && op <= 0xcf));
            if (op >= 0x19 && op <= 0x1f) mem = 0;
        }
    } else {
        op = *p++;
        modrm = (op < 0x40 && (op & 7) < 4) || op == 0x63 || op == 0x69 || op == 0x6b || (op >= 0x80 && op <= 0x8f) || op == 0xc0 ||
                op == 0xc1 || op == 0xc6 || op == 0xc7 || (op >= 0xd0 && op <= 0xd3) || (op >= 0xd8 && op <= 0xdf) || op == 0xf6 ||
                op == 0xf7 || op == 0xfe || op == 0xff;
        if (op == 0x8d) mem = 0;
        if ((op >= 0xa4 && op <= 0xa7) || op == 0xaa || op == 0xab || (op >= 0xac && op <= 0xaf)) {
            MIX(g[REG_RSI]); MIX(g[REG_RDI]);
            if (rep) MIX(g[REG_RCX]);
        }
    }
    vecidx = vecidx && ((op >= 0x90 && op <= 0x93) || (op >= 0xa0 && op <= 0xa3) || op == 0xc6 || op == 0xc7);
    MIX(g[REG_RSP]);
    if (modrm) {
        int m = *p >> 6, r = (*p >> 3) & 7, rm = *p & 7;
        if (map == 0 && (op == 0xf6 || op == 0xf7) && r >= 6) {
            MIX(g[REG_RAX]); MIX(g[REG_RDX]); MIX(W);
            if (m == 3) MIX(g[G[rm | B << 3]]);
        }
        if (m != 3 && mem) {
            if (rm == 4) {
                int s = p[1], base = s & 7, idx = ((s >> 3) & 7) | X << 3;
                if (!(m == 0 && base == 5)) MIX(g[G[base | B << 3]]);
                if (idx != 4 && !vecidx) MIX((uint64_t)g[G[idx]] << (s >> 6));
            } else if (!(m == 0 && rm == 5))
                MIX(g[G[rm | B << 3]]);
        }
    }
    return h;
}

/* ---- a stand-in CPU: CPUID and XGETBV answer what the model says, and every instruction executed inside the
   library under test must belong to what the model offers */
static struct { uint32_t on, max, ecx1, edx1, ebx7, pad; uint64_t xcr0, lo, hi; } cpu;
static uint64_t bad_rip;
static const char *bad_what;

void vp_cpu(uint32_t max, uint32_t ecx1, uint32_t edx1, uint32_t ebx7, uint64_t xcr0, uint64_t lo, uint64_t hi) {
    cpu.on = 1; cpu.max = max; cpu.ecx1 = ecx1; cpu.edx1 = edx1; cpu.ebx7 = ebx7; cpu.xcr0 = xcr0; cpu.lo = lo; cpu.hi = hi;
}

const char *vp_bad(uint64_t *rip) { *rip = bad_rip; return bad_what; }

static const char *lacks(const uint8_t *p) {
    int ssse3 = cpu.ecx1 >> 9 & 1, sse41 = cpu.ecx1 >> 19 & 1, sse42 = cpu.ecx1 >> 20 & 1;
    int avx = (cpu.ecx1 >> 28 & 1) && (cpu.ecx1 >> 27 & 1) && (cpu.xcr0 & 6) == 6;
    int avx2 = avx && (cpu.ebx7 >> 5 & 1);
    int f512 = avx && (cpu.ebx7 >> 16 & 1) && (cpu.xcr0 & 0xe6) == 0xe6;
    int pfx = 0;
    for (;; p++) {
        if (*p == 0x66 || *p == 0xf2 || *p == 0xf3) pfx = *p;
        else if (!(*p == 0x67 || *p == 0x2e || *p == 0x36 || *p == 0x3e || *p == 0x26 || *p == 0x64 || *p == 0x65 || *p == 0xf0)) break;
    }
    if ((*p & 0xf0) == 0x40) p++;
    if (*p == 0x62) {
        if (!f512) return "an AVX-512 instruction";
        if ((p[3] >> 5 & 3) < 2 && (p[2] & 3) < 2 && !(cpu.ebx7 >> 31)) return "an AVX-512VL instruction";
        return 0;
    }
    if (*p == 0xc5 || *p == 0xc4) {
        int three = *p == 0xc4, map = three ? p[1] & 0x1f : 1, b = three ? p[2] : p[1], L = b >> 2 & 1, pp = b & 3, op = three ? p[3] : p[2];
        if ((map == 2 && op >= 0xf2 && op <= 0xf7) || (map == 3 && op == 0xf0)) return (cpu.ebx7 & 0x108) ? 0 : "a BMI instruction";
        if (!avx) return "an AVX instruction";
        if (avx2) return 0;
        if (map == 1 && L && pp == 1 && ((op >= 0x60 && op <= 0x6d) || (op >= 0x71 && op <= 0x76) || (op >= 0xd1 && op <= 0xd5) || op == 0xd7 ||
            (op >= 0xd8 && op <= 0xe5) || (op >= 0xe8 && op <= 0xef) || (op >= 0xf1 && op <= 0xfe))) return "an AVX2 instruction";
        if (map == 1 && L && op == 0x70) return "an AVX2 instruction";
        if (map == 2 && (op == 0x36 || op == 0x16 || (op >= 0x45 && op <= 0x47) || op == 0x58 || op == 0x59 || op == 0x5a || op == 0x78 || op == 0x79))
            return "an AVX2 instruction";
        if (map == 2 && L && !((op >= 0x0c && op <= 0x0f) || op == 0x13 || (op >= 0x17 && op <= 0x1a) || (op >= 0x2c && op <= 0x2f) || op >= 0x90))
            return "an AVX2 instruction";
        if (map == 3 && ((op <= 2) || op == 0x38 || op == 0x39 || op == 0x46 || (L && (op == 0x0e || op == 0x0f || op == 0x42 || op == 0x4c))))
            return "an AVX2 instruction";
        return 0;
    }
    if (*p != 0x0f) return 0;
    p++;
    if (*p == 0x38) {
        int op = p[1];
        if (op <= 0x0b || (op >= 0x1c && op <= 0x1e)) return ssse3 ? 0 : "an SSSE3 instruction";
        if (op == 0x37) return sse42 ? 0 : "an SSE4.2 instruction";
        if (op >= 0x10 && op <= 0x41) return sse41 ? 0 : "an SSE4.1 instruction";
        if ((op == 0xf0 || op == 0xf1)) return (pfx == 0xf2 ? sse42 : cpu.ecx1 >> 22 & 1) ? 0 : "a MOVBE or CRC32 instruction";
        return 0;
    }
    if (*p == 0x3a) {
        int op = p[1];
        if (op == 0x0f) return ssse3 ? 0 : "an SSSE3 instruction";
        if (op >= 0x60 && op <= 0x63) return sse42 ? 0 : "an SSE4.2 instruction";
        if (op == 0x44) return cpu.ecx1 >> 1 & 1 ? 0 : "a PCLMUL instruction";
        return sse41 ? 0 : "an SSE4.1 instruction";
    }
    if (*p == 0xb8 && pfx == 0xf3) return cpu.ecx1 >> 23 & 1 ? 0 : "a POPCNT instruction";
    return 0;
}

static void standin(greg_t *g) {
    for (;;) {
        const uint8_t *p = (const uint8_t *)g[REG_RIP];
        if ((uint64_t)p < cpu.lo || (uint64_t)p >= cpu.hi) return;
        if (p[0] == 0x0f && p[1] == 0xa2) {
            uint32_t leaf = g[REG_RAX], sub = g[REG_RCX], a = 0, b = 0, c = 0, d = 0;
            if (leaf == 0) { a = cpu.max; b = 0x756e6547; c = 0x6c65746e; d = 0x49656e69; }
            else if (leaf == 1 && leaf <= cpu.max) { a = 0x306c3; c = cpu.ecx1; d = cpu.edx1; }
            else if (leaf == 7 && sub == 0 && leaf <= cpu.max) b = cpu.ebx7;
            g[REG_RAX] = a; g[REG_RBX] = b; g[REG_RCX] = c; g[REG_RDX] = d;
            g[REG_RIP] += 2;
            continue;
        }
        if (p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xd0) {
            if (!(cpu.ecx1 >> 27 & 1) && !bad_what) { bad_what = "XGETBV without OSXSAVE"; bad_rip = (uint64_t)p; }
            g[REG_RAX] = (uint32_t)cpu.xcr0; g[REG_RDX] = cpu.xcr0 >> 32;
            g[REG_RIP] += 3;
            continue;
        }
        const char *w = lacks(p);
        if (w && !bad_what) { bad_what = w; bad_rip = (uint64_t)p; }
        return;
    }
}

static void trap(int sig, siginfo_t *si, void *u) {
    greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
    if (cpu.on) standin(g);
    if (cnt < cap) {
        rec[2 * cnt] = g[REG_RIP];
        rec[2 * cnt + 1] = observe(g);
    }
    cnt++;
}

static void tramp(void) {
    __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
    result = fn(av[0], av[1], av[2], av[3], av[4], av[5], av[6], av[7], av[8], av[9]);
    __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc");
}

uint64_t vp_trace(void *f, uint64_t *a, uint64_t *out, uint64_t n, uint64_t *used) {
    struct sigaction sa, old;
    static char *alt;
    if (!stk) {
        stk = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        alt = mmap(0, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    stack_t ss = {.ss_sp = alt, .ss_size = 1 << 18};
    sigaltstack(&ss, 0);
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = trap;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGTRAP, &sa, &old);
    rec = out; cap = n; cnt = 0; fn = f;
    memcpy(av, a, sizeof av);
    getcontext(&callc);
    callc.uc_stack.ss_sp = stk;
    callc.uc_stack.ss_size = STK;
    callc.uc_link = &mainc;
    makecontext(&callc, tramp, 0);
    swapcontext(&mainc, &callc);
    sigaction(SIGTRAP, &old, 0);
    *used = cnt;
    return result;
}
