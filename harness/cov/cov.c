// Callbacks of LLVM's SanitizerCoverage: edge counters, and a profile of the comparisons made by
// the code under test (how close their operands were, per call site).
#include <stdint.h>
#include <stddef.h>
#include <string.h>

#define MAXR 64
static struct { uint8_t *s, *e; } regions[MAXR];
static int nregions;

#define VP (1u << 17)
static uint8_t vp[VP];
static uint32_t touched[VP];
static uint32_t ntouched;

#define LOG 1024
static uint64_t cmp_log[LOG];
static uint32_t cmp_n;

static int on;
extern char __ehdr_start[];

void __sanitizer_cov_8bit_counters_init(uint8_t *s, uint8_t *e) {
    for (int i = 0; i < nregions; i++)
        if (regions[i].s == s) return;
    if (nregions < MAXR && s != e) {
        regions[nregions].s = s;
        regions[nregions].e = e;
        nregions++;
    }
}
void __sanitizer_cov_pcs_init(const uintptr_t *s, const uintptr_t *e) { (void)s; (void)e; }

static inline void hit(uint32_t i) {
    i &= VP - 1;
    if (!vp[i]) {
        vp[i] = 1;
        if (ntouched < VP) touched[ntouched++] = i;
    }
}
static inline void cmp(uintptr_t pc, uint64_t a, uint64_t b, int wide) {
    if (!on) return;
    uint32_t base = (uint32_t)((pc - (uintptr_t)__ehdr_start) * 2654435761u);
    uint64_t d = a > b ? a - b : b - a;
    hit(base + (uint32_t)__builtin_popcountll(a ^ b));
    hit(base + 0x10000u + (d ? 64 - (uint32_t)__builtin_clzll(d) : 0));
    if (d && wide) {
        cmp_log[cmp_n++ & (LOG - 1)] = a;
        cmp_log[cmp_n++ & (LOG - 1)] = b;
    }
}
#define PC ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cmp(PC, a, b, 0); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmp(PC, a, b, 1); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmp(PC, a, b, 1); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmp(PC, a, b, 1); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cmp(PC, a, b, 0); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cmp(PC, a, b, 1); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cmp(PC, a, b, 1); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cmp(PC, a, b, 1); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) {
    if (!on) return;
    uint32_t base = (uint32_t)((PC - (uintptr_t)__ehdr_start) * 2654435761u);
    for (uint64_t i = 0; i < c[0] && i < 32; i++) hit(base + (uint32_t)(i * 64) + (uint32_t)__builtin_popcountll(v ^ c[2 + i]));
}
void __sanitizer_cov_trace_div4(uint32_t a) { (void)a; }
void __sanitizer_cov_trace_div8(uint64_t a) { (void)a; }
void __sanitizer_cov_trace_gep(uintptr_t a) { (void)a; }
void __sanitizer_cov_trace_pc_indir(uintptr_t a) { (void)a; }

void fv_cov_begin(void) {
    for (int i = 0; i < nregions; i++) memset(regions[i].s, 0, (size_t)(regions[i].e - regions[i].s));
    for (uint32_t i = 0; i < ntouched; i++) vp[touched[i]] = 0;
    ntouched = 0;
    on = 1;
}
static uint8_t bucket(uint8_t n) {
    return n < 4 ? (uint8_t)(1u << (n - 1)) : n < 8 ? 8 : n < 16 ? 16 : n < 32 ? 32 : n < 128 ? 64 : 128;
}
// Features new to `seen` (counters: one byte each, a bit per bucket; then the comparison profile).
uint32_t fv_cov_end(uint8_t *seen, size_t len) {
    on = 0;
    uint32_t fresh = 0;
    size_t off = 0;
    for (int i = 0; i < nregions; i++) {
        size_t n = (size_t)(regions[i].e - regions[i].s);
        for (size_t k = 0; k < n; k++) {
            uint8_t c = regions[i].s[k];
            if (c && off + k < len) {
                uint8_t b = bucket(c);
                if (!(seen[off + k] & b)) {
                    seen[off + k] |= b;
                    fresh++;
                }
            }
        }
        off += n;
    }
    for (uint32_t i = 0; i < ntouched; i++) {
        size_t k = off + touched[i];
        if (k < len && !seen[k]) {
            seen[k] = 1;
            fresh++;
        }
    }
    return fresh;
}
size_t fv_cov_size(void) {
    size_t n = VP;
    for (int i = 0; i < nregions; i++) n += (size_t)(regions[i].e - regions[i].s);
    return n;
}
uint64_t fv_cov_operand(uint64_t r) {
    uint32_t n = cmp_n < LOG ? cmp_n : LOG;
    return n ? cmp_log[r % n] : 0;
}
