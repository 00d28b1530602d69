// Counts work: edges of the control flow graph, and bytes that are copied or compared.
#include <stdint.h>
#include <stddef.h>

static uint64_t work;

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; work++; }
void __sanitizer_cov_trace_pc_indir(uintptr_t a) { (void)a; }

uint64_t fv_work(void) { return work; }
void fv_work_add(uint64_t n) { work += n; }

void *memcpy(void *restrict d, const void *restrict s, size_t n) {
    void *r = d;
    work += n / 16;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void *memmove(void *d, const void *s, size_t n) {
    void *r = d;
    work += n / 16;
    if ((uintptr_t)d - (uintptr_t)s >= n) {
        __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    } else {
        unsigned char *p = (unsigned char *)d + n;
        const unsigned char *q = (const unsigned char *)s + n;
        while (n >= 8) {
            uint64_t t;
            p -= 8, q -= 8, n -= 8;
            __builtin_memcpy(&t, q, 8);
            *(volatile uint64_t *)p = t;
        }
        while (n--) *(volatile unsigned char *)--p = *--q;
    }
    return r;
}
void *memset(void *d, int c, size_t n) {
    void *r = d;
    work += n / 16;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
static int compare(const void *a, const void *b, size_t n) {
    const volatile unsigned char *p = a, *q = b;
    size_t i = 0;
    for (; i < n && p[i] == q[i]; i++) {}
    work += i / 16;
    return i == n ? 0 : (int)p[i] - (int)q[i];
}
int memcmp(const void *a, const void *b, size_t n) { return compare(a, b, n); }
int bcmp(const void *a, const void *b, size_t n) { return compare(a, b, n); }
