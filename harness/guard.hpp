// Buffers with inaccessible pages on both sides, and crash reporting as a trace event.
#pragma once
#include <sys/mman.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <vector>

namespace gd {

static const size_t PAGE = 4096;

struct Buf {
    unsigned char * base; size_t n;                 // n accessible bytes between two inaccessible pages
    std::vector<unsigned char> shadow;
    explicit Buf(size_t pages = 2) : n(pages * PAGE) {
        unsigned char * m = (unsigned char *)mmap(nullptr, n + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
        base = m + PAGE;
        if (mprotect(base, n, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(3); }
        fill(0x5A);
    }
    ~Buf() { munmap(base - PAGE, n + 2 * PAGE); }
    Buf(const Buf &) = delete; Buf & operator = (const Buf &) = delete;
    void fill(unsigned char x) { memset(base, x, n); }
    // where: 'e' ends at the end of the accessible bytes, 's' starts at their beginning, otherwise at an offset
    unsigned char * place(char where, size_t off, size_t bytes) {
        if (bytes + off + 64 > n) { fprintf(stderr, "harness: too long\n"); _exit(3); }
        if (where == 'e') return base + n - bytes;
        if (where == 's') return base;
        return base + 256 + off;
    }
    void snap() { shadow.assign(base, base + n); }
    bool changed() const { return !shadow.empty() && memcmp(shadow.data(), base, n) != 0; }
};

static FILE * out_file = nullptr;
static std::string cur;                              // the trace being recorded: "[{...},{...}"
static char cur_op[64] = "none";
static volatile int in_trace = 0;

static void emit(const std::string & ev) { cur += cur.empty() ? "[" : ","; cur += ev; }
static void flush_trace() {
    if (cur.empty()) return;
    cur += "]\n"; fwrite(cur.data(), 1, cur.size(), out_file); fflush(out_file); cur.clear();
}
static void on_crash(int sig) {
    char b[160];
    int k = snprintf(b, sizeof b, ",{\"op\":\"crash\",\"sig\":%d,\"at\":\"%s\"}]\n", sig, cur_op);
    int fd = fileno(out_file);
    if (write(fd, cur.data(), cur.size()) < 0) {}
    if (write(fd, b, k) < 0) {}
    _exit(42);
}
static void install(FILE * f) {
    out_file = f;
    static char alt[65536];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
}
static void op(const char * name) { strncpy(cur_op, name, sizeof cur_op - 1); alarm(60); }

static std::string num(long long x) { return std::to_string(x); }
template <class It> static std::string arr(It a, It b) {
    std::string r = "[";
    for (It i = a; i != b; ++i) { if (i != a) r += ","; r += std::to_string((long long)*i); }
    return r + "]";
}
// a 64-bit value as 8 little-endian bytes
static std::string le(uint64_t x, int n = 8) {
    std::string r = "[";
    for (int i = 0; i < n; i++) { if (i) r += ","; r += std::to_string((unsigned)(x >> (8 * i) & 255)); }
    return r + "]";
}
} // namespace gd
