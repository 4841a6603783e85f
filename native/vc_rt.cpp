// Native meaning of the __vc_* primitives: runs a contract driver on the real code with concrete inputs.
//   prog replay DRIVER FILE           inputs from FILE (exit 1 and a line FAILED ... when a contract or a sanitizer fails)
//   prog search SEED SECONDS OUT DICT DRIVER...   random / boundary inputs; the failing inputs are written to OUT (replay format)
#include "vc.h"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <new>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace {
struct Entry
{
    std::string kind, name;
    uint64_t value = 0;
    std::vector<unsigned char> bytes;
};
bool g_replay = false;
std::vector<Entry> g_in;   // replay input
size_t g_pos = 0;
std::vector<Entry> g_log;  // what was drawn
std::string g_out, g_driver;
jmp_buf g_jmp;
std::vector<uint64_t> g_dict;
std::vector<uint64_t> g_recent;
std::map<uintptr_t, size_t>* g_blocks;
std::vector<void*> g_objs;
struct Stream { std::vector<unsigned char> b; uint64_t init; int w; uint64_t poly; int rev; };
std::vector<Stream> g_streams;
uint64_t g_rng = 1;
size_t g_alloc = 0;
volatile bool g_trust = false;
const char* g_why = "sanitizer";
volatile bool g_running = false;
struct Shared { long runs, done; struct { char name[48]; long n; } cov[64]; };
Shared* g_sh;

uint64_t rnd()
{
    g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17;
    return g_rng * 0x2545F4914F6CDD1DULL;
}
void dump(const char* why)
{
    FILE* f = g_out.empty() ? nullptr : fopen(g_out.c_str(), "w");
    if (f)
    {
        fprintf(f, "# %s\n# driver %s\n", why, g_driver.c_str());
        for (auto& e : g_log)
        {
            fprintf(f, "%s %s %llu ", e.kind.c_str(), e.name.c_str(), (unsigned long long)e.value);
            for (auto b : e.bytes) { fprintf(f, "%02x", b); }
            fprintf(f, "\n");
        }
        fclose(f);
    }
    printf("FAILED driver=%s reason=%s\n", g_driver.c_str(), why);
    fflush(stdout);
}
void fail(const std::string& why)
{
    dump(why.c_str());
    _exit(1);
}
void on_death()
{
    if (g_running && g_trust) // the precondition is not well-defined for this input
    {
        if (g_replay) { printf("PRECONDITION-NOT-MET\n"); fflush(stdout); }
        _exit(77);
    }
    if (g_running) { dump(g_why); }
}
void on_signal(int s)
{
    if (g_running) { dump(s == SIGALRM ? "does-not-terminate" : "signal"); }
    _exit(1);
}
const Entry* next(const char* kind, const char* name)
{
    if (!g_replay) { return nullptr; }
    if (g_pos >= g_in.size()) { printf("MISMATCH inputs exhausted\n"); _exit(3); }
    const Entry& e = g_in[g_pos++];
    if (e.kind != kind || e.name != name) { printf("MISMATCH %s %s\n", kind, name); _exit(3); }
    return &e;
}
uint64_t pick(int w)
{
    uint64_t m = w == 64 ? ~0ULL : (1ULL << w) - 1;
    uint64_t r = rnd();
    uint64_t v;
    switch (r % 16)
    {
    case 0: case 1: case 2: case 3: case 4: v = (r >> 8) % 6; break;
    case 5: case 6: v = (r >> 8) % 40; break;
    case 7: v = (r >> 8) % 400; break;
    case 8: v = (1ULL << ((r >> 8) % 64)) + ((r >> 16) % 3) - 1; break;
    case 9: v = 0 - ((r >> 8) % 5); break;
    case 10: case 11: v = g_dict.empty() ? r >> 8 : g_dict[(r >> 8) % g_dict.size()] + ((r >> 40) % 3) - 1; break;
    case 12: case 13: v = g_recent.empty() ? (r >> 8) % 9 : g_recent[(r >> 8) % g_recent.size()] + ((r >> 40) % 3) - 1; break;
    case 14: v = rnd() & 0xffff; break;
    default: v = rnd();
    }
    return v & m;
}
uint64_t draw(const char* kind, const char* name, int w)
{
    uint64_t v;
    if (const Entry* e = next(kind, name)) { v = e->value; }
    else { v = pick(w); }
    g_log.push_back({kind, name, v, {}});
    if (g_recent.size() < 64) { g_recent.push_back(v); }
    return v;
}
void fill(std::vector<unsigned char>& b)
{
    uint64_t mode = rnd() % 5;
    unsigned char alpha[4] = {(unsigned char)rnd(), (unsigned char)rnd(), (unsigned char)pick(8), (unsigned char)pick(8)};
    if (rnd() % 3 == 0) { for (auto& a : alpha) { a = (unsigned char)(rnd() >> 20) % 3; } }
    for (auto& x : b)
    {
        uint64_t r = rnd() >> 11;
        x = mode == 0 ? (unsigned char)r : mode == 1 ? alpha[r % 4] : mode == 2 ? alpha[r % 2] : mode == 3 ? (unsigned char)(32 + r % 95) : ((r & 7) ? (unsigned char)(r >> 8) : (unsigned char)pick(8));
    }
}
[[noreturn]] void discard() { longjmp(g_jmp, 1); }
} // namespace

extern "C"
{
    uint8_t __vc_u8(const char* n) { return (uint8_t)draw("u8", n, 8); }
    uint16_t __vc_u16(const char* n) { return (uint16_t)draw("u16", n, 16); }
    uint32_t __vc_u32(const char* n) { return (uint32_t)draw("u32", n, 32); }
    uint64_t __vc_u64(const char* n) { return draw("u64", n, 64); }
    bool __vc_bool(const char* n) { return draw("bool", n, 1) & 1; }
    double __vc_f64(const char* n)
    {
        uint64_t v;
        if (const Entry* e = next("f64", n)) { v = e->value; }
        else
        {
            double d;
            uint64_t r = rnd();
            switch (r % 6)
            {
            case 0: v = rnd(); break;
            case 1: d = (double)(int64_t)pick(32); memcpy(&v, &d, 8); break;
            case 2: d = (double)(int64_t)(r >> 32) / 1000.0; memcpy(&v, &d, 8); break;
            case 3: v = pick(64); break;
            case 4: d = 1.0 / (double)(1 + (r >> 40)); memcpy(&v, &d, 8); break;
            default:
                if (g_recent.empty()) { v = r; }
                else { v = g_recent[(r >> 8) % g_recent.size()] + (r >> 40) % 5 - 2; }
            }
        }
        g_log.push_back({"f64", n, v, {}});
        g_recent.push_back(v);
        double d;
        memcpy(&d, &v, 8);
        return d;
    }
    float __vc_f32(const char* n)
    {
        uint32_t v = (uint32_t)draw("f32", n, 32);
        if (!g_replay && (rnd() & 1)) { v = (uint32_t)rnd(); g_log.back().value = v; }
        float d;
        memcpy(&d, &v, 4);
        return d;
    }
    uint64_t __vc_native_u64(const char* n)
    {
        uint64_t v;
        if (g_replay)
        {
            if (g_pos >= g_in.size() || g_in[g_pos].kind != "native") { return 0; }
            v = g_in[g_pos++].value;
        }
        else { v = pick(64); }
        g_log.push_back({"native", n, v, {}});
        return v;
    }
    void* __vc_obj(uint64_t size, const char* n)
    {
        const Entry* e = next("obj", n);
        if (size > (1u << 17)) { discard(); }
        std::vector<unsigned char> b(size);
        if (e) { for (size_t i = 0; i < size && i < e->bytes.size(); i++) { b[i] = e->bytes[i]; } }
        else { fill(b); }
        void* p = malloc(size);
        if (size) { memcpy(p, b.data(), size); }
        (*g_blocks)[(uintptr_t)p] = size ? size : 1;
        g_objs.push_back(p);
        g_log.push_back({"obj", n, size, b});
        return p;
    }
    void __vc_assume(bool c) { if (!c) { discard(); } }
    void __vc_assert(bool c, const char* label)
    {
        if (!c) { fail(std::string("assert:") + label); }
    }
    void __vc_same_f64(double a, double b, const char* label)
    {
        if (memcmp(&a, &b, 8) != 0 && !(a != a && b != b)) { fail(std::string("assert:") + label); }
    }
    void __vc_same_f32(float a, float b, const char* label)
    {
        if (memcmp(&a, &b, 4) != 0 && !(a != a && b != b)) { fail(std::string("assert:") + label); }
    }
    void __vc_cover(const char* l)
    {
        for (auto& c : g_sh->cov)
        {
            if (!c.name[0]) { strncpy(c.name, l, sizeof(c.name) - 1); }
            if (!strncmp(c.name, l, sizeof(c.name) - 1)) { c.n++; return; }
        }
    }
    void __vc_trust(bool b) { g_trust = b; }
    static size_t room(const void* p)
    {
        auto it = g_blocks->upper_bound((uintptr_t)p);
        if (it == g_blocks->begin()) { return 0; }
        --it;
        return (uintptr_t)p < it->first + it->second ? it->first + it->second - (uintptr_t)p : 0;
    }
    void __vc_inv(bool (*)(const void*, uint64_t), const void*) {}
    void __vc_inv_state(bool (*)(const void*), const void*) {}
    void __vc_loop_assume(bool (*)(const void*), const void*) {}
    void __vc_measure(uint64_t (*)(const void*), const void*) {}
    uint64_t __vc_any64() { return 0; }
    uint8_t __vc_peek8(const void* p) { return room(p) ? *static_cast<const uint8_t*>(p) : 0; }
    void __vc_havoc(void* p, uint64_t n)
    {
        const Entry* e = next("havoc", "-");
        std::vector<unsigned char> b(n);
        if (e) { for (size_t i = 0; i < n && i < e->bytes.size(); i++) { b[i] = e->bytes[i]; } }
        else { fill(b); }
        if (n) { memcpy(p, b.data(), n); }
        g_log.push_back({"havoc", "-", n, b});
    }
    void __vc_havoc_ints(void* p)
    {
        const Entry* e = next("havoc_ints", "-");
        size_t n = room(p);
        std::vector<unsigned char> b(n);
        if (n) { memcpy(b.data(), p, n); }
        for (size_t o = 0; o + 8 <= n; o += 8)
        {
            uint64_t w;
            memcpy(&w, b.data() + o, 8);
            if (w > 4096 && room((void*)w)) { continue; } // a pointer
            if (e) { if (o + 8 <= e->bytes.size()) { memcpy(b.data() + o, e->bytes.data() + o, 8); } }
            else if (rnd() % 3)
            {
                w = rnd() % 4 ? (g_recent.empty() ? rnd() % 20 : rnd() % (2 * (g_recent[rnd() % g_recent.size()] % 100000) + 2)) : pick(64);
                memcpy(b.data() + o, &w, 8);
            }
        }
        for (size_t o = n / 8 * 8; o < n; o++)
        {
            if (e) { if (o < e->bytes.size()) { b[o] = e->bytes[o]; } }
            else { b[o] = (unsigned char)rnd(); }
        }
        if (n) { memcpy(p, b.data(), n); }
        g_log.push_back({"havoc_ints", "-", n, b});
    }
    void __vc_ghost(const char*, uint64_t) {}
    void __vc_ghost_ptr(const char*, const void*) {}
    uint64_t __vc_split(uint64_t v, uint64_t) { return v; }
    void __vc_unroll(uint64_t) {}
    void __vc_mono(uint64_t, bool) {}
    void __vc_mono_ptr(const void*, bool) {}
    void __vc_crc_begin(const void* buf, uint64_t n, uint64_t init, int width, uint64_t poly, int rev)
    {
        const unsigned char* p = static_cast<const unsigned char*>(buf);
        g_streams.push_back({std::vector<unsigned char>(p, p + n), init, width, poly, rev});
    }
    void __vc_crc_assert(uint64_t result, int stream, uint64_t n, const char* label)
    {
        Stream& s = g_streams[stream];
        uint64_t m = s.w == 64 ? ~0ULL : (1ULL << s.w) - 1, c = s.init & m;
        for (uint64_t i = 0; i < n; i++)
        {
            for (int k = 0; k < 8; k++)
            {
                if (s.rev)
                {
                    uint64_t bit = (c ^ (s.b[i] >> k)) & 1;
                    c = (c >> 1) ^ (bit ? s.poly : 0);
                }
                else
                {
                    uint64_t bit = (c >> (s.w - 1) ^ (s.b[i] >> (7 - k))) & 1;
                    c = ((c << 1) & m) ^ (bit ? s.poly : 0);
                }
            }
        }
        if ((result & m) != (c & m)) { fail(std::string("assert:") + label); }
    }
}

// heap blocks are tracked so that pointers can be told from data
static void* track(size_t n)
{
    void* p = malloc(n ? n : 1);
    g_alloc += n;
    if (g_blocks && g_running) { (*g_blocks)[(uintptr_t)p] = n ? n : 1; }
    return p;
}
#ifdef VC_TRACK_NEW
static bool g_inmap = false;
void* operator new(size_t n)
{
    if (g_inmap || !g_running) { return malloc(n ? n : 1); }
    if (n > (1u << 20)) { discard(); }
    g_inmap = true;
    void* p = track(n);
    g_inmap = false;
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
static void untrack(void* p)
{
    if (p && g_running && !g_inmap)
    {
        g_inmap = true;
        g_blocks->erase((uintptr_t)p);
        g_inmap = false;
    }
    free(p);
}
void operator delete(void* p) noexcept { untrack(p); }
void operator delete[](void* p) noexcept { untrack(p); }
void operator delete(void* p, size_t) noexcept { untrack(p); }
void operator delete[](void* p, size_t) noexcept { untrack(p); }
#endif

static int run(const std::string& d, void (*f)())
{
    g_driver = d;
    g_log.clear(); g_recent.clear(); g_streams.clear(); g_trust = false;
    g_blocks->clear();
    for (void* p : g_objs) { free(p); }
    g_objs.clear();
    g_pos = 0;
    g_sh->runs++;
    alarm(60);
    int ok = 1;
    if (!setjmp(g_jmp))
    {
        g_running = true;
        f();
        g_sh->done++;
    }
    else { ok = 0; }
    g_running = false;
    alarm(0);
    return ok;
}
int main(int argc, char** argv)
{
    g_blocks = new std::map<uintptr_t, size_t>;
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (__sanitizer_set_death_callback) { __sanitizer_set_death_callback(on_death); }
    signal(SIGALRM, on_signal);
    signal(SIGABRT, on_signal);
    std::string mode = argc > 1 ? argv[1] : "";
    auto find = [](const char* n) {
        auto f = (void (*)())dlsym(RTLD_DEFAULT, n);
        if (!f) { printf("no driver %s\n", n); _exit(4); }
        return f;
    };
    if (mode == "replay" && argc >= 4)
    {
        std::ifstream in(argv[3]);
        std::string line;
        while (std::getline(in, line))
        {
            if (line.empty() || line[0] == '#') { continue; }
            std::istringstream ss(line);
            Entry e;
            std::string hex;
            ss >> e.kind >> e.name >> e.value >> hex;
            for (size_t i = 0; i + 1 < hex.size(); i += 2) { e.bytes.push_back((unsigned char)strtol(hex.substr(i, 2).c_str(), nullptr, 16)); }
            g_in.push_back(e);
        }
        g_replay = true;
        int r = run(argv[2], find(argv[2]));
        printf(r ? "PASSED\n" : "PRECONDITION-NOT-MET\n");
        return 0;
    }
    if (mode == "search" && argc >= 7)
    {
        g_rng = 0x9E3779B97F4A7C15ULL * (strtoull(argv[2], nullptr, 10) + 1) | 1;
        for (int i = 0; i < 20; i++) { rnd(); }
        double secs = atof(argv[3]);
        g_out = argv[4];
        std::ifstream in(argv[5]);
        uint64_t v;
        while (in >> v) { g_dict.push_back(v); }
        timespec a, b;
        int n = argc - 6;
        clock_gettime(CLOCK_MONOTONIC, &a);
        for (int k = 0; k < n; k++)
        {
            auto f = find(argv[6 + k]);
            double lim = secs * (k + 1) / n;
            for (int batch = 0;; batch++)
            {
                pid_t pid = fork(); // leaks of discarded runs die with the child
                if (pid < 0) { return 4; }
                if (pid == 0)
                {
                    for (int j = 0; j < 20 + batch; j++) { rnd(); }
                    g_rng ^= 0x9E3779B97F4A7C15ULL * (uint64_t)(batch + 1);
                    for (int j = 0; j < 2000; j++)
                    {
                        run(argv[6 + k], f);
                        clock_gettime(CLOCK_MONOTONIC, &b);
                        if ((double)(b.tv_sec - a.tv_sec) + 1e-9 * (double)(b.tv_nsec - a.tv_nsec) > lim) { break; }
                        if (g_alloc > (256u << 20)) { break; }
                    }
                    _exit(0);
                }
                int st = 0;
                waitpid(pid, &st, 0);
                if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77)) { return WIFEXITED(st) ? WEXITSTATUS(st) : 5; }
                clock_gettime(CLOCK_MONOTONIC, &b);
                if ((double)(b.tv_sec - a.tv_sec) + 1e-9 * (double)(b.tv_nsec - a.tv_nsec) > lim) { break; }
            }
        }
        printf("OK runs=%ld completed=%ld covers=", g_sh->runs, g_sh->done);
        for (auto& c : g_sh->cov)
        {
            if (c.name[0]) { printf("%s:%ld,", c.name, c.n); }
        }
        printf("\n");
        return 0;
    }
    fprintf(stderr, "usage\n");
    return 4;
}
