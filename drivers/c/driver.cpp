// Executes scripts of calls of graphrox's C interface (through gphrx.h) and writes one JSON event
// per call. The script language and the events are those of drivers/rust; what only the C
// interface has (null handles, out-parameters, ownership of memory) is added here. The events
// are judged by spec/Trace.tla.
//
// cdriver SCRIPT OUT
// cdriver SCRIPT OUT PASSES      on several threads, as drivers/rust/src/tdriver.rs describes; memory is not
//                                accounted for then
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <fstream>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
extern "C" {
#include "gphrx.h"
}

// ---- Allocation ledger: blocks the library allocates are live until freed. --------------------
extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" void __libc_free(void *);
extern "C" size_t malloc_usable_size(void *);

static thread_local bool in_lib = false;
static const size_t CAP = 1u << 21;
static void **ledger = nullptr;         // open addressing; (void*)1 marks a removed entry
static long live = 0, bad_frees = 0;
static size_t live_bytes = 0, peak_bytes = 0, most_used = 0;    // most_used: by one call, since last reset

static void ledger_add(void *p) {
    if (!p || !ledger) return;
    size_t i = (reinterpret_cast<uintptr_t>(p) >> 4) * 11400714819323198485ull >> 43;
    while (ledger[i] && ledger[i] != (void *)1) i = (i + 1) & (CAP - 1);
    ledger[i] = p;
    live++;
    live_bytes += malloc_usable_size(p);
    peak_bytes = std::max(peak_bytes, live_bytes);
}
static bool ledger_remove(void *p) {
    if (!ledger) return false;
    size_t i = (reinterpret_cast<uintptr_t>(p) >> 4) * 11400714819323198485ull >> 43;
    while (ledger[i]) {
        if (ledger[i] == p) { ledger[i] = (void *)1; live--; live_bytes -= malloc_usable_size(p); return true; }
        i = (i + 1) & (CAP - 1);
    }
    return false;
}
extern "C" {
void *malloc(size_t n) { void *p = __libc_malloc(n); if (in_lib) ledger_add(p); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (in_lib) ledger_add(p); return p; }
void *realloc(void *q, size_t n) {
    if (!in_lib || !ledger) return __libc_realloc(q, n);
    if (q && !ledger_remove(q)) bad_frees++;
    void *p = __libc_realloc(q, n);
    ledger_add(p);
    return p;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (in_lib) ledger_add(p); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : 12; }
void free(void *p) {
    if (!p) return;
    if (in_lib) {
        // A block that is not the library's own, or was freed before, is left alone and counted.
        if (ledger && !ledger_remove(p)) { bad_frees++; return; }
        std::memset(p, 0xDD, malloc_usable_size(p));
    }
    __libc_free(p);
}
}
struct Lib {
    size_t before;
    Lib() : before(live_bytes) { if (ledger) peak_bytes = live_bytes; in_lib = true; }
    ~Lib() { in_lib = false; if (ledger) most_used = std::max(most_used, peak_bytes - before); }
};
#define L(x) ([&] { Lib lib_; return x; }())
#define LV(x) do { Lib lib_; x; } while (0)

// ---- JSON -------------------------------------------------------------------------------------
typedef std::string S;
typedef std::vector<uint64_t> V;
static S bytes(const uint8_t *b, size_t n) {
    S s = "[";
    for (size_t i = 0; i < n; i++) { if (i) s += ','; s += std::to_string(b[i]); }
    return s + "]";
}
static S w(uint64_t x) {
    uint8_t b[8];
    for (int i = 0; i < 8; i++) b[i] = x >> (56 - 8 * i);
    return bytes(b, 8);
}
template <class T, class F> static S list(const T &v, F f) {
    S s = "[";
    bool first = true;
    for (auto &x : v) { if (!first) s += ','; first = false; s += f(x); }
    return s + "]";
}
static S flag(int8_t x) { return std::to_string((int)x); }
static S boolean(bool x) { return x ? "true" : "false"; }
static S dyadic(double x) {
    if (!std::isfinite(x)) return "[]";
    if (x == 0) return "[0,[],0]";
    uint64_t bits;
    std::memcpy(&bits, &x, 8);
    int exp = bits >> 52 & 0x7ff;
    uint64_t m = bits & ((1ull << 52) - 1);
    int e = exp ? exp - 1075 : -1074;
    if (exp) m |= 1ull << 52;
    while (!(m & 1)) { m >>= 1; e++; }
    uint8_t b[8];
    int n = 0;
    for (int i = 7; i >= 0; i--) if (n || (m >> (8 * i) & 255)) b[n++] = m >> (8 * i) & 255;
    return "[" + std::to_string((int)(bits >> 63)) + "," + bytes(b, n) + "," + std::to_string(e) + "]";
}
// A long text is given as its distinct lines and how many times which of them follow each other; one
// too long even so is cut.
static S text(const S *s) {
    const size_t limit = 2000000;
    if (!s) return "{\"ok\":false}";
    if (s->size() <= 20000) return "{\"ok\":true,\"c\":" + bytes((const uint8_t *)s->data(), s->size()) + "}";
    std::map<S, size_t> known;
    std::vector<S> lines;
    std::vector<std::pair<size_t, size_t>> ix;
    size_t size = 0;
    for (size_t at = 0; at != S::npos;) {
        size_t end = s->find("\r\n", at);
        S l = s->substr(at, end == S::npos ? end : end - at);
        at = end == S::npos ? end : end + 2;
        size_t &k = known[l];
        if (!k) { lines.push_back(l); k = lines.size(); size += l.size(); }
        if (!ix.empty() && ix.back().first == k) ix.back().second++; else ix.push_back({k, 1});
        if (size > limit) return "{\"ok\":true,\"n\":" + std::to_string(s->size()) + ",\"c\":" + bytes((const uint8_t *)s->data(), limit) + "}";
    }
    return "{\"ok\":true,\"n\":" + std::to_string(s->size()) + ",\"lines\":" + list(lines, [](const S &l) { return bytes((const uint8_t *)l.data(), l.size()); })
        + ",\"ix\":" + list(ix, [](const std::pair<size_t, size_t> &x) { return "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; }) + "}";
}

// ---- Objects ----------------------------------------------------------------------------------
struct Obj { char k; GphrxGraph g; GphrxCompressedGraph c; GphrxCsrSquareMatrix m; };
struct Buf { char k; const void *p; size_t n; size_t header, rec; };
// What a script holds.
struct Context { std::map<S, Obj> objs_; std::map<S, Buf> held_; V U_; };
static thread_local Context *context = nullptr;
#define objs (context->objs_)
#define held (context->held_)
#define U (context->U_)
// Whether lists whose order is nobody's business (and records of messages) are given sorted.
static bool sorted_lists = false;

static void release(Obj &o) {
    switch (o.k) {
        case 'g': LV(free_gphrx_graph(o.g)); break;
        case 'c': LV(free_gphrx_compressed_graph(o.c)); break;
        case 'm': LV(free_gphrx_matrix(o.m)); break;
    }
}
static void put(const S &h, Obj o) {
    auto it = objs.find(h);
    if (it != objs.end()) { release(it->second); objs.erase(it); }
    objs[h] = o;
}
static void drop(const S &h) {
    auto it = objs.find(h);
    if (it != objs.end()) { release(it->second); objs.erase(it); }
}
static Obj mk(GphrxGraph g) { Obj o{}; o.k = 'g'; o.g = g; return o; }
static Obj mk(GphrxCompressedGraph c) { Obj o{}; o.k = 'c'; o.c = c; return o; }
static Obj mk(GphrxCsrSquareMatrix m) { Obj o{}; o.k = 'm'; o.m = m; return o; }
static bool is_null(const Obj &o) {
    return o.k == 'g' ? !o.g.graph_ptr : o.k == 'c' ? !o.c.graph_ptr : !o.m.matrix_ptr;
}

// Buffers as the library returned them, with the length it reported.
static Buf take(const Obj &o, const S &kind, uint64_t arg) {
    Buf b{kind[0], nullptr, 7777, o.k == 'g' ? 26u : 42u, o.k == 'g' ? 16u : 24u};
    if (kind == "bytes") { b.k = 'b'; b.p = o.k == 'g' ? L(gphrx_to_bytes(o.g, &b.n)) : L(gphrx_compressed_graph_to_bytes(o.c, &b.n)); }
    else if (kind == "str") {
        b.k = 's';
        b.p = o.k == 'g' ? L(gphrx_matrix_string(o.g)) : o.k == 'c' ? L(gphrx_compressed_graph_matrix_string(o.c))
              : arg == UINT64_MAX ? L(gphrx_matrix_to_string(o.m)) : L(gphrx_matrix_to_string_with_precision(o.m, arg));
        b.n = b.p ? std::strlen((const char *)b.p) : 0;
    }
    else if (kind == "edges") { b.k = 'e'; b.p = L(gphrx_get_edge_list(o.g, &b.n)); }
    else if (kind == "in") { b.k = 'v'; b.p = L(gphrx_get_vertex_in_edges_list(o.g, arg, &b.n)); }
    else if (kind == "out") { b.k = 'v'; b.p = L(gphrx_get_vertex_out_edges_list(o.g, arg, &b.n)); }
    else if (kind == "entries") { b.k = 'm'; b.p = L(gphrx_matrix_get_entry_list(o.m, &b.n)); }
    else { fprintf(stderr, "driver: kind %s\n", kind.c_str()); exit(3); }
    return b;
}
static S content(const Buf &b) {
    if (b.k == 's') return bytes((const uint8_t *)b.p, b.n);
    if (b.k == 'b') {
        const uint8_t *p = (const uint8_t *)b.p;
        if (!sorted_lists || b.n < b.header || (b.n - b.header) % b.rec) return bytes(p, b.n);
        std::vector<S> r;
        for (size_t i = b.header; i < b.n; i += b.rec) r.push_back(S((const char *)p + i, b.rec));
        std::sort(r.begin(), r.end());
        S all((const char *)p, b.header);
        for (auto &x : r) all += x;
        return bytes((const uint8_t *)all.data(), all.size());
    }
    std::vector<S> v;
    for (size_t i = 0; i < b.n; i++) {
        if (b.k == 'e') { auto *e = (const GphrxGraphEdge *)b.p + i; v.push_back("[" + w(e->from_vertex) + "," + w(e->to_vertex) + "]"); }
        else if (b.k == 'v') v.push_back(w(((const GphrxGraphVertex *)b.p)[i].vertex_id));
        else { auto *e = (const GphrxMatrixEntry *)b.p + i; v.push_back("[" + dyadic(e->entry) + "," + w(e->col) + "," + w(e->row) + "]"); }
    }
    if (sorted_lists) std::sort(v.begin(), v.end());
    return list(v, [](const S &x) { return x; });
}
static void give_back(Buf &b) {
    switch (b.k) {
        case 'b': LV(free_gphrx_bytes_buffer((const uint8_t *)b.p, b.n)); break;
        case 's': LV(free_gphrx_string_buffer((const char *)b.p)); break;
        case 'e': LV(free_gphrx_edge_list((const GphrxGraphEdge *)b.p, b.n)); break;
        case 'v': LV(free_gphrx_vertex_list((const GphrxGraphVertex *)b.p, b.n)); break;
        case 'm': LV(free_gphrx_matrix_entry_list((const GphrxMatrixEntry *)b.p, b.n)); break;
    }
}
static S once(const Obj &o, const S &kind, uint64_t arg = UINT64_MAX) {
    Buf b = take(o, kind, arg);
    S s = content(b);
    give_back(b);
    return s;
}
// Long lists are given as runs [first, second, how many seconds in a row].
static const size_t LONG = 3000;
static S runs_of(std::vector<std::pair<uint64_t, uint64_t>> v) {
    std::sort(v.begin(), v.end());
    std::vector<std::pair<std::pair<uint64_t, uint64_t>, uint64_t>> runs;
    for (auto &x : v) {
        if (!runs.empty() && runs.back().first.first == x.first && runs.back().first.second + runs.back().second == x.second && x.second < 1 << 24)
            runs.back().second++;
        else runs.push_back({x, 1});
    }
    return list(runs, [](const std::pair<std::pair<uint64_t, uint64_t>, uint64_t> &r) {
        return "[" + w(r.first.first) + "," + w(r.first.second) + "," + std::to_string(r.second) + "]"; });
}
static S ids_of(const Obj &o, const S &kind, uint64_t arg) {
    Buf b = take(o, kind, arg);
    S s;
    if (b.n <= LONG) s = content(b);
    else {
        std::vector<std::pair<uint64_t, uint64_t>> v;
        for (size_t i = 0; i < b.n; i++) v.push_back({0, ((const GphrxGraphVertex *)b.p)[i].vertex_id});
        s = runs_of(v);
    }
    give_back(b);
    return s;
}
static S edges_of(const Obj &o) {
    Buf b = take(o, "edges", 0);
    S s;
    if (b.n <= LONG) s = "\"it\":" + content(b);
    else {
        std::vector<std::pair<uint64_t, uint64_t>> v;
        for (size_t i = 0; i < b.n; i++) { auto *e = (const GphrxGraphEdge *)b.p + i; v.push_back({e->from_vertex, e->to_vertex}); }
        s = "\"it\":" + runs_of(v);
    }
    give_back(b);
    return s;
}

// ---- Observations -----------------------------------------------------------------------------
static S grid(const V &u, std::function<S(uint64_t, uint64_t)> f) {
    return list(u, [&](uint64_t a) { return list(u, [&](uint64_t b) { return f(a, b); }); });
}
static S obs(const S &h) {
    const Obj &o = objs[h];
    S s = "{\"h\":\"" + h + "\",";
    if (o.k == 'g') {
        GphrxGraph g = o.g;
        s += "\"k\":\"graph\",\"und\":" + boolean(L(gphrx_is_undirected(g)) != 0) + ",\"vc\":" + w(L(gphrx_vertex_count(g)))
           + ",\"ec\":" + w(L(gphrx_edge_count(g))) + "," + edges_of(o)
           + ",\"ex\":" + grid(U, [&](uint64_t a, uint64_t b) { return flag(L(gphrx_does_edge_exist(g, a, b))); })
           + ",\"ind\":" + list(U, [&](uint64_t v) { return w(L(gphrx_get_vertex_in_degree(g, v))); })
           + ",\"outd\":" + list(U, [&](uint64_t v) { return w(L(gphrx_get_vertex_out_degree(g, v))); })
           + ",\"inl\":" + list(U, [&](uint64_t v) { return ids_of(o, "in", v); })
           + ",\"outl\":" + list(U, [&](uint64_t v) { return ids_of(o, "out", v); });
    } else if (o.k == 'c') {
        GphrxCompressedGraph c = o.c;
        V bu;
        for (uint64_t x : U) bu.push_back(x / 8);
        std::sort(bu.begin(), bu.end());
        bu.erase(std::unique(bu.begin(), bu.end()), bu.end());
        s += "\"k\":\"cgraph\",\"und\":" + boolean(L(gphrx_compressed_graph_is_undirected(c)) != 0)
           + ",\"vc\":" + w(L(gphrx_compressed_graph_vertex_count(c))) + ",\"ec\":" + w(L(gphrx_compressed_graph_edge_count(c)))
           + ",\"lvl\":" + std::to_string((int)L(gphrx_compressed_graph_compression_level(c)))
           + ",\"ex\":" + grid(U, [&](uint64_t a, uint64_t b) { return flag(L(gphrx_compressed_graph_does_edge_exist(c, a, b))); })
           + ",\"bu\":" + list(bu, w)
           + ",\"cme\":" + grid(bu, [&](uint64_t a, uint64_t b) { return w(L(gphrx_get_compressed_matrix_entry(c, a, b))); });
    } else {
        GphrxCsrSquareMatrix m = o.m;
        s += "\"k\":\"mat\",\"dim\":" + w(L(gphrx_matrix_dimension(m))) + ",\"ec\":" + w(L(gphrx_matrix_entry_count(m)))
           + ",\"it\":" + once(o, "entries")
           + ",\"get\":" + grid(U, [&](uint64_t a, uint64_t b) { return dyadic(L(gphrx_matrix_get_entry(m, a, b))); });
    }
    return s + "}";
}
static S obs1(const S &h) { return ",\"obs\":[" + obs(h) + "]"; }

// ---- Messages ---------------------------------------------------------------------------------
static std::vector<uint8_t> hex(const S &s) {
    std::vector<uint8_t> b;
    if (s == "-") return b;
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(std::stoi(s.substr(i, 2), nullptr, 16));
    return b;
}
static uint64_t rd(const std::vector<uint8_t> &b, size_t p) {
    uint64_t v = 0;
    for (int i = 0; i < 8; i++) v = v << 8 | b[p + i];
    return v;
}
static void wr(std::vector<uint8_t> &b, size_t p, uint64_t v) { for (int i = 0; i < 8; i++) b[p + i] = v >> (56 - 8 * i); }
static void mutate(std::vector<uint8_t> &b, const std::vector<S> &t, size_t i, size_t hdr, size_t rec) {
    while (i < t.size()) {
        auto n = [&](int k) { return (size_t)std::stoull(t[i + k]); };
        size_t k = b.size() > hdr ? (b.size() - hdr) / rec : 0;
        const S &op = t[i];
        auto at = [&](int j) { return hdr + (n(j) % k) * rec; };
        if (op == "xor") { if (n(1) < b.size()) b[n(1)] ^= n(2); i += 3; }
        else if (op == "set") { if (n(1) < b.size()) b[n(1)] = n(2); i += 3; }
        else if (op == "word") { if (n(1) + 8 <= b.size()) wr(b, n(1), n(2)); i += 3; }
        else if (op == "addword") { if (n(1) + 8 <= b.size()) wr(b, n(1), rd(b, n(1)) + (uint64_t)std::stoll(t[i + 2])); i += 3; }
        else if (op == "trunc") { b.resize(b.size() > n(1) ? b.size() - n(1) : 0); i += 2; }
        else if (op == "keep") { if (n(1) < b.size()) b.resize(n(1)); i += 2; }
        else if (op == "ext") { auto x = hex(t[i + 1]); b.insert(b.end(), x.begin(), x.end()); i += 2; }
        else if (op == "cprec") { if (k) { auto x = at(1), y = at(2); std::vector<uint8_t> r(b.begin() + x, b.begin() + x + rec); std::copy(r.begin(), r.end(), b.begin() + y); } i += 3; }
        else if (op == "duprec") { if (k) { auto x = at(1); std::vector<uint8_t> r(b.begin() + x, b.begin() + x + rec); b.insert(b.end(), r.begin(), r.end()); wr(b, 16, rd(b, 16) + 1); } i += 2; }
        else if (op == "rmrec") {
            if (k) {
                auto x = at(1);
                uint64_t ones = rec == 24 ? __builtin_popcountll(rd(b, x)) : 0;
                b.erase(b.begin() + x, b.begin() + x + rec);
                wr(b, 16, rd(b, 16) - 1);
                if (rec == 24 && n(2) == 1) wr(b, 24, rd(b, 24) - ones);
            }
            i += 3;
        }
        else if (op == "recxor") { if (k) b[at(1) + n(2) % rec] ^= n(3); i += 4; }
        else if (op == "recword") { if (k) wr(b, at(1) + 8 * (n(2) % (rec / 8)), n(3)); i += 4; }
        else if (op == "clrbit") {
            if (k) {
                auto x = at(1);
                uint64_t v = rd(b, x);
                int ones = __builtin_popcountll(v), nth = n(2) % (ones ? ones : 1);
                uint64_t r = v;
                while (nth-- > 0) r &= r - 1;
                uint64_t v2 = v & ~(r & -r);
                wr(b, x, v2);
                wr(b, 24, rd(b, 24) - (__builtin_popcountll(v) - __builtin_popcountll(v2)));
            }
            i += 3;
        }
        else { fprintf(stderr, "driver: mutation %s\n", op.c_str()); exit(3); }
    }
}

static std::atomic<unsigned> calls{0};
static S decode(bool graph, const S &h2, const std::vector<uint8_t> &b) {
    // Every third call goes without an error out-parameter.
    uint8_t err = 99, *pe = ++calls % 3 == 0 ? nullptr : &err;
    Obj o = graph ? mk(L(gphrx_from_bytes(b.data(), b.size(), pe))) : mk(L(gphrx_compressed_graph_from_bytes(b.data(), b.size(), pe)));
    bool ok = !is_null(o);
    drop(h2);
    if (ok) put(h2, o);
    return S("\"op\":\"dec\",\"k\":\"") + (graph ? "graph" : "cgraph") + "\",\"h2\":\"" + h2 + "\",\"b\":" + bytes(b.data(), b.size())
        + ",\"ok\":" + boolean(ok) + (pe ? ",\"err\":" + std::to_string((int)err) : "") + (ok ? obs1(h2) : "");
}

// Every function with a null handle: [name, result, length out-parameter or -1] each.
static S nulls() {
    GphrxGraph g{nullptr};
    GphrxCompressedGraph c{nullptr};
    GphrxCsrSquareMatrix m{nullptr};
    S s = "\"op\":\"null\",\"r\":[";
    bool first = true;
    auto add = [&](const char *f, S r, long n) {
        if (!first) s += ',';
        first = false;
        s += S("{\"f\":\"") + f + "\",\"r\":" + r + ",\"n\":" + std::to_string(n) + "}";
    };
    auto ptr = [](const void *p) { return S(p ? "1" : "0"); };
    size_t n;
#define NUM(f, ...) add(#f, std::to_string((double)L(f(__VA_ARGS__)) == 0 ? 0 : 1), -1)
#define PTR(f, ...) add(#f, ptr(L(f(__VA_ARGS__))), -1)
#define LEN(f, ...) do { n = 77; const void *p_ = L(f(__VA_ARGS__, &n)); add(#f, ptr(p_), (long)n); p_ = L(f(__VA_ARGS__, nullptr)); add(#f, ptr(p_), -1); } while (0)
    LV(free_gphrx_string_buffer(nullptr)); LV(free_gphrx_bytes_buffer(nullptr, 0)); LV(free_gphrx_bytes_buffer(nullptr, 5));
    LV(free_gphrx_graph(g)); LV(free_gphrx_edge_list(nullptr, 0)); LV(free_gphrx_edge_list(nullptr, 3));
    LV(free_gphrx_vertex_list(nullptr, 0)); LV(free_gphrx_vertex_list(nullptr, 4));
    LV(free_gphrx_compressed_graph(c)); LV(free_gphrx_matrix(m));
    LV(free_gphrx_matrix_entry_list(nullptr, 0)); LV(free_gphrx_matrix_entry_list(nullptr, 2));
    add("gphrx_duplicate", ptr(L(gphrx_duplicate(g)).graph_ptr), -1);
    PTR(gphrx_matrix_string, g);
    LEN(gphrx_to_bytes, g);
    NUM(gphrx_is_undirected, g); NUM(gphrx_vertex_count, g); NUM(gphrx_edge_count, g); NUM(gphrx_does_edge_exist, g, 0, 0);
    NUM(gphrx_does_edge_exist, g, 1, UINT64_MAX);
    add("gphrx_find_avg_pool_matrix", ptr(L(gphrx_find_avg_pool_matrix(g, 2)).matrix_ptr), -1);
    add("gphrx_approximate", ptr(L(gphrx_approximate(g, 2, 0.5)).graph_ptr), -1);
    add("gphrx_compress", ptr(L(gphrx_compress(g, 1)).graph_ptr), -1);
    LEN(gphrx_get_edge_list, g);
    uint64_t to[2] = {1, 2};
    LV(gphrx_add_vertex(g, 1, nullptr, 0)); LV(gphrx_add_vertex(g, 1, to, 2)); LV(gphrx_add_vertex(g, 1, nullptr, 2));
    LV(gphrx_add_edge(g, 1, 2)); LV(gphrx_delete_edge(g, 1, 2));
    LEN(gphrx_get_vertex_in_edges_list, g, 1);
    LEN(gphrx_get_vertex_out_edges_list, g, 1);
    NUM(gphrx_get_vertex_in_degree, g, 0); NUM(gphrx_get_vertex_out_degree, g, 0);
    add("gphrx_compressed_graph_duplicate", ptr(L(gphrx_compressed_graph_duplicate(c)).graph_ptr), -1);
    NUM(gphrx_compressed_graph_compression_level, c); NUM(gphrx_compressed_graph_is_undirected, c);
    NUM(gphrx_compressed_graph_vertex_count, c); NUM(gphrx_compressed_graph_edge_count, c);
    NUM(gphrx_compressed_graph_does_edge_exist, c, 0, 1); NUM(gphrx_get_compressed_matrix_entry, c, 0, 0);
    PTR(gphrx_compressed_graph_matrix_string, c);
    LEN(gphrx_compressed_graph_to_bytes, c);
    add("gphrx_decompress", ptr(L(gphrx_decompress(c)).graph_ptr), -1);
    add("gphrx_matrix_duplicate", ptr(L(gphrx_matrix_duplicate(m)).matrix_ptr), -1);
    NUM(gphrx_matrix_dimension, m); NUM(gphrx_matrix_entry_count, m); NUM(gphrx_matrix_get_entry, m, 0, 1);
    PTR(gphrx_matrix_to_string, m); PTR(gphrx_matrix_to_string_with_precision, m, 3);
    LEN(gphrx_matrix_get_entry_list, m);
    // Null buffers: refused with the error code unless the length says there is nothing to read
    // (and then refused as an empty message).
    s += "],\"d\":[";
    first = true;
    auto dec = [&](bool graph, size_t len) {
        uint8_t e = 99;
        bool null1 = graph ? !L(gphrx_from_bytes(nullptr, len, &e)).graph_ptr : !L(gphrx_compressed_graph_from_bytes(nullptr, len, &e)).graph_ptr;
        bool null2 = graph ? !L(gphrx_from_bytes(nullptr, len, nullptr)).graph_ptr : !L(gphrx_compressed_graph_from_bytes(nullptr, len, nullptr)).graph_ptr;
        if (!first) s += ',';
        first = false;
        s += "{\"null\":" + boolean(null1 && null2) + ",\"err\":" + std::to_string((int)e) + "}";
    };
    for (size_t len : {0, 1, 26, 1000}) { dec(true, len); dec(false, len); }
    return s + "]";
}

// Calls with null out-parameters on valid handles: the handles' contents are observed later.
static S noout(const S &h) {
    Obj &o = objs[h];
    S r;
    if (o.k == 'g') {
        size_t n = 0;
        // the length is learned from a second call, to free what the first returned
        auto p = L(gphrx_to_bytes(o.g, nullptr)); auto p2 = L(gphrx_to_bytes(o.g, &n));
        r = bytes(p, n);
        LV(free_gphrx_bytes_buffer(p, n)); LV(free_gphrx_bytes_buffer(p2, n));
        auto e = L(gphrx_get_edge_list(o.g, nullptr)); auto e2 = L(gphrx_get_edge_list(o.g, &n));
        LV(free_gphrx_edge_list(e, n)); LV(free_gphrx_edge_list(e2, n));
        uint64_t v = U.empty() ? 0 : U[0];
        auto a = L(gphrx_get_vertex_in_edges_list(o.g, v, nullptr)); auto a2 = L(gphrx_get_vertex_in_edges_list(o.g, v, &n));
        LV(free_gphrx_vertex_list(a, n)); LV(free_gphrx_vertex_list(a2, n));
        auto b = L(gphrx_get_vertex_out_edges_list(o.g, v, nullptr)); auto b2 = L(gphrx_get_vertex_out_edges_list(o.g, v, &n));
        LV(free_gphrx_vertex_list(b, n)); LV(free_gphrx_vertex_list(b2, n));
        LV(gphrx_add_vertex(o.g, 5, nullptr, 3));           // neighbours announced but missing: ignored
    } else if (o.k == 'c') {
        size_t n = 0;
        auto p = L(gphrx_compressed_graph_to_bytes(o.c, nullptr)); auto p2 = L(gphrx_compressed_graph_to_bytes(o.c, &n));
        r = bytes(p, n);
        LV(free_gphrx_bytes_buffer(p, n)); LV(free_gphrx_bytes_buffer(p2, n));
    } else {
        size_t n = 0;
        auto p = L(gphrx_matrix_get_entry_list(o.m, nullptr)); auto p2 = L(gphrx_matrix_get_entry_list(o.m, &n));
        LV(free_gphrx_matrix_entry_list(p, n)); LV(free_gphrx_matrix_entry_list(p2, n));
        r = "[]";
    }
    return "\"op\":\"" + S(o.k == 'm' ? "obs" : "enc") + "\",\"h\":\"" + h + "\",\"ok\":true,\"b\":" + r + obs1(h);
}

static double threshold(const S &x, S &js) {
    if (x == "inf") { js = "{\"kind\":\"inf\"}"; return INFINITY; }
    if (x == "-inf") { js = "{\"kind\":\"-inf\"}"; return -INFINITY; }
    bool neg = x[0] == '-';
    S y = neg ? x.substr(1) : x;
    size_t k = y.find('/');
    uint64_t p = std::stoull(y.substr(0, k)), q = std::stoull(y.substr(k + 1));
    js = "{\"kind\":\"num\",\"neg\":" + boolean(neg) + ",\"p\":" + w(p) + ",\"q\":" + w(q) + "}";
    double v = (double)p / (double)q;
    return neg ? -v : v;
}

static S exec(const std::vector<S> &t) {
    auto n = [&](size_t i) { return (uint64_t)std::stoull(t[i]); };
    const S &op = t[0];
    const S skip = "\"op\":\"skip\"";
    auto is = [&](const S &h, char k) { auto it = objs.find(h); return it != objs.end() && (k == '*' || it->second.k == k); };
    auto q = [](const S &s) { return "\"" + s + "\""; };
    if (op == "U") {
        U.clear();
        for (size_t i = 1; i < t.size(); i++) U.push_back(n(i));
        return "\"op\":\"U\",\"ids\":" + list(U, w);
    }
    if (op == "reset") {
        for (auto &b : held) give_back(b.second);
        held.clear();
        for (auto &o : objs) release(o.second);
        objs.clear();
        return "\"op\":\"reset\",\"id\":" + q(t.size() > 1 ? t[1] : "");
    }
    if (op == "newg") {
        put(t[1], mk(n(2) == 1 ? L(gphrx_new_undirected()) : L(gphrx_new_directed())));
        return "\"op\":\"newg\",\"h\":" + q(t[1]) + ",\"und\":" + boolean(n(2) == 1) + obs1(t[1]);
    }
    if (op == "null") return nulls();
    if (op == "dec") return decode(t[1] == "g", t[2], hex(t[3]));
    if (op == "obsall") {
        V dummy;
        return "\"op\":\"obsall\",\"obs\":" + list(objs, [&](const std::pair<const S, Obj> &o) { return obs(o.first); });
    }
    if (op == "rel") {
        auto it = held.find(t[1]);
        if (it == held.end()) return skip;
        S c = content(it->second);
        give_back(it->second);
        held.erase(it);
        return "\"op\":\"rel\",\"n\":" + q(t[1]) + ",\"c\":" + c;
    }
    if (t.size() < 2 || !is(t[1], '*')) return skip;
    Obj &o = objs[t[1]];
    S head = "\"op\":" + q(op) + ",\"h\":" + q(t[1]);
    if (op == "addv") {
        if (o.k != 'g') return skip;
        V vs;
        bool none = t[3] == "-";
        bool quiet = t.back() == "q";
        for (size_t i = 4; i < t.size() - quiet; i++) vs.push_back(n(i));
        LV(gphrx_add_vertex(o.g, n(2), none || vs.empty() ? nullptr : vs.data(), vs.size()));
        return head + ",\"u\":" + w(n(2)) + ",\"vs\":" + list(vs, w) + (quiet ? "" : obs1(t[1]));
    }
    if (op == "addr" || op == "delr") {
        if (o.k != 'g') return skip;
        V vs;
        for (uint64_t i = 0; i < n(4); i++) vs.push_back(n(3) + i * n(5));
        if (op == "addr") LV(gphrx_add_vertex(o.g, n(2), vs.data(), vs.size()));
        else for (uint64_t v : vs) LV(gphrx_delete_edge(o.g, n(2), v));
        return S("\"op\":\"") + (op == "addr" ? "addv" : "dele") + "\",\"h\":" + q(t[1]) + ",\"u\":" + w(n(2)) + ",\"run\":[" + t[3] + "," + t[4] + "," + t[5] + "]"
            + (t.size() > 6 ? "" : obs1(t[1]));
    }
    if (op == "addm") {
        if (o.k != 'g') return skip;
        for (uint64_t i = 0; i < n(4); i++) LV(gphrx_add_edge(o.g, n(3) + i * n(5), n(2)));
        return S("\"op\":\"adde\",\"h\":") + q(t[1]) + ",\"v\":" + w(n(2)) + ",\"run\":[" + t[3] + "," + t[4] + "," + t[5] + "]" + (t.size() > 6 ? "" : obs1(t[1]));
    }
    if (op == "redec") {
        if (o.k != 'g') return skip;
        Buf b = take(o, "bytes", 0);
        std::vector<uint8_t> m((const uint8_t *)b.p, (const uint8_t *)b.p + b.n);
        give_back(b);
        uint8_t err = 99;
        Obj d = mk(L(gphrx_from_bytes(m.data(), m.size(), &err)));
        bool ok = !is_null(d);
        drop(t[2]);
        if (ok) put(t[2], d);
        std::vector<std::pair<uint64_t, uint64_t>> v;
        for (size_t p = 26; p + 16 <= m.size(); p += 16) v.push_back({rd(m, p), rd(m, p + 8)});
        return "\"op\":\"dec\",\"k\":\"graph\",\"same\":" + q(t[1]) + ",\"h2\":" + q(t[2]) + ",\"head\":" + bytes(m.data(), std::min(m.size(), (size_t)26))
            + ",\"it\":" + runs_of(v) + ",\"rest\":" + std::to_string(m.size() < 26 ? 99 : (m.size() - 26) % 16) + ",\"ok\":" + boolean(ok)
            + ",\"err\":" + std::to_string((int)err) + (ok ? obs1(t[2]) : "");
    }
    if (op == "adde" || op == "dele") {
        if (o.k != 'g') return skip;
        if (op == "adde") LV(gphrx_add_edge(o.g, n(2), n(3))); else LV(gphrx_delete_edge(o.g, n(2), n(3)));
        return head + ",\"u\":" + w(n(2)) + ",\"v\":" + w(n(3)) + (t.size() > 4 ? "" : obs1(t[1]));
    }
    if (op == "clone") {
        Obj d = o.k == 'g' ? mk(L(gphrx_duplicate(o.g))) : o.k == 'c' ? mk(L(gphrx_compressed_graph_duplicate(o.c))) : mk(L(gphrx_matrix_duplicate(o.m)));
        put(t[2], d);
        return head + ",\"h2\":" + q(t[2]) + obs1(t[2]);
    }
    if (op == "drop") { drop(t[1]); return head; }
    if (op == "obs") return head + obs1(t[1]);
    if (op == "noout") return noout(t[1]);
    if (op == "pool") {
        if (o.k != 'g') return skip;
        put(t[2], mk(L(gphrx_find_avg_pool_matrix(o.g, n(3)))));
        return head + ",\"h2\":" + q(t[2]) + ",\"b\":" + w(n(3)) + obs1(t[2]);
    }
    if (op == "approx") {
        if (o.k != 'g') return skip;
        S js;
        double thr = threshold(t[4], js);
        put(t[2], mk(L(gphrx_approximate(o.g, n(3), thr))));
        return head + ",\"h2\":" + q(t[2]) + ",\"b\":" + w(n(3)) + ",\"thr\":" + js + obs1(t[2]);
    }
    if (op == "compress") {
        if (o.k != 'g') return skip;
        put(t[2], mk(L(gphrx_compress(o.g, (uint8_t)n(3)))));
        return head + ",\"h2\":" + q(t[2]) + ",\"lvl\":" + t[3] + obs1(t[2]);
    }
    if (op == "decompress") {
        if (o.k != 'c') return skip;
        put(t[2], mk(L(gphrx_decompress(o.c))));
        return head + ",\"h2\":" + q(t[2]) + obs1(t[2]);
    }
    if (op == "enc") {
        if (o.k == 'm' || sorted_lists) return skip;
        Buf b = take(o, "bytes", 0);
        S c = content(b);
        bool ok = b.p != nullptr;
        give_back(b);
        return head + ",\"ok\":" + boolean(ok) + ",\"b\":" + c;
    }
    if (op == "decm") {
        if (o.k == 'm') return skip;
        Buf b = take(o, "bytes", 0);
        std::vector<uint8_t> m((const uint8_t *)b.p, (const uint8_t *)b.p + b.n);
        give_back(b);
        bool g = o.k == 'g';
        mutate(m, t, 4, g ? 26 : 42, g ? 16 : 24);
        return decode(t[3] == "same" ? g : t[3] == "g", t[2], m);
    }
    if (op == "str") {
        long d = t.size() > 2 ? std::stol(t[2]) : -1;
        Buf b = take(o, "str", d < 0 ? UINT64_MAX : (uint64_t)d);
        S x = b.p ? S((const char *)b.p) : S();
        S r = text(b.p ? &x : nullptr);
        give_back(b);
        return head + ",\"d\":" + std::to_string(d) + ",\"s\":" + r;
    }
    // hold NAME of object: "hold h NAME KIND [ARG]"
    if (op == "hold") {
        const S &k = t[3];
        bool fits = k == "str" || (k == "bytes" && o.k != 'm') || ((k == "edges" || k == "in" || k == "out") && o.k == 'g') || (k == "entries" && o.k == 'm');
        if (!fits || held.count(t[2])) return skip;
        Buf b = take(o, k, t.size() > 4 ? n(4) : UINT64_MAX);
        if (!b.p) return skip;
        held[t[2]] = b;
        return head + ",\"n\":" + q(t[2]) + ",\"kind\":" + q(k) + ",\"a\":" + (t.size() > 4 ? w(n(4)) : "[]") + ",\"c\":" + content(b);
    }
    if (op == "a2g" || op.substr(0, 3) == "set" || op.substr(0, 4) == "zero" || op == "incm" || op == "addb" || op == "finish") return skip;
    fprintf(stderr, "driver: op %s\n", op.c_str());
    exit(3);
}

static std::vector<S> words(const S &line) {
    std::istringstream ss(line);
    std::vector<S> t;
    for (S x; ss >> x;) t.push_back(x);
    return t;
}
// What C has not: such handles stay unknown, and later calls of them are skipped.
static bool lacks(const S &op) { return op == "newa" || op == "newm" || op == "newb"; }

// ---- Threads: see drivers/rust/src/tdriver.rs -------------------------------------------------
static const unsigned THREADS = 6, WORKERS = 4;
static const size_t OUTCOMES = 12, OFTEN = 30;
static void empty(Context &c) {
    context = &c;
    while (!objs.empty()) drop(S(objs.begin()->first));
    for (auto &b : held) give_back(b.second);
    held.clear();
}
static S event(const S &line) {
    auto t = words(line);
    return "{" + (lacks(t[0]) ? S("\"op\":\"skip\"") : exec(t)) + "}\n";
}
static S share(const S &line) {
    std::vector<S> parts;
    std::istringstream ss(line);
    for (S x; std::getline(ss, x, ';');) parts.push_back(x);
    auto head = words(parts[0]);
    parts.erase(parts.begin());
    S h = head[1];
    unsigned n = std::stoul(head[2]), m = std::stoul(head[3]);
    if (!objs.count(h)) return "{\"op\":\"skip\"}\n";
    Obj o = objs[h];
    V u = U;
    std::mutex mx;
    std::set<S> seen;
    S all;
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> ts;
    for (unsigned k = 0; k < n; k++)
        ts.emplace_back([&, k] {
            Context mine;
            context = &mine;
            ready++;
            while (ready < n) {}
            for (unsigned i = 0; i < m; i++) {
                U = u;
                objs[h] = o;
                std::vector<S> evs(parts.size());
                for (size_t j = 0; j < parts.size(); j++) {
                    size_t at = (j + k + i) % parts.size();
                    evs[at] = event(parts[at]);
                    for (auto it = objs.begin(); it != objs.end();)
                        if (it->first != h) { release(it->second); it = objs.erase(it); } else ++it;
                }
                S round;
                for (auto &e : evs) round += e;
                std::lock_guard<std::mutex> g(mx);
                if (seen.size() < OUTCOMES && seen.insert(round).second) all += round;
            }
        });
    for (auto &t : ts) t.join();
    return all;
}
struct Workers {
    std::mutex mx;
    std::condition_variable cv;
    int turn = -1;
    bool over = false;
    Context *c = nullptr;
    S line, ev;
    std::vector<std::thread> ts;
    Workers() {
        for (unsigned k = 0; k < WORKERS; k++)
            ts.emplace_back([this, k] {
                std::unique_lock<std::mutex> g(mx);
                for (;;) {
                    cv.wait(g, [&] { return over || turn == (int)k; });
                    if (over) return;
                    context = c;
                    ev = event(line);
                    turn = -1;
                    cv.notify_all();
                }
            });
    }
    S call(unsigned k, Context *on, const S &l) {
        std::unique_lock<std::mutex> g(mx);
        c = on;
        line = l;
        turn = k % WORKERS;
        cv.notify_all();
        cv.wait(g, [&] { return turn == -1; });
        return ev;
    }
    ~Workers() {
        { std::lock_guard<std::mutex> g(mx); over = true; cv.notify_all(); }
        for (auto &t : ts) t.join();
    }
};
static S run(const S &line, Workers *workers) {
    if (line.compare(0, 6, "share ") == 0) return share(line);
    if (line[0] != '@') return event(line);
    size_t sp = line.find(' ');
    S call = line.substr(sp + 1);
    return workers ? workers->call(std::stoul(line.substr(1, sp - 1)), context, call) : event(call);
}
static int threads(const char *script, const char *trace, unsigned passes) {
    sorted_lists = true;
    std::ifstream in(script);
    FILE *out = fopen(trace, "w");
    std::vector<std::vector<S>> one, many, all;
    for (S line; std::getline(in, line);) {
        if (words(line).empty() || line[0] == '#') continue;
        if (line.compare(0, 5, "reset") == 0) all.push_back({});
        all.back().push_back(line);
    }
    for (auto &s : all) {
        bool alone = false;
        for (auto &l : s) alone = alone || l[0] == '@' || l.compare(0, 6, "share ") == 0;
        (alone ? one : many).push_back(s);
    }
    {
        Workers w;
        for (auto &s : one) {
            Context c;
            context = &c;
            for (auto &l : s) { fputs(run(l, &w).c_str(), out); fflush(out); }
            empty(c);
        }
    }
    std::vector<std::set<S>> seen(many.size());
    std::mutex mx;
    for (unsigned pass = 0; pass < passes; pass++) {
        std::vector<std::thread> ts;
        for (unsigned k = 0; k < THREADS; k++)
            ts.emplace_back([&, k] {
                for (size_t j = 0; j < many.size(); j++) {
                    size_t i = (j + (k + pass) * many.size() / THREADS + (pass % 2 ? k : 0)) % many.size();
                    for (size_t r = many[i][0].compare(0, 11, "reset apart") ? 1 : OFTEN; r; r--) {
                        Context c;
                        context = &c;
                        S evs;
                        for (auto &l : many[i]) evs += run(l, nullptr);
                        empty(c);
                        std::lock_guard<std::mutex> g(mx);
                        if (seen[i].size() < OUTCOMES && seen[i].insert(evs).second) { fputs(evs.c_str(), out); fflush(out); }
                    }
                }
            });
        for (auto &t : ts) t.join();
    }
    fclose(out);
    return 0;
}

int main(int argc, char **argv) {
    if (argc > 3) return threads(argv[1], argv[2], std::stoul(argv[3]));
    Context all;
    context = &all;
    ledger = (void **)__libc_calloc(CAP, sizeof(void *));
    {   // Let the library and its runtime allocate what they allocate once.
        GphrxGraph g = L(gphrx_new_undirected());
        LV(gphrx_add_edge(g, 1, 2));
        size_t n;
        auto b = L(gphrx_to_bytes(g, &n));
        LV(free_gphrx_bytes_buffer(b, n));
        uint8_t e;
        LV(gphrx_from_bytes((const uint8_t *)"abc", 3, &e));
        auto c = L(gphrx_compress(g, 1));
        LV(free_gphrx_compressed_graph(c));
        auto s = L(gphrx_matrix_string(g));
        LV(free_gphrx_string_buffer(s));
        LV(free_gphrx_graph(g));
    }
    long base = live;
    bad_frees = 0;
    std::ifstream in(argv[1]);
    FILE *out = fopen(argv[2], "w");
    S line;
    while (std::getline(in, line)) {
        auto t = words(line);
        if (t.empty() || t[0][0] == '#') continue;
        if (lacks(t[0])) { fprintf(out, "{\"op\":\"skip\"}\n"); continue; }
        long before = live - base;
        most_used = 0;
        S ev = exec(t);
        static const S costed = " addr delr redec addv adde dele clone pool approx compress decompress dec decm enc str hold ";
        if (costed.find(" " + t[0] + " ") != S::npos && ev != "\"op\":\"skip\"")
            ev += ",\"kb\":" + std::to_string(most_used / 1024);
        fprintf(out, "{%s,\"mem\":[%ld,%ld,%ld],\"nobj\":%zu,\"nbuf\":%zu}\n", ev.c_str(), before, live - base, bad_frees, objs.size(), held.size());
        fflush(out);
    }
    fclose(out);
    return 0;
}
