#include "mc.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <map>
#include <new>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

constexpr int MAXCH = 512;
constexpr size_t TRACE = 1 << 15;
constexpr size_t STATE_SLOTS = size_t(1) << 24;

struct Shared {                                   // one per worker
    std::atomic<double> start;                    // of the current execution, 0 when idle
    std::atomic<int> status;                      // 0 running, 1 failed, 2 finished, 3 recycle
    int scenario; long unit; int nch; int ch[MAXCH]; int chn[MAXCH];
    char what[MAXCH][24];
    char msg[4096];
    uint64_t executions, steps, nontrivial, divergences;
    uint32_t log_len;
};
struct ScenStat { std::atomic<uint64_t> executions, steps, nontrivial, units_done, samples; char sample[3][TRACE]; std::atomic<uint64_t> outcomes; };
struct Global { std::atomic<long> next; std::atomic<uint64_t> states; std::atomic<int> states_capped; };

Global* G; Shared* W; ScenStat* S; std::atomic<uint64_t>* states_table; Shared* me;
std::vector<mc::Scenario>* scen;
std::vector<std::pair<int,long>>* work;
uint32_t* unit_log; // [worker][i]
int tier; uint64_t seed; const char* prop = "?";

// ---- choices ----
int ch_pos, ch_len; int ch_val[MAXCH], ch_num[MAXCH];
char* trace_buf; size_t trace_len;
bool exec_nontrivial, exec_nt_said; uint64_t exec_steps;

void* share(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return p;
}

// ---- keys ----
mc::Keys key_mode; uint64_t key_salt, key_counter; uint32_t key_const, key_first, key_stride;
std::vector<uint32_t>* key_alphabet; std::function<uint32_t()>* key_cb;

// ---- arena ----
#ifndef MC_NO_ARENA
char* const ARENA_ADDR = reinterpret_cast<char*>(0x100000000000ull);
constexpr size_t ARENA_SIZE = size_t(512) << 30;
constexpr size_t FILL_MAX = 256 << 10;
constexpr size_t EXEC_MEM_LIMIT = size_t(5) << 29;
bool arena_on = false; bool arena_ok = false;
size_t arena_base = 0, arena_pos = 0; long arena_live = 0, arena_own = 0; int64_t arena_bytes = 0; unsigned char arena_fill = 0;

void arena_init() {
    void* p = mmap(ARENA_ADDR, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    arena_ok = p == ARENA_ADDR;
}
#ifdef MC_DOWN // each block below the one before, as large blocks from mmap are: nodes lie below the sinks
constexpr bool DOWN = true;
#else
constexpr bool DOWN = false;
#endif
#ifdef MC_REUSE
constexpr bool REUSE_DEFAULT = true;
#else
constexpr bool REUSE_DEFAULT = false;
#endif
bool arena_reuse = false; constexpr size_t CLASSES = (4 << 20) / 16; void** class_head; size_t* class_used; size_t nr_class_used; // released blocks by size, handed out again last in first out
void classes_clear() { if (class_head) while (nr_class_used) class_head[class_used[--nr_class_used]] = nullptr; }
struct Hdr { size_t size; void* next; };
Hdr** arena_blocks; size_t arena_nr_blocks, arena_max_blocks; // of this execution
void arena_begin() { if (!arena_ok) return; classes_clear(); arena_nr_blocks = 0; arena_reuse = REUSE_DEFAULT; arena_pos = arena_base; arena_live = arena_own = 0; arena_bytes = 0; arena_fill = 0; arena_on = true; }
Hdr* const LIVE = reinterpret_cast<Hdr*>(1); // in Hdr::next of a block that has not been released
char* arena_at(size_t pos) { return DOWN ? ARENA_ADDR + (ARENA_SIZE - pos) : ARENA_ADDR + pos; }
inline bool own(void* p) { return DOWN ? static_cast<char*>(p) < arena_at(arena_base) : static_cast<char*>(p) >= arena_at(arena_base); }
void arena_log(Hdr* h) {
    if (arena_nr_blocks == arena_max_blocks) { arena_max_blocks = arena_max_blocks ? 2 * arena_max_blocks : 4096; arena_blocks = static_cast<Hdr**>(realloc(arena_blocks, arena_max_blocks * sizeof(Hdr*))); if (!arena_blocks) _exit(2); }
    arena_blocks[arena_nr_blocks++] = h; h->next = LIVE; ++arena_own;
}
void arena_end() {
    if (!arena_ok) return;
    arena_on = false;
    char* lo = DOWN ? arena_at(arena_pos) : arena_at(arena_base); char* hi = DOWN ? arena_at(arena_base) : arena_at(arena_pos);
    const auto page = [](char* p) { return reinterpret_cast<char*>((size_t(p) + 4095) & ~size_t(4095)); };
    const auto drop = [&](char* a, char* b) { a = page(a); b = page(b - 4095); if (b > a) madvise(a, size_t(b - a), MADV_DONTNEED); };
    if (arena_own == 0) { if (hi - lo > (ptrdiff_t(256) << 20)) drop(lo, hi); return; }
    // survivors (static objects of the code under test) must stay valid: continue above them
    char* from = lo; // blocks of one execution lie in increasing (or, if DOWN, decreasing) order
    for (size_t i = 0; i < arena_nr_blocks; ++i) {
        Hdr* h = arena_blocks[DOWN ? arena_nr_blocks - 1 - i : i]; if (h->next != LIVE) continue;
        drop(from, reinterpret_cast<char*>(h)); from = reinterpret_cast<char*>(h + 1) + h->size;
    }
    drop(from, hi);
    arena_base = (arena_pos + 4095) & ~size_t(4095);
}
void* arena_alloc(size_t n, size_t align) {
    if (arena_reuse && align == 16 && (n + 15) / 16 < CLASSES && class_head && class_head[(n + 15) / 16]) {
        void* r = class_head[(n + 15) / 16]; Hdr* h = reinterpret_cast<Hdr*>(r) - 1;
        class_head[(n + 15) / 16] = h->next; h->size = n; h->next = LIVE; arena_own += own(r); ++arena_live; arena_bytes += int64_t(n); return r; // contents as left behind
    }
    if (DOWN) { // arena_pos counts from the end
        if (arena_pos + n + align + sizeof(Hdr) > ARENA_SIZE || arena_pos - arena_base + n > EXEC_MEM_LIMIT) throw std::bad_alloc();
        const size_t at = (ARENA_SIZE - arena_pos - n) & ~(align - 1); Hdr* h = reinterpret_cast<Hdr*>(ARENA_ADDR + at) - 1; h->size = n; arena_pos = ARENA_SIZE - at + sizeof(Hdr); arena_log(h);
        ++arena_live; arena_bytes += int64_t(n); memset(h + 1, arena_fill, n < FILL_MAX ? n : FILL_MAX); return h + 1;
    }
    size_t pos = arena_pos + sizeof(Hdr);
    pos = (pos + align - 1) & ~(align - 1);
    if (pos - arena_base + n > EXEC_MEM_LIMIT || pos + n > ARENA_SIZE) throw std::bad_alloc();
    Hdr* h = reinterpret_cast<Hdr*>(ARENA_ADDR + pos) - 1;
    h->size = n;
    arena_pos = (pos + n + 15) & ~size_t(15); arena_log(h);
    ++arena_live; arena_bytes += int64_t(n);
    void* r = ARENA_ADDR + pos;
    memset(r, arena_fill, n < FILL_MAX ? n : FILL_MAX);
    return r;
}
inline bool in_arena(void* p) { return size_t((char*)p - ARENA_ADDR) < ARENA_SIZE; }
void arena_free(void* p) {
    Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
    size_t n = h->size;
    if (arena_on && arena_reuse && (n + 15) / 16 < CLASSES) {
        if (!class_head) { class_head = static_cast<void**>(calloc(CLASSES, sizeof(void*))); class_used = static_cast<size_t*>(calloc(CLASSES, sizeof(size_t))); }
        const size_t c = (n + 15) / 16; if (!class_head[c]) { bool known = false; for (size_t i = nr_class_used; i-- > 0 && !known; ) known = class_used[i] == c; if (!known) class_used[nr_class_used++] = c; }
        h->next = class_head[c]; class_head[c] = p; arena_own -= own(p); --arena_live; arena_bytes -= int64_t(n); return;
    }
    memset(p, 0xDD, n < FILL_MAX ? n : FILL_MAX);
    h->next = nullptr;
    if (arena_on) { arena_own -= own(p); --arena_live; arena_bytes -= int64_t(n); }
}
#endif

} // namespace

#ifndef MC_NO_ARENA
void* operator new(size_t n) { if (arena_on) return arena_alloc(n, 16); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::align_val_t a) { if (arena_on) return arena_alloc(n, size_t(a) < 16 ? 16 : size_t(a)); void* p = aligned_alloc(size_t(a), (n + size_t(a) - 1) / size_t(a) * size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { if (!p) return; if (in_arena(p)) arena_free(p); else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
#endif

extern "C" uint32_t verif_next_key() {
    using mc::Keys;
    uint64_t c = key_counter++;
    switch (key_mode) {
        case Keys::Constant: return key_const & 0x3fffff;
        case Keys::Sequence: return (key_first + uint32_t(c) * key_stride) & 0x3fffff;
        case Keys::Choice: return (*key_alphabet)[mc::choose(int(key_alphabet->size()), "key")] & 0x3fffff;
        case Keys::Callback: return (*key_cb)() & 0x3fffff;
        default: break;
    }
    uint64_t z = (c + 1) * 0x9e3779b97f4a7c15ull + key_salt * 0xd1342543de82ef95ull + seed;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31;
    return uint32_t(z) & 0x3fffff;
}

namespace mc {

bool tracing = false;

// Scoped switch: the explorer's own data must not live in the arena.
struct NoArena {
#ifndef MC_NO_ARENA
    bool was; NoArena() : was(arena_on) { arena_on = false; } ~NoArena() { arena_on = was; }
#endif
};

void keys_pseudo(uint64_t salt) { key_mode = Keys::Pseudo; key_salt = salt; }
void keys_constant(uint32_t k) { key_mode = Keys::Constant; key_const = k; }
void keys_sequence(uint32_t f, uint32_t s) { key_mode = Keys::Sequence; key_first = f; key_stride = s; key_counter = 0; }
void keys_choice(const std::vector<uint32_t>& a) { NoArena n; key_mode = Keys::Choice; if (!key_alphabet) key_alphabet = new std::vector<uint32_t>; *key_alphabet = a; }
void keys_callback(std::function<uint32_t()> f) { NoArena n; key_mode = Keys::Callback; if (!key_cb) key_cb = new std::function<uint32_t()>; *key_cb = f; }
uint64_t keys_drawn() { return key_counter; }

#ifndef MC_NO_ARENA
void memory_fill(unsigned char b) { arena_fill = b; }
void memory_reuse(bool b) { arena_reuse = b; }
void memory_offset(size_t n) { if (arena_ok) arena_pos += (n + 15) & ~size_t(15); }
bool memory_controlled() { return arena_ok; }
long memory_blocks() { return arena_live; }
long memory_bytes() { return long(arena_bytes); }
#else
void memory_fill(unsigned char) {}
void memory_offset(size_t) {}
void memory_reuse(bool) {}
bool memory_controlled() { return false; }
long memory_blocks() { return 0; }
long memory_bytes() { return 0; }
#endif

void note_(const char* fmt, ...) {
    if (!tracing || !trace_buf) return;
    if (trace_len + 2048 >= TRACE) {                // keep the beginning and the end
        const size_t keep = 4096, drop = TRACE / 2;
        memmove(trace_buf + keep, trace_buf + keep + drop, trace_len - keep - drop + 1); trace_len -= drop;
        memcpy(trace_buf + keep, "\n...\n", 5);
    }
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(trace_buf + trace_len, TRACE - trace_len - 1, fmt, ap);
    va_end(ap);
    if (n > 0) trace_len = std::min(TRACE - 2, trace_len + size_t(n));
    trace_buf[trace_len++] = '\n'; trace_buf[trace_len] = 0;
}

void fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(me->msg, sizeof me->msg, fmt, ap);
    va_end(ap);
    if (tracing) note_("PROPERTY VIOLATED: %s", me->msg);
    me->status.store(1);
    _exit(77);
}

struct Abandon {};

int choose(int n, const char* what) {
    if (n <= 1) return 0;
    if (ch_pos >= MAXCH) fail("explorer: more than %d choices in one execution", MAXCH);
    if (ch_pos == ch_len) { ch_val[ch_len] = 0; ch_num[ch_len] = n; ++ch_len; }
    else if (ch_num[ch_pos] != n) {                 // replayed prefix behaves differently
        ch_num[ch_pos] = n; ++me->divergences;
        if (ch_val[ch_pos] >= n) throw Abandon();
    }
    int v = ch_val[ch_pos];
    me->ch[ch_pos] = v; me->chn[ch_pos] = n; strncpy(me->what[ch_pos], what, 23);
    me->nch = ++ch_pos;
    return v;
}

void state(uint64_t h) {
    if (h == 0) h = 1;
    if (G->states_capped.load(std::memory_order_relaxed)) return;
    for (size_t i = (h * 0x9e3779b97f4a7c15ull) >> 40, k = 0; k < 4096; ++i, ++k) {
        auto& s = states_table[i & (STATE_SLOTS - 1)];
        uint64_t v = s.load(std::memory_order_relaxed);
        if (v == h) return;
        if (v == 0) {
            if (s.compare_exchange_strong(v, h)) {
                if (G->states.fetch_add(1) > STATE_SLOTS * 3 / 4) G->states_capped.store(1);
                return;
            }
            if (v == h) return;
        }
    }
}
void steps(uint64_t n) { exec_steps += n; beat(); }
void beat() { static unsigned c = 0; if ((++c & 127) == 0 && me) me->start.store(now()); }
void nontrivial(bool b) { exec_nontrivial = b || (exec_nt_said && exec_nontrivial); exec_nt_said = true; }

} // namespace mc

namespace {

// Runs one execution with the current choice prefix. Returns false if it was abandoned.
bool run_once(int sc, long unit) {
    ch_pos = 0; exec_steps = 0; exec_nontrivial = true; exec_nt_said = false;
    key_counter = 0; mc::keys_pseudo();
    me->scenario = sc; me->unit = unit; me->nch = 0; me->status.store(0);
    me->start.store(now());
    bool ok = true;
#ifndef MC_NO_ARENA
    arena_begin();
#endif
    try { (*scen)[sc].body(unit); }
    catch (mc::Abandon&) { ok = false; }
    catch (std::exception& e) { mc::fail("unexpected exception: %s", e.what()); }
    catch (...) { mc::fail("unexpected exception"); }
#ifndef MC_NO_ARENA
    arena_end();
#endif
    me->start.store(0);
    ch_len = std::min(ch_len, std::max(ch_pos, 0));
    return ok;
}

bool next_choice() {                                // depth-first: advance the last choice with alternatives
    while (ch_len > 0) {
        if (++ch_val[ch_len - 1] < ch_num[ch_len - 1]) return true;
        --ch_len;
    }
    return false;
}

void run_unit(int sc, long unit) {
    ch_len = 0;
    ScenStat& st = S[sc];
    uint64_t ex = 0, stp = 0, nt = 0;
    long n = (*scen)[sc].units;
    int want = unit == 0 ? 0 : unit == n / 2 ? 1 : unit == n - 1 ? 2 : -1;
    do {
        if (want >= 0 && ex == 0) { mc::tracing = true; trace_buf = st.sample[want]; trace_len = 0; }
        run_once(sc, unit);
        if (mc::tracing) { mc::tracing = false; trace_buf = nullptr; }
        ++ex; stp += exec_steps; nt += exec_nontrivial;
        if ((ex & 1023) == 0) { st.executions += 1024; }
    } while (next_choice());
    st.executions += ex & 1023; st.steps += stp; st.nontrivial += nt; ++st.units_done;
}

void redirect(int fd, int to) { dup2(fd, to); }

int err_fd[64];

void worker(int w, int nworkers) {
    (void)nworkers;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    me = &W[w];
    int null = open("/dev/null", O_WRONLY);
    redirect(null, 1); redirect(err_fd[w], 2);
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    while (true) {
#ifndef MC_NO_ARENA
        if (arena_base > (size_t(1) << 30)) { me->status.store(3); _exit(0); }
#endif
        long i = G->next.fetch_add(1);
        if (i >= long(work->size())) break;
        unit_log[size_t(w) * work->size() + me->log_len++] = uint32_t(i);
        run_unit((*work)[i].first, (*work)[i].second);
    }
    me->status.store(2);
    _exit(0);
}

std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

std::string tail_of(int fd, size_t n = 1500) {
    off_t e = lseek(fd, 0, SEEK_END); off_t b = e > off_t(n) ? e - off_t(n) : 0;
    std::string s(size_t(e - b), 0);
    if (pread(fd, &s[0], s.size(), b) < 0) s.clear();
    return s;
}

struct Candidate { int scenario; long unit; std::vector<int> ch, chn; std::vector<std::string> what; std::string msg; bool hang; int worker; std::vector<uint32_t> log; };

// Re-runs in a fresh process. level 0: only the execution; 1: its whole unit; 2: all units the worker ran.
// Returns true if it fails again; fills msg and trace.
bool confirm(Candidate& c, int level, double timeout, std::string& trace) {
    static Shared* sh = static_cast<Shared*>(share(sizeof(Shared)));
    static char* tb = static_cast<char*>(share(TRACE));
    memset((void*)sh, 0, sizeof *sh); tb[0] = 0;
    int fd = memfd_create("err", 0);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        me = sh;
        int null = open("/dev/null", O_WRONLY); redirect(null, 1); redirect(fd, 2);
        rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        if (level == 0) {
            mc::tracing = true; trace_buf = tb; trace_len = 0;
            ch_len = int(c.ch.size());
            for (int i = 0; i < ch_len; ++i) { ch_val[i] = c.ch[i]; ch_num[i] = c.chn[i]; }
            run_once(c.scenario, c.unit);
        } else if (level == 1) run_unit(c.scenario, c.unit);
        else for (uint32_t i : c.log) run_unit((*work)[i].first, (*work)[i].second);
        sh->status.store(2);
        _exit(0);
    }
    double t0 = now(); int st = 0; bool hang = false, gave_up = false;
    while (true) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        double s = sh->start.load();
        if ((s != 0 && now() - s > timeout) || now() - t0 > 300) { hang = s != 0 && now() - s > timeout; gave_up = !hang; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
        usleep(10000);
    }
    std::string err = tail_of(fd); close(fd);
    if (gave_up) return false;
    bool failed = hang || sh->status.load() == 1 || WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0);
    if (failed) {
        if (hang) { char b[100]; snprintf(b, 100, "no answer within %.0f s (does not terminate)", timeout); c.msg = b; }
        else if (sh->status.load() == 1) c.msg = sh->msg;
        else {
            char b[100]; snprintf(b, 100, WIFSIGNALED(st) ? "crash with signal %d: " : "abnormal exit %d: ", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
            c.msg = b + err.substr(0, 1200);
        }
        c.scenario = sh->scenario; c.unit = sh->unit;
        c.ch.assign(sh->ch, sh->ch + sh->nch); c.chn.assign(sh->chn, sh->chn + sh->nch);
        c.what.clear(); for (int i = 0; i < sh->nch; ++i) c.what.push_back(sh->what[i]);
        trace = tb;
    }
    return failed;
}

} // namespace

int main(int argc, char** argv) {
    std::string out = "/dev/stdout", replay_out, replay_in; int jobs = 0;
    std::string only;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--property") prop = strdup(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--replay-out") replay_out = val();
        else if (a == "--replay") replay_in = val();
        else if (a == "--tier") tier = val() == "thorough";
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--only") only = val();
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (const char* s = getenv("VERIF_SEED")) seed = strtoull(s, nullptr, 10);
    if (jobs <= 0) jobs = int(sysconf(_SC_NPROCESSORS_ONLN));
    if (jobs > 60) jobs = 60;
#ifndef MC_NO_ARENA
    arena_init();
#endif
    auto scv = mc_scenarios(tier);
    scen = new std::vector<mc::Scenario>;
    for (auto& s : scv) if (only.empty() || s.name.find(only) != std::string::npos) { s.timeout = std::min(s.timeout, tier == mc::THOROUGH ? 200. : 60.); scen->push_back(s); }
    work = new std::vector<std::pair<int,long>>;
    for (int s = 0; s < int(scen->size()); ++s) for (long u = 0; u < (*scen)[s].units; ++u) work->push_back({s, u});

    G = new (share(sizeof(Global))) Global();
    W = static_cast<Shared*>(share(sizeof(Shared) * 64));
    S = static_cast<ScenStat*>(share(sizeof(ScenStat) * (scen->size() + 1)));
    states_table = static_cast<std::atomic<uint64_t>*>(share(STATE_SLOTS * 8));
    unit_log = static_cast<uint32_t*>(share(size_t(64) * (work->size() + 1) * 4));

    if (!replay_in.empty()) {                       // scenario name, unit, choices: one token per line
        FILE* f = fopen(replay_in.c_str(), "r"); char name[256]; Candidate c{}; int n;
        if (!f || fscanf(f, "%255s %ld %d", name, &c.unit, &n) != 3) { fprintf(stderr, "bad replay file\n"); return 2; }
        for (int i = 0; i < n; ++i) { int v, m; if (fscanf(f, "%d/%d", &v, &m) != 2) return 2; c.ch.push_back(v); c.chn.push_back(m); }
        c.scenario = -1; for (int s = 0; s < int(scen->size()); ++s) if ((*scen)[s].name == name) c.scenario = s;
        if (c.scenario < 0) { fprintf(stderr, "unknown scenario %s\n", name); return 2; }
        std::string trace; bool bad = confirm(c, 0, (*scen)[c.scenario].timeout * 1.2, trace);
        if (!bad) { auto c2 = c; bad = confirm(c2, 1, (*scen)[c.scenario].timeout * 1.2, trace); c.msg = c2.msg; }
        printf("%s%s\n", trace.c_str(), bad ? ("FAILS: " + c.msg).c_str() : "passes");
        return bad ? 1 : 0;
    }

    double t0 = now();
    std::map<pid_t, int> kids;
    auto spawn = [&](int w) {
        W[w].start.store(0); W[w].status.store(0);
        pid_t p = fork();
        if (p == 0) worker(w, jobs);
        kids[p] = w;
    };
    for (int w = 0; w < jobs; ++w) { err_fd[w] = memfd_create("err", 0); spawn(w); }
    std::vector<Candidate> cands;
    bool stop = false;
    while (!kids.empty()) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            int w = kids[p]; kids.erase(p);
            int s = W[w].status.load();
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s == 2) continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s == 3 && !stop) { spawn(w); continue; }
            if (stop) continue;
            Candidate c; c.scenario = W[w].scenario; c.unit = W[w].unit; c.hang = false; c.worker = w;
            c.ch.assign(W[w].ch, W[w].ch + W[w].nch); c.chn.assign(W[w].chn, W[w].chn + W[w].nch);
            c.msg = s == 1 ? W[w].msg : "crash: " + tail_of(err_fd[w]);
            c.log.assign(unit_log + size_t(w) * work->size(), unit_log + size_t(w) * work->size() + W[w].log_len);
            cands.push_back(c); stop = true;
            for (auto& k : kids) kill(k.first, SIGKILL);
            continue;
        }
        if (!stop) for (auto& k : kids) {
            int w = k.second; double s = W[w].start.load();
            if (s != 0 && now() - s > (*scen)[W[w].scenario].timeout) {
                Candidate c; c.scenario = W[w].scenario; c.unit = W[w].unit; c.hang = true; c.worker = w;
                c.ch.assign(W[w].ch, W[w].ch + W[w].nch); c.chn.assign(W[w].chn, W[w].chn + W[w].nch);
                c.msg = "hang";
                c.log.assign(unit_log + size_t(w) * work->size(), unit_log + size_t(w) * work->size() + W[w].log_len);
                cands.push_back(c); stop = true;
                for (auto& kk : kids) kill(kk.first, SIGKILL);
                break;
            }
        }
        usleep(5000);
    }

    int rc = 0; std::string verdict = "held", vmsg, vtrace; int level = -1; Candidate best{};
    if (!cands.empty()) {
        Candidate c = cands[0];
        double to = (*scen)[c.scenario].timeout * 1.2;
        for (int l = 0; l < 3 && rc == 0; ++l) {
            best = c;
            if (confirm(best, l, to, vtrace)) {
                rc = 1; level = l;
                if (l > 0) { Candidate b2 = best; std::string t2; if (confirm(b2, 0, to, t2)) { best = b2; vtrace = t2; level = 0; } }
            }
        }
        if (rc == 0) { rc = 3; verdict = "unconfirmed"; vmsg = c.msg; fprintf(stderr, "unconfirmed failure: scenario %s unit %ld: %s\n", (*scen)[c.scenario].name.c_str(), c.unit, c.msg.c_str()); }
        else { verdict = "violated"; vmsg = best.msg; }
        if (rc == 1) {
            if (!replay_out.empty()) {
                FILE* f = fopen(replay_out.c_str(), "w");
                if (f) {
                    fprintf(f, "%s %ld %zu\n", (*scen)[best.scenario].name.c_str(), best.unit, best.ch.size());
                    for (size_t i = 0; i < best.ch.size(); ++i) fprintf(f, "%d/%d\n", best.ch[i], best.chn[i]);
                    fprintf(f, "# property %s, scenario %s, unit %ld; reproduced by %s\n", prop, (*scen)[best.scenario].name.c_str(), best.unit,
                        level == 0 ? "this execution alone" : level == 1 ? "running the whole unit" : "running the worker's units in order");
                    fprintf(f, "# %s\n", best.msg.c_str());
                    fprintf(f, "# choices:"); for (size_t i = 0; i < best.what.size(); ++i) fprintf(f, " %s=%d", best.what[i].c_str(), best.ch[i]);
                    fprintf(f, "\n# trace:\n%s\n", vtrace.c_str());
                    fclose(f);
                }
            }
            size_t cut = vtrace.size(); for (int l = 0; l < 25 && cut != std::string::npos && cut > 0; ++l) cut = vtrace.rfind('\n', cut - 1);
            fprintf(stderr, "scenario %s unit %ld: %s\n(end of trace)%s\n", (*scen)[best.scenario].name.c_str(), best.unit, best.msg.c_str(), cut == std::string::npos || cut == 0 ? vtrace.c_str() : vtrace.c_str() + cut);
        }
    }

    FILE* f = fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 2; }
    uint64_t ex = 0, stp = 0, nt = 0, div = 0; bool complete = rc == 0;
    for (int w = 0; w < jobs; ++w) div += W[w].divergences;
    fprintf(f, "{\"verdict\": \"%s\", \"message\": \"%s\", \"wall_s\": %.3f, \"scenarios\": [", verdict.c_str(), esc(vmsg).c_str(), now() - t0);
    for (size_t s = 0; s < scen->size(); ++s) {
        auto& st = S[s]; ex += st.executions; stp += st.steps; nt += st.nontrivial;
        bool done = long(st.units_done.load()) == (*scen)[s].units; complete = complete && done;
        fprintf(f, "%s{\"name\": \"%s\", \"bound\": \"%s\", \"units\": %ld, \"units_done\": %lu, \"executions\": %lu, \"steps\": %lu, \"nontrivial\": %lu, \"samples\": [", s ? ", " : "",
            esc((*scen)[s].name).c_str(), esc((*scen)[s].bound).c_str(), (*scen)[s].units, (unsigned long)st.units_done, (unsigned long)st.executions, (unsigned long)st.steps, (unsigned long)st.nontrivial);
        bool first = true;
        for (auto& sm : st.sample) if (sm[0]) { fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(std::string(sm).substr(0, 1500)).c_str()); first = false; }
        fprintf(f, "]}");
    }
    fprintf(f, "], \"executions\": %lu, \"steps\": %lu, \"nontrivial\": %lu, \"states\": %lu, \"states_capped\": %s, \"divergences\": %lu, \"complete\": %s}\n",
        (unsigned long)ex, (unsigned long)stp, (unsigned long)nt, (unsigned long)G->states.load(), G->states_capped.load() ? "true" : "false", (unsigned long)div, complete ? "true" : "false");
    fclose(f);
    return rc;
}
