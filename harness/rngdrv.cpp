// getRandomSeed with a scripted system random source.  Every way of opening /dev/urandom or /dev/random ends
// at a socket fed by this program; getrandom and getentropy draw from the same stream.
//   rng n entropy script      script: none | open | c<k>.<k>...[.eof|.err]
#include "common.h"
#include <qrl/misc.h>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/sockios.h>
#include <mutex>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

static uint64_t ctr = 1;
static uint8_t nextbyte() { ctr = ctr * 6364136223846793005ull + 1442695040888963407ull; return uint8_t(ctr >> 33); }
static std::mutex mu;
static B taken;                       // bytes handed out in this call
static std::string script = "none";
static std::atomic<int> opened{0};
static std::vector<std::thread> feeders;

static bool is_source(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static std::vector<std::string> parts(const std::string &s) { std::vector<std::string> v; std::string t; std::istringstream is(s); while (std::getline(is, t, '.')) v.push_back(t); return v; }
static bool push(int fd, size_t n) {
    B b(n);
    for (auto &x : b) x = nextbyte();
    size_t off = 0;
    while (off < n) { ssize_t k = send(fd, b.data() + off, n - off, MSG_NOSIGNAL); if (k <= 0) break; off += k; }
    { std::lock_guard<std::mutex> l(mu); taken.insert(taken.end(), b.begin(), b.begin() + off); }
    return off == n;
}
static void feed(int fd, std::string s) {
    bool go = true;
    if (s == "none") { while (push(fd, 4096)) {} close(fd); return; }
    for (auto &p : parts(s.substr(1))) {
        if (p == "eof") { shutdown(fd, SHUT_WR); char c; while (recv(fd, &c, 1, 0) > 0) {} close(fd); return; }
        if (p == "err") { close(fd); return; }     // unread data in our queue: the reader gets ECONNRESET
        if (!(go = push(fd, num(p)))) break;
        int left = 1;
        for (int t = 0; left > 0 && t < 20000; t++) { if (ioctl(fd, SIOCOUTQ, &left) != 0) break; if (left > 0) usleep(50); }
    }
    while (go && push(fd, 4096)) {}
    close(fd);
}
// a descriptor to read from, or -1
static int source() {
    opened++;
    if (script == "open") { errno = ENOENT; return -1; }
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) != 0) abort();
    if (script.size() > 4 && script.substr(script.size() - 3) == "err") { char c = 1; if (write(sv[0], &c, 1) != 1) abort(); }
    std::string s = script;
    feeders.emplace_back(feed, sv[1], s);
    return sv[0];
}
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
extern "C" {
FILE *fopen(const char *p, const char *m) { if (is_source(p)) { int f = source(); return f < 0 ? nullptr : fdopen(f, "r"); } return REAL(fopen)(p, m); }
FILE *fopen64(const char *p, const char *m) { if (is_source(p)) { int f = source(); return f < 0 ? nullptr : fdopen(f, "r"); } return REAL(fopen64)(p, m); }
int open(const char *p, int fl, ...) { va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v); return is_source(p) ? source() : REAL(open)(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v); return is_source(p) ? source() : REAL(open64)(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v); return is_source(p) ? source() : REAL(openat)(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v); return is_source(p) ? source() : REAL(openat64)(d, p, fl, m); }
static std::vector<std::string> gr; static size_t grp = 0;
ssize_t getrandom(void *b, size_t n, unsigned) {
    if (script == "open") { errno = ENOSYS; return -1; }
    size_t k = n;
    if (script != "none") {
        if (!opened) { gr = parts(script.substr(1)); grp = 0; opened++; }
        if (grp < gr.size()) { if (gr[grp] == "eof" || gr[grp] == "err") { errno = EIO; return -1; } k = std::min<size_t>(n, num(gr[grp++])); }
    }
    std::lock_guard<std::mutex> l(mu);
    for (size_t i = 0; i < k; i++) taken.push_back(((uint8_t *)b)[i] = nextbyte());
    return k;
}
int getentropy(void *b, size_t n) { if (n > 256) { errno = EIO; return -1; } size_t o = 0; while (o < n) { ssize_t k = getrandom((uint8_t *)b + o, n - o, 0); if (k <= 0) { errno = EIO; return -1; } o += k; } return 0; }
}
OP(rng) {
    uint32_t n = (uint32_t)num(a[1]);
    std::string e = unhexs(a[2]), e0 = e;
    { std::lock_guard<std::mutex> l(mu); taken.clear(); }
    script = a[3]; opened = 0;
    bool ok = true; B r;
    try { r = getRandomSeed(n, e); } catch (std::exception &) { ok = false; }
    for (auto &t : feeders) t.join();
    feeders.clear();
    B t = taken;
    if (t.size() > n) t.resize(n);
    j.b("done", ok).h("taken", t).b("inok", e == e0);
    if (ok) j.h("b", r);
}
int main() { return main_loop(); }
