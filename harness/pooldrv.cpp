// Driver for the tree pool: worker threads make calls, every call's beginning and end is logged in one order;
// builds can be held at a gate, opened one by one, or made to fail.
#include "poolshim.h"
#include "poolgate.h"
#include <atomic>
#include <chrono>
#include <algorithm>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <thread>
#include <unistd.h>
using Clock = std::chrono::steady_clock;
static std::mutex mu; static std::condition_variable cv;
static std::vector<std::string> logv;
static void *pool = nullptr;
static Gate G; static bool gate_works = false;
static uint64_t activity = 0;
static std::string le8(uint64_t v) { B b(8); for (int i = 0; i < 8; i++) b[i] = uint8_t(v >> (8 * i)); return hexs(b); }
static void lg(const std::string &s) { logv.push_back(s); activity++; cv.notify_all(); }   // mu held
static void gate(int k) {
    std::unique_lock<std::mutex> l(mu);
    activity++;
    if (G.closed && !G.open.count(k)) {
        G.inside++; activity++; cv.notify_all();
        cv.wait(l, [&] { return !G.closed || G.open.count(k); });
        G.inside--;
    }
    if (G.fail.count(k)) { J j; j.t("op", "gfail").i("k", k).raw("a", "{\"r\":\"ok\"}"); lg(j.end()); throw std::runtime_error("planned failure"); }
}
struct Worker { std::thread th; std::deque<std::string> q; bool busy = false; };
static std::map<int, Worker> W;
static void answer(J &a, const std::string &what, void *p) {
    if (what == "next") {
        try {
            std::shared_ptr<void> v = pool_next(p);
            point_role = 0;
            Tree t;
            if (!v) { a.t("kind", "none").t("r", "ok"); return; }     // neither a tree nor an error
            try { t = pool_tree(v, !fake_keys); } catch (std::exception &) { a.t("kind", "unusable").t("r", "ok"); return; }
            a.t("kind", "tree").h("seed", t.seed).h("ext", t.ext).h("pk", t.pk).i("idx", t.idx).i("height", t.height);
            if (!fake_keys) a.h("sk", t.sk).h("sig", t.sig);
        } catch (std::exception &) { a = J(); a.t("kind", "error"); }
    } else if (what == "cur") a.t("kind", "cur").t("cur", le8(pool_cur(p)));
    else if (what == "avail") a.t("kind", "avail").b("v", pool_avail(p));
    else if (what == "lag") {                  // do queries come back at once?  (the best of twelve)
        bool slow = true;
        for (int k = 0; k < 12 && slow; k++) { auto t0 = Clock::now(); pool_avail(p); pool_cur(p); slow = Clock::now() - t0 > std::chrono::milliseconds(40); }
        a.t("kind", "lag").b("slow", slow);
    } else if (what == "poll") {                 // until available, at most 15 s
        bool v = false;
        for (auto t0 = Clock::now(); !(v = pool_avail(p)) && Clock::now() - t0 < std::chrono::seconds(15);) usleep(500);
        a.t("kind", "poll").b("v", v);
    } else if (what == "free") {
        pool_free(p);
        std::lock_guard<std::mutex> l(mu);
        a.t("kind", "free").i("inside", G.inside);
    } else throw std::logic_error("what");
    a.t("r", "ok");
}
static void body(int t) {
    std::unique_lock<std::mutex> l(mu);
    Worker &w = W[t];
    for (;;) {
        cv.wait(l, [&] { return !w.q.empty(); });
        std::string what = w.q.front(); w.q.pop_front();
        if (what == "quit") return;
        w.busy = true;
        J b; b.t("op", "pb").i("t", t).t("what", what).raw("a", "{\"r\":\"ok\"}");
        lg(b.end());
        void *p = pool;
        l.unlock();
        J a;
        point_role = t;
        try { answer(a, what, p); } catch (std::exception &) { a = J(); a.t("kind", "error").t("r", "err"); }
        point_role = 0;
        l.lock();
        if (what == "free") pool = nullptr;
        J e; e.t("op", "pe").i("t", t).t("what", what).raw("a", a.end());
        w.busy = false;
        lg(e.end());
    }
}
static void flush(J &j) {
    std::lock_guard<std::mutex> l(mu);
    std::string o = "[";
    for (size_t i = 0; i < logv.size(); i++) { if (i) o += ","; o += logv[i]; }
    logv.clear();
    j.raw("log", o + "]");
}
static void go(int t, const std::string &what) {
    std::lock_guard<std::mutex> l(mu);
    Worker &w = W[t];
    w.q.push_back(what);
    if (!w.th.joinable()) w.th = std::thread(body, t);
    cv.notify_all();
}
static bool idle() { for (auto &p : W) if (p.second.busy || !p.second.q.empty()) return false; return true; }
// does the gate see the builds of this library?  (it may derive its seeds in a way the gate does not know)
static void probe() {
    static bool done = false;
    if (done) return;
    done = true;
    bool f = fake_keys; fake_keys = true;
    B sd(48, 0x33);
    gate_table(sd, 0, 4);
    std::atomic<int> n{0}, bad{0};
    gate_hook = [&](int k) { n++; if (k > 1) bad++; };
    void *p = pool_new(sd, 4, 0, 1);
    pool_next(p);
    pool_free(p);
    gate_works = n == 2 && !bad;
    gate_hook = gate;
    fake_keys = f;
}
// pnew p seed height start size closed
OP(pnew) {
    probe();
    std::vector<std::string> v;
    B sd = unhex(a[2]);
    { std::lock_guard<std::mutex> l(mu); G = Gate(); G.closed = a.size() > 6 && num(a[6]) && gate_works; gate_table(sd, num(a[4]), 48); }
    bool ok = true;
    try { pool = pool_new(sd, (unsigned char)num(a[3]), (size_t)num(a[4]), (size_t)num(a[5])); } catch (std::exception &) { ok = false; }
    j.b("done", ok).b("closed", G.closed).b("fake", fake_keys).b("gate", gate_works).t("startle", le8(num(a[4])));
}
OP(pgo) { go((int)num(a[1]), a[2]); flush(j); }
OP(popen) {
    { std::lock_guard<std::mutex> l(mu);
      if (a[1] == "all") { G.closed = false; lg("{\"op\":\"gopen\",\"k\":-1,\"a\":{\"r\":\"ok\"}}"); }
      else { G.open.insert(num(a[1])); J e; e.t("op", "gopen").i("k", num(a[1])).raw("a", "{\"r\":\"ok\"}"); lg(e.end()); } }
    flush(j);
}
OP(pfail) { std::lock_guard<std::mutex> l(mu); G.fail.insert(num(a[1])); }
// wait until nothing has happened for some milliseconds (calls that wait for a gate stay where they are)
OP(psettle) {
    uint64_t last = ~0ull; auto t = Clock::now();
    for (;;) {
        { std::unique_lock<std::mutex> l(mu); if (activity != last) { last = activity; t = Clock::now(); } if (idle() && Clock::now() - t > std::chrono::milliseconds(3)) break; }
        if (Clock::now() - t > std::chrono::milliseconds(a.size() > 1 ? num(a[1]) : 25)) break;
        usleep(500);
    }
    flush(j);
}
static void wait_for(const std::function<bool()> &f, J &j, int ms) {
    bool ok;
    { std::unique_lock<std::mutex> l(mu); ok = cv.wait_for(l, std::chrono::milliseconds(ms), f); }
    flush(j);
    if (!ok) { j.b("stuck", true); stop_now() = true; }
}
// all calls return / the given worker's calls return (queries must, whatever is being built)
OP(pjoin) {
    int ms = 30000;
    if (a.size() > 1) { int t = (int)num(a[1]); wait_for([t] { return !W[t].busy && W[t].q.empty(); }, j, 10000); }
    else wait_for(idle, j, ms);
}
OP(fast) { probe(); fake_keys = num(a[1]) && wrap_seen; build_delay_us = a.size() > 2 ? num(a[2]) : 0; }
#ifdef POOL_EXPLORE
#include "poolexplore.h"
#endif
int main() { int r = main_loop(); fflush(nullptr); _exit(r); }
