// Exploration of interleavings: the same calls again and again, with workers parked at chosen points.
// pexplore seed height start size plan preemptions maxruns rng [fail...]
//   plan: calls of worker 1, 2, ... e.g. next,next;next,cur;avail
//   preemptions 1: every worker parked once at every point (up to maxruns); 2: two workers, random points; 3: three
// Every history that differs from the earlier ones is logged, beginning with its pnew event.
#include <random>
#include <set>
extern int park_at[8], points_seen[8];
extern int park_quiet[8];
OP(pexplore) {
    probe();
    std::vector<std::vector<std::string>> plan;
    { std::istringstream is(a[5]); std::string w;
      while (std::getline(is, w, ';')) { plan.emplace_back(); std::istringstream ws(w); std::string c; while (std::getline(ws, c, ',')) plan.back().push_back(c); } }
    int n = (int)plan.size(), pre = (int)num(a[6]), maxruns = (int)num(a[7]);
    std::mt19937 rng((unsigned)num(a[8]));
    B sd = unhex(a[1]);
    gate_table(sd, num(a[3]), 48);
    std::set<std::string> seen;
    std::string out;
    int runs = 0, maxpts[8] = {0};
    auto t0 = Clock::now();                                               // real keys are slow: then the time is limited
    auto run = [&](const std::vector<std::pair<int, int>> &parks) {       // false: some call did not return
        if (!fake_keys && runs && Clock::now() - t0 > std::chrono::milliseconds(1500)) return false;
        runs++;
        { std::lock_guard<std::mutex> l(mu);
          G = Gate(); logv.clear();
          for (size_t k = 9; k < a.size(); k++) G.fail.insert((int)num(a[k])); }
        for (int i = 0; i < 8; i++) park_at[i] = points_seen[i] = 0;
        int q = 6;
        for (auto &p : parks) { park_at[p.first] = p.second; park_quiet[p.first] = q; q += 8; }
        J e, ea; bool ok = true;
        try { pool = pool_new(sd, (unsigned char)num(a[2]), (size_t)num(a[3]), (size_t)num(a[4])); } catch (std::exception &) { ok = false; }
        ea.b("done", ok).b("closed", false).b("fake", fake_keys).b("gate", gate_works).t("startle", le8(num(a[3]))).t("r", "ok");
        e.t("op", "pnew").t("p", "p").t("seed", a[1]).i("height", num(a[2])).i("start", num(a[3])).i("size", num(a[4])).raw("a", ea.end());
        std::string first = e.end();
        if (!ok) { out += (out.empty() ? "" : ",") + first; return false; }
        std::vector<int> order;
        for (auto &p : parks) order.push_back(p.first);
        for (int w = 1; w <= n; w++) if (std::find(order.begin(), order.end(), w) == order.end()) order.push_back(w);
        bool done = true;
        for (size_t k = 0; k < order.size(); k++) {
            int w = order[k];
            { std::lock_guard<std::mutex> l(mu);
              for (auto &c : plan[w - 1]) W[w].q.push_back(c);
              if (!W[w].th.joinable()) W[w].th = std::thread(body, w);
              cv.notify_all(); }
            if (k < parks.size()) {                                       // until it is parked or through
                std::unique_lock<std::mutex> l(mu);
                for (int z = 0; z < 400 && points_seen[w] < park_at[w] && (W[w].busy || !W[w].q.empty()); z++) cv.wait_for(l, std::chrono::microseconds(50));
            }
        }
        { std::unique_lock<std::mutex> l(mu); done = cv.wait_for(l, std::chrono::milliseconds(15000), idle); }
        for (int w = 1; w <= n; w++) maxpts[w] = std::max(maxpts[w], points_seen[w]);
        std::string h = first;
        if (!done) {
            std::lock_guard<std::mutex> l(mu);
            for (auto &x : logv) h += "," + x;
            logv.clear();
            h += ",{\"op\":\"pjoin\",\"a\":{\"r\":\"ok\",\"stuck\":true}}";
            out += (out.empty() ? "" : ",") + h;
            stop_now() = true;
            return false;
        }
        pool_free(pool); pool = nullptr;
        std::lock_guard<std::mutex> l(mu);
        for (auto &x : logv) h += "," + x;
        logv.clear();
        if (seen.insert(h).second) out += (out.empty() ? "" : ",") + h;
        return true;
    };
    bool go_on = run({});
    if (pre == 1)
        for (int w = 1; w <= n && go_on; w++)
            for (int p = 1; p <= std::max(1, maxpts[w]) && go_on && runs < maxruns; p++) go_on = run({{w, p}});
    else
        while (go_on && runs < maxruns) {
            std::vector<int> ws;
            for (int w = 1; w <= n; w++) ws.push_back(w);
            std::shuffle(ws.begin(), ws.end(), rng);
            std::vector<std::pair<int, int>> parks;
            for (int k = 0; k < pre && k < n; k++) parks.push_back({ws[k], 1 + int(rng() % std::max(1, maxpts[ws[k]]))});
            go_on = run(parks);
        }
    std::string pts;
    for (int w = 1; w <= n; w++) pts += (w > 1 ? "," : "") + std::to_string(maxpts[w]);
    j.i("runs", runs).raw("points", "[" + pts + "]").raw("log", "[" + out + "]");
}
