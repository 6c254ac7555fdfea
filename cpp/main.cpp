#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <chrono>
#include <fstream>
#include <iostream>

#include "customs.hpp"
#include "engine.hpp"
#include "scenarios.hpp"

using namespace vp;

static std::string jesc(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\', r += c;
        else if (c == '\n') r += "\\n";
        else if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r + "\"";
}

static Bounds bounds_for(unsigned mask, int tier, const Scenario& s) {
    Bounds b;
    if (s.large) {
        b.root_batch = 2; b.max_states = s.weight < 0 ? (tier ? 500 : 40) : tier ? 60 : 16; b.plain_depth = tier ? 3 : 2; b.max_combos = 2; b.max_pairs = tier ? 100000 : 200;
    } else if (s.weight < 0) { b.root_batch = 2; b.max_states = tier ? 5000 : 400; b.plain_depth = tier ? 3 : 2; b.max_combos = 8; }
    else if (tier == 0) {
        if (s.weight == 0) { b.root_batch = 2; b.max_states = 150; b.plain_depth = 2; b.max_combos = 4; }
        else if (s.weight == 1) { b.root_batch = 2; b.max_states = 100; b.plain_depth = 2; b.max_combos = 2; }
        else { b.root_batch = 1; b.max_states = 12; b.plain_depth = 1; b.max_combos = 2; }
    } else {
        if (s.weight == 0) { b.root_batch = 2; b.max_states = 5000; b.plain_depth = 3; b.max_combos = 8; }
        else if (s.weight == 1) { b.root_batch = 2; b.max_states = 2000; b.plain_depth = 3; b.max_combos = 8; }
        else { b.root_batch = 2; b.max_states = 40; b.plain_depth = 2; b.max_combos = 2; }
    }
    if (tier) b.max_pairs = 1000000;
    b.rejected_then = (mask & C02) && s.weight <= 1;
    return b;
}

// processor time a child has used, in seconds
static double cpu_of(pid_t pid) {
    std::ifstream f("/proc/" + std::to_string(pid) + "/stat");
    std::string line;
    std::getline(f, line);
    size_t at = line.rfind(')');
    if (at == std::string::npos) return 0;
    std::istringstream is(line.substr(at + 1));
    std::string x;
    for (int i = 0; i < 11; ++i) is >> x;
    double u = 0, k = 0;
    is >> u >> k;
    return (u + k) / sysconf(_SC_CLK_TCK);
}

int main(int argc, char** argv) {
    std::string prop = "ALL", tier = "quick", out, only, hist;
    int jobs = 8, wmax = 9, wmin = -1;
    double hang = 150, budget = 1e9;
    bool list = false, use_customs = true, use_scenarios = true, first = false;
    std::string skip;
    size_t max_fails = 3;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--prop") prop = nx();
        else if (a == "--tier") tier = nx();
        else if (a == "--out") out = nx();
        else if (a == "--only") only = nx();
        else if (a == "--jobs") jobs = std::stoi(nx());
        else if (a == "--wmax") wmax = std::stoi(nx());
        else if (a == "--wmin") wmin = std::stoi(nx());
        else if (a == "--hang") hang = std::stod(nx());
        else if (a == "--budget") budget = std::stod(nx());
        else if (a == "--history") hist = nx();
        else if (a == "--max-fails") max_fails = std::stoi(nx());
        else if (a == "--list") list = true;
        else if (a == "--skip") skip = nx();
        else if (a == "--first") first = true;  // stop at the first violation
        else if (a == "--no-customs") use_customs = false;
        else if (a == "--customs-only") use_scenarios = false;
        else { std::cerr << "bad arg " << a << "\n"; return 2; }
    }
    int T = tier == "quick" ? 0 : 1;
    unsigned mask = prop_of(prop);
    auto reg = registry(T);
    auto cus = customs(T);
    if (list) {
        for (auto& c : cus) std::cout << c.name << "\n";
        for (auto& s : reg) std::cout << s.name << "\n";
        return 0;
    }
    if (!hist.empty()) {  // replay one history verbosely, in this process
        for (auto& cu : cus)
            if (cu.name == only) {
                Ctx c;
                c.tier = T;
                cu.run(c);
                for (auto& f : c.fails) std::cout << prop_name(f.prop) << " " << f.kind << " at " << f.rec << ": " << f.detail << "\n    " << f.history << "\n";
                return c.fails.empty() ? 0 : 1;
            }
        for (auto& s : reg)
            if (s.name == only) {
                Model m;
                m.lean = T ? 1 : 1;
                s.build(m);
                Engine e(m, mask, bounds_for(mask, T, s), nullptr);
                e.verbose = true;
                if (hist.rfind("assign:", 0) == 0 || hist.find("|init") != std::string::npos) { e.explore_assignments(20000); e.explore(); return e.fails.empty() ? 0 : 1; }
                auto [start, steps] = parse_history(hist);
                Vals committed;
                State st = e.replay(start, {}, committed);
                std::cout << "start:";
                for (size_t i = 0; i < m.decs.size(); ++i) std::cout << " " << m.decs[i].desc << "=" << str(e.starts[start][i]);
                std::cout << "\n";
                std::vector<Step> done;
                for (auto& t : steps) {
                    std::cout << (t.accept ? "accept" : "reject") << " (variant " << t.variant << "):";
                    for (int id : t.moves) std::cout << " " << e.move_name(id);
                    std::cout << "\n";
                    done.push_back(t);
                    e.step(st, t, committed, str(start, done));
                }
                for (auto& f : e.fails) std::cout << prop_name(f.prop) << " " << f.kind << " at " << f.rec << ": " << f.detail << "\n";
                return e.fails.empty() ? 0 : 1;
            }
        std::cerr << "no such scenario\n";
        return 2;
    }
    // what to run: histories of the registered scenarios, then the custom explorations of this property
    struct Job { std::string name; Scenario* s = nullptr; Custom* c = nullptr; };
    std::vector<Job> todo;
    auto wanted = [&](const std::string& n) {
        if (!only.empty() && n.find(only) == std::string::npos) return false;
        return skip.empty() || n.find(skip) == std::string::npos;
    };
    if (use_customs)
        for (auto& c : cus)
            if ((c.props & mask) && wanted(c.name)) todo.push_back({c.name, nullptr, &c});
    if (use_scenarios)
        for (auto& s : reg)
            if (wanted(s.name) && s.weight <= wmax && s.weight >= wmin) todo.push_back({s.name, &s, nullptr});

    struct Slot { Shared sh; };
    Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct Child { pid_t pid; int slot; size_t idx; int fd; double t0; double seen_at; double cpu_at = 0; long seen = -1; std::string buf; int killed = 0; };
    std::vector<Child> run;
    std::vector<bool> used(jobs, false);
    auto now = [] { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); };
    std::ofstream of(out.empty() ? "/dev/stdout" : out);
    size_t next = 0;
    long done = 0, nfail = 0;
    long tot_states = 0, tot_trans = 0, tot_evals = 0, tot_nodes = 0, tot_hist = 0, empty = 0, cut = 0, nsamples = 0;
    double t_start = now();
    // longest-first is not known; the registry order puts the big ones first
    while (next < todo.size() || !run.empty()) {
        if (first && nfail) {
            for (auto& r : run) kill(r.pid, SIGKILL), waitpid(r.pid, nullptr, 0);
            break;
        }
        if (next < todo.size() && now() - t_start > budget) {  // out of time: the rest is reported as not covered
            cut += todo.size() - next;
            next = todo.size();
        }
        while (next < todo.size() && (int)run.size() < jobs) {
            int sl = 0;
            while (used[sl]) ++sl;
            used[sl] = true;
            memset((void*)&slots[sl], 0, sizeof(Slot));
            int fds[2];
            if (pipe(fds)) return 2;
            of.flush();
            pid_t pid = fork();
            if (pid == 0) {
                close(fds[0]);
                dup2(fds[1], 1);
                std::ostringstream o;
                int rc = 0;
                try {
                    strcpy((char*)slots[sl].sh.hist, "build");
                    Model m;
                    if (todo[next].s) todo[next].s->build(m);
                    if (todo[next].c) {
                        Ctx c;
                        c.tier = T;
                        c.sh = &slots[sl].sh;
                        todo[next].c->run(c);
                        for (auto& f : c.fails) o << "F\t" << prop_name(f.prop) << "\t" << f.kind << "\t" << f.rec << "\t" << f.detail << "\t" << f.history << "\n";
                        o << "S\t" << c.st.states << "\t" << c.st.transitions << "\t" << c.st.evals << "\t0\t" << c.st.histories << "\t" << c.cur << "\n";
                    } else if (!m.recs.empty()) {
                        Scenario& s = *todo[next].s;
                        Engine e(m, mask, bounds_for(mask, T, s), &slots[sl].sh);
                        e.max_fails = max_fails;
                        if (mask & (C04 | C05 | C15 | C16 | C13)) e.explore_assignments(s.weight == 2 ? (T ? 2000 : 300) : 5000);
                        e.explore();
                        for (auto& f : e.fails) o << "F\t" << prop_name(f.prop) << "\t" << f.kind << "\t" << f.rec << "\t" << f.detail << "\t" << f.history << "\n";
                        o << "S\t" << e.st.states << "\t" << e.st.transitions << "\t" << e.st.evals << "\t" << m.recs.size() << "\t" << e.st.histories << "\t" << e.describe(e.cur) << "\n";
                    } else o << "E\n";
                } catch (const std::exception& ex) {
                    o << "F\t" << prop << "\texception\t\tunexpected exception: " << ex.what() << "\t" << (char*)slots[sl].sh.hist << "\n";
                }
                std::string t = o.str();
                size_t off = 0;
                while (off < t.size()) {
                    ssize_t w = write(1, t.data() + off, t.size() - off);
                    if (w <= 0) break;
                    off += w;
                }
                _exit(rc);
            }
            close(fds[1]);
            run.push_back({pid, sl, next, fds[0], now(), now(), 0});
            ++next;
        }
        // poll
        bool progress = false;
        for (size_t i = 0; i < run.size(); ++i) {
            int status;
            pid_t p = waitpid(run[i].pid, &status, WNOHANG);
            if (p == 0) {
                // no step finished for a long time: the code under test hangs
                long seen = slots[run[i].slot].sh.transitions + slots[run[i].slot].sh.states;
                if (seen != run[i].seen) run[i].seen = seen, run[i].seen_at = now(), run[i].cpu_at = cpu_of(run[i].pid);
                // (its own processor time counts, so that a busy machine is not mistaken for a hang; waiting for ever is one too)
                double idle = now() - run[i].seen_at;
                int why = idle > hang && (idle > 3 * hang || cpu_of(run[i].pid) - run[i].cpu_at > 0.8 * hang) ? 1 : now() - t_start > budget + 30 ? 2 : 0;
                if (why && !run[i].killed) {
                    run[i].killed = why;
                    kill(run[i].pid, SIGKILL);
                }
                continue;
            }
            progress = true;
            Child c = run[i];
            run.erase(run.begin() + i);
            used[c.slot] = false;
            char buf[65536];
            ssize_t r;
            while ((r = read(c.fd, buf, sizeof buf)) > 0) c.buf.append(buf, r);
            close(c.fd);
            Shared& sh = slots[c.slot].sh;
            const std::string& name = todo[c.idx].name;
            ++done;
            std::istringstream is(c.buf);
            std::string line;
            bool fin = false;
            while (std::getline(is, line)) {
                std::vector<std::string> f;
                std::stringstream ls(line);
                std::string x;
                while (std::getline(ls, x, '\t')) f.push_back(x);
                if (f[0] == "F") {
                    ++nfail;
                    f.resize(6);
                    of << "{\"fail\":true,\"prop\":" << jesc(f[1]) << ",\"kind\":" << jesc(f[2]) << ",\"rec\":" << jesc(f[3]) << ",\"detail\":" << jesc(f[4])
                       << ",\"history\":" << jesc(f[5]) << ",\"scenario\":" << jesc(name) << "}\n";
                } else if (f[0] == "S") {
                    fin = true;
                    tot_states += std::stol(f[1]);
                    tot_trans += std::stol(f[2]);
                    tot_evals += std::stol(f[3]);
                    tot_nodes += std::stol(f[4]);
                    tot_hist += std::stol(f[5]);
                    if (f.size() > 6 && (done % std::max<size_t>(1, todo.size() / 6) == 0) && nsamples < 8) {
                        ++nsamples;
                        of << "{\"sample\":true,\"scenario\":" << jesc(name) << ",\"symbols\":" << f[4] << ",\"last_history\":" << jesc(f[6]) << "}\n";
                    }
                    if (getenv("VP_TIMES")) fprintf(stderr, "%7.2fs %s nodes=%s trans=%s\n", now() - c.t0, name.c_str(), f[4].c_str(), f[2].c_str());
                } else if (f[0] == "E") { fin = true; ++empty; }
            }
            if (!fin && c.buf.empty() && c.killed == 2) {
                ++cut;
            } else if (!fin && c.buf.empty()) {
                ++nfail;
                std::string h((char*)sh.hist);
                of << "{\"fail\":true,\"prop\":" << jesc(prop) << ",\"kind\":" << (c.killed ? "\"hang\"" : "\"crash\"") << ",\"rec\":\"\",\"detail\":"
                   << jesc("the process " + std::string(c.killed ? "made no progress" : "died") + " (status " + std::to_string(status) + ")") << ",\"history\":" << jesc(h)
                   << ",\"scenario\":" << jesc(name) << "}\n";
            }
            --i;
        }
        if (!progress) {
            timespec ts{0, 2000000};
            nanosleep(&ts, nullptr);
        }
    }
    of << "{\"summary\":true,\"scenarios\":" << done - empty << ",\"inapplicable\":" << empty << ",\"states\":" << tot_states << ",\"transitions\":" << tot_trans << ",\"evaluations\":" << tot_evals
       << ",\"nodes\":" << tot_nodes << ",\"histories\":" << tot_hist << ",\"not_covered\":" << cut << ",\"failures\":" << nfail << ",\"wall\":" << now() - t_start << "}\n";
    return 0;
}
