// Driver: explore / replay / minimise / hash. The process that runs main() never calls the library; every
// simulated run happens in a fork of it.
#include "core.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <set>
#include <unordered_set>

namespace sim
{
    Ctx g;
    std::string scratch;
    volatile char* g_phase;

    static void write_all(int fd, const std::string& s)
    {
        size_t p = 0;
        while (p < s.size())
        {
            ssize_t n = ::write(fd, s.data() + p, s.size() - p);
            if (n <= 0) break;
            p += size_t(n);
        }
    }

    std::string hex64(uint64_t v)
    {
        char b[20];
        snprintf(b, sizeof b, "%016llx", (unsigned long long)v);
        return b;
    }

    void Ctx::finish(const std::string& status, const std::string& cls, const std::string& detail)
    {
        evhash = hash_str(status + "|" + cls, evhash);
        std::string r;
        r += "status " + status + "\n";
        r += "class " + oneline(cls) + "\n";
        r += "detail " + oneline(detail) + "\n";
        r += "evhash " + hex64(evhash) + "\n";
        r += "sighash " + hex64(sighash) + "\n";
        r += "events " + std::to_string(events) + "\n";
        for (auto& [k, v] : stats) r += "stat " + std::to_string(v) + " " + k + "\n";
        for (auto& a : aux) r += "aux " + a + "\n";
        for (auto& t : tracelog) r += "trace " + oneline(t) + "\n";
        r += "end\n";
        write_all(fd, r);
        _exit(0);
    }
    void Ctx::violate(const std::string& cls, const std::string& detail)
    {
        finish("viol", cls, detail);
        abort();
    }
    void Ctx::discard(const std::string& why)
    {
        finish("discard", why, "");
        abort();
    }

    std::string slurp(const std::string& path, bool* ok)
    {
        std::string r;
        FILE* f = fopen(path.c_str(), "rb");
        if (ok) *ok = f != nullptr;
        if (!f) return r;
        char b[8192];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
        fclose(f);
        return r;
    }
    void spill(const std::string& path, const std::string& data)
    {
        FILE* f = fopen(path.c_str(), "wb");
        if (!f) return;
        fwrite(data.data(), 1, data.size(), f);
        fclose(f);
    }

    void make_dirs()
    {
        mkdir((scratch + "/sub").c_str(), 0700);
        mkdir((scratch + "/sub.txt").c_str(), 0700);
    }
    int open_files()
    {
        DIR* d = opendir("/proc/self/fd");
        if (!d) return 0;
        int n = 0;
        while (readdir(d)) ++n;
        closedir(d);
        return n;
    }
    static void clear_dir(const std::string& scratch)
    {
        DIR* d = opendir(scratch.c_str());
        if (!d) return;
        while (auto* e = readdir(d))
        {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            if (unlink((scratch + "/" + n).c_str()) != 0 && (n == "sub" || n == "sub.txt")) clear_dir(scratch + "/" + n);
        }
        closedir(d);
    }
    void clear_scratch() { clear_dir(scratch); }

    static std::string normalise(std::string s)
    {
        std::string r;
        for (size_t i = 0; i < s.size();)
        {
            if (s[i] == '0' && i + 1 < s.size() && s[i + 1] == 'x')
            {
                r += "0x";
                i += 2;
                while (i < s.size() && isxdigit((unsigned char)s[i])) ++i;
            }
            else if (s.compare(i, 2, "==") == 0)
            {
                i += 2;
                while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
                if (s.compare(i, 2, "==") == 0) i += 2;
            }
            else r += s[i++];
        }
        return r;
    }

    static std::string describe_end(int status, const std::string& err)
    {
        auto pick = [&](const char* key) -> std::string
        {
            auto p = err.find(key);
            if (p == std::string::npos) return "";
            auto b = err.rfind('\n', p);
            b = b == std::string::npos ? 0 : b + 1;
            auto e = err.find('\n', p);
            return normalise(err.substr(b, e == std::string::npos ? std::string::npos : e - b));
        };
        if (auto s = pick("ERROR: AddressSanitizer:"); !s.empty())
        {
            auto p = s.find("AddressSanitizer: ");
            auto w = s.substr(p + 18);
            return "asan " + w.substr(0, w.find(' ')) + " | " + s;
        }
        if (auto s = pick("runtime error:"); !s.empty()) return "ubsan | " + s;
        if (auto s = pick("Assertion"); !s.empty()) return "assertion | " + s;
        if (auto s = pick("terminating"); !s.empty()) return "terminate | " + s;
        if (WIFSIGNALED(status))
        {
            int sg = WTERMSIG(status);
            if (sg == SIGXCPU || sg == SIGKILL) return "hang | cpu limit";
            if (sg == SIGALRM) return "stuck | no progress";
            return "signal " + std::to_string(sg) + " | " + strsignal(sg);
        }
        return "exit " + std::to_string(WEXITSTATUS(status)) + " | unexpected exit";
    }

    static int memfile(const char* n)
    {
        return memfd_create(n, MFD_CLOEXEC);
    }
    static std::string memread(int fd)
    {
        std::string r;
        char b[4096];
        off_t o = 0;
        ssize_t n;
        while ((n = pread(fd, b, sizeof b, o)) > 0)
        {
            r.append(b, size_t(n));
            o += n;
            if (r.size() > 65536) break;
        }
        return r;
    }

    static void set_limits(int cpu)
    {
        rlimit rl{rlim_t(cpu), rlim_t(cpu + 1)};
        setrlimit(RLIMIT_CPU, &rl);
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        signal(SIGPIPE, SIG_IGN);
        alarm(180);
    }

    ForkResult in_fork(const std::function<std::string()>& f, int cpu)
    {
        ForkResult r;
        int p[2];
        if (pipe2(p, O_CLOEXEC) != 0) abort();
        int err = memfile("err");
        fflush(stdout);
        pid_t pid = fork();
        if (pid < 0) abort();
        if (pid == 0)
        {
            ::close(p[0]);
            dup2(err, 2);
            set_limits(cpu);
            std::string d = f();
            d += "E";
            write_all(p[1], d);
            _exit(0);
        }
        ::close(p[1]);
        char b[65536];
        ssize_t n;
        while ((n = ::read(p[0], b, sizeof b)) > 0) r.data.append(b, size_t(n));
        ::close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !r.data.empty() && r.data.back() == 'E') r.data.pop_back();
        else
        {
            r.crashed = true;
            r.exit_code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
            r.how = describe_end(st, memread(err));
        }
        ::close(err);
        return r;
    }

    static Outcome run_plan(const Prop& prop, const Plan& plan, bool trace)
    {
        Outcome o;
        clear_scratch();
        *g_phase = 0;
        int p[2];
        if (pipe2(p, O_CLOEXEC) != 0) abort();
        int err = memfile("err");
        pid_t pid = fork();
        if (pid < 0) abort();
        if (pid == 0)
        {
            ::close(p[0]);
            dup2(err, 2);
            set_limits(40);
            if (chdir(scratch.c_str()) != 0) abort();
            g = Ctx{};
            g.fd = p[1];
            g.trace = trace;
            prop.exec(plan);
            g.finish("ok", "", "");
        }
        ::close(p[1]);
        std::string d;
        char b[65536];
        ssize_t n;
        while ((n = ::read(p[0], b, sizeof b)) > 0) d.append(b, size_t(n));
        ::close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (d.size() >= 4 && d.compare(d.size() - 4, 4, "end\n") == 0)
        {
            size_t q = 0;
            while (q < d.size())
            {
                size_t e = d.find('\n', q);
                std::string l = d.substr(q, e - q);
                q = e + 1;
                auto sp = l.find(' ');
                std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
                if (k == "status") o.status = v;
                else if (k == "class") o.cls = v;
                else if (k == "detail") o.detail = v;
                else if (k == "evhash") o.evhash = strtoull(v.c_str(), nullptr, 16);
                else if (k == "sighash") o.sighash = strtoull(v.c_str(), nullptr, 16);
                else if (k == "events") o.events = strtoull(v.c_str(), nullptr, 10);
                else if (k == "stat")
                {
                    auto s2 = v.find(' ');
                    o.stats[v.substr(s2 + 1)] = strtoull(v.c_str(), nullptr, 10);
                }
                else if (k == "aux") o.aux.push_back(v);
                else if (k == "trace") o.trace.push_back(v);
            }
        }
        else
        {
            std::string how = describe_end(st, memread(err));
            auto bar = how.find(" | ");
            o.status = *g_phase == 'u' ? "discard" : "viol";
            o.cls = "crash " + how.substr(0, bar);
            o.detail = oneline(how.substr(bar + 3));
            o.evhash = hash_str(o.cls);
            o.events = 1;
        }
        ::close(err);
        return o;
    }

    static Plan make_plan(const Prop& prop, uint64_t seed, uint64_t run)
    {
        Rng r(mix(seed * 0x100000001b3ull ^ hash_str(prop.id) ^ mix(run)));
        Plan p = prop.gen(r, run);
        p.prop = prop.id;
        p.seed = seed;
        p.run = run;
        return p;
    }

    // Shrinks a violating plan: drop steps, drop attributes, shrink integers, while the violation class stays.
    static Plan minimise(const Prop& prop, Plan p, const std::string& cls, int budget, int& used)
    {
        const time_t until = time(nullptr) + 60;
        auto still = [&](const Plan& c)
        {
            if (time(nullptr) >= until) used = budget;
            if (used >= budget) return false;
            ++used;
            auto o = run_plan(prop, c, false);
            return o.violated() && o.cls == cls;
        };
        // schedules chosen by a seeded strategy become an explicit list of switches first
        {
            auto o = run_plan(prop, p, false);
            ++used;
            if (!o.aux.empty())
            {
                Plan c = p;
                c.steps.erase(std::remove_if(c.steps.begin(), c.steps.end(), [](const Step& s) { return s.op == "sched"; }),
                              c.steps.end());
                for (auto& a : o.aux) c.steps.push_back(Step::parse(a));
                if (still(c)) p = c;
            }
        }
        bool changed = true;
        int rounds = 0;
        while (changed && used < budget && rounds++ < 6)
        {
            changed = false;
            // drop blocks of steps
            for (size_t len = p.steps.size() / 2 + 1; len >= 1; len /= 2)
            {
                for (size_t at = 0; at + len <= p.steps.size() && used < budget;)
                {
                    Plan c = p;
                    c.steps.erase(c.steps.begin() + at, c.steps.begin() + at + len);
                    if (!c.steps.empty() && still(c))
                    {
                        p = c;
                        changed = true;
                    }
                    else at += len;
                }
            }
            for (size_t i = 0; i < p.steps.size() && used < budget; ++i)
                for (size_t k = 0; k < p.steps[i].kv.size() && used < budget; ++k)
                {
                    if (p.steps[i].op == "pre" || p.steps[i].op == "sched") continue;
                    auto& val = p.steps[i].kv[k].second;
                    char* end = nullptr;
                    long long v = strtoll(val.c_str(), &end, 10);
                    if (end == val.c_str() || *end)
                    {
                        // a word: try without the attribute
                        Plan c = p;
                        c.steps[i].kv.erase(c.steps[i].kv.begin() + k);
                        if (still(c))
                        {
                            p = c;
                            changed = true;
                            --k;
                        }
                        continue;
                    }
                    for (long long t : {0ll, 1ll, v / 2, v - v / 4, v - 1})
                    {
                        if (t == v || (t < 0) != (v < 0) && t != 0) continue;
                        if (llabs(t) >= llabs(v)) continue;
                        Plan c = p;
                        c.steps[i].kv[k].second = std::to_string(t);
                        if (still(c))
                        {
                            p = c;
                            changed = true;
                            break;
                        }
                    }
                }
        }
        return p;
    }

    static double now()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
    }
}

using namespace sim;

static std::map<std::string, std::string> args;
static std::string arg(const std::string& k, const std::string& d = "") { return args.count(k) ? args[k] : d; }

int main(int argc, char** argv)
{
    // the same addresses in every execution
    if (!getenv("SIM_NOASLR"))
    {
        int old = personality(0xffffffff);
        setenv("SIM_NOASLR", "1", 1);
        if (old >= 0 && !(old & ADDR_NO_RANDOMIZE) && personality(unsigned(old) | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) args[argv[i]] = argv[i + 1];
    scratch = arg("--scratch", "/tmp");
    g_phase = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (mode == "explore" || mode == "hash")
    {
        const Prop* prop = find_prop(arg("--prop"));
        if (!prop) return 3;
        uint64_t seed = strtoull(arg("--seed", "1").c_str(), nullptr, 10);
        uint64_t from = strtoull(arg("--from", "0").c_str(), nullptr, 10);
        uint64_t to = strtoull(arg("--to", "100").c_str(), nullptr, 10);
        uint64_t stride = strtoull(arg("--stride", "1").c_str(), nullptr, 10);
        double wall = atof(arg("--wall", "1e9").c_str());
        std::set<std::string> ignore;
        {
            std::string l = arg("--ignore");
            size_t p = 0;
            while (p < l.size())
            {
                auto q = l.find(';', p);
                if (q == std::string::npos) q = l.size();
                ignore.insert(l.substr(p, q - p));
                p = q + 1;
            }
        }
        double t0 = now();
        std::map<std::string, uint64_t> stats;
        std::unordered_set<uint64_t> sigs;
        uint64_t done = 0, events = 0, discards = 0, nontrivial = 0;
        FILE* out = fopen(arg("--out", "/dev/stdout").c_str(), "w");
        if (!out) return 3;
        int samples = 0;
        for (uint64_t run = from; run < to; run += stride)
        {
            if (now() - t0 > wall) break;
            Plan p = make_plan(*prop, seed, run);
            Outcome o = run_plan(*prop, p, false);
            ++done;
            events += o.events;
            for (auto& [k, v] : o.stats) stats[k] += v;
            if (mode == "hash") fprintf(out, "%llu %s %s\n", (unsigned long long)run, hex64(o.evhash).c_str(), o.status.c_str());
            if (o.status == "discard")
            {
                ++discards;
                ++stats["discarded: " + o.cls];
                continue;
            }
            if (o.events > 0)
            {
                ++nontrivial;
                sigs.insert(o.sighash);
            }
            if (o.violated())
            {
                if (ignore.count(o.cls))
                {
                    fprintf(out, "known %s\n", o.cls.c_str());
                    continue;
                }
                if (mode == "explore")
                {
                    fprintf(out, "viol %llu %s | %s\n", (unsigned long long)run, o.cls.c_str(), o.detail.c_str());
                    if (arg("--go-on", "0") == "0") break;
                }
            }
            else if (samples < 2 && run >= 3 && mode == "explore" && p.text().size() < 3000)
            {
                ++samples;
                std::string t = p.text();
                for (auto& c : t)
                    if (c == '\n') c = ';';
                fprintf(out, "sample %s\n", t.c_str());
            }
        }
        if (mode == "explore")
        {
            fprintf(out, "runs %llu\nevents %llu\ndiscards %llu\nnontrivial %llu\n", (unsigned long long)done, (unsigned long long)events,
                    (unsigned long long)discards, (unsigned long long)nontrivial);
            for (auto& [k, v] : stats) fprintf(out, "stat %llu %s\n", (unsigned long long)v, k.c_str());
            for (auto s : sigs) fprintf(out, "sig %s\n", hex64(s).c_str());
            fprintf(out, "wall %.3f\n", now() - t0);
        }
        fprintf(out, "done\n");
        fclose(out);
        clear_scratch();
        return 0;
    }
    if (mode == "plan")
    {
        const Prop* prop = find_prop(arg("--prop"));
        if (!prop) return 3;
        fputs(make_plan(*prop, strtoull(arg("--seed", "1").c_str(), nullptr, 10), strtoull(arg("--run", "0").c_str(), nullptr, 10))
                  .text()
                  .c_str(),
              stdout);
        return 0;
    }
    if (mode == "replay" || mode == "min")
    {
        Plan p;
        if (!Plan::parse(slurp(arg("--file")), p)) return 3;
        const Prop* prop = find_prop(p.prop);
        if (!prop) return 3;
        if (mode == "min")
        {
            Outcome o = run_plan(*prop, p, false);
            if (!o.violated()) return 2;
            int used = 0;
            Plan m = minimise(*prop, p, o.cls, atoi(arg("--budget", "600").c_str()), used);
            Outcome o2 = run_plan(*prop, m, false);
            if (!o2.violated() || o2.cls != o.cls) m = p;
            spill(arg("--out"), m.text());
            printf("minimised %zu -> %zu steps with %d runs\n", p.steps.size(), m.steps.size(), used);
            clear_scratch();
            return 0;
        }
        Outcome o = run_plan(*prop, p, arg("--trace", "0") == "1");
        for (auto& t : o.trace) printf("trace %s\n", t.c_str());
        for (auto& [k, v] : o.stats)
            if (arg("--trace", "0") == "1") printf("stat %llu %s\n", (unsigned long long)v, k.c_str());
        printf("outcome %s | %s | %s | %s\n", o.status.c_str(), o.cls.c_str(), hex64(o.evhash).c_str(), o.detail.c_str());
        clear_scratch();
        return o.violated() ? 1 : o.status == "ok" ? 0 : 2;
    }
    fprintf(stderr, "usage: sim explore|hash|plan|replay|min ...\n");
    return 3;
}
