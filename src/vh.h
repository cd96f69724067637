// Common harness for the monitoring drivers: scenario registry, seeded case generation,
// violation recording, observation counters and crash attribution.
#pragma once
#include <fcntl.h>
#include <fmt/format.h>
#include <sys/mman.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <typeinfo>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ULL;
    }
    return mix(h);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    auto* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) {
        h = (h ^ c[i]) * 1099511628211ULL;
    }
    return h;
}

class Rng {
  public:
    explicit Rng(uint64_t seed = 1)
        : s_{mix(seed)} {}
    using result_type = uint64_t;
    static constexpr uint64_t min() { return 0; }
    static constexpr uint64_t max() { return ~uint64_t(0); }
    uint64_t operator()() {
        s_ += 0x9e3779b97f4a7c15ULL;
        uint64_t x = s_;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        return x ^ (x >> 31);
    }
    // uniform in [lo, hi]
    int64_t in(int64_t lo, int64_t hi) {
        return lo + static_cast<int64_t>((*this)() % (static_cast<uint64_t>(hi - lo) + 1));
    }
    size_t below(size_t n) { return n == 0 ? 0 : (*this)() % n; }
    bool chance(double p) { return uniform() < p; }
    double uniform() { return static_cast<double>((*this)() >> 11) * 0x1.0p-53; }
    double normal() {
        double u = 0;
        while (u <= 1e-300) {
            u = uniform();
        }
        return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * uniform());
    }
    template <typename C> const auto& pick(const C& c) { return c[below(c.size())]; }
    template <typename T> T one_of(std::initializer_list<T> l) {
        return *(l.begin() + below(l.size()));
    }
    template <typename C> void shuffle(C& c) {
        for (size_t i = c.size(); i > 1; --i) {
            std::swap(c[i - 1], c[below(i)]);
        }
    }

  private:
    uint64_t s_;
};

// What a crashed process leaves for the runner: scenario and case being run.
struct State {
    char scenario[96];
    uint64_t index;
    uint64_t ordinal;
    char step[288];
    std::atomic<uint64_t> progress;
};

struct Options {
    uint64_t seed = 1;
    std::string tier = "quick";
    double scale = 1.0;
    std::string only;     // comma separated scenario names (empty: all)
    std::string out;      // json result
    std::string state;    // mmapped state file
    std::string scratch = "/tmp";
    size_t shard = 0, nshards = 1;
    int64_t case_index = -1; // only this case
    size_t skip = 0;         // skip cases with ordinal < skip (after a crash)
    bool list = false;
    std::string props; // restrict to scenarios tagged with these properties
    bool verbose = false;
};

struct Violation {
    std::string scenario, key, msg;
    uint64_t index;
    uint64_t count = 1;
};

class Session {
  public:
    Options opt;
    State* st = nullptr;
    std::mutex m;
    std::vector<Violation> violations;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, std::pair<uint64_t, uint64_t>> scen; // cases, violations
    std::unordered_set<uint64_t> distinct;
    uint64_t evaluations = 0;
    std::vector<std::string> samples;
    std::map<std::string, int> sample_count;

    void write(bool finished) {
        if (opt.out.empty()) {
            return;
        }
        auto esc = [](const std::string& s) {
            std::string r;
            for (unsigned char c : s) {
                if (c == '"' || c == '\\') {
                    r += '\\';
                    r += static_cast<char>(c);
                } else if (c < 0x20 || c >= 0x7f) {
                    r += fmt::format("\\u{:04x}", c);
                } else {
                    r += static_cast<char>(c);
                }
            }
            return r;
        };
        auto tmp = opt.out + ".tmp";
        {
            std::ofstream o(tmp);
            o << "{\"finished\":" << (finished ? "true" : "false")
              << ",\"evaluations\":" << evaluations << ",\"violations\":[";
            for (size_t i = 0; i < violations.size(); ++i) {
                auto& v = violations[i];
                o << (i ? "," : "") << "{\"scenario\":\"" << esc(v.scenario) << "\",\"key\":\""
                  << esc(v.key) << "\",\"msg\":\"" << esc(v.msg) << "\",\"index\":" << v.index
                  << ",\"count\":" << v.count << "}";
            }
            o << "],\"counters\":{";
            bool f = true;
            for (auto& [k, v] : counters) {
                o << (f ? "" : ",") << "\"" << esc(k) << "\":" << v;
                f = false;
            }
            o << "},\"scenarios\":{";
            f = true;
            for (auto& [k, v] : scen) {
                o << (f ? "" : ",") << "\"" << esc(k) << "\":" << v.first;
                f = false;
            }
            o << "},\"distinct\":[";
            f = true;
            size_t n = 0;
            for (auto d : distinct) {
                if (++n > 200000) {
                    break;
                }
                o << (f ? "" : ",") << "\"" << fmt::format("{:x}", d) << "\"";
                f = false;
            }
            o << "],\"samples\":[";
            f = true;
            for (auto& s : samples) {
                o << (f ? "" : ",") << "\"" << esc(s) << "\"";
                f = false;
            }
            o << "]}";
        }
        std::rename(tmp.c_str(), opt.out.c_str());
    }
};
inline Session& session() {
    static Session s;
    return s;
}

class Case {
  public:
    Case(std::string scenario, uint64_t index)
        : rng(mix(session().opt.seed * 1000003 + index) ^ hash_str(scenario))
        , scenario_(std::move(scenario))
        , index_(index) {}
    Rng rng;
    bool failed = false;

    uint64_t index() const { return index_; }
    bool thorough() const { return session().opt.tier == "thorough"; }

    // Record a violation. `key` identifies the kind (stable); msg gives the witness.
    template <typename... A> void fail(const std::string& key, const char* f, A&&... a) {
        auto msg = fmt::format(fmt::runtime(f), std::forward<A>(a)...);
        auto& s = session();
        std::lock_guard g(s.m);
        failed = true;
        for (auto& v : s.violations) {
            if (v.scenario == scenario_ && v.key == key) {
                ++v.count;
                return;
            }
        }
        if (msg.size() > 1500) {
            msg.resize(1500);
        }
        s.violations.push_back({scenario_, key, msg, index_});
        if (s.opt.verbose) {
            fmt::print(stderr, "FAIL {}[{}] {}: {}\n", scenario_, index_, key, msg);
        }
        s.write(false);
    }
    template <typename... A>
    bool expect(bool ok, const std::string& key, const char* f, A&&... a) {
        if (!ok) {
            fail(key, f, std::forward<A>(a)...);
        }
        return ok;
    }
    // Mark the present case as a distinct non-trivial one.
    void distinct(uint64_t h) {
        auto& s = session();
        std::lock_guard g(s.m);
        s.distinct.insert(h ^ hash_str(scenario_));
    }
    void distinct(const std::string& d) { distinct(hash_str(d)); }
    void obs(const std::string& k, uint64_t n = 1) {
        auto& s = session();
        std::lock_guard g(s.m);
        s.counters[k] += n;
    }
    template <typename... A> void sample(const char* f, A&&... a) {
        auto& s = session();
        std::lock_guard g(s.m);
        if (s.sample_count[scenario_]++ < 2) {
            s.samples.push_back(
                scenario_ + "[" + std::to_string(index_) + "]: " +
                fmt::format(fmt::runtime(f), std::forward<A>(a)...)
            );
        }
    }
    // What is being done right now (for crash reports).
    template <typename... A> void step(const char* f, A&&... a) {
        auto& s = session();
        if (s.st) {
            auto m = fmt::format(fmt::runtime(f), std::forward<A>(a)...);
            std::strncpy(s.st->step, m.c_str(), sizeof(s.st->step) - 1);
            s.st->progress.fetch_add(1, std::memory_order_relaxed);
        }
    }
    // A directory of this case's own (removed afterwards).
    std::filesystem::path scratch() {
        if (dir_.empty()) {
            dir_ = std::filesystem::path(session().opt.scratch) /
                   fmt::format("vh_{}_{}_{}", ::getpid(), scenario_, index_);
            std::filesystem::create_directories(dir_);
        }
        return dir_;
    }
    ~Case() {
        if (!dir_.empty()) {
            std::error_code ec;
            std::filesystem::remove_all(dir_, ec);
        }
    }

  private:
    std::string scenario_;
    uint64_t index_;
    std::filesystem::path dir_;
};

struct Scenario {
    std::string name;
    std::string props; // properties it decides, space separated
    size_t quick, thorough;
    std::function<void(Case&)> fn;
};
inline std::vector<Scenario>& registry() {
    static std::vector<Scenario> r;
    return r;
}
struct Registrar {
    Registrar(const char* n, const char* p, size_t q, size_t t, std::function<void(Case&)> f) {
        registry().push_back({n, p, q, t, std::move(f)});
    }
};
#define VH_SCENARIO(id, props, quick, thorough)                                            \
    static void scen_##id(vh::Case& c);                                                   \
    static vh::Registrar reg_##id(#id, props, quick, thorough, &scen_##id);               \
    static void scen_##id([[maybe_unused]] vh::Case& c)

// Runs f, expecting an exception derived from std::exception. True when it threw.
template <typename F> bool throws(F&& f, std::string* what = nullptr) {
    try {
        f();
    } catch (const std::exception& e) {
        if (what) {
            *what = e.what();
        }
        return true;
    }
    return false;
}

inline bool word_in(const std::string& list, const std::string& w, char sep) {
    std::stringstream ss(list);
    std::string x;
    while (std::getline(ss, x, sep)) {
        if (x == w) {
            return true;
        }
    }
    return false;
}

inline int main(int argc, char** argv) {
    auto& s = session();
    auto& o = s.opt;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") {
            o.seed = std::stoull(val());
        } else if (a == "--tier") {
            o.tier = val();
        } else if (a == "--scale") {
            o.scale = std::stod(val());
        } else if (a == "--only") {
            o.only = val();
        } else if (a == "--props") {
            o.props = val();
        } else if (a == "--out") {
            o.out = val();
        } else if (a == "--state") {
            o.state = val();
        } else if (a == "--scratch") {
            o.scratch = val();
        } else if (a == "--shard") {
            auto v = val();
            o.shard = std::stoull(v.substr(0, v.find('/')));
            o.nshards = std::stoull(v.substr(v.find('/') + 1));
        } else if (a == "--case") {
            o.case_index = std::stoll(val());
        } else if (a == "--skip") {
            o.skip = std::stoull(val());
        } else if (a == "--list") {
            o.list = true;
        } else if (a == "-v") {
            o.verbose = true;
        } else {
            fmt::print(stderr, "unknown argument {}\n", a);
            return 3;
        }
    }
    if (o.list) {
        for (auto& r : registry()) {
            fmt::print("{} {} {} {}\n", r.name, r.quick, r.thorough, r.props);
        }
        return 0;
    }
    if (!o.state.empty()) {
        int fd = ::open(o.state.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ::ftruncate(fd, sizeof(State)) != 0) {
            return 3;
        }
        void* p = ::mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        ::close(fd);
        s.st = static_cast<State*>(p);
    }
    size_t ordinal = 0;
    bool ran = false;
    for (auto& r : registry()) {
        if (!o.only.empty() && !word_in(o.only, r.name, ',')) {
            continue;
        }
        if (!o.props.empty()) {
            bool hit = false;
            std::stringstream ss(r.props);
            std::string x;
            while (ss >> x) {
                hit |= word_in(o.props, x, ',');
            }
            if (!hit) {
                continue;
            }
        }
        size_t n = o.tier == "thorough" ? r.thorough : r.quick;
        n = std::max<size_t>(n ? 1 : 0, static_cast<size_t>(std::ceil(double(n) * o.scale)));
        auto t0 = std::chrono::steady_clock::now();
        for (size_t i = 0; i < n; ++i) {
            if (o.case_index >= 0 && static_cast<int64_t>(i) != o.case_index) {
                continue;
            }
            if (o.case_index < 0 && i % o.nshards != o.shard) {
                continue;
            }
            if (ordinal++ < o.skip) {
                continue;
            }
            if (s.st) {
                std::strncpy(s.st->scenario, r.name.c_str(), sizeof(s.st->scenario) - 1);
                s.st->scenario[std::min(r.name.size(), sizeof(s.st->scenario) - 1)] = 0;
                s.st->index = i;
                s.st->ordinal = ordinal - 1;
                s.st->step[0] = 0;
                s.st->progress.fetch_add(1);
            }
            ran = true;
            Case c(r.name, i);
            try {
                r.fn(c);
            } catch (const std::exception& e) {
                std::string w = e.what();
                // Drop line numbers and values so that the key is stable.
                std::string k;
                for (char ch : w.substr(0, 160)) {
                    if (!std::isdigit(static_cast<unsigned char>(ch))) {
                        k += ch;
                    }
                }
                std::replace(k.begin(), k.end(), '\n', ' ');
                c.fail("unexpected-exception: " + k, "{}", w);
            }
            std::lock_guard g(s.m);
            ++s.evaluations;
            ++s.scen[r.name].first;
        }
        if (o.verbose) {
            auto dt = std::chrono::steady_clock::now() - t0;
            fmt::print(
                stderr,
                "{} {:.2f}s\n",
                r.name,
                std::chrono::duration<double>(dt).count()
            );
        }
        s.write(false);
    }
    s.write(true);
    if (o.verbose) {
        fmt::print(stderr, "evals {} distinct {} violations {}\n", s.evaluations, s.distinct.size(), s.violations.size());
        for (auto& [k, v] : s.counters) {
            fmt::print(stderr, "  {} = {}\n", k, v);
        }
    }
    (void)ran;
    return s.violations.empty() ? 0 : 1;
}

} // namespace vh
