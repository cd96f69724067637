// Damaged saved objects are refused (C18).
#include "storage_index.h"

#include <csignal>
#include <sys/resource.h>

namespace so {
inline bool is_config(const std::string& f) { return f.ends_with("svs_config.toml"); }
inline bool is_native(const Bytes& b) {
    uint64_t m = 0;
    if (b.size() < 8) return false;
    std::memcpy(&m, b.data(), 8);
    return m == 0xcad4a6b2579980feULL && b.size() >= 1024;
}
struct Line {
    size_t begin, end; // without the newline
    std::string key, value, table;
};
inline std::vector<Line> lines_of(const Bytes& b) {
    std::vector<Line> l;
    std::string table;
    size_t at = 0;
    while (at < b.size()) {
        size_t e = b.find('\n', at);
        if (e == Bytes::npos) e = b.size();
        auto text = b.substr(at, e - at);
        Line x{at, e, "", "", table};
        size_t first = text.find_first_not_of(" \t");
        if (first != Bytes::npos && text[first] == '[' && text.find('=') == Bytes::npos) {
            size_t close = text.find(']');
            table = text.substr(first + 1, close - first - 1);
            x.table = table;
        } else if (auto q = text.find(" = "); q != Bytes::npos && first != Bytes::npos) {
            x.key = text.substr(first, q - first);
            x.value = text.substr(q + 3);
        }
        l.push_back(x);
        at = e + 1;
    }
    return l;
}

// Must: the load has to throw. MayEqual: throw, or reproduce the original exactly.
// Survive: nothing but a crash or a hang is wrong.
enum class Expect { Throw, ThrowOrEqual, Survive };
struct Damage {
    std::string what, kind;
    Expect expect;
};

// One damage to the tree. Empty kind: nothing to damage.
inline Damage damage(Case& c, const Art& a, Tree& t, const Tree& other) {
    auto& r = c.rng;
    std::vector<std::string> configs, binaries;
    for (auto& kv : t) {
        if (!a.unused.empty() && kv.first.rfind(a.unused, 0) == 0) continue;
        (is_config(kv.first) ? configs : binaries).push_back(kv.first);
    }
    auto any_file = [&]() -> std::string {
        size_t k = r.below(configs.size() + binaries.size());
        return k < configs.size() ? configs[k] : binaries[k - configs.size()];
    };
    if (configs.empty()) return {};
    switch (r.below(20)) {
        case 0: {
            auto f = any_file();
            // A blob or table without elements needs no file.
            bool needed = !t[f].empty();
            t.erase(f);
            return {"without " + f, "missing-file", needed ? Expect::Throw : Expect::ThrowOrEqual};
        }
        case 1:
        case 2: {
            if (binaries.empty()) return {};
            auto f = r.pick(binaries);
            auto& b = t[f];
            if (b.empty()) return {};
            size_t cut = r.chance(0.4) ? 1 + r.below(std::min<size_t>(b.size(), 16)) : 1 + r.below(b.size());
            if (r.chance(0.1)) cut = b.size();
            b.resize(b.size() - cut);
            return {fmt::format("{} {} bytes short", f, cut), "truncated", Expect::Throw};
        }
        case 3: {
            if (binaries.empty()) return {};
            auto f = r.pick(binaries);
            size_t more = 1 + r.below(r.chance(0.5) ? 16 : 3000);
            for (size_t i = 0; i < more; ++i) t[f].push_back(char(r.below(256)));
            return {fmt::format("{} {} bytes long", f, more), "extended", Expect::ThrowOrEqual};
        }
        case 4: {
            // The description cut at the end of a line.
            auto f = r.pick(configs);
            auto l = lines_of(t[f]);
            if (l.empty()) return {};
            size_t keep = r.below(l.size());
            t[f].resize(keep == 0 ? 0 : l[keep - 1].end);
            return {fmt::format("{} cut to {} of {} lines", f, keep, l.size()), "short-description", Expect::ThrowOrEqual};
        }
        case 5: {
            auto f = r.pick(configs);
            Bytes junk;
            for (size_t i = 0, e = r.below(300); i < e; ++i) junk.push_back(char(r.below(256)));
            if (r.chance(0.3)) junk = "object = 3\n__version__ = 'v0.0.2'\n";
            if (r.chance(0.3)) junk = "__version__ = 'v0.0.2'\n[object]\n";
            t[f] = junk;
            return {f + " replaced by junk", "junk-description", Expect::Throw};
        }
        case 6: {
            // A key goes missing.
            auto f = r.pick(configs);
            auto l = lines_of(t[f]);
            std::erase_if(l, [](auto& x) { return x.key.empty(); });
            if (l.empty()) return {};
            auto x = r.pick(l);
            t[f].erase(x.begin, x.end - x.begin);
            bool must = x.key == "__version__" || x.key == "__schema__" || x.key == "uuid" || x.key == "eltype";
            return {fmt::format("{} without {} in [{}]", f, x.key, x.table), "missing-key", must ? Expect::Throw : Expect::ThrowOrEqual};
        }
        case 7:
        case 8: {
            // Unknown schemas and versions.
            auto f = r.pick(configs);
            auto l = lines_of(t[f]);
            std::erase_if(l, [](auto& x) { return x.key != "__version__" && x.key != "__schema__"; });
            if (l.empty()) return {};
            auto x = r.pick(l);
            std::string v;
            if (x.key == "__version__") {
                v = r.one_of<std::string>({"'v0.0.9'", "'v0.1.0'", "'v1.0.0'", "'v0.4294967296.0'", "'0.0.0'", "'v0.0'", "''", "'garbage'", "'v-1.0.0'", "'v0.0.0.1'", "3", "true", "'v0.0.2x'", "'v18446744073709551616.0.0'"});
            } else {
                v = r.one_of<std::string>({"'unknown_schema'", "''", "'uncompressed_dat'", "'default_graph2'", "17", "'vamana_index_parameters '", "[]"});
            }
            t[f].replace(x.begin, x.end - x.begin, x.key + " = " + v);
            return {fmt::format("{}: {} in [{}] became {}", f, x.key, x.table, v), "identity", Expect::Throw};
        }
        case 9:
        case 10: {
            // A value of another kind. Free text may be anything.
            auto f = r.pick(configs);
            auto l = lines_of(t[f]);
            std::erase_if(l, [](auto& x) { return x.key.empty() || x.key == "text" || x.key[0] == '_' || x.value.empty() || x.value[0] == '{' || x.value[0] == '['; });
            if (l.empty()) return {};
            auto x = r.pick(l);
            bool text = x.value[0] == '\'' || x.value[0] == '"', flag = x.value == "true" || x.value == "false";
            std::string v;
            if (text) v = r.one_of<std::string>({"12", "true", "1.5", "[]", "{}", "''", "'nonsense'"});
            else if (flag) v = r.one_of<std::string>({"1", "0", "'true'", "1.0", "[]"});
            else v = r.one_of<std::string>({"'" + x.value + "'", "true", "[]", "[" + x.value + "]", "{}", "''"});
            t[f].replace(x.begin, x.end - x.begin, x.key + " = " + v);
            return {fmt::format("{}: {} = {} in [{}] became {}", f, x.key, x.value, x.table, v), "value-kind", Expect::ThrowOrEqual};
        }
        case 11:
        case 12: {
            // Wrong numbers where the numbers describe the binary.
            static const std::set<std::string> keys = {"num_vectors", "dims", "num_vertices", "max_degree", "num_points", "num_elements", "num_clusters", "filesize", "element_size"};
            auto f = r.pick(configs);
            auto l = lines_of(t[f]);
            std::erase_if(l, [](auto& x) { return !keys.count(x.key); });
            if (l.empty()) return {};
            auto x = r.pick(l);
            int64_t old = std::stoll(x.value);
            int64_t v = old;
            while (v == old) v = r.one_of<int64_t>({old - 1, old + 1, old / 2, old * 2, 0, 1, -1, -old, old + (1LL << 32), 1LL << 62, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()});
            t[f].replace(x.begin, x.end - x.begin, fmt::format("{} = {}", x.key, v));
            return {fmt::format("{}: {} in [{}] from {} to {}", f, x.key, x.table, old, v), "wrong-number", Expect::ThrowOrEqual};
        }
        case 13: {
            // Other element types or identities.
            static const std::set<std::string> types = {"eltype", "element_type", "integer_type", "external_id_type", "internal_id_type"};
            auto f = r.pick(configs);
            auto l = lines_of(t[f]);
            std::erase_if(l, [](auto& x) { return !types.count(x.key) && x.key != "uuid" && x.key != "kind"; });
            if (l.empty()) return {};
            auto x = r.pick(l);
            std::string v;
            if (types.count(x.key)) {
                while (v.empty() || v == x.value) v = r.one_of<std::string>({"'float32'", "'uint32'", "'uint64'", "'int8'", "'uint8'", "'float16'", "'float64'", "'unknown'", "''"});
            } else {
                v = x.value;
                for (auto& ch : v)
                    if (isalnum(ch) && r.chance(0.2)) ch = ch == 'a' ? 'b' : 'a';
                if (v == x.value) return {};
            }
            t[f].replace(x.begin, x.end - x.begin, x.key + " = " + v);
            return {fmt::format("{}: {} in [{}] from {} to {}", f, x.key, x.table, x.value, v), "wrong-type", Expect::Throw};
        }
        case 14: {
            // Bits of a header.
            std::vector<std::string> l;
            for (auto& f : binaries)
                if (is_native(t[f])) l.push_back(f);
            if (l.empty()) return {};
            auto f = r.pick(l);
            auto& b = t[f];
            // magic, identity, count, dimensions
            size_t at = r.chance(0.5) ? 24 + r.below(16) : r.below(40);
            b[at] = char(b[at] ^ (1 << r.below(8)));
            return {fmt::format("{}: header byte {} changed", f, at), "header", Expect::ThrowOrEqual};
        }
        case 15:
        case 16: {
            // Bits of the contents.
            if (binaries.empty()) return {};
            auto f = r.pick(binaries);
            auto& b = t[f];
            size_t from = is_native(b) ? 1024 : 0;
            if (b.size() <= from) return {};
            for (size_t k = 0, e = 1 + r.below(3); k < e; ++k) {
                size_t at = from + r.below(b.size() - from);
                b[at] = char(b[at] ^ (1 << r.below(8)));
            }
            return {fmt::format("{}: contents changed", f), "contents", Expect::Survive};
        }
        case 17: {
            // Two binaries of the same object exchanged.
            if (binaries.size() < 2) return {};
            auto f = r.pick(binaries), g = r.pick(binaries);
            if (f == g) return {};
            bool told = is_native(t[f]) || is_native(t[g]) || t[f].size() != t[g].size();
            std::swap(t[f], t[g]);
            return {fmt::format("{} and {} exchanged", f, g), "exchanged-binaries", told ? Expect::ThrowOrEqual : Expect::Survive};
        }
        case 18: {
            // A binary of something else in its place.
            if (binaries.empty()) return {};
            std::vector<std::string> l;
            for (auto& kv : other)
                if (!is_config(kv.first)) l.push_back(kv.first);
            if (l.empty()) return {};
            auto f = r.pick(binaries), g = r.pick(l);
            bool told = is_native(t[f]) || t[f].size() != other.at(g).size();
            t[f] = other.at(g);
            return {fmt::format("{} replaced by the {} of another object", f, g), "foreign-binary", told ? Expect::Throw : Expect::Survive};
        }
        default: {
            // A whole directory of something else in its place.
            std::set<std::string> dirs, od;
            for (auto& f : configs) dirs.insert(f.substr(0, f.size() - std::string("svs_config.toml").size()));
            for (auto& kv : other)
                if (is_config(kv.first)) od.insert(kv.first.substr(0, kv.first.size() - std::string("svs_config.toml").size()));
            if (dirs.size() < 2) return {};
            std::vector<std::string> v(dirs.begin(), dirs.end());
            auto x = r.pick(v), y = r.pick(v);
            if (x == y) return {};
            Tree moved;
            for (auto& kv : t)
                if (kv.first.rfind(y, 0) == 0) moved[x + kv.first.substr(y.size())] = kv.second;
            std::erase_if(t, [&](auto& kv) { return kv.first.rfind(x, 0) == 0; });
            for (auto& kv : moved) t[kv.first] = kv.second;
            // The data may hold its own vectors twice (an inverted index and its centroids).
            return {fmt::format("{} in the place of {}", y, x), "exchanged-directories", Expect::ThrowOrEqual};
        }
    }
}

inline void damaged(Case& c, const Art& a, const Art& b, size_t rounds) {
    auto& r = c.rng;
    c.step("saving {}", a.kind);
    auto dir = c.scratch() / "obj", hurt = c.scratch() / "hurt";
    fs::create_directories(c.scratch() / "b");
    a.save(dir);
    b.save(c.scratch() / "b" / "obj");
    auto whole = tree_of(dir), other = tree_of(c.scratch() / "b" / "obj");
    for (size_t k = 0; k < rounds; ++k) {
        auto t = whole;
        auto d = damage(c, a, t, other);
        if (d.kind.empty() || t == whole) continue;
        if (r.chance(0.15) && d.expect == Expect::Throw) {
            // More than one thing at a time.
            auto e = damage(c, a, t, other);
            if (!e.kind.empty()) d.what += " and " + e.what;
            // A binary and a description may be changed to agree on another object.
            bool bytes = false;
            for (auto& k : {d.kind, e.kind}) bytes |= k == "truncated" || k == "extended" || k == "foreign-binary" || k == "contents" || k == "header";
            d.expect = bytes ? Expect::Survive : Expect::ThrowOrEqual;
        }
        plant_tree(hurt, t);
        auto& [how, load] = a.loads[r.below(a.loads.size())];
        c.step("{} loaded by '{}' from files with {}", a.kind, how, d.what);
        bool threw = false, equal = false;
        std::string note;
        try {
            Bytes got = load(hurt);
            equal = got == a.want;
            note = equal ? "" : fo::where(got, a.want);
        } catch (const std::exception& e) {
            threw = true;
        }
        if (d.expect == Expect::Throw) {
            c.expect(threw, "C18:" + d.kind, "{}: loaded by '{}' from files with {} ({})", a.kind, how, d.what, equal ? "as if whole" : note);
        } else if (d.expect == Expect::ThrowOrEqual) {
            c.expect(threw || equal, "C18:" + d.kind, "{}: loaded by '{}' from files with {} gave something else ({})", a.kind, how, d.what, note);
        }
        c.obs(threw ? "refused" : equal ? "unharmed" : "changed_contents");
        c.obs("damage_" + d.kind);
        c.expect(tree_of(hurt) == t, "C18:files", "{}: loading from files with {} changed them", a.kind, d.what);
        c.distinct(hash_str(a.kind + d.what + how));
    }
    // What was saved is still what loads.
    for (auto& [how, load] : a.loads) {
        c.step("{} loaded by '{}' after all failures", a.kind, how);
        c.expect(load(dir) == a.want, "C18:disturbed", "{}: '{}' differs after failed loads of other files", a.kind, how);
    }
    c.expect(tree_of(dir) == whole, "C18:disturbed-files", "{}: other files changed", a.kind);
    c.sample("{}", a.kind);
}
// Files that are no saved object at all, and ones that are cut anywhere.
inline void raw_files(Case& c) {
    auto& r = c.rng;
    auto [n, d] = fo::any_shape(r);
    auto m = fo::any_mat<float>(r, n, d);
    auto id = fo::rand_uuid(r);
    struct F {
        std::string ext;
        Bytes b;
    };
    F f = r.one_of<F>({{"svs", fo::v1_header(n, d, id) + fo::payload(m)}, {"fvecs", fo::enc_vecs(m)}, {"bin", fo::enc_bin(m)}, {"svs", fo::vtest_header(n, d, id) + fo::payload(m)}});
    auto p = c.scratch() / ("x." + f.ext);
    for (size_t k = 0; k < 12; ++k) {
        auto b = f.b;
        std::string what;
        bool must = true;
        switch (r.below(5)) {
            case 0: {
                size_t keep = r.below(b.size());
                b.resize(keep);
                // Whole leading vectors of a vecs file are a shorter file of that kind.
                must = !(f.ext == "fvecs" && keep > 0 && keep % (4 + 4 * d) == 0);
                what = fmt::format("cut to {} of {} bytes", keep, f.b.size());
                break;
            }
            case 1: {
                // Not a whole number of vectors more.
                size_t more = 1 + r.below(4 * d + (f.ext == "fvecs" ? 3 : 0));
                b.append(more, char(r.below(256)));
                                what = fmt::format("{} bytes longer", more);
                break;
            }
            case 2: {
                // Counts and dimensions.
                uint64_t big = r.one_of<uint64_t>({0, 1, 2, n + 1, d + 1, 2 * d, 1ULL << 31, 0xffffffffULL, 1ULL << 32, 1ULL << 48, 1ULL << 62, ~uint64_t(0), ~uint64_t(0) / 4});
                bool first = r.chance(0.5);
                if (f.ext == "svs") {
                    size_t at = (f.b.size() >= 1024 && fo::v1_header(n, d, id) == f.b.substr(0, 1024) ? 24 : 8) + (first ? 0 : 8);
                    std::memcpy(b.data() + at, &big, 8);
                } else {
                    uint32_t x = uint32_t(big);
                    std::memcpy(b.data() + (f.ext == "bin" && !first ? 4 : 0), &x, 4);
                }
                what = fmt::format("{} {} instead of {}x{}", first ? "count" : "dimensions", big, n, d);
                must = false;
                break;
            }
            case 3: {
                size_t len = r.below(3000);
                b.clear();
                for (size_t i = 0; i < len; ++i) b.push_back(char(r.below(256)));
                must = f.ext == "svs";
                what = "random bytes";
                break;
            }
            default: {
                if (f.ext != "svs") continue;
                b[r.below(8)] ^= char(1 + r.below(255));
                what = "another magic number";
                break;
            }
        }
        spit(p, b);
        c.step("{} file of {}x{} with {}", f.ext, n, d, what);
        bool threw = false, ok = false;
        std::string shape;
        try {
            auto x = svs::VectorDataLoader<float>(p).load();
            // What it holds must be in the file, number by number.
            shape = fmt::format("{}x{}", x.size(), x.dimensions());
            Mat<float> y(x.size(), x.dimensions());
            for (size_t i = 0; i < x.size(); ++i) std::copy_n(x.get_datum(i).begin(), y.d, y.row(i));
            Bytes again = f.ext == "fvecs" ? fo::enc_vecs(y) : f.ext == "bin" ? fo::enc_bin(y) : b.substr(0, b.size() - std::min(b.size(), y.n * y.d * 4)) + fo::payload(y);
            ok = again == b;
            if (f.ext == "svs" && ok) {
                // The header must agree with the shape.
                bool v1 = fo::v1_header(0, 0, id).substr(0, 8) == b.substr(0, 8);
                uint64_t hn, hd;
                std::memcpy(&hn, b.data() + (v1 ? 24 : 8), 8);
                std::memcpy(&hd, b.data() + (v1 ? 32 : 16), 8);
                ok = hn == y.n && hd == y.d && b.size() == (v1 ? 1024 : 64) + y.n * y.d * 4;
            }
        } catch (const std::exception&) {
            threw = true;
        }
        if (must) c.expect(threw, "C18:raw", "{} file of {}x{} with {} was read as {}", f.ext, n, d, what, shape);
        else c.expect(threw || ok, "C18:raw-shape", "{} file of {}x{} with {} was read as {}, which is not what it holds", f.ext, n, d, what, shape);
        c.obs(threw ? "raw_refused" : "raw_read");
        c.distinct(hash_str(f.ext + what + std::to_string(n) + "x" + std::to_string(d)));
    }
}
// The disk fills up while saving: an error, or all is well.
inline void full_disk(Case& c, const Art& a) {
    auto& r = c.rng;
    auto dir = c.scratch() / "obj";
    a.save(dir);
    size_t most = 0;
    for (auto& kv : tree_of(dir)) most = std::max(most, kv.second.size());
    fs::remove_all(dir);
    auto old = std::signal(SIGXFSZ, SIG_IGN);
    for (size_t k = 0; k < 6; ++k) {
        size_t limit = r.below(most + most / 4 + 1);
        c.step("saving {} when no file may exceed {} bytes", a.kind, limit);
        rlimit was{};
        getrlimit(RLIMIT_FSIZE, &was);
        rlimit now{limit, was.rlim_max};
        fs::create_directories(c.scratch() / "f");
        auto at = c.scratch() / "f" / "obj";
        setrlimit(RLIMIT_FSIZE, &now);
        bool threw = throws([&] { a.save(at); });
        setrlimit(RLIMIT_FSIZE, &was);
        auto& [how, load] = a.loads[r.below(a.loads.size())];
        c.step("loading {} by '{}' saved when no file could exceed {} bytes", a.kind, how, limit);
        bool refused = false, equal = false;
        try {
            equal = load(at) == a.want;
        } catch (const std::exception&) {
            refused = true;
        }
        c.expect(threw || equal, "C17:full-disk", "{}: saved under a limit of {} bytes per file without an error, '{}' {}", a.kind, limit, how, refused ? "refuses it" : "loads something else");
        c.obs(threw ? "save_failed" : "saved_whole");
        c.distinct(hash_str(a.kind) + limit);
        fs::remove_all(c.scratch() / "f");
    }
    std::signal(SIGXFSZ, old);
}
} // namespace so

VH_SCENARIO(damaged_data, "C18 C14", 30, 1500) { so::damaged(c, so::any_data_art(c.rng), so::any_data_art(c.rng), 12); }
VH_SCENARIO(damaged_other, "C18 C14", 60, 3000) { so::damaged(c, so::any_other_art(c.rng), c.rng.chance(0.5) ? so::any_other_art(c.rng) : so::any_data_art(c.rng), 12); }
VH_SCENARIO(damaged_params, "C18 C14", 20, 1000) { so::damaged(c, so::any_param_art(c.rng), so::any_param_art(c.rng), 12); }
VH_SCENARIO(damaged_index, "C18 C14", 20, 1000) { so::damaged(c, so::any_index_art(c), so::any_other_art(c.rng), 15); }
VH_SCENARIO(damaged_files, "C18 C14", 60, 3000) { so::raw_files(c); }
VH_SCENARIO(full_disk, "C17 C14", 30, 1000) { so::full_disk(c, c.rng.chance(0.4) ? so::any_data_art(c.rng) : c.rng.chance(0.5) ? so::any_other_art(c.rng) : so::any_param_art(c.rng)); }
