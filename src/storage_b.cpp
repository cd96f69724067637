#include "storage_index.h"

namespace so {
// A saved document, written from the description of its version.
inline void write_doc(const fs::path& dir, const std::string& object) {
    fs::create_directories(dir);
    spit(dir / "svs_config.toml", "__version__ = 'v0.0.2'\n\n" + object);
}
inline std::string num(double x) {
    auto s = fmt::format("{}", x);
    return s.find_first_of(".e") == std::string::npos ? s + ".0" : s;
}
inline std::string build_doc(Rng& r, const va::VamanaBuildParameters& p, int version, const std::string& at) {
    std::vector<std::string> l{
        "__schema__ = 'vamana_build_parameters'",
        fmt::format("__version__ = 'v0.0.{}'", version),
        fmt::format("alpha = {}", num(p.alpha)),
        fmt::format("graph_max_degree = {}", p.graph_max_degree),
        fmt::format("window_size = {}", p.window_size),
        fmt::format("max_candidate_pool_size = {}", p.max_candidate_pool_size),
        fmt::format("use_full_search_history = {}", p.use_full_search_history),
        "name = 'vamana build parameters'"};
    if (version > 0) l.push_back(fmt::format("prune_to = {}", p.prune_to));
    r.shuffle(l);
    return fmt::format("[{}]\n{}\n", at, fmt::join(l, "\n"));
}
inline std::string search_doc(Rng& r, const va::VamanaSearchParameters& p, int version, const std::string& at) {
    std::vector<std::string> l{
        "__schema__ = 'vamana_search_parameters'",
        fmt::format("__version__ = 'v0.0.{}'", version),
        fmt::format("search_window_size = {}", p.buffer_config_.get_search_window_size()),
        fmt::format("search_buffer_capacity = {}", p.buffer_config_.get_total_capacity()),
        fmt::format("search_buffer_visited_set = {}", p.search_buffer_visited_set_)};
    if (version > 0) {
        l.push_back(fmt::format("prefetch_lookahead = {}", p.prefetch_lookahead_));
        l.push_back(fmt::format("prefetch_step = {}", p.prefetch_step_));
    }
    r.shuffle(l);
    return fmt::format("[{}]\n{}\n", at, fmt::join(l, "\n"));
}
template <typename P> void expect_doc(Case& c, const fs::path& dir, const P& want, const std::string& what) {
    Bytes w, g;
    dump_params(w, want);
    try {
        dump_params(g, lib::load_from_disk<P>(dir));
    } catch (const std::exception& e) {
        c.fail("C17:older-refused", "{}: refused: {}", what, e.what());
        return;
    }
    c.expect(g == w, "C17:older-meaning", "{}: read as something else ({})\n{}", what, fo::where(g, w), slurp(dir / "svs_config.toml"));
    c.obs("older_documents");
    // Saved again, it is an up-to-date document with the same meaning.
    auto again = dir.parent_path() / "again";
    lib::save_to_disk(lib::load_from_disk<P>(dir), again);
    Bytes h;
    dump_params(h, lib::load_from_disk<P>(again));
    c.expect(h == w, "C17:older-resaved", "{}: differs when saved again", what);
    fs::remove_all(again);
}
inline void older(Case& c) {
    auto& r = c.rng;
    auto dir = c.scratch() / "doc";
    auto bp = any_build(r);
    auto sp = any_search(r);
    int bv = int(r.below(2)), sv = int(r.below(2));
    if (bv == 0) bp.prune_to = bp.graph_max_degree;
    if (sv == 0) {
        sp.prefetch_lookahead_ = 4;
        sp.prefetch_step_ = 1;
    }
    c.step("build parameters v0.0.{}", bv);
    write_doc(dir, build_doc(r, bp, bv, "object"));
    expect_doc(c, dir, bp, fmt::format("build parameters v0.0.{}", bv));
    c.step("search parameters v0.0.{}", sv);
    write_doc(dir, search_doc(r, sp, sv, "object"));
    expect_doc(c, dir, sp, fmt::format("search parameters v0.0.{}", sv));

    size_t entry = any_size(r);
    c.step("index parameters v0.0.3 holding v0.0.{} and v0.0.{}", bv, sv);
    write_doc(
        dir, fmt::format("[object]\n__schema__ = 'vamana_index_parameters'\n__version__ = 'v0.0.3'\nentry_point = {}\nname = 'vamana index parameters'\n", entry) +
                 build_doc(r, bp, bv, "object.build_parameters") + search_doc(r, sp, sv, "object.search_parameters")
    );
    expect_doc(c, dir, va::VamanaIndexParameters(entry, bp, sp), fmt::format("index parameters v0.0.3 holding v0.0.{} and v0.0.{}", bv, sv));

    // The flat form of the index parameters.
    int iv = int(r.below(3));
    auto ob = any_build(r);
    va::VamanaSearchParameters os{va::SearchBufferConfig(any_size(r)), r.chance(0.5), 4, 1};
    if (iv < 1) ob.use_full_search_history = true;
    if (iv < 2) ob.prune_to = ob.graph_max_degree;
    std::vector<std::string> l{
        "__schema__ = 'vamana_index_parameters'",
        fmt::format("__version__ = 'v0.0.{}'", iv),
        "name = 'vamana config parameters'",
        fmt::format("max_out_degree = {}", ob.graph_max_degree),
        fmt::format("entry_point = {}", entry),
        fmt::format("alpha = {}", num(ob.alpha)),
        fmt::format("max_candidates = {}", ob.max_candidate_pool_size),
        fmt::format("construction_window_size = {}", ob.window_size),
        fmt::format("default_search_window_size = {}", os.buffer_config_.get_search_window_size()),
        fmt::format("visited_set = {}", os.search_buffer_visited_set_)};
    if (iv >= 1) l.push_back(fmt::format("use_full_search_history = {}", ob.use_full_search_history));
    if (iv >= 2) l.push_back(fmt::format("prune_to = {}", ob.prune_to));
    r.shuffle(l);
    c.step("index parameters v0.0.{}", iv);
    auto doc = fmt::format("[object]\n{}\n", fmt::join(l, "\n"));
    write_doc(dir, doc);
    expect_doc(c, dir, va::VamanaIndexParameters(entry, ob, os), fmt::format("index parameters v0.0.{}", iv));

    // None of them may come from the future or from elsewhere.
    for (auto& text : {build_doc(r, bp, 2, "object"), build_doc(r, bp, 5, "object")}) {
        write_doc(dir, text);
        c.expect(throws([&] { (void)lib::load_from_disk<va::VamanaBuildParameters>(dir); }), "C18:future", "build parameters of a future version were loaded\n{}", text);
    }
    auto text = search_doc(r, sp, 2, "object");
    write_doc(dir, text);
    c.expect(throws([&] { (void)lib::load_from_disk<va::VamanaSearchParameters>(dir); }), "C18:future", "search parameters of a future version were loaded\n{}", text);
    auto key = r.one_of<std::string>({"max_out_degree", "entry_point", "alpha", "max_candidates", "construction_window_size", "default_search_window_size", "visited_set", "name"});
    auto less = l;
    std::erase_if(less, [&](auto& s) { return s.rfind(key + " ", 0) == 0; });
    write_doc(dir, fmt::format("[object]\n{}\n", fmt::join(less, "\n")));
    c.expect(throws([&] { (void)lib::load_from_disk<va::VamanaIndexParameters>(dir); }), "C18:missing-key", "index parameters v0.0.{} without {} were loaded", iv, key);
    c.distinct(hash_str(doc));
    c.sample("index parameters v0.0.{}, build parameters v0.0.{}, search parameters v0.0.{}", iv, bv, sv);
}
// Distance functors and their kinds.
template <typename D, typename O1, typename O2> void one_distance(Case& c) {
    auto dir = c.scratch() / "dist";
    lib::save_to_disk(D{}, dir);
    (void)lib::load_from_disk<D>(dir);
    c.expect(throws([&] { (void)lib::load_from_disk<O1>(dir); }) && throws([&] { (void)lib::load_from_disk<O2>(dir); }), "C18:distance-kind", "a saved distance was loaded as another");
    c.obs("distances", 1);
}
struct KindHolder {
    svs::DistanceType kind;
    svs::DataType type;
    static constexpr lib::Version save_version{1, 2, 3};
    static constexpr std::string_view serialization_schema = "verif_kinds";
    lib::SaveTable save() const { return lib::SaveTable(serialization_schema, save_version, {SVS_LIST_SAVE(kind), SVS_LIST_SAVE(type)}); }
    static KindHolder load(const lib::ContextFreeLoadTable& t) { return KindHolder{SVS_LOAD_MEMBER_AT(t, kind), SVS_LOAD_MEMBER_AT(t, type)}; }
};
inline void distances(Case& c) {
    auto& r = c.rng;
    using namespace svs::distance;
    one_distance<DistanceL2, DistanceIP, DistanceCosineSimilarity>(c);
    one_distance<DistanceIP, DistanceL2, DistanceCosineSimilarity>(c);
    one_distance<DistanceCosineSimilarity, DistanceIP, DistanceL2>(c);
    KindHolder h{
        r.one_of({svs::DistanceType::L2, svs::DistanceType::MIP, svs::DistanceType::Cosine}),
        r.one_of({svs::DataType::uint8, svs::DataType::uint16, svs::DataType::uint32, svs::DataType::uint64, svs::DataType::int8, svs::DataType::int16, svs::DataType::int32, svs::DataType::int64, svs::DataType::float16, svs::DataType::float32, svs::DataType::float64, svs::DataType::byte})};
    auto p = c.scratch() / "kinds.toml";
    lib::save_to_file(h, p);
    auto g = lib::load_from_file<KindHolder>(p);
    c.expect(g.kind == h.kind && g.type == h.type, "C17:kinds", "kind {} type {} read back as {} {}", int(h.kind), int(h.type), int(g.kind), int(g.type));
    c.obs("kinds");
    c.distinct(uint64_t(int(h.kind) * 100 + int(h.type)));
}
} // namespace so

VH_SCENARIO(saved_index, "C17 C18 C14 C13", 60, 3000) { so::round_trip(c, so::any_index_art(c)); }
VH_SCENARIO(older_versions, "C17 C18 C14", 100, 5000) { so::older(c); }
VH_SCENARIO(saved_distances, "C17 C18 C14", 20, 400) { so::distances(c); }
