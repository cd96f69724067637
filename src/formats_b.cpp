#include "formats_impl.h"
VH_SCENARIO(bin_any, "C19 C18 C14", 150, 8000) {
    switch (c.index() % 6) {
        case 0: fo::bin<float>(c); break;
        case 1: fo::bin<svs::Float16>(c); break;
        case 2: fo::bin<uint8_t>(c); break;
        case 3: fo::bin<int8_t>(c); break;
        case 4: fo::bin<uint32_t>(c); break;
        default: fo::bin<double>(c);
    }
}
VH_SCENARIO(native_any, "C19 C18 C14", 200, 10000) {
    switch (c.index() % 6) {
        case 0: fo::native<float>(c); break;
        case 1: fo::native<svs::Float16>(c); break;
        case 2: fo::native<uint8_t>(c); break;
        case 3: fo::native<int8_t>(c); break;
        case 4: fo::native<uint32_t>(c); break;
        default: fo::native<double>(c);
    }
}
VH_SCENARIO(converting, "C19 C14", 200, 10000) {
    switch (c.index() % 7) {
        case 0: fo::convert<svs::Float16, float>(c); break;
        case 1: fo::convert<uint8_t, int32_t>(c); break;
        case 2: fo::convert<float, double>(c); break;
        case 3: fo::convert<int8_t, float>(c); break;
        case 4: fo::convert<uint32_t, float>(c); break;
        case 5: fo::convert<float, uint8_t>(c); break;
        default: fo::convert<float, int32_t>(c);
    }
}
VH_SCENARIO(identities, "C19 C14", 80, 4000) {
    using namespace fo;
    auto& r = c.rng;
    auto dir = c.scratch();
    std::map<std::string, Uuid> have; // file name -> identity
    size_t n = 1 + r.below(15);
    for (size_t i = 0; i < n; ++i) {
        auto id = rand_uuid(r);
        if (r.chance(0.3) && !have.empty()) { // nearly the same as another
            id = std::next(have.begin(), long(r.below(have.size())))->second;
            id[r.below(16)] ^= uint8_t(1u << r.below(8));
        }
        bool clash = false;
        for (auto& kv : have) clash |= kv.second == id;
        if (clash) continue;
        auto name = fmt::format("f{}.{}", i, r.chance(0.5) ? "svs" : "dat");
        size_t rows = r.below(3);
        Bytes b;
        switch (r.below(3)) {
            case 0: b = v1_header(rows, 2, id); break;
            case 1: b = vtest_header(rows, 2, id); break;
            default: b = database_header(r.below(100), id);
        }
        spit(dir / name, b + Bytes(rows * 8, 'x'));
        have[name] = id;
    }
    // Things that are not ours.
    for (size_t i = 0, e = r.below(8); i < e; ++i) {
        Bytes b;
        size_t len = r.chance(0.3) ? r.below(9) : r.below(2000);
        for (size_t k = 0; k < len; ++k) b += char(r.below(256));
        spit(dir / fmt::format("junk{}", i), b);
        // An identity at the right place behind another magic number.
        if (!have.empty() && r.chance(0.5)) {
            Bytes x = v1_header(0, 2, have.begin()->second);
            x[r.below(8)] ^= char(1 << r.below(8));
            spit(dir / fmt::format("a_junk{}", i), x);
        }
    }
    if (r.chance(0.5)) {
        fs::create_directory(dir / "sub");
        // Files in a subdirectory are not in the directory.
        spit(dir / "sub" / "y.svs", v1_header(0, 2, rand_uuid(r)));
    }
    for (auto& kv : have) {
        auto f = sio::find_uuid(dir, to_uuid(kv.second));
        c.expect(f && f->filename() == kv.first, "C19:found", "{} files: identity of {} leads to {}", have.size(), kv.first, f ? f->string() : std::string("nothing"));
        auto u = sio::get_uuid(dir / kv.first);
        c.expect(u && from_uuid(*u) == kv.second, "C19:identity", "identity of {} is read as another one", kv.first);
        c.obs("identities_found");
    }
    for (size_t i = 0; i < 3; ++i) {
        auto id = rand_uuid(r);
        if (i == 1 && !have.empty()) {
            id = have.begin()->second;
            id[r.below(16)] ^= uint8_t(1u << r.below(8));
            bool clash = false;
            for (auto& kv : have) clash |= kv.second == id;
            if (clash) continue;
        }
        auto f = sio::find_uuid(dir, to_uuid(id));
        c.expect(!f, "C19:invented", "an identity that is not stored leads to {}", f ? f->string() : std::string());
        c.obs("identities_absent");
    }
    c.distinct(fmt::format("{} {}", n, c.index()));
    c.sample("{} files", have.size());
}
