#include "containers_impl.h"
#include "svs/lib/threads/threadlocal.h"
using namespace ct;
namespace {
template <typename A> void arrays(Case& c, A a1, A a2) {
    using T = typename A::value_type;
    auto& r = c.rng;
    LedgerScope s(c);
    size_t x = r.below(9), y = r.below(9), z = r.below(9);
    array_case<T>(c, a1, a2, 1 + r.below(200));
    array_case<T>(c, a1, a2, x, y);
    array_case<T>(c, a1, a2, x, svs::lib::Val<5>());
    array_case<T>(c, a1, a2, x, y, z);
    array_case<T>(c, a1, a2, svs::lib::Val<3>(), z, svs::lib::Val<2>());
}
} // namespace
VH_SCENARIO(arrays_tracked, "C16 C14", 60, 3000) {
    switch (c.rng.below(4)) {
        case 0: arrays(c, Tracked<int, true>(1), Tracked<int, true>(2)); break;
        case 1: arrays(c, Tracked<float, false>(1), Tracked<float, false>(2)); break;
        case 2: arrays(c, Tracked<uint8_t, false>(1), Tracked<uint8_t, false>(1)); break;
        default: arrays(c, Tracked<double, true, true>(1), Tracked<double, true, true>(2)); break;
    }
}
VH_SCENARIO(arrays_library, "C16 C14", 30, 1500) {
    switch (c.rng.below(3)) {
        case 0: arrays(c, svs::lib::Allocator<int64_t>(), svs::lib::Allocator<int64_t>()); break;
        case 1: arrays(c, svs::threads::CacheAlignedAllocator<float>(), svs::threads::CacheAlignedAllocator<float>()); break;
        default: arrays(c, svs::HugepageAllocator<uint16_t>(), svs::HugepageAllocator<uint16_t>()); break;
    }
    c.expect(svs::detail::GenericHugepageAllocator::get_allocations().empty(), "huge-leak", "memory maps were left behind");
}
VH_SCENARIO(graph_u32, "C16 C14", 60, 3000) {
    using G = svs::graphs::SimpleGraph<uint32_t, Tracked<uint32_t, true>>;
    graph_case<G>(c, c.rng.below(80), 1 + c.rng.below(20), [](size_t n, size_t d) { return G(n, d, Tracked<uint32_t, true>(1)); });
}
VH_SCENARIO(graph_u8, "C16 C14", 40, 2000) {
    using G = svs::graphs::SimpleGraph<uint8_t, svs::lib::Allocator<uint8_t>>;
    graph_case<G>(c, c.rng.below(250), c.rng.chance(0.3) ? 240 : 1 + c.rng.below(20), [](size_t n, size_t d) { return G(n, d); });
}
VH_SCENARIO(graph_huge, "C16 C14", 20, 500) {
    using G = svs::graphs::SimpleGraph<uint32_t>;
    graph_case<G>(c, c.rng.below(80), 1 + c.rng.below(40), [](size_t n, size_t d) { return G(n, d); });
}
VH_SCENARIO(graph_blocked, "C16 C14", 60, 3000) {
    using G = svs::graphs::SimpleBlockedGraph<uint32_t>;
    // Blocks are small in these builds: rows of up to 8 KiB.
    graph_case<G>(c, c.rng.below(80), 1 + c.rng.below(c.rng.chance(0.5) ? 600 : 20), [](size_t n, size_t d) { return G(d, n); });
}
VH_SCENARIO(allocators, "C16 C14", 60, 3000) {
    auto& r = c.rng;
    struct Block { unsigned char* p; size_t bytes; unsigned char fill; int kind; };
    std::vector<Block> live;
    auto intact = [&](const Block& b) {
        for (size_t i = 0; i < b.bytes; ++i) if (b.p[i] != b.fill) return false;
        return true;
    };
    svs::lib::Allocator<uint64_t> la;
    svs::threads::CacheAlignedAllocator<uint32_t> ca;
    svs::threads::AlignedAllocator<char, 4096> pa;
    svs::HugepageAllocator<uint16_t> ha;
    auto release = [&](Block& b) {
        switch (b.kind) {
            case 0: la.deallocate(reinterpret_cast<uint64_t*>(b.p), b.bytes / 8); break;
            case 1: ca.deallocate(reinterpret_cast<uint32_t*>(b.p), b.bytes / 4); break;
            case 2: pa.deallocate(reinterpret_cast<char*>(b.p), b.bytes); break;
            case 3: ha.deallocate(b.p, b.bytes / 2); break;
        }
    };
    for (int s = 0; s < 60; ++s) {
        if (live.empty() || r.chance(0.6)) {
            int kind = int(r.below(4));
            size_t n = r.chance(0.1) ? 0 : r.below(r.chance(0.1) ? 5000 : 300);
            Block b{nullptr, 0, (unsigned char)r(), kind};
            size_t align = 1;
            switch (kind) {
                case 0: b.p = reinterpret_cast<unsigned char*>(la.allocate(n)); b.bytes = n * 8; align = 8; break;
                case 1: b.p = reinterpret_cast<unsigned char*>(ca.allocate(n)); b.bytes = n * 4; align = 64; break;
                case 2: b.p = reinterpret_cast<unsigned char*>(pa.allocate(n)); b.bytes = n; align = 4096; break;
                case 3: b.p = reinterpret_cast<unsigned char*>(ha.allocate(n)); b.bytes = n * 2; align = 4096; break;
            }
            c.expect(reinterpret_cast<uintptr_t>(b.p) % align == 0, "allocator-alignment", "allocator {} returned a block aligned below {}", kind, align);
            for (auto& o : live) {
                if (b.p < o.p + o.bytes && o.p < b.p + b.bytes) { c.fail("allocator-overlap", "two live blocks overlap"); return; }
            }
            std::memset(b.p, b.fill, b.bytes);
            live.push_back(b);
            c.obs("blocks");
        } else {
            size_t i = r.below(live.size());
            if (!c.expect(intact(live[i]), "allocator-content", "a live block of allocator {} lost its contents", live[i].kind)) return;
            release(live[i]);
            live.erase(live.begin() + i);
        }
        size_t huge = 0;
        for (auto& b : live) huge += b.kind == 3;
        auto known = svs::detail::GenericHugepageAllocator::get_allocations();
        if (!c.expect(known.size() == huge, "huge-registry", "{} maps registered, {} live", known.size(), huge)) return;
        for (auto& b : live) {
            if (b.kind == 3 && !c.expect(known.find(b.p) != known.end() && known.at(b.p) >= b.bytes, "huge-registry", "a live map is not registered")) return;
        }
    }
    for (auto& b : live) { c.expect(intact(b), "allocator-content", "a live block lost its contents"); release(b); }
    c.distinct(r());
}
VH_SCENARIO(memory_map, "C16 C14", 40, 1500) {
    auto& r = c.rng;
    auto dir = c.scratch();
    auto file = dir / "map.bin";
    using M = svs::MemoryMapper;
    size_t bytes = 1 + r.below(r.chance(0.5) ? 100 : 20000);
    M must(M::ReadWrite, M::MustUseExisting), create(M::ReadWrite, M::MustCreate), may(M::ReadWrite, M::MayCreate), ro(M::ReadOnly, M::MustUseExisting);
    if (!c.expect(vh::throws([&] { (void)must.mmap(file, svs::lib::Bytes(bytes)); }), "map-missing", "a missing file was mapped")) return;
    if (!c.expect(!std::filesystem::exists(file), "map-created", "a refused mapping created the file")) return;
    std::vector<unsigned char> model(bytes);
    {
        svs::MMapPtr<unsigned char> p((r.chance(0.5) ? create : may).mmap(file, svs::lib::Bytes(bytes)));
        if (!c.expect(std::filesystem::file_size(file) == bytes && p.size() == bytes && bool(p), "map-size", "file of {} bytes for {}", std::filesystem::file_size(file), bytes)) return;
        for (size_t i = 0; i < bytes; ++i) {
            if (!c.expect(p.data()[i] == 0, "map-zero", "a new map is not zero at {}", i)) return;
            p.data()[i] = model[i] = (unsigned char)r();
        }
        auto q = std::move(p);
        if (!c.expect(!p && p.size() == 0 && q.data()[bytes - 1] == model[bytes - 1], "map-move", "moving a map loses it")) return;
        svs::MMapPtr<unsigned char> o;
        o = std::move(q);
        if (!c.expect(!q && o && o.data()[0] == model[0], "map-move", "move assignment loses the map")) return;
        size_t off = r.below(bytes);
        o.setoffset(off);
        if (!c.expect(o.data()[0] == model[off] && o.base() != nullptr, "map-offset", "offset {} reads another byte", off)) return;
        if (r.chance(0.3)) { o.unmap(); if (!c.expect(!o, "map-unmap", "unmapped pointer is not null")) return; }
    }
    if (!c.expect(vh::throws([&] { (void)create.mmap(file, svs::lib::Bytes(bytes)); }), "map-exists", "an existing file was created anew")) return;
    if (!c.expect(vh::throws([&] { (void)ro.mmap(file, svs::lib::Bytes(bytes + 1 + r.below(5000))); }), "map-short", "a file that is too short was mapped")) return;
    for (auto* mm : {&must, &may, &ro}) {
        svs::MMapPtr<unsigned char> p(mm->mmap(file, svs::lib::Bytes(bytes)));
        if (!c.expect(std::equal(model.begin(), model.end(), p.data()), "map-content", "a mapped file reads other contents")) return;
        if (mm != &ro) {
            size_t i = r.below(bytes);
            p.data()[i] = model[i] = (unsigned char)r();
        }
    }
    std::ifstream in(file, std::ios::binary);
    std::vector<unsigned char> disk((std::istreambuf_iterator<char>(in)), {});
    c.expect(disk == model, "map-write", "writes through a map did not reach the file");
    c.obs("maps", 5);
    c.distinct(bytes);
}
