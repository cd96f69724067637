// Result matrices and the check of one result row against the stored vectors.
#pragma once
#include "gen.h"

#include "svs/core/query_result.h"

namespace vh {
constexpr size_t NONE = std::numeric_limits<size_t>::max();

// One result row. `expected` = exact number of genuine answers (or NONE if unknown).
template <typename Q, typename T>
void check_row(
    Case& c, Metric m, const Mat<T>& data, const Q* q, const size_t* ids, const float* ds,
    size_t k, size_t expected, const std::string& ctx, const std::string& prop = "C01",
    const std::function<const T*(size_t)>& lookup = {}
) {
    size_t got = 0;
    std::set<size_t> seen;
    double prev = 0;
    for (size_t j = 0; j < k; ++j) {
        if (ids[j] == NONE) {
            continue;
        }
        if (j != got) {
            c.fail(prop + ":gap", "{}: slot {} filled after an empty slot", ctx, j);
            return;
        }
        ++got;
        const T* stored = lookup ? lookup(ids[j]) : (ids[j] < data.n ? data.row(ids[j]) : nullptr);
        if (!stored) {
            c.fail(prop + ":unknown-id", "{}: slot {} holds id {} which is not stored", ctx, j, ids[j]);
            return;
        }
        if (!seen.insert(ids[j]).second) {
            c.fail(prop + ":duplicate-id", "{}: id {} reported twice (slot {})", ctx, ids[j], j);
            return;
        }
        auto e = exact(m, q, stored, data.d);
        if (!(std::fabs(ds[j] - e.value) <= tol(e, data.d))) {
            c.fail(
                prop + ":wrong-distance", "{}: id {} slot {} reported {} true {}", ctx, ids[j], j,
                ds[j], e.value
            );
            return;
        }
        if (j > 0 && better(m, ds[j], prev)) {
            c.fail(prop + ":order", "{}: slot {} ({}) better than slot {} ({})", ctx, j, ds[j], j - 1, prev);
            return;
        }
        prev = ds[j];
    }
    if (expected != NONE && got != std::min(expected, k)) {
        c.fail(
            prop + ":count", "{}: {} genuine answers, expected {} (k {})", ctx, got,
            std::min(expected, k), k
        );
    }
    c.obs("rows_checked");
    c.obs("neighbors_checked", got);
    if (got < k) c.obs("short_rows");
}

struct Res {
    svs::QueryResult<size_t> r;
    const size_t* ids(size_t i) const { return &r.index(i, 0); }
    const float* ds(size_t i) const { return &r.distance(i, 0); }
};
// Every result matrix starts out poisoned, so that slots left unwritten are seen.
inline Res fresh(size_t nq, size_t k) {
    Res x{svs::QueryResult<size_t>(nq, k)};
    for (size_t i = 0; i < nq; ++i) {
        for (size_t j = 0; j < k; ++j) {
            x.r.index(i, j) = 0xDEADDEADDEADULL;
            x.r.distance(i, j) = -12345.5f;
        }
    }
    return x;
}

} // namespace vh
