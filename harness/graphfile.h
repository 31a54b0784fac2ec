// Reference reader for GRAPH files.
#ifndef HARNESS_GRAPHFILE_H
#define HARNESS_GRAPHFILE_H
#include "el.h"
namespace h {
struct RefGraph {
    bool ok; ll n, m; bool zero; std::vector<std::vector<ll>> rows; ll maxl, ints;
    // rows: the first n lines after the header; labels start at zero ? 0 : 1
    explicit RefGraph(const string& s) : ok(false), n(0), m(0), zero(false), maxl(0), ints(0) {
        std::vector<string> ls; string cur; bool pend = false; std::vector<bool> term;
        for (char c : s) { if (c == '\n') { ls.push_back(cur); term.push_back(true); cur.clear(); pend = false; } else { cur += c; pend = true; } }
        if (pend) { ls.push_back(cur); term.push_back(false); }
        size_t i = 0;
        while (i < ls.size() && tokens(ls[i]).empty()) ++i;
        if (i == ls.size()) return;
        auto t = tokens(ls[i++]); if (t.size() < 2) return;
        n = strtoll(t[0].c_str(), nullptr, 10); m = strtoll(t[1].c_str(), nullptr, 10);
        for (; i < ls.size(); ++i) {
            if (!ls[i].empty() && (ls[i][0] == '#' || ls[i][0] == '%')) continue;
            std::vector<ll> r; for (auto& k : tokens(ls[i])) r.push_back(strtoll(k.c_str(), nullptr, 10));
            if (!term[i] && r.empty()) continue;
            for (ll v : r) { ++ints; maxl = std::max(maxl, v); if (v == 0) zero = true; }
            rows.push_back(r);
        }
        if (ints != m && ints != 2 * m) return;
        if ((ll)rows.size() < n) return;
        for (size_t k = n; k < rows.size(); ++k) if (!rows[k].empty()) return;
        rows.resize(n); ok = true;
    }
};
}
#endif
