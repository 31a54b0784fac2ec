// Reference text of entries and comparisons of written files.
#ifndef HARNESS_TEXT_H
#define HARNESS_TEXT_H
#include "mat.h"
#include "types.h"
namespace h {
// values whose text is beyond dispute: no ties at the sixth decimal
template <class W> std::vector<W> wvals(std::true_type) { std::vector<W> v{0, 1, 9, 10, 99, 100, (W)(std::numeric_limits<W>::max)(), (W)((std::numeric_limits<W>::max)() / 10)}; if (std::is_signed<W>::value) { v.push_back((std::numeric_limits<W>::min)()); v.push_back((W)-1); v.push_back((W)-100); } return v; }
template <class W> std::vector<W> wvals(std::false_type) { return {(W)0, (W)1, (W)-0.25, (W)0.1, (W)1234567.875, (W)-9.99999952316284179688, (W)99999.9921875, (W)0.000244140625, (W)-1e-9, (W)1e15, (W)-4096.5}; }
template <class W> const std::vector<W>& weights_of() { static const std::vector<W> v = wvals<W>(std::is_integral<W>()); return v; }
template <class T> string int_text(T v) { return std::to_string(v); }
template <class W> string w_text(W w, std::true_type) { return std::to_string(w); }
template <class W> string w_text(W w, std::false_type) { char b[400]; snprintf(b, sizeof b, "%.6f", (double)w); return b; }
template <class W> string w_text(W w) { return w_text(w, std::is_integral<W>()); }
// labels of every length in digits
template <class L> std::vector<L> make_labels() { std::vector<L> v; for (ull p = 1; ; p *= 10) { v.push_back((L)(p - 1)); v.push_back((L)p); if (p > (ull)(std::numeric_limits<L>::max)() / 10) break; } v.push_back((std::numeric_limits<L>::max)()); v.push_back((L)((std::numeric_limits<L>::max)() - 1)); return v; }
template <class L> const std::vector<L>& labels_of() { static const std::vector<L> v = make_labels<L>(); return v; }
inline void old_file(const char* name, int how, size_t want) {
    string p = path(name); if (how == 0) unlink(p.c_str()); else put_file(p, string(how == 1 ? want / 2 + 1 : want * 2 + 9000, '7'));
}
inline void expect_text(const char* name, const string& want) {
    omc::Quiet q; string got;
    if (!get_file(path(name), got)) omc::fail("the written file cannot be read");
    if (got == want) { omc::outcome_bytes(got); return; }
    size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
    omc::fail("the written file (" + std::to_string(got.size()) + " bytes, expected " + std::to_string(want.size()) + ") differs at byte " + std::to_string(k) + ": " + esc(got.substr(k > 20 ? k - 20 : 0, 60)) + " instead of " + esc(want.substr(k > 20 ? k - 20 : 0, 60)));
}
template <class W> bool close_to(W got, W want, std::true_type) { return got == want; }
template <class W> bool close_to(W got, W want, std::false_type) { double d = std::fabs((double)got - (double)want); return d <= 1.01e-6 + std::fabs((double)want) * (sizeof(W) == 4 ? 4e-7 : 1e-14); }
template <class W> bool close_to(W got, W want) { return close_to(got, want, std::is_integral<W>()); }
}
#endif
