// Flat C interface over MeshDimension<D_> and Mesh<double, D_>.
#include <cstddef>
#include <array>
#include <vector>
#include <utility>
#include <string>
#include <stdexcept>
#include <algorithm>
#include <Mesh.hpp>
using namespace intp;
using std::size_t;
constexpr size_t D = D_;
using MD = MeshDimension<D>;
using ME = Mesh<double, D>;
using IX = std::array<size_t, D>;
inline IX ix(const size_t* a) { IX r; for (size_t d = 0; d < D; ++d) r[d] = a[d]; return r; }
#if D_ == 1
#define AR(a) a[0]
#elif D_ == 2
#define AR(a) a[0], a[1]
#elif D_ == 3
#define AR(a) a[0], a[1], a[2]
#else
#define AR(a) a[0], a[1], a[2], a[3]
#endif
using CI = std::vector<double>::const_iterator;
extern "C" {
size_t md_size(const size_t* n) { return MD(ix(n)).size(); }
size_t md_dim(const size_t* n, size_t d) { return MD(ix(n)).dim_size(d); }
size_t md_dimv(const size_t* n, size_t d) { return MD(AR(n)).dim_size(d); }
size_t md_acc(const size_t* n, size_t d) { return MD(ix(n)).dim_acc_size(d); }
size_t md_index(const size_t* n, const size_t* i) { return MD(ix(n)).indexing(ix(i)); }
size_t md_index_safe(const size_t* n, const size_t* i) { return MD(ix(n)).indexing_safe(ix(i)); }
size_t md_index_safev(const size_t* n, const size_t* i) { return MD(ix(n)).indexing_safe(AR(i)); }
size_t md_uniform(size_t n, size_t d) { return MD(n).dim_size(d); }
void md_dimwise(const size_t* n, size_t k, size_t* out) { IX r = MD(ix(n)).dimwise_indices(k); for (size_t d = 0; d < D; ++d) out[d] = r[d]; }
ME* me_make(const size_t* n) { return new ME(MD(ix(n))); }
void me_resize(ME* m, const size_t* n) { m->resize(ix(n)); }
size_t me_size(const ME* m) { return m->size(); }
void me_free(ME* m) { delete m; }
const double* me_data(const ME* m) { return m->data(); }
double* me_ref(ME* m, const size_t* i) { return &(*m)(ix(i)); }
double* me_refv(ME* m, const size_t* i) { return &(*m)(AR(i)); }
const double* me_cref(const ME* m, const size_t* i) { return &(*m)(ix(i)); }
const double* me_crefv(const ME* m, const size_t* i) { return &(*m)(AR(i)); }
// axis iteration: addresses visited from begin to end
size_t me_walk(ME* m, size_t d, const size_t* i, double** out, size_t cap) {
    size_t k = 0; auto e = m->end(d, ix(i));
    for (auto it = m->begin(d, ix(i)); it != e && k < cap; ++it) out[k++] = &*it;
    return k;
}
size_t me_walk_post(ME* m, size_t d, const size_t* i, double** out, size_t cap) {
    size_t k = 0; auto e = m->end(d, ix(i));
    for (auto it = m->begin(d, ix(i)); !(it == e) && k < cap;) { auto o = it++; out[k++] = &*o; }
    return k;
}
size_t me_walk_back(ME* m, size_t d, const size_t* i, double** out, size_t cap) {
    size_t k = 0; auto b = m->begin(d, ix(i)); auto it = m->end(d, ix(i));
    while (it != b && k < cap) { --it; out[k++] = &*it; }
    return k;
}
double* me_it_at(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); return &it[k]; }
double* me_it_plus(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); return &*(it + k); }
double* me_it_plusl(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); return &*(k + it); }
double* me_it_adv(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); it += k; return &*it; }
double* me_it_minus(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->end(d, ix(i)); return &*(it - k); }
double* me_it_sub(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->end(d, ix(i)); it -= k; return &*it; }
double* me_it_step(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); it += k; ++it; return &*it; }
double* me_it_stepp(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); it += k; it++; return &*it; }
double* me_it_back(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); it += k; --it; return &*it; }
double* me_it_backp(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); it += k; it--; return &*it; }
double* me_it_postinc(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); it += k; auto o = it++; return &*o; }
double* me_it_postdec(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); it += k; auto o = it--; return &*o; }
double* me_it_preinc(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); it += k - 1; return &*(++it); }
double* me_it_predec(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); it += k + 1; return &*(--it); }
double* me_it_arrow(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); return (it + k).operator->(); }
const double* me_it_conv(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); it += k; return static_cast<const double*>(it); }
double* me_it_neg(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); it += 2 * k; it += -k; return &it[0]; }
double* me_it_negat(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); it += 2 * k; return &it[-k]; }
std::ptrdiff_t me_it_dist(ME* m, size_t d, const size_t* i, std::ptrdiff_t j, std::ptrdiff_t k) { auto a = m->begin(d, ix(i)); auto b = a; a += j; b += k; return b - a; }
std::ptrdiff_t me_it_len(ME* m, size_t d, const size_t* i) { return m->end(d, ix(i)) - m->begin(d, ix(i)); }
int me_it_lt(ME* m, size_t d, const size_t* i, std::ptrdiff_t j, std::ptrdiff_t k) { auto a = m->begin(d, ix(i)); auto b = a; a += j; b += k; return (a < b) | (a > b) << 1 | (a <= b) << 2 | (a >= b) << 3 | (a == b) << 4 | (a != b) << 5; }
const double* me_cit_at(const ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); return &it[k]; }
std::ptrdiff_t me_cit_len(const ME* m, size_t d, const size_t* i) { return m->end(d, ix(i)) - m->begin(d, ix(i)); }
void me_iter_indices(const ME* m, size_t k, size_t* out) { IX r = m->iter_indices(m->begin() + (std::ptrdiff_t)k); for (size_t d = 0; d < D; ++d) out[d] = r[d]; }
void me_skip_indices(ME* m, size_t d, const size_t* i, std::ptrdiff_t k, size_t* out) { auto it = m->begin(d, ix(i)); it += k; IX r = ((const ME*)m)->iter_indices(it); for (size_t e = 0; e < D; ++e) out[e] = r[e]; }
int me_it_isend(ME* m, size_t d, const size_t* i, std::ptrdiff_t k) { auto it = m->begin(d, ix(i)); it += k; return it == m->end(d, ix(i)); }
std::ptrdiff_t me_full_len(const ME* m) { return m->end() - m->begin(); }
}
