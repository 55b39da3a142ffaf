// Flat C interface over the public API of Mesh, BandMatrix, ExtendedBandMatrix and BandLU.
#include <cstddef>
#include <array>
#include <vector>
#include <utility>
#include <string>
#include <stdexcept>
#include <algorithm>
#include <BandLU.hpp>
using namespace intp;
using std::size_t;
using BM = BandMatrix<double>;
using EM = ExtendedBandMatrix<double>;
extern "C" {
#define MATS(PFX, M) \
    M* PFX##_make(size_t n, size_t p, size_t q) { return new M(n, p, q); } \
    M* PFX##_copy(const M* m) { return new M(*m); } \
    void PFX##_assign(M* m, const M* o) { *m = *o; } \
    void PFX##_massign(M* m, M* o) { *m = std::move(*o); } \
    M* PFX##_mcopy(M* m) { return new M(std::move(*m)); } \
    void PFX##_set(M* m, size_t i, size_t j, double v) { (*m)(i, j) = v; } \
    double PFX##_get(M* m, size_t i, size_t j) { return (*m)(i, j); } \
    double PFX##_cget(const M* m, size_t i, size_t j) { return (*m)(i, j); } \
    void PFX##_mul(const M* m, const double* x, size_t n, double* y) { std::vector<double> v(x, x + n); auto r = (*m) * v; for (size_t i = 0; i < n; ++i) y[i] = r[i]; } \
    double* PFX##_addr(M* m, size_t i, size_t j) { return &(*m)(i, j); } \
    std::vector<double>* PFX##_mulv(const M* m, const std::vector<double>* x) { return new std::vector<double>((*m) * (*x)); } \
    size_t PFX##_dims(const M* m, size_t w) { return w == 0 ? m->dim() : w == 1 ? m->lower_band_width() : m->upper_band_width(); } \
    void PFX##_free(M* m) { delete m; } \
    BandLU<M>* PFX##_lu(M* m) { auto* l = new BandLU<M>(); l->compute(*m); return l; } \
    BandLU<M>* PFX##_lum(M* m) { auto* l = new BandLU<M>(); l->compute(std::move(*m)); return l; } \
    BandLU<M>* PFX##_luc(const M* m) { return new BandLU<M>(*m); } \
    BandLU<M>* PFX##_lucopy(const BandLU<M>* l) { return new BandLU<M>(*l); } \
    void PFX##_solve_vec(const BandLU<M>* l, const double* b, size_t n, double* x) { const std::vector<double> v(b, b + n); auto r = l->solve(v); for (size_t i = 0; i < n; ++i) x[i] = r[i]; } \
    void PFX##_solve_ptr(const BandLU<M>* l, double* x) { double* p = x; l->solve_in_place(p); } \
    void PFX##_solve_it(const BandLU<M>* l, double* x, size_t n) { std::vector<double> v(x, x + n); auto it = v.begin(); l->solve_in_place(it); for (size_t i = 0; i < n; ++i) x[i] = v[i]; } \
    void PFX##_solve_vip(const BandLU<M>* l, double* x, size_t n) { std::vector<double> v(x, x + n); l->solve_in_place(v); for (size_t i = 0; i < n; ++i) x[i] = v[i]; } \
    void PFX##_solve_skip(const BandLU<M>* l, double* x, size_t n, size_t w) { Mesh<double, 2> m(n, w); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < w; ++j) m(i, j) = x[i * w + j]; \
        std::array<size_t, 2> ix{}; for (size_t j = 0; j < w; ++j) { ix[1] = j; auto it = m.begin(0, ix); l->solve_in_place(it); } for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < w; ++j) x[i * w + j] = m(i, j); } \
    std::vector<double>* PFX##_solvev(const BandLU<M>* l, const std::vector<double>* b) { return new std::vector<double>(l->solve(*b)); } \
    void PFX##_solvevip(const BandLU<M>* l, std::vector<double>* b) { l->solve_in_place(*b); } \
    void PFX##_solvevit(const BandLU<M>* l, std::vector<double>* b) { auto it = b->begin(); l->solve_in_place(it); } \
    void PFX##_solveax(const BandLU<M>* l, Mesh<double, 2>* m, size_t axis, size_t a, size_t b) { auto it = m->begin(axis, std::array<size_t, 2>{a, b}); l->solve_in_place(it); } \
    void PFX##_lufree(BandLU<M>* l) { delete l; }
MATS(bm, BM)
MATS(em, EM)
std::vector<double>* vec_make(size_t n) { return new std::vector<double>(n); }
double* vec_data(std::vector<double>* v) { return v->data(); }
size_t vec_size(const std::vector<double>* v) { return v->size(); }
void vec_free(std::vector<double>* v) { delete v; }
double* em_maddr(EM* m, size_t i, size_t j) { return &m->main_bands_val(i, j); }
double* em_saddr(EM* m, size_t i, size_t j) { return &m->side_bands_val(i, j); }
Mesh<double, 2>* m2_make(size_t a, size_t b) { return new Mesh<double, 2>(a, b); }
size_t m2_dim(const Mesh<double, 2>* m, size_t k) { return m->dim_size(k); }
double* m2_data(Mesh<double, 2>* m) { return const_cast<double*>(m->data()); }
double em_mget(EM* m, size_t i, size_t j) { return m->main_bands_val(i, j); }
double em_sget(EM* m, size_t i, size_t j) { return m->side_bands_val(i, j); }
void em_mset(EM* m, size_t i, size_t j, double v) { m->main_bands_val(i, j) = v; }
void em_sset(EM* m, size_t i, size_t j, double v) { m->side_bands_val(i, j) = v; }
}
