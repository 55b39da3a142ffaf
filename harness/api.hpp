// Flat C interface over the public API of the library; D_ and O_ are the dimension and the spline order,
// KINDS(X) lists the axis-kind masks (bit d set: axis d has explicit coordinates, else a range).
#include <cstddef>
#include <cstdint>
#include <array>
#include <vector>
#include <utility>
#include <tuple>
#include <string>
#include <stdexcept>
#include <functional>
#include <algorithm>
#if defined(INTP_MULTITHREAD) && !defined(NATIVE_)
// stand-in for the thread pool: the contract of queue_task (see engine/conc.py)
#define INTP_THREAD_POOL
#include <future>
#include <mutex>
#include <queue>
#include <thread>
extern "C" void v_task(void* closure, void (*run)(void*), void* future);
namespace intp {
template <typename T> class DedicatedThreadPool {
   public:
    using return_type = T;
    explicit DedicatedThreadPool(std::size_t = 0) {}
    static DedicatedThreadPool& get_instance(std::size_t = 0) { static DedicatedThreadPool p; return p; }
    template <typename Func> std::future<return_type> queue_task(Func func) {
        std::future<return_type> r; Func* c = new Func(std::move(func));
        v_task(c, [](void* p) { Func* q = (Func*)p; (*q)(); delete q; }, &r);
        return r;
    }
};
}
#endif
#include <Interpolation.hpp>
using namespace intp;
using std::size_t;
#if defined(ODR_DEFS_) && __cplusplus < 201703L
// C++11 needs definitions of static constexpr members that are bound to references; the library has none
namespace intp {
#define ODR_(CLS) \
    template <typename A_, size_t B_, size_t C_, typename E_> constexpr typename CLS<A_, B_, C_, E_>::size_type CLS<A_, B_, C_, E_>::order; \
    template <typename A_, size_t B_, size_t C_, typename E_> constexpr typename CLS<A_, B_, C_, E_>::size_type CLS<A_, B_, C_, E_>::dim;
ODR_(InterpolationFunction)
ODR_(InterpolationFunctionTemplate)
ODR_(BSpline)
}
#endif
constexpr size_t D = D_, O = O_;
#ifndef VT_
#define VT_ double
#endif
#ifndef CT_
#define CT_ double
#endif
using V = VT_;  // value type
using C = CT_;  // coordinate type
using F = InterpolationFunction<V, D, O, C>;
using T = InterpolationFunctionTemplate<V, D, O, C>;
using S = BSpline<V, D, O, C>;
using MD = MeshDimension<D>;
using ME = Mesh<V, D>;
template <bool E> struct Ax;
template <> struct Ax<false> { static std::pair<C, C> get(const double* c, size_t) { return {(C)c[0], (C)c[1]}; } };
template <> struct Ax<true> { static std::pair<const double*, const double*> get(const double* c, size_t n) { return {c, c + n}; } };
inline std::array<bool, D> perarr(size_t bits) { std::array<bool, D> p; for (size_t d = 0; d < D; ++d) p[d] = (bits >> d) & 1; return p; }
inline std::array<size_t, D> idx(const size_t* a) { std::array<size_t, D> r; for (size_t d = 0; d < D; ++d) r[d] = a[d]; return r; }
inline std::array<C, D> crd(const double* a) { std::array<C, D> r; for (size_t d = 0; d < D; ++d) r[d] = (C)a[d]; return r; }
template <class M> void fill(M& m, const size_t* dims, const double* data) {
    size_t n = 1; for (size_t d = 0; d < D; ++d) n *= dims[d];
    for (size_t i = 0; i < n; ++i) {
        std::array<size_t, D> ix; size_t k = i;
        for (size_t d = D; d-- > 0;) { ix[d] = k % dims[d]; k /= dims[d]; }
        m(ix) = (V)data[i];
    }
}
#if D_ == 1
#define RNG(K) Ax<(K) & 1>::get(co, cn[0])
#elif D_ == 2
#define RNG(K) Ax<(K) & 1>::get(co, cn[0]), Ax<((K) >> 1) & 1>::get(co + cn[0], cn[1])
#else
#define RNG(K) Ax<(K) & 1>::get(co, cn[0]), Ax<((K) >> 1) & 1>::get(co + cn[0], cn[1]), Ax<((K) >> 2) & 1>::get(co + cn[0] + cn[1], cn[2])
#endif
#define EXPAND(CLS, FIRST, K) CLS(perarr(per), FIRST, RNG(K))
using IC = std::array<typename F::spline_type::KnotContainer, D>;  // explicit coordinates of the axes
extern "C" {
IC* ic_make() { return new IC(); }
size_t ic_size(const IC* c, size_t d) { return (*c)[d].size(); }
double ic_get(const IC* c, size_t d, size_t i) { return (*c)[d][i]; }
#define MK(K) \
    F* f_make_##K(size_t per, const size_t* dims, const double* data, const double* co, const size_t* cn) { \
        ME m{MD(idx(dims))}; fill(m, dims, data); return new EXPAND(F, m, K); } \
    T* t_make_##K(size_t per, const size_t* dims, const double* co, const size_t* cn) { return new EXPAND(T, MD(idx(dims)), K); } \
    F* f_part_##K(size_t per, const size_t* dims, const double* co, const size_t* cn, IC* ic) { return new F(perarr(per), *ic, MD(idx(dims)), RNG(K)); } \
    F* f_make_ap_##K(const size_t* dims, const double* data, const double* co, const size_t* cn) { \
        ME m{MD(idx(dims))}; fill(m, dims, data); return new F(m, RNG(K)); } \
    T* t_make_ap_##K(const size_t* dims, const double* co, const size_t* cn) { return new T(MD(idx(dims)), RNG(K)); }
KINDS(MK)
double f_eval(const F* f, const double* x) { return (*f)(crd(x)); }
double f_at(const F* f, const double* x) { return f->at(crd(x)); }
double f_der(const F* f, const double* x, const size_t* d) { return f->derivative(crd(x), idx(d)); }
double f_der_at(const F* f, const double* x, const size_t* d) { return f->derivative_at(crd(x), idx(d)); }
#if D_ == 1
#define ARGS(x) x[0]
#define PARGS(x, d) std::make_pair(x[0], d[0])
#elif D_ == 2
#define ARGS(x) x[0], x[1]
#define PARGS(x, d) std::make_pair(x[0], d[0]), std::make_pair(x[1], d[1])
#else
#define ARGS(x) x[0], x[1], x[2]
#define PARGS(x, d) std::make_pair(x[0], d[0]), std::make_pair(x[1], d[1]), std::make_pair(x[2], d[2])
#endif
double f_evalv(const F* f, const double* x) { return (*f)(ARGS(x)); }
double f_evali(const F* f, const size_t* z) { std::array<int, D> x; for (size_t d = 0; d < D; ++d) x[d] = (int)z[d]; return (*f)(ARGS(x)); }
double f_ati(const F* f, const size_t* z) { std::array<int, D> x; for (size_t d = 0; d < D; ++d) x[d] = (int)z[d]; return f->at(ARGS(x)); }
double f_atv(const F* f, const double* x) { return f->at(ARGS(x)); }
double f_derp(const F* f, const double* c, const size_t* d) { std::array<C, D> x = crd(c); return f->derivative(PARGS(x, d)); }
double f_derv(const F* f, const double* x, const size_t* d) { return f->derivative(crd(x), ARGS(d)); }
double f_derp_at(const F* f, const double* c, const size_t* d) { std::array<C, D> x = crd(c); return f->derivative_at(PARGS(x, d)); }
double f_derv_at(const F* f, const double* x, const size_t* d) { return f->derivative_at(crd(x), ARGS(d)); }
double f_range(const F* f, size_t d, size_t hi) { return hi ? f->range(d).second : f->range(d).first; }
size_t f_per(const F* f, size_t d) { return f->periodicity(d); }
size_t f_uni(const F* f, size_t d) { return f->uniform(d); }
size_t f_nknots(const F* f, size_t d) { return f->spline().knots_num(d); }
double f_knot(const F* f, size_t d, size_t i) { return f->spline().knots_begin(d)[(std::ptrdiff_t)i]; }
size_t f_nctrl(const F* f) { return f->spline().control_points().size(); }
double f_ctrl(const F* f, size_t i) { return f->spline().control_points().begin()[(std::ptrdiff_t)i]; }
F* f_copy(const F* f) { return new F(*f); }
F* f_empty() { return new F(); }
void f_assign(F* f, const F* g) { *f = *g; }
void f_massign(F* f, F* g) { *f = std::move(*g); }
void f_free(F* f) { delete f; }
F* t_interp(const T* t, const size_t* dims, const double* data) { ME m{MD(idx(dims))}; fill(m, dims, data); return new F(t->interpolate(m)); }
F* t_interp_move(T* t, const size_t* dims, const double* data) { ME m{MD(idx(dims))}; fill(m, dims, data); return new F(std::move(*t).interpolate(m)); }
void t_into(const T* t, F* f, const size_t* dims, const double* data) { ME m{MD(idx(dims))}; fill(m, dims, data); t->interpolate(*f, m); }
T* t_copy(const T* t) { return new T(*t); }
void t_free(T* t) { delete t; }
size_t t_size() { return sizeof(T); }
#if D_ == 1
F* f_make_it(size_t per, size_t n, const double* data, double a, double b) { return new F((bool)per, std::make_pair(data, data + n), std::make_pair((C)a, (C)b)); }
F* f_make_it2(size_t n, const double* data, double a, double b) { return new F(std::make_pair(data, data + n), std::make_pair((C)a, (C)b)); }
F* f_make_itx(size_t per, size_t n, const double* data, const double* x, size_t nx) { return new F((bool)per, std::make_pair(data, data + n), std::make_pair(x, x + nx)); }
F* f_make_1d(size_t per, size_t n, const double* data) { return new F(InterpolationFunction1D<O, V, C>(std::make_pair(data, data + n), (bool)per)); }
F* f_make_1dr(size_t per, size_t n, const double* data, double a, double b) { return new F(InterpolationFunction1D<O, V, C>(std::make_pair(a, b), std::make_pair(data, data + n), (bool)per)); }
T* t_make_1d(size_t per, size_t n) { return new T(InterpolationFunctionTemplate1D<O, V, C>(n, (bool)per)); }
T* t_make_1dr(size_t per, size_t n, double a, double b) { return new T(InterpolationFunctionTemplate1D<O, V, C>(std::make_pair(a, b), n, (bool)per)); }
F* f_make_1d_def(size_t n, const double* data) { return new F(InterpolationFunction1D<O, V, C>(std::make_pair(data, data + n))); }
F* f_make_1dr_def(size_t n, const double* data, double a, double b) { return new F(InterpolationFunction1D<O, V, C>(std::make_pair(a, b), std::make_pair(data, data + n))); }
T* t_make_1d_def(size_t n) { return new T(InterpolationFunctionTemplate1D<O, V, C>(n)); }
T* t_make_1dr_def(size_t n, double a, double b) { return new T(InterpolationFunctionTemplate1D<O, V, C>(std::make_pair(a, b), n)); }
T* t_make_x(size_t per, size_t n, const double* x, size_t nx) { return new T((bool)per, n, std::make_pair(x, x + nx)); }
T* t_make_ap1(size_t n, double a, double b) { return new T(n, std::make_pair(a, b)); }
F* f_make_int(size_t per, size_t n, const double* data, size_t a, size_t b) { return new F((bool)per, std::make_pair(data, data + n), std::make_pair((int)a, (long)b)); }
F* f_make_intx(size_t per, size_t n, const double* data, const size_t* x, size_t nx) { std::vector<int> v(nx); for (size_t i = 0; i < nx; ++i) v[i] = (int)x[i]; return new F((bool)per, std::make_pair(data, data + n), std::make_pair(v.begin(), v.end())); }
F* f_make_1di(size_t per, size_t n, const double* data, size_t a, size_t b) { return new F(InterpolationFunction1D<O, V, C>(std::make_pair((int)a, (int)b), std::make_pair(data, data + n), (bool)per)); }
F* t_interp_it(const T* t, size_t n, const double* data) { return new F(t->interpolate(std::make_pair(data, data + n))); }
#endif
size_t mat_dim(const intp::BandMatrix<C>* m, size_t k) { return k == 0 ? m->dim() : k == 1 ? m->lower_band_width() : m->upper_band_width(); }
#ifdef INTP_CELL_LAYOUT
using P = typename T::eval_proxy_t;
P* t_proxy(const T* t, const double* x) { return new P(t->eval_proxy(crd(x))); }
P* t_proxyv(const T* t, const double* c) { std::array<C, D> x = crd(c); return new P(t->eval_proxy(ARGS(x))); }
double p_eval(const P* p, const F* f) { return (*p)(*f); }
void p_free(P* p) { delete p; }
#endif
// spline from knots and control points
#if D_ == 1
#define KP(kn, nk) std::make_pair(kn, kn + nk[0])
#elif D_ == 2
#define KP(kn, nk) std::make_pair(kn, kn + nk[0]), std::make_pair(kn + nk[0], kn + nk[0] + nk[1])
#else
#define KP(kn, nk) std::make_pair(kn, kn + nk[0]), std::make_pair(kn + nk[0], kn + nk[0] + nk[1]), std::make_pair(kn + nk[0] + nk[1], kn + nk[0] + nk[1] + nk[2])
#endif
S* s_make(size_t per, const size_t* dims, const double* ctrl, const double* kn, const size_t* nk) {
    S::ControlPointContainer c{MD(idx(dims))}; fill(c, dims, ctrl);
    return new S(perarr(per), c, KP(kn, nk));
}
// the same with a block copy of the control points
S* s_make_u(size_t per, const size_t* dims, const double* ctrl, const double* kn, const size_t* nk) {
    S::ControlPointContainer c{MD(idx(dims))}; size_t n = 1; for (size_t d = 0; d < D; ++d) n *= dims[d];
    std::array<size_t, D> z{}; __builtin_memcpy(&c(z), ctrl, n * sizeof(double));
    return new S(perarr(per), c, KP(kn, nk));
}
double s_eval(const S* s, const double* x) { std::array<double, D> a; for (size_t d = 0; d < D; ++d) a[d] = x[d]; return (*s)(a); }
double s_evalh(const S* s, const double* x, const size_t* h) {
    std::array<std::pair<C, size_t>, D> a; for (size_t d = 0; d < D; ++d) { a[d].first = (C)x[d]; a[d].second = h[d]; } return (*s)(a);
}
double s_der(const S* s, const double* x, const size_t* k) {
    std::array<std::pair<C, size_t>, D> a; for (size_t d = 0; d < D; ++d) { a[d].first = (C)x[d]; a[d].second = k[d]; } return s->derivative_at(a);
}
double s_derh(const S* s, const double* x, const size_t* h, const size_t* k) {
    std::array<std::tuple<C, size_t, size_t>, D> a; for (size_t d = 0; d < D; ++d) a[d] = std::make_tuple((C)x[d], h[d], k[d]); return s->derivative_at(a);
}
double s_range(const S* s, size_t d, size_t hi) { return hi ? s->range(d).second : s->range(d).first; }
#ifdef INTP_CELL_LAYOUT
double s_proxy(const S* s, const double* x, const size_t* h) {
    std::array<std::pair<C, size_t>, D> a; for (size_t d = 0; d < D; ++d) { a[d].first = (C)x[d]; a[d].second = h[d]; } return s->pre_calc_coef(a)(*s);
}
#endif
void s_free(S* s) { delete s; }
}
#ifdef NATIVE_
extern "C" {
#define NX(BODY) try { BODY } catch (const std::domain_error&) { *th = 1; } catch (...) { *th = 2; } return 0;
double nx_f_at(int* th, const F* f, const double* x) { NX(return f_at(f, x);) }
double nx_f_atv(int* th, const F* f, const double* x) { NX(return f_atv(f, x);) }
double nx_f_eval(int* th, const F* f, const double* x) { NX(return f_eval(f, x);) }
double nx_f_der(int* th, const F* f, const double* x, const size_t* d) { NX(return f_der(f, x, d);) }
double nx_f_der_at(int* th, const F* f, const double* x, const size_t* d) { NX(return f_der_at(f, x, d);) }
double nx_f_derp_at(int* th, const F* f, const double* x, const size_t* d) { NX(return f_derp_at(f, x, d);) }
double nx_f_derv_at(int* th, const F* f, const double* x, const size_t* d) { NX(return f_derv_at(f, x, d);) }
}
#endif
