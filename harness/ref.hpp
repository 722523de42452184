// Reference ellipsoid arithmetic (long double, independent of /repo).
#pragma once
#include "mc.hpp"
#include <ellcpp/cut_config.hpp>
#include <tuple>
#include <xtensor/xarray.hpp>

using Arr = xt::xarray<double, xt::layout_type::row_major>;
using LD = long double;
using LVec = std::vector<LD>;

struct LMat
{
    int n = 0;
    std::vector<LD> a;
    LMat() = default;
    explicit LMat(int n_) : n {n_}, a(n_ * n_, 0.0L) { }
    LD& operator()(int i, int j) { return a[i * n + j]; }
    LD operator()(int i, int j) const { return a[i * n + j]; }
};

inline Arr toArr(const std::vector<double>& v)
{
    Arr r = Arr::from_shape({v.size()});
    for (size_t i = 0; i < v.size(); ++i) r(i) = v[i];
    return r;
}
inline LVec mul(const LMat& A, const LVec& x)
{
    LVec r(A.n, 0.0L);
    for (int i = 0; i < A.n; ++i)
        for (int j = 0; j < A.n; ++j) r[i] += A(i, j) * x[j];
    return r;
}
inline LD dotp(const LVec& a, const LVec& b)
{
    LD s = 0;
    for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i];
    return s;
}
//! lower Cholesky factor; false when not positive definite
inline bool chol(const LMat& A, LMat& L)
{
    L = LMat(A.n);
    for (int j = 0; j < A.n; ++j)
    {
        LD d = A(j, j);
        for (int k = 0; k < j; ++k) d -= L(j, k) * L(j, k);
        if (!(d > 0)) return false;
        L(j, j) = sqrtl(d);
        for (int i = j + 1; i < A.n; ++i)
        {
            LD s = A(i, j);
            for (int k = 0; k < j; ++k) s -= L(i, k) * L(j, k);
            L(i, j) = s / L(j, j);
        }
    }
    return true;
}
inline LVec fwd(const LMat& L, LVec b) // L y = b
{
    for (int i = 0; i < L.n; ++i)
    {
        for (int k = 0; k < i; ++k) b[i] -= L(i, k) * b[k];
        b[i] /= L(i, i);
    }
    return b;
}
inline LD logdet(const LMat& L)
{
    LD s = 0;
    for (int i = 0; i < L.n; ++i) s += 2 * logl(L(i, i));
    return s;
}

struct RefEll
{
    LVec xc;
    LMat P;
};

struct RCut
{
    std::vector<double> g;
    double b0 = 0, b1 = 0;
    int kind = 0; // 0 double, 1 one-element array, 2 parallel pair
};

inline const char* sname(CUTStatus s)
{
    switch (s)
    {
        case CUTStatus::success: return "success";
        case CUTStatus::nosoln: return "nosoln";
        case CUTStatus::smallenough: return "smallenough";
        case CUTStatus::noeffect: return "noeffect";
    }
    return "?";
}

//! Loewner ellipsoid of {unit ball, lo <= u1 <= hi}: the pencil
//! u'u - 1 + lam (u1-lo)(u1-hi) <= 0, minimised over lam >= 0 by bisection.
//! Returns centre c along u1 and the squared semi-axes p2 (along), q2 (across).
struct Slab { LD c, p2, q2; bool noeffect; };
inline Slab lowner(int n, LD lo, LD hi)
{
    auto R = [&](LD lam)
    { return 1 - lam * lo * hi + lam * lam * (lo + hi) * (lo + hi) / (4 * (1 + lam)); };
    auto dR = [&](LD lam) {
        return -lo * hi + (lo + hi) * (lo + hi) / 4 * (lam * lam + 2 * lam) /
            ((1 + lam) * (1 + lam));
    };
    // derivative of n ln R - ln(1+lam)
    auto D = [&](LD lam) { return n * dR(lam) * (1 + lam) - R(lam); };
    Slab s {};
    if (D(0) >= 0)
    {
        s.noeffect = true;
        s.c = 0; s.p2 = 1; s.q2 = 1;
        return s;
    }
    // lam = sig/(1-sig)
    LD a = 0, b = 1;
    for (int it = 0; it < 200; ++it)
    {
        LD m = (a + b) / 2;
        if (m >= 1 || m == a || m == b) break;
        if (D(m / (1 - m)) < 0) a = m; else b = m;
    }
    LD sig = (a + b) / 2, lam = sig / (1 - sig);
    s.noeffect = false;
    s.c = sig * (lo + hi) / 2;
    s.q2 = R(lam);
    s.p2 = s.q2 / (1 + lam);
    return s;
}

inline LD tsqOf(const RefEll& E, const std::vector<double>& g)
{
    LVec lg(g.begin(), g.end());
    return dotp(lg, mul(E.P, lg));
}

//! reference result of keeping lo <= g'(x-xc)/tau <= hi
inline RefEll refUpdate(const RefEll& E, const std::vector<double>& g, const Slab& s)
{
    const int n = (int)E.xc.size();
    LVec lg(g.begin(), g.end());
    LVec Pg = mul(E.P, lg);
    LD tsq = dotp(lg, Pg), tau = sqrtl(tsq);
    RefEll r = E;
    for (int i = 0; i < n; ++i) r.xc[i] += s.c * Pg[i] / tau;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            r.P(i, j) = s.q2 * E.P(i, j) + (s.p2 - s.q2) * Pg[i] * Pg[j] / tsq;
    return r;
}

//! observe the ellipsoid of a search space through its public interface:
//! a cut that is far too deep leaves it alone and reports g'Pg.
template <class S>
LD probe(const S& s, const std::vector<double>& g)
{
    auto c = s.copy();
    const auto r = c.update(std::tuple<Arr, double> {toArr(g), 1e200});
    return std::get<1>(r);
}
template <class S>
RefEll observe(const S& s)
{
    const auto x = s.xc();
    const int n = (int)x.size();
    RefEll E;
    E.P = LMat(n);
    for (int i = 0; i < n; ++i) E.xc.push_back(x(i));
    std::vector<double> g(n, 0.0);
    for (int i = 0; i < n; ++i)
    {
        g[i] = 1;
        E.P(i, i) = probe(s, g);
        g[i] = 0;
    }
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j)
        {
            // scaled so that both parts weigh alike
            LD di = sqrtl(fabsl(E.P(i, i))), dj = sqrtl(fabsl(E.P(j, j)));
            if (!(di > 0) || !(dj > 0)) continue;
            double wi = (double)(1 / di), wj = (double)(1 / dj);
            g[i] = wi; g[j] = wj;
            LD plus = probe(s, g);
            g[j] = -wj;
            LD minus = probe(s, g);
            E.P(i, j) = E.P(j, i) = (plus - minus) / (4 * (LD)wi * wj);
            g[i] = g[j] = 0;
        }
    return E;
}
inline uint64_t hashEll(const RefEll& E)
{
    uint64_t h = E.xc.size();
    for (LD v : E.xc) h = mc::mix(h, mc::hdbl((double)v));
    for (LD v : E.P.a) h = mc::mix(h, mc::hdbl((double)v));
    return h;
}
inline std::string show(const RefEll& E)
{
    std::string s = "xc=(";
    for (LD v : E.xc) s += mc::fmt("%.12Lg ", v);
    s += ") P=(";
    for (LD v : E.P.a) s += mc::fmt("%.12Lg ", v);
    return s + ")";
}
inline bool finite(const RefEll& E)
{
    for (LD v : E.xc) if (!std::isfinite(v)) return false;
    for (LD v : E.P.a) if (!std::isfinite(v)) return false;
    return true;
}
//! largest deviation of B from A measured in A's own metric (L: chol of A.P)
inline LD relDiff(const RefEll& A, const LMat& L, const RefEll& B)
{
    const int n = L.n;
    LVec d(n);
    for (int i = 0; i < n; ++i) d[i] = B.xc[i] - A.xc[i];
    LVec y = fwd(L, d);
    LD m = sqrtl(dotp(y, y));
    // L^-1 (B-A) L^-T
    LMat M(n);
    for (int j = 0; j < n; ++j)
    {
        LVec c(n);
        for (int i = 0; i < n; ++i) c[i] = B.P(i, j) - A.P(i, j);
        c = fwd(L, c);
        for (int i = 0; i < n; ++i) M(i, j) = c[i];
    }
    for (int i = 0; i < n; ++i)
    {
        LVec c(n);
        for (int j = 0; j < n; ++j) c[j] = M(i, j);
        c = fwd(L, c);
        for (int j = 0; j < n; ++j) m = std::max(m, fabsl(c[j]));
    }
    if (!(m == m)) return INFINITY;
    return m;
}
inline std::string show(const RCut& c)
{
    std::string s = "g=(";
    for (double v : c.g) s += mc::fmt("%g ", v);
    s += mc::fmt(") beta=%.17g", c.b0);
    if (c.kind == 1) s += " (array of one)";
    if (c.kind == 2) s += mc::fmt(" , %.17g", c.b1);
    return s;
}
template <class S>
std::tuple<CUTStatus, double> apply(S& s, const RCut& c)
{
    if (c.kind == 0)
        return s.update(std::tuple<Arr, double> {toArr(c.g), c.b0});
    if (c.kind == 1)
        return s.update(std::tuple<Arr, Arr> {toArr(c.g), toArr({c.b0})});
    return s.update(std::tuple<Arr, Arr> {toArr(c.g), toArr({c.b0, c.b1})});
}
