// C11, C16, C17: complete solves of small programs, filter-design and profit oracles.
#include "mc.hpp"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <ellcpp/oracles/lowpass_oracle.hpp>
#include <ellcpp/oracles/profit_oracle.hpp>
#include <optional>
#include <xtensor/xarray.hpp>
#ifndef PROP
#define PROP 11
#endif
using mc::Ctx;
using LD = long double;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using Vec = std::vector<double>;

static Arr toArr(const Vec& v)
{
    Arr a = xt::zeros<double>({v.size()});
    for (size_t i = 0; i < v.size(); ++i) a(i) = v[i];
    return a;
}
static Vec fromArr(const Arr& a) { return Vec(a.begin(), a.end()); }
static std::string show(const Vec& v)
{
    std::string s = "(";
    for (double d : v) s += mc::fmt("%.9g ", d);
    s.back() = ')';
    return s;
}
static LD dot(const Vec& a, const Vec& b)
{
    LD r = 0;
    for (size_t i = 0; i < a.size(); ++i) r += (LD)a[i] * b[i];
    return r;
}

#if PROP == 11
//! lo <= a'z <= hi, or |z - a|^2 <= hi
struct Con { Vec a; double lo, hi; bool disc; };
static const double INF = 1e30;
static double lhs(const Con& c, const Vec& z)
{
    double r = 0;
    if (c.disc) for (size_t i = 0; i < z.size(); ++i) r += (z[i] - c.a[i]) * (z[i] - c.a[i]);
    else for (size_t i = 0; i < z.size(); ++i) r += c.a[i] * z[i];
    return r;
}
//! how far z may move in every direction without violating c
static LD margin(const Con& c, const Vec& z)
{
    if (c.disc) return sqrtl(c.hi) - sqrtl((LD)lhs(c, z));
    const LD v = dot(c.a, z), m = sqrtl(dot(c.a, c.a));
    return std::min(c.hi - v, v - c.lo) / m;
}
struct Prog
{
    int n;
    std::vector<Con> con;
    Vec c;      // maximise c'z
    int order;  // 0 first violated, 1 round robin, 2 deepest
    int style;  // 0 deep cut, 1 central cut, 2 parallel where there are two sides
    mutable size_t rr = 0;
    unsigned calls = 0;
    //! the violated constraint to cut with; false: feasible
    bool separate(const Vec& z, Vec& g, double& f0, double& f1, bool& par) const
    {
        int best = -1;
        double depth = 0;
        const size_t m = con.size();
        for (size_t i = 0; i < m; ++i)
        {
            const size_t k = order == 1 ? (rr + i) % m : i;
            const double v = lhs(con[k], z), d = std::max(v - con[k].hi, con[k].lo - v);
            if (d > 0 && (best < 0 || d > depth))
            {
                best = (int)k;
                depth = d;
                if (order != 2) break;
            }
        }
        if (best < 0) return false;
        rr = best + 1;
        const Con& q = con[best];
        const double v = lhs(q, z);
        const bool up = v > q.hi;
        par = style == 2 && !q.disc && q.lo > -INF && q.hi < INF;
        g.resize(n);
        for (int i = 0; i < n; ++i) g[i] = q.disc ? 2 * (z[i] - q.a[i]) : up ? q.a[i] : -q.a[i];
        f0 = up ? v - q.hi : q.lo - v;
        f1 = up ? v - q.lo : q.hi - v;
        if (style == 1) f0 = 0;
        return true;
    }
};
using PCut = std::tuple<Arr, Arr>;
using SCut = std::tuple<Arr, double>;
static std::vector<Con> boxOf(int n, double w)
{
    std::vector<Con> r;
    for (int i = 0; i < n; ++i)
    {
        Vec a(n, 0.0);
        a[i] = 1;
        r.push_back({a, -w, w, false});
    }
    return r;
}
//! max c'z over the constraints, by enumerating the candidate points (n <= 3; discs only for n = 2); false: empty
static bool optimum(const Prog& P, LD& best)
{
    struct H { std::vector<LD> a; LD b; };
    std::vector<H> hs;
    const int n = P.n;
    for (auto& c : P.con)
        if (!c.disc)
        {
            std::vector<LD> a(c.a.begin(), c.a.end());
            if (c.hi < INF) hs.push_back({a, c.hi});
            for (auto& v : a) v = -v;
            if (c.lo > -INF) hs.push_back({a, -(LD)c.lo});
        }
    if (n > 3)
    { // a box and at most one more constraint: by its multiplier
        const Con box = P.con.back();
        const LD w = box.hi;
        const bool more = (int)P.con.size() > n;
        const Con& q = P.con[0];
        auto dual = [&](LD l) {
            LD v = l > 0 ? l * q.hi : l < 0 ? l * q.lo : 0;
            for (int i = 0; i < n; ++i) v += w * fabsl(P.c[i] - l * (more ? q.a[i] : 0));
            return v;
        };
        best = dual(0);
        if (!more) return true;
        LD reach = 0;
        for (double v : q.a) reach += w * fabsl(v);
        if (q.lo > reach || q.hi < -reach) return false;
        for (int i = 0; i < n; ++i)
            if (q.a[i] != 0)
            {
                const LD l = P.c[i] / (LD)q.a[i];
                if ((l > 0 && q.hi < INF) || (l < 0 && q.lo > -INF)) best = std::min(best, dual(l));
            }
        return true;
    }
    bool any = false;
    auto tryPoint = [&](const std::vector<LD>& z) {
        for (auto& h : hs)
        {
            LD v = 0;
            for (int i = 0; i < n; ++i) v += h.a[i] * z[i];
            if (v > h.b + 1e-12L) return;
        }
        for (auto& c : P.con)
            if (c.disc)
            {
                LD v = 0;
                for (int i = 0; i < n; ++i) v += (z[i] - c.a[i]) * (z[i] - c.a[i]);
                if (v > c.hi + 1e-12L) return;
            }
        LD v = 0;
        for (int i = 0; i < n; ++i) v += P.c[i] * z[i];
        if (!any || v > best) best = v;
        any = true;
    };
    const int m = (int)hs.size();
    if (n == 1)
        for (auto& h : hs) tryPoint({h.b / h.a[0]});
    if (n == 2)
    {
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < i; ++j)
            {
                const LD d = hs[i].a[0] * hs[j].a[1] - hs[i].a[1] * hs[j].a[0];
                if (d == 0) continue;
                tryPoint({(hs[i].b * hs[j].a[1] - hs[i].a[1] * hs[j].b) / d, (hs[i].a[0] * hs[j].b - hs[i].b * hs[j].a[0]) / d});
            }
        for (auto& c : P.con)
            if (c.disc)
            {
                const LD l = sqrtl(dot(P.c, P.c)), r = sqrtl((LD)c.hi);
                tryPoint({c.a[0] + r * P.c[0] / l, c.a[1] + r * P.c[1] / l});
                for (auto& h : hs)
                {
                    const LD aa = h.a[0] * h.a[0] + h.a[1] * h.a[1], s = (h.b - h.a[0] * c.a[0] - h.a[1] * c.a[1]) / aa;
                    const LD q = c.hi - s * s * aa;
                    if (q < 0) continue;
                    const LD w = sqrtl(q / aa);
                    for (int sg : {1, -1})
                        tryPoint({c.a[0] + s * h.a[0] - sg * w * h.a[1], c.a[1] + s * h.a[1] + sg * w * h.a[0]});
                }
            }
    }
    if (n == 3)
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < i; ++j)
                for (int k = 0; k < j; ++k)
                {
                    auto det = [](const std::vector<LD>& a, const std::vector<LD>& b, const std::vector<LD>& c) {
                        return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]);
                    };
                    const LD d = det(hs[i].a, hs[j].a, hs[k].a);
                    if (fabsl(d) < 1e-15L) continue;
                    std::vector<LD> z(3);
                    for (int q = 0; q < 3; ++q)
                    {
                        auto a = hs[i].a, b = hs[j].a, c = hs[k].a;
                        a[q] = hs[i].b; b[q] = hs[j].b; c[q] = hs[k].b;
                        z[q] = det(a, b, c) / d;
                    }
                    tryPoint(z);
                }
    return any;
}
//! a lower bound on the radius of the largest ball in the feasible set, from a grid over the box
static LD inner(const Prog& P, double w)
{
    static std::map<std::vector<double>, LD> cache;
    std::vector<double> key {(double)P.n, w};
    for (auto& c : P.con)
    {
        key.insert(key.end(), c.a.begin(), c.a.end());
        key.push_back(c.lo);
        key.push_back(c.hi);
        key.push_back(c.disc);
    }
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    const int K = P.n == 3 ? 12 : 40;
    LD best = -1;
    if (P.n > 3)
    { // the largest ball itself
        LD lo = 0, hi = w, nrm = 0, sum = 0;
        const Con& q = P.con[0];
        const bool more = (int)P.con.size() > P.n;
        for (double v : q.a) { nrm += (LD)v * v; sum += fabsl(v); }
        nrm = sqrtl(nrm);
        auto fits = [&](LD r) { return !more || (q.lo + r * nrm <= (w - r) * sum && q.hi - r * nrm >= -(w - r) * sum && q.lo + r * nrm <= q.hi - r * nrm); };
        if (!fits(0)) return cache[key] = -1;
        for (int it = 0; it < 60; ++it) { const LD m = (lo + hi) / 2; (fits(m) ? lo : hi) = m; }
        return cache[key] = lo;
    }
    std::vector<int> i(P.n, -K);
    while (true)
    {
        Vec z(P.n);
        for (int k = 0; k < P.n; ++k) z[k] = w * i[k] / K;
        LD m = INF;
        for (auto& c : P.con) m = std::min(m, margin(c, z));
        best = std::max(best, m);
        int k = 0;
        while (k < P.n && ++i[k] > K) i[k++] = -K;
        if (k == P.n) return cache[key] = best;
    }
}
static Con pickCon(Ctx& ctx, int n, bool discs)
{
    static const std::vector<Vec> D2 {{1, 1}, {1, -1}, {2, 1}, {-1, 3}, {0, 1}};
    static const std::vector<Vec> D3 {{1, 1, 1}, {1, -1, 2}, {0, 1, -3}, {-2, 0, 1}};
    static const std::vector<std::pair<double, double>> B {{-INF, 1}, {1.5, INF}, {-.75, .5}, {.25, .375}, {7, INF}, {-INF, -1.25}};
    if (n > 3)
    {
        const int k = ctx.choose(3, "direction");
        Vec a(n);
        for (int i = 0; i < n; ++i) a[i] = k == 0 ? 1 : k == 1 ? (i * 3 + 1) % 5 - 2 + .5 * (i % 2) : i == n - 1 ? 3 : i == 1 ? -1 : 0;
        const auto& b = ctx.pick(B, "sides");
        return {a, b.first, b.second, false};
    }
    if (discs)
    {
        const int k = ctx.choose(5, "kind");
        if (k == 1) return {{.5, -.25}, -1, 1, true};
        if (k == 2) return {{-1, 1.5}, -1, .25, true};
        if (k == 3) return {{3, 3}, -1, 4, true};
        if (k == 4) return {{0, 0}, -1, 9, true};
    }
    const auto& a = ctx.pick(n == 2 ? D2 : D3, "direction");
    const auto& b = ctx.pick(B, "sides");
    return {a, b.first, b.second, false};
}
static ell makeEll(Ctx& ctx, int n, const Vec& x, double rsq)
{
    const int k = ctx.choose(2, "shape");
    ell E = k ? ell(toArr(Vec(n, rsq)), toArr(x)) : ell(rsq, toArr(x));
    return E;
}
template <class Space, class F>
static void solveDc(Ctx& ctx, Prog P, Space&& E, double t0, F toX, double gapAllowed, LD sep)
{
    double t = t0;
    LD best = 0;
    const bool any = optimum(P, best);
    unsigned calls = 0;
    double last = t0;
    auto run = [&](auto oracle) { return cutting_plane_dc(oracle, E, t, Options {(unsigned)(P.n > 3 ? 20000 : 2000), 1e-8}); };
    auto core = [&](const Vec& z, double& tt, Vec& g, double& f0, double& f1, bool& par) {
        ++calls;
        ctx.MUST(tt == last, "the oracle is asked with the value %.17g, it answered %.17g before", tt, last);
        ctx.MUST(calls < 20500, "too many queries");
        if (P.separate(z, g, f0, f1, par)) return false;
        double v = 0;
        for (int i = 0; i < P.n; ++i) v += P.c[i] * z[i];
        g = P.c;
        for (auto& q : g) q = -q;
        par = false;
        f0 = tt - v;
        f1 = 0;
        if (f0 < 0)
        {
            last = tt = v;
            f0 = 0;
            return true;
        }
        return false;
    };
    Vec xb;
    CInfo info {false, 0, CUTStatus::success};
    if constexpr (std::is_same<std::decay_t<Space>, ell1d>::value)
    {
        const auto [x, i] = run([&](double z, double& tt) -> std::tuple<std::tuple<double, double>, bool> {
            Vec g; double f0, f1; bool par = false;
            const bool s = core({z}, tt, g, f0, f1, par);
            return {{g[0], f0}, s};
        });
        xb = {x};
        info = i;
    }
    else
    {
        const auto [x, i] = run([&](const Arr& z, double& tt) -> std::tuple<PCut, bool> {
            Vec g; double f0, f1; bool par = false;
            const bool s = core(fromArr(z), tt, g, f0, f1, par);
            return {{toArr(g), par ? Arr {f0, f1} : Arr {f0}}, s};
        });
        xb = fromArr(x);
        info = i;
    }
    ctx.step(calls);
    (void)toX;
    ctx.LOG("max %s'z: t0=%g -> feasible=%d t=%.12g x=%s after %zu (status %d); optimum %s%.12Lg", show(P.c).c_str(), t0, info.feasible, t,
        show(xb).c_str(), info.num_iters, (int)info.status, any ? "" : "none ", best);
    ctx.state(mc::mix(mc::hdbl(std::round(t * 1e4)), info.feasible + 2 * (int)info.status));
    ctx.MUST(t == last, "the value after the run is %.17g, the oracle's last is %.17g", t, last);
    ctx.MUST(info.feasible == (t != t0), "feasible=%d, but the value went from %g to %g", info.feasible, t0, t);
    ctx.MUST(info.num_iters < (P.n > 3 ? 20000 : 2000) && info.status != CUTStatus::success, "no end after %zu queries", info.num_iters);
    if (info.feasible)
    {
        ctx.MUST((int)xb.size() == P.n, "no point is returned");
        for (auto& c : P.con)
        {
            const double v = lhs(c, xb);
            ctx.MUST(v <= c.hi + 1e-12 && v >= c.lo - 1e-12, "the point %s returned violates a constraint: %.17g is not in [%g,%g]", show(xb).c_str(), v,
                c.lo, c.hi);
        }
        ctx.MUST(fabsl(dot(P.c, xb) - t) <= 1e-12L * (1 + std::abs(t)), "the point returned, %s, has the value %.17Lg, not %.17g", show(xb).c_str(), dot(P.c, xb), t);
        ctx.MUST(any && t <= best + 1e-9L, "value %.12g is above the optimum %.12Lg", t, best);
    }
    // the set of feasible points better than t0 has a fair size (sep): then the optimum is found
    if (any && sep > 0 && best - t0 > 0.05L)
        ctx.MUST(best - t <= gapAllowed, "the run ends at %.12g, the optimum is %.12Lg", t, best);
}
static double startValue(Ctx& ctx, const Prog& P)
{
    LD best = 0;
    const bool any = optimum(P, best);
    const int k = ctx.choose(3, "start value");
    return k == 0 || !any ? -1e100 : k == 1 ? (double)best - .5 : (double)best + .5;
}
static void program(Ctx& ctx, int n, int extra, bool discs, bool opt)
{
    static const std::vector<Vec> C2 {{1, 1}, {-1, 2}, {0, -1}, {3, -1}};
    static const std::vector<Vec> C3 {{1, 1, 1}, {-1, 2, 0}, {0, -1, .5}};
    Prog P;
    P.n = n;
    const double w = 2;
    P.con = boxOf(n, w);
    for (int i = 0; i < extra; ++i) P.con.insert(P.con.begin(), pickCon(ctx, n, discs && i == 0));
    P.order = ctx.choose(3, "order");
    P.style = ctx.choose(3, "style");
    Vec x0(n, 0.0);
    if (ctx.flag("off centre")) for (int i = 0; i < n; ++i) x0[i] = i % 2 ? -1.5 : 1.75;
    LD R = 0;
    for (int i = 0; i < n; ++i) R += (w + fabsl(x0[i])) * (w + fabsl(x0[i]));
    ell E = makeEll(ctx, n, x0, (double)R * 1.01);
    E.no_defer_trick = ctx.flag("no_defer_trick");
    E.use_parallel_cut = P.style != 2 || ctx.choose(2, "parallel") == 0;
    if (opt)
    {
        std::vector<Vec> CN(3, Vec(n));
        for (int i = 0; i < n; ++i) { CN[0][i] = 1; CN[1][i] = i % 3 - 1; CN[2][i] = (i == 0) - 2 * (i == n - 1); }
        P.c = ctx.pick(n == 2 ? C2 : n == 3 ? C3 : CN, "objective");
        const double t0 = startValue(ctx, P);
        Prog Q = P; // feasible and better than t0 by a margin
        const LD in = inner(Q, w);
        solveDc(ctx, P, E, t0, 0, 2e-3, in > 0.02L ? in : 0);
        return;
    }
    unsigned calls = 0;
    const auto info = cutting_plane_feas(
        [&](const Arr& z) -> std::optional<PCut> {
            ++calls;
            Vec g; double f0, f1; bool par = false;
            if (!P.separate(fromArr(z), g, f0, f1, par)) return {};
            return PCut {toArr(g), par ? Arr {f0, f1} : Arr {f0}};
        },
        E, Options {(unsigned)(n > 3 ? 20000 : 2000), 1e-8});
    ctx.step(calls);
    const Vec x = fromArr(E.xc());
    const LD in = inner(P, w);
    ctx.LOG("feasible=%d x=%s after %zu (status %d); inner radius at least %.4Lg", info.feasible, show(x).c_str(), info.num_iters, (int)info.status, in);
    ctx.state(mc::mix(info.num_iters, info.feasible + 2 * (int)info.status));
    ctx.MUST(info.num_iters == calls, "%zu iterations are reported, %u queries were made", info.num_iters, calls);
    ctx.MUST(info.num_iters < (P.n > 3 ? 20000 : 2000), "no end");
    if (info.feasible)
        for (auto& c : P.con) ctx.MUST(margin(c, x) >= -1e-12L, "the point %s is called feasible, but violates a constraint", show(x).c_str());
    if (in >= 0.02L) ctx.MUST(info.feasible, "no feasible point is found, but the feasible set contains a ball of radius %.4Lg", in);
    else if (!info.feasible) ctx.MUST(info.status == CUTStatus::nosoln || info.status == CUTStatus::smallenough, "status %d", (int)info.status);
}
static void interval(Ctx& ctx)
{
    Prog P;
    P.n = 1;
    const double w = 2;
    P.con = boxOf(1, w);
    const std::vector<double> A {1, -2, .5}, B {-1.5, -.5, 0, .3, 1, 1.9};
    for (int i = 0; i < 2; ++i)
    {
        const double a = ctx.pick(A, "a");
        P.con.insert(P.con.begin(), Con {{a}, -INF, ctx.pick(B, "b"), false});
    }
    P.order = ctx.choose(3, "order");
    P.style = ctx.choose(2, "style");
    P.c = {ctx.pick(A, "c")};
    const double t0 = startValue(ctx, P);
    const LD in = inner(P, w);
    const int e = ctx.choose(3, "interval");
    ell1d E(e == 0 ? -2 : -3, e == 2 ? 5 : 2);
    solveDc(ctx, P, E, t0, 0, 1e-3, in > 0.02L ? in : 0);
}
//! what is feasible is a cap of a large initial ball: nearly all of it goes with the first cut
static void cap(Ctx& ctx, int n)
{
    const double R = ctx.pick(std::vector<double> {10, 1000, 1e5}, "R");
    const double h = ctx.pick(std::vector<double> {.3, .1, .03, .01, .003, .001}, "height");
    const int dir = ctx.choose(4, "direction");
    Vec a(n), x0(n);
    for (int i = 0; i < n; ++i) a[i] = dir == 0 ? i == 0 : dir == 1 ? 1 : dir == 2 ? (i * 5 + 2) % 7 - 3 : i == n - 1 ? -2 : .25;
    const bool off = ctx.flag("off centre");
    for (int i = 0; i < n; ++i) x0[i] = off ? 3 - i % 4 : 0;
    const double na = sqrt((double)dot(a, a)), lo = (double)dot(a, x0) + (1 - h) * R * na;
    const int style = ctx.choose(2, "style"), obj = ctx.choose(3, "objective");
    const bool defer = !ctx.flag("no_defer_trick");
    ell E = ctx.flag("shape") ? ell(toArr(Vec(n, R * R)), toArr(x0)) : ell(R * R, toArr(x0));
    E.no_defer_trick = !defer;
    auto separate = [&](const Vec& z, Vec& g, double& f) {
        const double v = (double)dot(a, z);
        g.resize(n);
        if (v < lo)
        {
            for (int i = 0; i < n; ++i) g[i] = -a[i];
            f = style ? 0 : lo - v;
            return true;
        }
        double q = 0;
        for (int i = 0; i < n; ++i) q += (z[i] - x0[i]) * (z[i] - x0[i]);
        if (q <= R * R) return false;
        for (int i = 0; i < n; ++i) g[i] = 2 * (z[i] - x0[i]);
        f = style ? 0 : q - R * R;
        return true;
    };
    auto inside = [&](const Vec& z) {
        LD q = 0;
        for (int i = 0; i < n; ++i) q += ((LD)z[i] - x0[i]) * ((LD)z[i] - x0[i]);
        return q <= (LD)R * R * (1 + 1e-12L) && dot(a, z) >= lo - 1e-12L * (fabs(lo) + R * na);
    };
    unsigned calls = 0;
    Vec x;
    CInfo info {false, 0, CUTStatus::success};
    double t = -1e100;
    const double sg = obj == 1 ? 1 : -1; // towards the tip of the cap, or towards its base
    if (obj == 0)
    {
        info = cutting_plane_feas(
            [&](const Arr& z) -> std::optional<SCut> {
                ++calls;
                Vec g; double f;
                if (!separate(fromArr(z), g, f)) return {};
                return SCut {toArr(g), f};
            }, E, Options {5000, 1e-12 * R * R});
        x = fromArr(E.xc());
    }
    else
    {
        const auto [xb, i] = cutting_plane_dc(
            [&](const Arr& z, double& tt) -> std::tuple<SCut, bool> {
                ++calls;
                Vec g; double f;
                if (separate(fromArr(z), g, f)) return {SCut {toArr(g), f}, false};
                const double v = sg * (double)dot(a, fromArr(z));
                for (int i = 0; i < n; ++i) g[i] = -sg * a[i];
                if (v > tt) { tt = v; return {SCut {toArr(g), 0}, true}; }
                return {SCut {toArr(g), tt - v}, false};
            }, E, t, Options {5000, 1e-12 * R * R});
        x = fromArr(xb);
        info = i;
    }
    ctx.step(calls);
    ctx.LOG("ball of radius %g, cap of height %g: feasible=%d t=%.12g after %zu (status %d)", R, h * R, info.feasible, t, info.num_iters, (int)info.status);
    ctx.state(mc::mix(info.num_iters, info.feasible + 2 * (int)info.status));
    ctx.MUST(info.feasible, "nothing feasible is found in a cap that holds a ball of radius %g (the initial radius is %g)", h * R / 2, R);
    ctx.MUST(inside(x), "the point %s returned is not feasible", show(x).c_str());
    if (obj == 0) return;
    const double top = sg > 0 ? (double)dot(a, x0) + R * na : -lo;
    ctx.MUST(fabsl(sg * dot(a, x) - t) <= 1e-12L * (fabs(t) + R * na), "the point returned does not have the value %.17g", t);
    ctx.MUST(t <= top + 1e-12 * (fabs(top) + R * na), "the value %.12g is above the optimum %.12g", t, top);
    ctx.MUST(top - t <= 1e-4 * R * na, "the run ends at %.12g, the optimum is %.12g", t, top);
}
static void reg()
{
    mc::add("feasibility 2d, one constraint", 3, "box + 1 of 30 linear or 4 disc constraints x order x style x start x shape x options", [](Ctx& c) { program(c, 2, 1, true, false); });
    mc::add("feasibility 2d, two constraints", 3, "box + 2 constraints x order x style x start x shape x options", [](Ctx& c) { program(c, 2, 2, true, false); });
    mc::add("feasibility 3d, one constraint", 3, "box + 1 of 24 constraints", [](Ctx& c) { program(c, 3, 1, false, false); });
    for (int n : {2, 3, 5, 8})
        mc::add(mc::fmt("cap of a large ball %dd", n), 3, "3 radii x 6 heights down to 1/1000 of the radius x 4 directions x start x style x options x 3 tasks",
            [n](Ctx& c) { cap(c, n); });
    for (int n : {4, 6, 9})
    {
        mc::add(mc::fmt("feasibility %dd", n), 3, "box + 1 of 18 constraints", [n](Ctx& c) { program(c, n, 1, false, false); });
        mc::add(mc::fmt("optimum %dd", n), 3, "box + 1 of 18 constraints x 3 objectives x 3 start values", [n](Ctx& c) { program(c, n, 1, false, true); });
    }
    mc::add("optimum 1d", 3, "box + 2 of 18 half-lines x 3 objectives x start values x intervals", interval);
    mc::add("optimum 2d, one constraint", 3, "as above x 4 objectives x 3 start values", [](Ctx& c) { program(c, 2, 1, true, true); });
    mc::add("optimum 3d, one constraint", 3, "3 objectives x 3 start values", [](Ctx& c) { program(c, 3, 1, false, true); });
    mc::add("optimum 2d, two constraints", 3, "as above x 4 objectives x 3 start values", [](Ctx& c) { program(c, 2, 2, true, true); });
    mc::add("optimum 3d, two constraints", 3, "3 objectives x 3 start values", [](Ctx& c) { program(c, 3, 2, false, true); });
    mc::add("feasibility 3d, two constraints", 3, "box + 2 of 24 constraints", [](Ctx& c) { program(c, 3, 2, false, false); });
}
#endif

#if PROP == 16
struct Design { std::vector<Vec> ap, as, anr; double L, U; };
static Arr toMat(const std::vector<Vec>& r)
{
    Arr a = xt::zeros<double>({r.size(), r[0].size()});
    for (size_t i = 0; i < r.size(); ++i)
        for (size_t j = 0; j < r[0].size(); ++j) a(i, j) = r[i][j];
    return a;
}
static bool inAll(const Design& d, const Vec& z, double S)
{
    if (z[0] < 0) return false;
    for (auto& r : d.ap) if (dot(r, z) > d.U || dot(r, z) < d.L) return false;
    for (auto& r : d.as) if (dot(r, z) > S || dot(r, z) < 0) return false;
    for (auto& r : d.anr) if (dot(r, z) < 0) return false;
    return true;
}
//! one query, judged: the answer, the cut, and every point of Z (times u) that must survive
static void judge(Ctx& ctx, lowpass_oracle& P, const Design& d, const Vec& x, double& sp, const std::vector<Vec>& Z, double u)
{
    const int n = (int)x.size();
    const double before = sp;
    const auto [cut, shrunk] = P(toArr(x), sp);
    ctx.step();
    const Vec g = fromArr(std::get<0>(cut)), f = fromArr(std::get<1>(cut));
    ctx.LOG("x=%s bound=%g -> %d g=%s f=%s bound=%g", show(x).c_str(), before, shrunk, show(g).c_str(), show(f).c_str(), sp);
    const bool ok = inAll(d, x, before);
    ctx.MUST(shrunk == ok, "x=%s, bound %g: improved=%d, but the point %s", show(x).c_str(), before, shrunk, ok ? "meets every constraint" : "violates one");
    ctx.MUST(g.size() == (size_t)n && (f.size() == 1 || f.size() == 2), "cut of size %zu, %zu", g.size(), f.size());
    // the forms a correct cut can have
    struct F { Vec g; double f0, f1; bool two; };
    std::vector<F> forms;
    auto neg = [](Vec v) { for (auto& q : v) q = -q; return v; };
    double top = -1e9;
    for (auto& r : d.as) top = std::max(top, (double)dot(r, x));
    if (ok)
    {
        ctx.MUST(sp == top, "the bound becomes %g, the largest stop-band value is %g", sp, top);
        for (auto& r : d.as) if ((double)dot(r, x) == top) forms.push_back({r, 0, top, true});
    }
    else
    {
        ctx.MUST(sp == before, "the bound changes from %g to %g at a point that violates a constraint", before, sp);
        if (x[0] < 0) { Vec e(n, 0.); e[0] = -1; forms.push_back({e, -x[0], 0, false}); }
        for (auto& r : d.ap)
        {
            const double v = dot(r, x);
            if (v > d.U) forms.push_back({r, v - d.U, v - d.L, true});
            if (v < d.L) forms.push_back({neg(r), d.L - v, d.U - v, true});
        }
        for (auto& r : d.as)
        {
            const double v = dot(r, x);
            if (v > before) forms.push_back({r, v - before, v, true});
            if (v < 0) forms.push_back({neg(r), -v, before - v, true});
        }
        for (auto& r : d.anr)
        {
            const double v = dot(r, x);
            if (v < 0) forms.push_back({neg(r), -v, 0, false});
        }
    }
    bool match = false;
    for (auto& q : forms) match = match || (q.g == g && q.f0 == f[0] && (f.size() == 1 || (q.two && q.f1 == f[1])));
    ctx.MUST(match, "x=%s, bound %g: the cut g=%s f=%s is not that of a constraint the point violates (or of the largest stop-band value)", show(x).c_str(),
        before, show(g).c_str(), show(f).c_str());
    ctx.state(mc::mix(mc::hstr(show(g)), mc::hstr(show(f))));
    Vec z;
    for (auto& zz : Z)
    {
        z = zz;
        for (auto& v : z) v *= u;
        if (!inAll(d, z, sp)) continue;
        LD q = f[0];
        for (int i = 0; i < n; ++i) q += (LD)g[i] * (z[i] - x[i]);
        ctx.ok();
        if (!(q <= 1e-12L * u)) ctx.fail("x=%s: the cut g=%s f=%s removes %s, which meets every constraint", show(x).c_str(), show(g).c_str(), show(f).c_str(), show(z).c_str());
        if (f.size() == 2)
            if (!(q - f[0] + f[1] >= -1e-12L * u)) ctx.fail("x=%s: the far side of the cut g=%s f=%s removes %s, which meets every constraint", show(x).c_str(),
                show(g).c_str(), show(f).c_str(), show(z).c_str());
    }
}
//! mode 1: everything in tiny or huge units; mode 2: points a hair beside the limits
static void design(Ctx& ctx, int n, int calls, bool big, int mode = 0)
{
    const double u = mode == 1 ? (ctx.choose(2, "unit") ? 1073741824. : 1. / 1073741824.) : 1.;
    static const std::vector<Vec> R2 {{1, 2}, {1, -1}, {1, 0}, {1, 1}, {1, -2}};
    static const std::vector<Vec> R3 {{1, 2, 2}, {1, 0, -2}, {1, -2, 2}, {1, 1, -1}, {1, -1, 0}};
    const auto& R = n == 2 ? R2 : R3;
    Design d;
    auto rows = [&](int m, int from) {
        std::vector<Vec> r;
        for (int i = 0; i < m; ++i) r.push_back(R[(from + 2 * i) % R.size()]);
        return r;
    };
    const int mp = ctx.range(1, 3, "pass rows"), ms = ctx.range(1, 3, "stop rows"), mr = ctx.range(0, big ? 2 : 1, "other rows") + (big ? 0 : 1);
    d.ap = rows(mp, ctx.choose(big ? 3 : 2, "pass"));
    d.as = rows(ms, ctx.choose(3, "stop") + 1);
    d.anr = mr ? rows(mr, 3) : rows(1, 2);
    const int lu = ctx.choose(2, "band");
    d.L = lu ? .5 : .75;
    d.U = lu ? 2.5 : 1.5;
    d.L *= u;
    d.U *= u;
    std::vector<Vec> X;
    const double h = std::ldexp(1., -36);
    const std::vector<double> v0 = mode == 2 ? std::vector<double> {-h, 0, .5, 1 - h, 1 + h} : std::vector<double> {-.5, 0, .5, 1, 2},
        v1 = mode == 2 ? std::vector<double> {-h, h, .25 - h, .25 + h, .5 + h} : std::vector<double> {-1, 0, .25, .75};
    for (double a : v0)
        for (double b : v1)
        {
            if (n == 2) X.push_back({a * u, b * u});
            else for (double c : {-.5, 0., .25}) X.push_back({a * u, b * u, c * u});
        }
    static std::vector<std::vector<Vec>> Zs(4);
    auto& Z = Zs[n];
    if (Z.empty())
    {
        const int K = n == 2 ? 12 : 6;
        for (int i = 0; i <= K; ++i)
            for (int j = -K; j <= K; ++j)
            {
                if (n == 2) Z.push_back({i * .25, j * .125});
                else for (int k = -K; k <= K; k += 2) Z.push_back({i * .5, j * .25, k * .125});
            }
    }
    const Arr Ap = toMat(d.ap), As = toMat(d.as), Anr = toMat(d.anr);
    lowpass_oracle P(Ap, As, Anr, d.L, d.U);
    const std::vector<double> S {2, .5, .125, 0};
    double sp = ctx.pick(S, "bound") * u;
    for (int s = 0; s < calls; ++s)
    {
        const Vec& x = ctx.pick(X, "x");
        judge(ctx, P, d, x, sp, Z, u);
    }
}
//! many coefficients and rows: a cosine table in eighths
static void designLarge(Ctx& ctx, int n, int rows, int calls)
{
    auto row = [&](int k) {
        Vec r(n);
        for (int j = 0; j < n; ++j) r[j] = (j ? 2 : 1) * std::round(8 * std::cos(3.14159265358979 * k * j / (rows - 1))) / 8;
        return r;
    };
    Design d;
    const int wp = rows / 3, ws = rows / 2;
    for (int k = 0; k < rows; ++k) (k <= wp ? d.ap : k >= ws ? d.as : d.anr).push_back(row(k));
    d.L = .75;
    d.U = 1.5;
    static std::map<std::pair<int, int>, std::vector<Vec>> Xs;
    auto& X = Xs[{n, rows}];
    if (X.empty())
    {
        // an ideal response, scaled, with one or two coefficients off
        Vec c(n);
        for (int j = 0; j < n; ++j) c[j] = (j ? std::sin(3.14159265358979 * .4 * j) / (3.14159265358979 * j) * (1 - j / (n + 1.)) : .45);
        for (auto& v : c) v = std::round(v * 64) / 64;
        for (double sc : {0., .5, 1., 1.25, 2.})
            for (int i = 0; i < n; ++i)
                for (double e : {0., .125, -.125, -.5, 1 / 64.})
                {
                    Vec x = c;
                    for (auto& v : x) v *= sc;
                    x[i] += e;
                    if (e || !i) X.push_back(x);
                }
    }
    const Arr Ap = toMat(d.ap), As = toMat(d.as), Anr = toMat(d.anr);
    lowpass_oracle P(Ap, As, Anr, d.L, d.U);
    double sp = ctx.pick(std::vector<double> {3, .25, .0625}, "bound");
    for (int s = 0; s < calls; ++s) judge(ctx, P, d, ctx.pick(X, "x"), sp, X, 1);
}
//! a complete design: the bound reached is the best on a fine grid, up to the accuracy
static void designSolve(Ctx& ctx)
{
    static const std::vector<Vec> R {{1, 2}, {1, -1}, {1, 0}, {1, 1}, {1, -2}};
    Design d;
    d.ap = {R[ctx.choose(5, "p1")], R[ctx.choose(5, "p2")]};
    d.as = {R[ctx.choose(5, "s1")], R[ctx.choose(5, "s2")]};
    d.anr = {R[ctx.choose(5, "r1")]};
    d.L = .75;
    d.U = 1.5;
    const Arr Ap = toMat(d.ap), As = toMat(d.as), Anr = toMat(d.anr);
    lowpass_oracle P(Ap, As, Anr, d.L, d.U);
    ell E(40., Arr {0., 0.});
    E.use_parallel_cut = !ctx.flag("no parallel cut");
    double sp = 3;
    const auto [x, info] = cutting_plane_dc(P, E, sp, Options {2000, 1e-10});
    ctx.step(info.num_iters);
    double best = 1e9;
    LD room = -1;
    for (int i = 0; i <= 128; ++i)
        for (int j = -96; j <= 96; ++j)
        {
            const Vec z {i / 32., j / 32.};
            if (!inAll(d, z, 3)) continue;
            double top = 0;
            for (auto& r : d.as) top = std::max(top, (double)dot(r, z));
            best = std::min(best, top);
            LD m = std::min(z[0], 3 - top);
            for (auto& r : d.ap) m = std::min({m, d.U - dot(r, z), dot(r, z) - d.L});
            for (auto& r : d.as) m = std::min(m, dot(r, z));
            for (auto& r : d.anr) m = std::min(m, dot(r, z));
            room = std::max(room, m);
        }
    ctx.LOG("design -> feasible=%d bound=%.9g x=%s; grid %.9g, room %.4Lg", info.feasible, sp, show(fromArr(x)).c_str(), best, room);
    ctx.state(mc::hdbl(std::round(sp * 1e3)));
    if (info.feasible)
    {
        ctx.MUST(x.size() == 2, "no point");
        const Vec z = fromArr(x);
        ctx.MUST(z[0] >= 0, "x0 < 0");
        double top = -9;
        for (auto& r : d.as) { ctx.MUST(dot(r, z) >= -1e-12L, "stop-band value below 0"); top = std::max(top, (double)dot(r, z)); }
        for (auto& r : d.ap) ctx.MUST(dot(r, z) >= d.L - 1e-12L && dot(r, z) <= d.U + 1e-12L, "pass-band violated");
        for (auto& r : d.anr) ctx.MUST(dot(r, z) >= -1e-12L, "non-negativity violated");
        ctx.MUST(std::abs(top - sp) <= 1e-12, "the design returned has the bound %.12g, not %.12g", top, sp);
    }
    if (room > 0.05L) ctx.MUST(info.feasible && sp <= best + 0.02, "the design ends at %.9g, %.9g is possible", sp, best);
}
static void reg()
{
    mc::add("2 coefficients, 2 calls", 6, "1..3 pass x 1..3 stop x 1..2 other rows, 2 bands, 4 bounds, 20^2 points", [](Ctx& c) { design(c, 2, 2, false); });
    mc::add("3 coefficients, 1 call", 6, "the same with 60 points", [](Ctx& c) { design(c, 3, 1, true); });
    mc::add("tiny and huge units", 6, "units 2^-30, 2^30; otherwise as the first scenario with one call", [](Ctx& c) { design(c, 2, 1, false, 1); });
    mc::add("tiny and huge units, 3 coefficients", 6, "units 2^-30, 2^30; as the second scenario", [](Ctx& c) { design(c, 3, 1, true, 1); });
    mc::add("a hair beside the limits", 6, "as the first scenario with 25^2 points 2^-36 beside the limits", [](Ctx& c) { design(c, 2, 2, false, 2); });
    mc::add("5 coefficients, 16 rows", 5, "a cosine table: 3 bounds x 105 points, 2 calls", [](Ctx& c) { designLarge(c, 5, 16, 2); });
    mc::add("9 coefficients, 40 rows", 5, "a cosine table: 3 bounds x 185 points, 2 calls", [](Ctx& c) { designLarge(c, 9, 40, 2); });
    mc::add("5 coefficients, 300 rows", 5, "a cosine table: 3 bounds x 105 points", [](Ctx& c) { designLarge(c, 5, 300, 1); });
    mc::add("3 coefficients, 1200 rows", 5, "a cosine table: 3 bounds x 55 points", [](Ctx& c) { designLarge(c, 3, 1200, 1); });
    mc::add("complete designs", 3, "5^5 constraint rows x parallel cuts on or off, 2 coefficients", designSolve);
    mc::add("2 coefficients, 3 calls", 6, "20^3 points", [](Ctx& c) { design(c, 2, 3, false); }, 2);
    mc::add("3 coefficients, 2 calls", 6, "60^2 points", [](Ctx& c) { design(c, 3, 2, false); }, 2);
}
#endif

#if PROP == 17
struct Par { double p, A, k; Vec a, v; };
static LD profit(const Par& q, const Vec& y)
{
    const LD cobb = (LD)q.p * q.A * expl(q.a[0] * (LD)y[0] + q.a[1] * (LD)y[1]);
    return cobb - q.v[0] * expl(y[0]) - q.v[1] * expl(y[1]);
}
//! linearisation at y of log(t + v'e^y) - log(pA) - a'y
static void form(const Par& q, const Vec& y, LD t, std::vector<LD>& g, LD& h)
{
    const LD x0 = q.v[0] * expl(y[0]), x1 = q.v[1] * expl(y[1]), te = t + x0 + x1;
    g = {x0 / te - q.a[0], x1 / te - q.a[1]};
    h = logl(te) - logl((LD)q.p * q.A) - q.a[0] * (LD)y[0] - q.a[1] * (LD)y[1];
}
//! units: money in millionths or in millions
static double UNIT = 1;
static Par pickPar(Ctx& ctx, bool small = false, bool units = false)
{
    UNIT = units ? (ctx.choose(2, "unit of money") ? 1e6 : 1e-6) : 1;
    static const std::vector<Vec> As {{.1, .4}, {.5, .25}, {.3, .6}}, Vs {{10, 35}, {2, 1}, {1, 8}};
    Par q;
    const int s = ctx.choose(2, "p, A");
    q.p = s ? 3 : 20;
    q.A = s ? 5 : 40;
    q.k = ctx.flag("k") ? 3.5 : 30.5;
    q.a = ctx.pick(As, "a");
    q.v = small ? Vs[ctx.choose(2, "v")] : ctx.pick(Vs, "v");
    q.p *= UNIT;
    for (auto& v : q.v) v *= UNIT;
    return q;
}
static const std::vector<double>& yGrid()
{
    static const std::vector<double> Y {-1.5, -.25, 0, .5, 1.2, 2, 3.3, 4.1};
    return Y;
}
static const std::vector<double>& ySmall()
{
    static const std::vector<double> Y {-.25, .5, 1.2, 3.3};
    return Y;
}
static const std::vector<Vec>& zGrid()
{
    static std::vector<Vec> Z;
    if (Z.empty())
        for (double a = -3; a <= 5; a += .5)
            for (double b = -3; b <= 6; b += .5) Z.push_back({a, b});
    return Z;
}
static bool near(LD a, LD b, LD tol) { return fabsl(a - b) <= tol * (1 + fabsl(a) + fabsl(b)); }

//! judge one answer of a continuous oracle at y; worst(z) is the profit that counts
static const std::vector<LD>& onGrid(const std::vector<double>& key, const std::function<LD(const Vec&)>& worst)
{
    static std::map<std::vector<double>, std::vector<LD>> cache;
    auto& v = cache[key];
    if (v.empty()) for (auto& z : zGrid()) v.push_back(worst(z));
    return v;
}
static std::vector<double> keyOf(const Par& q) { return {q.p, q.A, q.k, q.a[0], q.a[1], q.v[0], q.v[1]}; }
template <class Worst>
static void judge(Ctx& ctx, const Par& q, double kmin, const Vec& y, double t0, double t1, const Vec& g, double h, bool shrunk, Worst worst, const std::vector<LD>& gridWorst)
{
    const LD pr = worst(y), room = logl((LD)kmin) - y[0];
    const LD tol = 1e-12L * (UNIT + fabsl(pr) + q.v[0] * expl(y[0]) + q.v[1] * expl(y[1]));
    const bool inside = room >= 0, surely = fabsl(room) > 1e-12L && fabsl(pr - t0) > 10 * tol;
    ctx.MUST(g.size() == 2 && std::isfinite(g[0]) && std::isfinite(g[1]) && std::isfinite(h), "cut g=%s h=%g", show(g).c_str(), h);
    if (surely)
        ctx.MUST(shrunk == (inside && pr > t0), "y=%s, best %.9g: improved=%d, but the profit is %.9Lg and the limit is %s", show(y).c_str(), t0, shrunk, pr,
            inside ? "kept" : "exceeded");
    if (shrunk)
    {
        ctx.MUST(fabsl(t1 - pr) <= 20 * tol, "y=%s: the best value becomes %.12g, the profit is %.12Lg", show(y).c_str(), t1, pr);
        ctx.MUST(h <= 1e-12 && h >= -1e-12, "an improving point is cut off by %g", h);
    }
    else
    {
        ctx.MUST(t1 == t0, "y=%s: the best value changes from %.12g to %.12g without improvement", show(y).c_str(), t0, t1);
        if (surely) ctx.MUST(h > 0, "y=%s: the cut g=%s h=%g does not cut the point off", show(y).c_str(), show(g).c_str(), h);
    }
    // exact form
    std::vector<LD> gg;
    LD hh;
    form(q, y, t1, gg, hh);
    if (shrunk) hh = 0;
    const bool isProfit = near(g[0], gg[0], 1e-11L) && near(g[1], gg[1], 1e-11L) && near(h, hh, 1e-11L);
    const bool isLimit = g[0] == 1 && g[1] == 0 && near(h, -room, 1e-12L);
    if (surely)
        ctx.MUST((inside && isProfit) || (!inside && (isLimit || isProfit)), "y=%s best %.9g: the cut g=%s h=%.9g is not that of what the point violates: g=(%.9Lg %.9Lg) h=%.9Lg",
            show(y).c_str(), t0, show(g).c_str(), h, gg[0], gg[1], hh);
    const LD lk = logl((LD)kmin);
    for (size_t i = 0; i < gridWorst.size(); ++i)
    {
        const Vec& z = zGrid()[i];
        if (z[0] > lk - 1e-9L || gridWorst[i] < t1 + 1e-9L * (UNIT + std::abs(t1))) continue;
        const LD c = g[0] * ((LD)z[0] - y[0]) + g[1] * ((LD)z[1] - y[1]) + h;
        ctx.ok();
        if (!(c <= 1e-9L)) ctx.fail("y=%s best %.9g: the cut g=%s h=%.9g removes %s, which earns %.9Lg", show(y).c_str(), t1, show(g).c_str(), h, show(z).c_str(), gridWorst[i]);
    }
}
static double pickT(Ctx& ctx, const std::function<LD(const Vec&)>& f)
{
    // absolute values, and values just above and below what grid points earn
    static const std::vector<double> T {0, 1, 25, 400, 3000};
    const int k = ctx.choose(8, "best value");
    if (k < 5) return T[k] * UNIT;
    const LD v = f({1.2, .5});
    return (double)std::max(0.0L, k == 5 ? v * .999L : k == 6 ? v * 1.001L : f({2, 2}) * .9L);
}
//! best values that differ from the profit at the point itself by a hair
static double closeT(Ctx& ctx, const std::function<LD(const Vec&)>& f, const Par& q, const Vec& y)
{
    static const std::vector<double> D {-1e-5, -1e-8, -1e-10, 1e-10, 1e-8, 1e-5};
    const LD v = f(y), scale = UNIT + fabsl(v) + q.v[0] * expl(y[0]) + q.v[1] * expl(y[1]);
    const double d = ctx.pick(D, "margin");
    if (v + d * scale < 0) ctx.prune();
    return (double)(v + d * scale);
}
//! a first coordinate that keeps or exceeds the input limit by a hair, or one of the grid
static double closeY(Ctx& ctx, double kmin)
{
    static const std::vector<double> D {-1e-6, -1e-9, -1e-11, 1e-11, 1e-9, 1e-6};
    const int k = ctx.choose(10, "y0");
    return k < 6 ? (double)(logl((LD)kmin) + D[k]) : ySmall()[k - 6];
}
static void plain(Ctx& ctx, int calls, bool units = false, bool close = false)
{
    const auto& Y = calls > 1 && !ctx.thorough ? ySmall() : yGrid();
    const Par q = pickPar(ctx, false, units);
    auto w = [&](const Vec& z) { return profit(q, z); };
    const auto& W = onGrid(keyOf(q), w);
    double t = close ? 0 : pickT(ctx, w);
    profit_oracle P(q.p, q.A, q.k, toArr(q.a), toArr(q.v));
    for (int s = 0; s < calls; ++s)
    {
        const double y0 = close ? closeY(ctx, q.k) : ctx.pick(Y, "y0");
        const Vec y {y0, ctx.pick(Y, "y1")};
        if (close) t = closeT(ctx, w, q, y);
        const double t0 = t;
        const auto [cut, shrunk] = P(toArr(y), t);
        ctx.step();
        const Vec g = fromArr(std::get<0>(cut));
        const double h = std::get<1>(cut);
        ctx.LOG("y=%s t=%.9g -> %d g=%s h=%.9g t=%.9g", show(y).c_str(), t0, shrunk, show(g).c_str(), h, t);
        ctx.state(mc::mix(mc::hdbl(h), mc::hdbl(t)));
        judge(ctx, q, q.k, y, t0, t, g, h, shrunk, w, W);
    }
}
static void robust(Ctx& ctx, int calls, bool units = false, bool close = false)
{
    const auto& Y = calls > 1 ? ySmall() : yGrid();
    const Par q = pickPar(ctx, calls > 1, units);
    const int u = ctx.choose(3, "uncertainty");
    const Vec e = u == 0 ? Vec {.003, .007} : u == 1 ? Vec {.05, 0} : Vec {.02, .1};
    const double e3 = (u == 0 ? .9 : u == 1 ? 0 : .5) * std::min(1., UNIT);
    auto worst = [&](const Vec& z) {
        LD m = 1e30L;
        for (int c = 0; c < 32; ++c)
        {
            Par r = q;
            r.a = {q.a[0] + (c & 1 ? e[0] : -e[0]), q.a[1] + (c & 2 ? e[1] : -e[1])};
            r.p = q.p + (c & 4 ? e3 : -e3);
            r.v = {q.v[0] + (c & 8 ? e3 : -e3), q.v[1] + (c & 16 ? e3 : -e3)};
            m = std::min(m, profit(r, z));
        }
        return m;
    };
    auto key = keyOf(q);
    key.push_back(u);
    const auto& W = onGrid(key, worst);
    double t = close ? 0 : pickT(ctx, worst);
    profit_rb_oracle P(q.p, q.A, q.k, toArr(q.a), toArr(q.v), toArr(e), e3);
    for (int s = 0; s < calls; ++s)
    {
        const double y0 = close ? closeY(ctx, q.k - e3) : ctx.pick(Y, "y0");
        const Vec y {y0, ctx.pick(Y, "y1")};
        if (close) t = closeT(ctx, worst, q, y);
        const double t0 = t;
        const auto [cut, shrunk] = P(toArr(y), t);
        ctx.step();
        const Vec g = fromArr(std::get<0>(cut));
        const double h = std::get<1>(cut);
        ctx.LOG("robust y=%s t=%.9g -> %d g=%s h=%.9g t=%.9g", show(y).c_str(), t0, shrunk, show(g).c_str(), h, t);
        ctx.state(mc::mix(mc::hdbl(h), mc::hdbl(t)));
        // the worst parameters at y; where an exponent does not matter (y = 0) take the form it has
        Par r = q;
        r.p = q.p - e3;
        r.v = {q.v[0] + e3, q.v[1] + e3};
        for (int i = 0; i < 2; ++i) r.a[i] = q.a[i] + (y[i] > 0 ? -e[i] : e[i]);
        for (int i = 0; i < 2; ++i)
            if (y[i] == 0)
            {
                std::vector<LD> gg; LD hh;
                form(r, y, t, gg, hh);
                if (!near(g[i], gg[i], 1e-11L)) r.a[i] = q.a[i] - e[i];
            }
        judge(ctx, r, q.k - e3, y, t0, t, g, h, shrunk, worst, W);
    }
}
static void discrete(Ctx& ctx, int calls, bool units = false, bool close = false)
{
    const auto& Y = calls > 1 && !(ctx.thorough && calls == 2) ? ySmall() : yGrid();
    const Par q = pickPar(ctx, calls > 2, units);
    auto w = [&](const Vec& z) { return profit(q, z); };
    const auto& W = onGrid(keyOf(q), w);
    double t = close ? 0 : pickT(ctx, w);
    profit_q_oracle P(q.p, q.A, q.k, toArr(q.a), toArr(q.v));
    Vec yd;
    for (int s = 0; s < calls; ++s)
    {
        const bool retry = s > 0 && ctx.flag("retry");
        const Vec y {ctx.pick(Y, "y0"), ctx.pick(Y, "y1")};
        if (close) t = closeT(ctx, w, q, {std::log(std::max(1., std::round(std::exp(y[0])))), std::log(std::max(1., std::round(std::exp(y[1]))))});
        const double t0 = t;
        const auto [cut, x0, shrunk, more] = P(toArr(y), t, retry);
        ctx.step();
        const Vec g = fromArr(std::get<0>(cut)), got = fromArr(x0);
        const double h = std::get<1>(cut);
        if (!retry)
        {
            yd.clear();
            for (double v : y) yd.push_back((double)logl(std::max(1.0L, roundl(expl(v)))));
        }
        ctx.LOG("discrete y=%s t=%.9g retry=%d -> %d more=%d x0=%s g=%s h=%.9g t=%.9g", show(y).c_str(), t0, retry, shrunk, more, show(got).c_str(),
            show(g).c_str(), h, t);
        ctx.state(mc::mix(mc::hdbl(h), mc::hdbl(t)));
        ctx.MUST(more == !retry, "an alternative cut is announced: %d, after retry=%d", more, retry);
        ctx.MUST(got.size() == 2 && near(got[0], yd[0], 1e-14L) && near(got[1], yd[1], 1e-14L), "y=%s retry=%d: evaluated at %s, the integer point is %s", show(y).c_str(),
            retry, show(got).c_str(), show(yd).c_str());
        // moved back to the integer point, the cut is that of the continuous oracle
        const LD right = h - (g[0] * ((LD)y[0] - yd[0]) + g[1] * ((LD)y[1] - yd[1]));
        const LD wrong = h + (g[0] * ((LD)y[0] - yd[0]) + g[1] * ((LD)y[1] - yd[1]));
        Par Q = q;
        std::vector<LD> gg;
        LD hh;
        form(q, yd, t, gg, hh);
        if (shrunk) hh = 0;
        const LD lim = yd[0] - logl((LD)q.k);
        const LD want = g[0] == 1 && g[1] == 0 && lim > 0 ? lim : hh;
        LD use = right;
        if (!near(right, want, 1e-11L) && near(wrong, want, 1e-11L))
        {
            ctx.known("profit_q-sign", "profit_q_oracle moves its cut from the integer point to the query point with the wrong sign: h += g'(yd - y) instead of g'(y - yd)");
            use = wrong;
        }
        judge(ctx, Q, q.k, yd, t0, t, g, (double)(std::abs((double)use) < 1e-12 ? 0 : use), shrunk, w, W);
    }
}
static void reg()
{
    mc::add("plain, 1 call", 3, "36 parameter sets x 8 best values x 64 points", [](Ctx& c) { plain(c, 1); });
    mc::add("robust, 1 call", 3, "36 parameter sets x 3 boxes x 8 best values x 64 points", [](Ctx& c) { robust(c, 1); });
    mc::add("discrete, 1 call", 3, "36 parameter sets x 8 best values x 64 points", [](Ctx& c) { discrete(c, 1); });
    mc::add("plain, units", 3, "money in millionths or millions x 36 parameter sets x 8 best values x 64 points", [](Ctx& c) { plain(c, 1, true); });
    mc::add("robust, units", 3, "money in millionths or millions, as above", [](Ctx& c) { robust(c, 1, true); });
    mc::add("discrete, units", 3, "money in millionths or millions, as above", [](Ctx& c) { discrete(c, 1, true); });
    mc::add("plain, close", 3, "points next to the input limit, best values next to the profit of the point", [](Ctx& c) { plain(c, 1, false, true); });
    mc::add("robust, close", 3, "points next to the input limit, best values next to the worst-case profit of the point", [](Ctx& c) { robust(c, 1, false, true); });
    mc::add("discrete, close", 3, "best values next to the profit of the integer point", [](Ctx& c) { discrete(c, 1, false, true); });
    mc::add("discrete, 2 calls", 4, "16^2 (64^2) points x retry", [](Ctx& c) { discrete(c, 2); });
    mc::add("plain, 2 calls", 4, "16^2 (64^2) points", [](Ctx& c) { plain(c, 2); });
    mc::add("robust, 2 calls", 4, "24 parameter sets x 16^2 points", [](Ctx& c) { robust(c, 2); });
    mc::add("discrete, 3 calls", 4, "24 parameter sets x 16^3 points x retry", [](Ctx& c) { discrete(c, 3); }, 2);
}
#endif

int main(int argc, char** argv)
{
    reg();
    return mc::main(argc, argv);
}
