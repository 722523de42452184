// C01..C04: the ellipsoid search spaces (ell, ell_stable).
// PROP selects what is decided on every explored transition.
#include "ref.hpp"
#include <ellcpp/ell.hpp>
#include <ellcpp/ell_stable.hpp>
#include <memory>

#ifndef PROP
#define PROP 1
#endif

using mc::Ctx;

static const LD TOL = 1e-6L;

struct Spec
{
    int kind;      // 0 double, 1 array of one, 2 pair
    double f0, f1; // fractions of tau
};

static std::vector<std::vector<double>> dirs(int n, int level)
{
    std::vector<std::vector<double>> r;
    auto v = [&](auto f) {
        std::vector<double> g(n);
        for (int i = 0; i < n; ++i) g[i] = f(i);
        r.push_back(g);
    };
    v([&](int i) { return i == 0 ? 1. : 0.; });
    v([&](int i) { return i % 3 == 0 ? 1. : i % 3 == 1 ? -2. : 0.5; });
    v([&](int i) { return 1000. * (i == n - 1 ? -1. : i == 1 ? 0. : 0.3); });
    if (level == 0) return r;
    v([&](int i) { return i == n - 1 ? -1. : 0.; });
    v([&](int) { return 1.; });
    v([&](int i) { return 1e-3 * (i == 0 ? 0. : (i % 2 ? 1. : -0.7)); });
    return r;
}

static std::vector<Spec> specs(int n, int level)
{
    const double e = 1. / n;
    std::vector<Spec> r {{0, 0., 0}, {0, .3, 0}, {0, -e + .05, 0}, {2, 0., .5}, {2, -.2, .2},
        {2, .2, .6}, {2, -.3, .5}, {0, -e - .05, 0}, {0, 1.001, 0}, {2, .3, .2}};
    if (level == 0) return r;
    for (Spec s : std::vector<Spec> {{0, -1.5, 0}, {0, -.1, 0}, {0, 1e-6, 0}, {0, .1, 0},
             {0, .5, 0}, {0, .9, 0}, {0, .999, 0}, {0, 2., 0}, {1, .3, 0}, {1, 0, 0},
             {1, -.1, 0}, {1, -.9, 0}, {1, 1.5, 0}, {2, 0., 1e-3}, {2, 0., 1.}, {2, 0., 1.5},
             {2, 0., .999}, {2, .2, 1.5}, {2, .2, .2001}, {2, -.1, .1 + 1e-9},
             {2, -.1, .1 - 1e-13}, {2, -.001, .001}, {2, -.5, .1}, {2, .3, -.5},
             {2, -.9, .95}, {2, -.05, 2.}, {2, 1.2, 1.5}, {2, 1.2, .5}, {2, -2., .3},
             {2, -.6, -.2}, {2, -.001, .3}, {2, .7, .99}, {2, -.8, .1}, {2, .3, .98},
             {2, -e, .9}, {2, -3., 3.}, {2, .5, -.999}})
        r.push_back(s);
    if (level == 1) return r;
    // a hair beside the limits between two answers
    const double q = std::sqrt(e);
    for (double h : {1e-6, -1e-6})
        for (Spec s : std::vector<Spec> {{0, -e + h, 0}, {0, 1 + h, 0}, {0, h, 0}, {1, 1 + h, 0}, {2, -q + h, q},
                 {2, 0., 1 + h}, {2, .4, 1 + h}, {2, -e + h, 1.}, {2, h, .6}})
            r.push_back(s);
    return r;
}

//! squared radii of the tiny and the huge start ellipsoids (init 3,4: balls; 5,6: axes)
static const double RADII[2] = {1e-20, 1e20};

template <class S>
struct Maker
{
    static S make(int init, int n)
    {
        std::vector<double> x(n), d(n);
        for (int i = 0; i < n; ++i)
        {
            x[i] = init == 0 || init >= 3 ? 0. : 0.5 - 0.75 * i;
            d[i] = (init >= 5 ? RADII[init - 5] : 1.) * (0.5 + 1.5 * i);
        }
        if (init == 3 || init == 4) return S {RADII[init - 3], toArr(x)};
        if (init == 0) return S {1., toArr(x)};
        if (init == 1) return S {0.04, toArr(x)};
        return S {toArr(d), toArr(x)};
    }
    static RefEll ref(int init, int n)
    {
        RefEll E;
        E.P = LMat(n);
        for (int i = 0; i < n; ++i)
        {
            E.xc.push_back(init == 0 || init >= 3 ? 0. : 0.5 - 0.75 * i);
            E.P(i, i) = init == 0 ? 1. : init == 1 ? (LD)0.04 : init == 2 ? 0.5 + 1.5 * i
                : init <= 4 ? RADII[init - 3] : (LD)RADII[init - 5] * (0.5 + 1.5 * i);
        }
        return E;
    }
};

struct Expect
{
    CUTStatus status;
    bool exact;   // the status is determined by the property
    bool minvol;  // the result is the minimum-volume ellipsoid of the slab
    LD lo, hi;    // kept part in units of tau
    Slab slab;
    bool shrink;  // volume must go down
};

//! what the documentation promises for a cut (fractions of tau)
static Expect expect(int n, const Spec& s, bool parallelOn)
{
    Expect x {};
    x.exact = x.minvol = true;
    x.lo = -1;
    x.hi = -s.f0;
    const bool pair = s.kind == 2;
    if (pair && parallelOn && s.f1 < 1)
    {
        x.lo = -s.f1;
        if (s.f1 < s.f0) // |b1| <= tau in every alphabet entry
        {
            x.status = CUTStatus::nosoln;
            return x;
        }
        if (s.f0 < -1) { x.minvol = false; x.exact = false; x.hi = 1; }
    }
    if (s.f0 > 1)
    {
        x.status = CUTStatus::nosoln;
        return x;
    }
    x.slab = lowner(n, x.lo, std::min<LD>(x.hi, 1.0L));
    if (x.hi > 1) x.hi = 1;
    if (fabsl(n * x.lo * x.hi + 1) < 1e-9L) x.exact = false; // on the boundary
    x.status = x.slab.noeffect ? CUTStatus::noeffect : CUTStatus::success;
    if (!pair && s.f0 < -1) x.status = CUTStatus::noeffect;
    x.shrink = x.status == CUTStatus::success && n * x.lo * x.hi > -0.99L;
    return x;
}

static LD minPivot(const RefEll& E)
{
    LMat C(E.P.n), L;
    for (int i = 0; i < E.P.n; ++i)
        for (int j = 0; j < E.P.n; ++j)
            C(i, j) = E.P(i, j) / sqrtl(E.P(i, i) * E.P(j, j));
    if (!chol(C, L)) return 0;
    LD m = 1;
    for (int i = 0; i < E.P.n; ++i) m = std::min(m, L(i, i));
    return m;
}
//! accuracy to which the shape E can be observed through double arithmetic
static LD tolFor(const RefEll& E)
{
    const LD m = minPivot(E);
    return m > 0 ? TOL + 1e-13L / (m * m) : INFINITY;
}

/*! The recorded defect of ell_stable (known_findings.txt, ell_stable-update):
 *  its rank-one update leaves the off-diagonal part of the factor alone and its
 *  back substitution reads the pivots, so that Q stays diagonal.  This model is
 *  the only deviation from the specification that counts as that finding. */
struct StableDefect
{
    std::vector<LD> q, xc;
    LD kappa = 1;
    LD kerr = 0;    // possible relative error of kappa
    LD tol = 1e-6L; // what rounding may do in the last update
    void init(int in, int n)
    {
        for (int i = 0; i < n; ++i)
        {
            xc.push_back(in == 0 || in >= 3 ? 0. : 0.5 - 0.75 * i);
            q.push_back(in == 2 ? 0.5 + 1.5 * i : in >= 5 ? (LD)RADII[in - 5] * (0.5 + 1.5 * i) : 1.);
        }
        kappa = in == 1 ? (LD)0.04 : in == 3 || in == 4 ? (LD)RADII[in - 3] : 1;
    }
    RefEll ell() const
    {
        RefEll E;
        E.xc = xc;
        E.P = LMat((int)q.size());
        for (size_t i = 0; i < q.size(); ++i) E.P(i, i) = kappa * q[i];
        return E;
    }
    void update(const RCut& c, bool parallelOn, CUTStatus& st, LD& tsq, bool& edge)
    {
        const int n = (int)q.size();
        LD om = 0;
        for (int i = 0; i < n; ++i) om += q[i] * c.g[i] * c.g[i];
        tsq = kappa * om;
        const LD tau = sqrtl(tsq), f0 = c.b0 / tau, f1 = c.b1 / tau;
        LD lo = -1;
        const LD hi = -f0;
        edge = fabsl(f0 - 1) < 1e-9L;
        if (c.kind == 2 && parallelOn)
        {
            edge |= fabsl(f1 - 1) < 1e-9L || fabsl(f1 + 1) < 1e-9L || fabsl(f1 - f0) < 1e-9L;
            if (f1 * f1 <= 1)
            {
                if (f1 < f0) { st = CUTStatus::nosoln; return; }
                lo = -f1;
            }
        }
        if (lo == -1 && f0 > 1) { st = CUTStatus::nosoln; return; }
        edge |= fabsl(n * lo * hi + 1) < 1e-9L;
        const Slab s = lowner(n, lo, hi);
        if (s.noeffect) { st = CUTStatus::noeffect; return; }
        st = CUTStatus::success;
        std::vector<LD> Qg(n);
        for (int i = 0; i < n; ++i) Qg[i] = q[i] * c.g[i];
        for (int i = n - 1; i > 0; --i) Qg[i - 1] -= q[i] * Qg[i];
        for (int i = 0; i < n; ++i) xc[i] += s.c * tau / om * Qg[i];
        const LD sigma = 1 - s.p2 / s.q2, mu = sigma / (1 - sigma);
        LD oldt = om / mu;
        for (int i = 0; i < n; ++i)
        {
            const LD t = oldt + q[i] * c.g[i] * c.g[i];
            q[i] *= oldt / t;
            oldt = t;
        }
        kappa *= s.q2;
        tol = 1e-6L + 1e-13L * s.q2 / s.p2;
        kerr += 1e-15L + 1e-19L * s.q2 / s.p2;
        for (int i = 0; i < n; ++i)
            tol += ((1e-14L + kerr) * (fabsl(xc[i]) + fabsl(s.c * tau / om * Qg[i])) + 1e-15L * fabsl(tau / om * Qg[i])) / sqrtl(kappa * q[i]);
    }
    //! take over the (matching) observed state, so that rounding does not add up
    void sync(const RefEll& o)
    {
        for (size_t i = 0; i < q.size(); ++i)
        {
            xc[i] = o.xc[i];
            q[i] = o.P((int)i, (int)i) / kappa;
        }
    }
};
static const char* STABLE_KEY = "ell_stable-update";
static const char* STABLE_DESC = "ell_stable::update leaves the off-diagonal factor alone and "
    "back-substitutes with the pivots: for any cut other than along the first axis the new "
    "ellipsoid is not the one it stands for";

static bool wellCond(const RefEll& E)
{
    LMat C(E.P.n), L;
    for (int i = 0; i < E.P.n; ++i)
    {
        // the centre must be representable to a small part of the semi-axes
        if (!(E.P(i, i) > 1e-14L * E.xc[i] * E.xc[i])) return false;
        for (int j = 0; j < E.P.n; ++j)
            C(i, j) = E.P(i, j) / sqrtl(E.P(i, i) * E.P(j, j));
    }
    if (!chol(C, L)) return false;
    for (int i = 0; i < E.P.n; ++i)
        if (!(L(i, i) > 1e-2L)) return false;
    return true;
}

//! points of E that the cut keeps: poles and rims of several slices
static std::vector<LVec> keptPoints(const RefEll& E, const LMat& L,
    const std::vector<double>& g, LD lo, LD hi)
{
    const int n = L.n;
    // a = L'g / |L'g|
    LVec a(n, 0.0L);
    for (int i = 0; i < n; ++i)
        for (int k = i; k < n; ++k) a[i] += L(k, i) * g[k];
    LD na = sqrtl(dotp(a, a));
    for (auto& v : a) v /= na;
    // orthonormal complement of a
    std::vector<LVec> w;
    for (int k = 0; k < n; ++k)
    {
        LVec e(n, 0.0L);
        e[k] = 1;
        auto proj = [&](const LVec& q) {
            LD d = dotp(e, q);
            for (int i = 0; i < n; ++i) e[i] -= d * q[i];
        };
        for (int rep = 0; rep < 2; ++rep)
        {
            proj(a);
            for (auto& q : w) proj(q);
        }
        LD m = sqrtl(dotp(e, e));
        if (m < 1e-3L) continue;
        for (auto& v : e) v /= m;
        w.push_back(e);
        if ((int)w.size() == n - 1) break;
    }
    std::vector<LVec> dirsW;
    for (size_t k = 0; k < w.size(); ++k)
    {
        dirsW.push_back(w[k]);
        for (size_t l = k + 1; l < w.size(); ++l)
        {
            LVec s(n);
            for (int i = 0; i < n; ++i) s[i] = (w[k][i] + w[l][i]) * sqrtl(0.5L);
            dirsW.push_back(s);
        }
    }
    std::vector<LD> hs {lo, hi, (lo + hi) / 2, lo + (hi - lo) * 0.1L, lo + (hi - lo) * 0.8L};
    if (lo < 0 && hi > 0) hs.push_back(0);
    std::vector<LVec> r;
    for (LD h : hs)
    {
        LD rad = sqrtl(std::max<LD>(0, 1 - h * h));
        for (auto& d : dirsW)
            for (int sg = -1; sg <= 1; sg += 2)
            {
                LVec u(n), z(n, 0.0L);
                for (int i = 0; i < n; ++i) u[i] = h * a[i] + sg * rad * d[i];
                for (int i = 0; i < n; ++i)
                {
                    z[i] = E.xc[i];
                    for (int k = 0; k <= i; ++k) z[i] += L(i, k) * u[k];
                }
                r.push_back(z);
            }
    }
    return r;
}

template <class S>
static RCut realCut(const RefEll& pre, const std::vector<double>& g, const Spec& sp)
{
    RCut c;
    c.g = g;
    c.kind = sp.kind;
    const double tau = (double)sqrtl(tsqOf(pre, g));
    c.b0 = sp.f0 * tau;
    c.b1 = sp.f1 * tau;
    return c;
}

static std::string extra; // context for messages

//! the observed result is exactly that of the recorded defect
static bool matches(StableDefect& m, const RefEll& o)
{
    LMat L;
    const RefEll model = m.ell();
    if (!finite(o) || !chol(model.P, L) || !(relDiff(model, L, o) <= m.tol)) return false;
    m.sync(o);
    return true;
}

//! apply one cut to the real object and decide the property; false = stop here
template <class S>
static bool stepCheck(Ctx& ctx, S& s, const RefEll& pre, const std::vector<double>& g,
    const Spec& sp, RefEll& post, bool parallelOn, StableDefect& model)
{
    const int n = (int)pre.xc.size();
    const RCut cut = realCut<S>(pre, g, sp);
    const Expect ex = expect(n, sp, parallelOn);
    LMat L;
    if (!chol(pre.P, L)) ctx.fail("the ellipsoid is not positive definite: %s", show(pre).c_str());
    const auto [status, tsq] = apply(s, cut);
    post = observe(s);
    bool defect = false;
    if (std::is_same<S, ell_stable>::value)
    {
        CUTStatus ms;
        LD mt;
        bool edge;
        model.update(cut, parallelOn, ms, mt, edge);
        defect = (ms == status || edge) && matches(model, post);
    }
    ctx.step();
    ctx.state(hashEll(post));
    if (ctx.tracing)
        ctx.LOG("update(%s) -> %s tsq=%.12g; %s", show(cut).c_str(), sname(status), tsq,
            show(post).c_str());
    auto where = [&] { return "cut " + show(cut) + " on " + show(pre); };
#if PROP == 3
    {
        const LD rt = tsqOf(pre, g);
        ctx.MUST(fabsl(tsq - rt) <= TOL * rt, "reported tsq %.17g, g'Pg is %.17Lg; %s", tsq, rt,
            where().c_str());
        if (ex.exact)
            ctx.MUST(status == ex.status, "status %s, expected %s; %s", sname(status),
                sname(ex.status), where().c_str());
        if (status != CUTStatus::success)
        {
            const LD d = relDiff(pre, L, post);
            ctx.MUST(d <= 1e-12L, "status %s but the search space changed by %Lg; %s -> %s",
                sname(status), d, where().c_str(), show(post).c_str());
        }
    }
#endif
#if PROP == 1
    if (status == CUTStatus::nosoln)
        ctx.MUST(ex.status == CUTStatus::nosoln || !ex.exact,
            "nosoln although the cut keeps a part of the ellipsoid; %s", where().c_str());
    if (status != CUTStatus::nosoln && ex.status == CUTStatus::nosoln) return false;
    if (status == CUTStatus::success || status == CUTStatus::noeffect)
    {
        ctx.MUST(finite(post), "not finite after %s: %s", where().c_str(), show(post).c_str());
        LMat L2;
        ctx.MUST(chol(post.P, L2), "not an ellipsoid any more after %s: %s", where().c_str(),
            show(post).c_str());
        LD hi = std::min<LD>(1, -(LD)sp.f0);
        const LD tl = tolFor(post);
        for (const auto& z : keptPoints(pre, L, g, ex.lo, hi))
        {
            LVec d(n);
            for (int i = 0; i < n; ++i) d[i] = z[i] - post.xc[i];
            LVec y = fwd(L2, d);
            const LD q = dotp(y, y);
            std::string zs;
            if (!(q <= 1 + tl))
                for (LD v : z) zs += mc::fmt("%.9Lg ", v);
            if (!(q <= 1 + tl) && defect)
            {
                ctx.known(STABLE_KEY, STABLE_DESC);
                break;
            }
            ctx.MUST(q <= 1 + tl,
                "kept point (%s) is lost: normalised distance %.9Lg; %s -> %s", zs.c_str(),
                q, where().c_str(), show(post).c_str());
        }
    }
#endif
    if (status != CUTStatus::success || ex.status == CUTStatus::nosoln ||
        ex.status == CUTStatus::noeffect)
        return false;
#if PROP == 2
    {
        LMat L2;
        ctx.MUST(finite(post) && chol(post.P, L2), "not an ellipsoid any more after %s: %s",
            where().c_str(), show(post).c_str());
        const LD v0 = logdet(L), v1 = logdet(L2);
        ctx.MUST(v1 <= v0 + TOL, "the volume grew (log ratio %.9Lg); %s", (v1 - v0) / 2,
            where().c_str());
        if (ex.shrink)
            ctx.MUST(v1 < v0 - 1e-9L, "no strict decrease of volume (log ratio %.12Lg); %s",
                (v1 - v0) / 2, where().c_str());
        if (ex.minvol)
        {
            const RefEll r = refUpdate(pre, g, ex.slab);
            LMat Lr;
            if (!chol(r.P, Lr)) ctx.prune();
            const LD vr = logdet(Lr);
            const LD tl = 10 * tolFor(r);
            const LD d = relDiff(r, Lr, post);
            if (!(d <= tl) && defect)
            {
                ctx.known(STABLE_KEY, STABLE_DESC);
                return finite(post) && wellCond(model.ell());
            }
            ctx.MUST(v1 <= vr + tl, "volume above the minimum by log ratio %.9Lg; %s -> %s, "
                "minimal %s", (v1 - vr) / 2, where().c_str(), show(post).c_str(), show(r).c_str());
            ctx.MUST(d <= tl, "not the minimum-volume ellipsoid (off by %Lg); %s -> %s, "
                "minimal %s", d, where().c_str(), show(post).c_str(), show(r).c_str());
        }
    }
#endif
    // go on only from states the reference says are well conditioned
    const RefEll r = refUpdate(pre, g, ex.slab);
    return finite(post) && wellCond(r) && wellCond(post);
}

#if PROP != 4
template <class S>
static void start(Ctx& ctx, S& s, int init, int n, RefEll& pre)
{
    pre = observe(s);
    ctx.state(hashEll(pre));
#if PROP == 3 || PROP == 1
    const RefEll r = Maker<S>::ref(init, n);
    LMat L;
    chol(r.P, L);
    const LD d = relDiff(r, L, pre);
    ctx.MUST(d <= 1e-9L, "freshly constructed search space is not the given ellipsoid: %s, "
        "expected %s", show(pre).c_str(), show(r).c_str());
#endif
}

template <class S>
static void explore(Ctx& ctx, int n, int depth, int level, int mode, bool units = false)
{
    // (the recorded defect of ell_stable does not keep units apart: balls only)
    const int init = units ? 3 + ctx.choose(std::is_same<S, ell>::value ? 4 : 2, "init") : ctx.choose(3, "init");
    const double unit = units ? ctx.pick(std::vector<double> {1e-12, 1., 1e12}, "unit") : 1.;
    S s = Maker<S>::make(init, n);
    s.use_parallel_cut = mode != 1;
    s.no_defer_trick = mode == 2;
    RefEll pre, post;
    StableDefect model;
    model.init(init, n);
    start(ctx, s, init, n, pre);
    const auto D = dirs(n, level);
    const auto B = specs(n, level);
    for (int k = 0; k < depth; ++k)
    {
        auto g = ctx.pick(D, "g");
        for (auto& v : g) v *= unit;
        const auto& sp = ctx.pick(B, "beta");
        if (!stepCheck(ctx, s, pre, g, sp, post, mode != 1, model)) return;
        pre = post;
    }
}

//! non-initial states: a fixed prefix of cuts, then every cut
template <class S>
static void fromElsewhere(Ctx& ctx, int n, int mode, bool few = false)
{
    const int init = ctx.choose(3, "init");
    const int pat = ctx.choose(4, "prefix");
    const auto D = dirs(n, few ? 0 : 1);
    const auto B = specs(n, few ? 0 : 2);
    const auto& g = ctx.pick(D, "g");
    const auto& sp = ctx.pick(B, "beta");
    S s = Maker<S>::make(init, n);
    s.use_parallel_cut = mode != 1;
    s.no_defer_trick = mode == 2;
    RefEll pre, post;
    StableDefect model;
    model.init(init, n);
    start(ctx, s, init, n, pre);
    const int len = pat * 4;
    for (int k = 0; k < len; ++k)
    {
        Spec q = k % 3 == 0 ? Spec {0, .1, 0} : k % 3 == 1 ? Spec {2, -.1, .7} : Spec {0, 0, 0};
        std::vector<double> h(n);
        for (int i = 0; i < n; ++i) h[i] = ((i * 7 + k * 5 + pat) % 11) / 5. - 1.05;
        if (!stepCheck(ctx, s, pre, h, q, post, mode != 1, model)) return;
        pre = post;
    }
    stepCheck(ctx, s, pre, g, sp, post, mode != 1, model);
}

//! long periodic words (a b)^k: deep states
template <class S>
static void longWords(Ctx& ctx, int n, int len, bool few = false)
{
    const auto D = dirs(n, 0);
    std::vector<Spec> B {{0, 0, 0}, {0, .2, 0}, {0, -.1, 0}, {2, 0, .5}, {2, -.2, .2}, {2, .1, .8},
        {2, -.1, .6}};
    if (few) B.resize(4);
    const int robin = few ? ctx.choose(4, "round robin") : 0; // keeps the ellipsoid round
    const auto& ga = ctx.pick(D, "g1");
    const auto& a = ctx.pick(B, "b1");
    const auto& gb = few ? D[(&ga - &D[0] + 1) % D.size()] : ctx.pick(D, "g2");
    const auto& b = ctx.pick(B, "b2");
    S s = Maker<S>::make(2, n);
    RefEll pre, post;
    StableDefect model;
    model.init(2, n);
    start(ctx, s, 2, n, pre);
    for (int k = 0; k < len; ++k)
    {
        std::vector<double> g = k % 2 ? gb : ga;
        if (k % 4 >= 2)
            for (auto& v : g) v = -v;
        if (k % 3 == 2) std::rotate(g.begin(), g.begin() + 1, g.end());
        if (robin)
        {
            const int m = k % n;
            g.assign(n, 0.);
            g[m] = 1;
            if (robin > 1) g[(m + 1) % n] += .25 * (&ga - &D[0] + 1);
            if (robin > 2) g[(m + n - 1) % n] -= .125;
            if (k / n % 2)
                for (auto& v : g) v = -v;
        }
        if (!stepCheck(ctx, s, pre, g, k % 2 ? b : a, post, true, model)) return;
        pre = post;
    }
}

#if PROP == 3
//! exactly representable boundary: g = (3,4), tau = 5
template <class S>
static void boundary(Ctx& ctx)
{
    const int k = ctx.choose(11, "case");
    const int arr = ctx.choose(2, "array");
    const double sc = ctx.choose(2, "scale") ? 0.0625 : 1.;
    S s {1., toArr({0., 0.})};
    struct T { double b0, b1; bool pair; CUTStatus want; const char* not_; };
    // tangent cuts keep exactly one point: not "no solution"
    const T t[] = {{5, 0, false, CUTStatus::success, "a tangent cut keeps one point"},
        {5 * (1 + 1e-12), 0, false, CUTStatus::nosoln, "beyond the ellipsoid"},
        {5 * (1 - 1e-12), 0, false, CUTStatus::success, "just inside"},
        {0, 5, true, CUTStatus::success, "half"},
        {-5, 5, true, CUTStatus::noeffect, "the whole ellipsoid"},
        {3, 2.9999, true, CUTStatus::nosoln, "crossed parallel cuts"},
        {-2.5 * (1 + 1e-9), 0, false, CUTStatus::noeffect, "too shallow"},
        {-2.5 * (1 - 1e-9), 0, false, CUTStatus::success, "shallow, but it still shrinks"},
        {3, 3, true, CUTStatus::success, "a slab without width keeps a part of a plane"},
        {-1, -1, true, CUTStatus::success, "a slab without width keeps a part of a plane"},
        {0, 0, true, CUTStatus::success, "a slab without width keeps a part of a plane"}};
    RCut c;
    c.g = {3 * sc, 4 * sc};
    c.b0 = t[k].b0 * sc;
    c.b1 = t[k].b1 * sc;
    c.kind = t[k].pair ? 2 : arr;
    const RefEll pre = observe(s);
    const auto [status, tsq] = apply(s, c);
    ctx.step();
    ctx.LOG("update(%s) -> %s tsq=%.17g", show(c).c_str(), sname(status), tsq);
    ctx.MUST(status == t[k].want, "cut %s: status %s, expected %s (%s)", show(c).c_str(),
        sname(status), sname(t[k].want), t[k].not_);
    ctx.MUST(fabs(tsq - 25 * sc * sc) <= 1e-9 * sc * sc, "tsq %.17g", tsq);
    ctx.state(mc::mix(k, status == CUTStatus::success));
}
#endif

int main(int argc, char** argv)
{
    const char* tn[2] = {"ell", "ell_stable"};
    for (int n : {2, 3})
    {
        mc::add(mc::fmt("ell n=%d all pairs of cuts", n), 3, "3 initial ellipsoids x (6 directions x 47 offset patterns)^2",
            [n](Ctx& c) { explore<ell>(c, n, 2, 1, 0); }, n == 2 ? 1 : 2);
        mc::add(mc::fmt("ell_stable n=%d all pairs of cuts", n), 3, "3 initial ellipsoids x (6 directions x 47 offset patterns)^2",
            [n](Ctx& c) { explore<ell_stable>(c, n, 2, 1, 0); }, n == 2 ? 1 : 2);
    }
    for (int n : {3, 4, 5, 7, 9, 12})
        for (int st = 0; st < 2; ++st)
            mc::add(mc::fmt("%s n=%d from deeper states", tn[st], n), 3,
                "3 initial ellipsoids x prefixes of 0,4,8,12 cuts x 6 directions x 65 offset patterns",
                [n, st](Ctx& c) {
                    st ? fromElsewhere<ell_stable>(c, n, 0) : fromElsewhere<ell>(c, n, 0);
                });
    for (int n : {6, 10, 17, 33})
        for (int st = 0; st < 2; ++st)
            mc::add(mc::fmt("%s n=%d from deeper states", tn[st], n), 3,
                "3 initial ellipsoids x prefixes of 0,4,8,12 cuts x 3 directions x 10 offset patterns",
                [n, st](Ctx& c) {
                    st ? fromElsewhere<ell_stable>(c, n, 0, true) : fromElsewhere<ell>(c, n, 0, true);
                });
    for (int n : {2, 4})
        for (int mode : {1, 2})
            for (int st = 0; st < 2; ++st)
                mc::add(mc::fmt("%s n=%d %s", tn[st], n, mode == 1 ? "use_parallel_cut=false" : "no_defer_trick=true"),
                    3, "as above, with the option set", [n, st, mode](Ctx& c) {
                        st ? fromElsewhere<ell_stable>(c, n, mode) : fromElsewhere<ell>(c, n, mode);
                    });
    for (int n : {2, 3})
        for (int st = 0; st < 2; ++st)
        {
            mc::add(mc::fmt("%s n=%d tiny and huge", tn[st], n), 3,
                "2 or 4 initial ellipsoids of squared radius 1e-20, 1e20 x 3 units x 6 directions x 47 offset patterns",
                [n, st](Ctx& c) {
                    st ? explore<ell_stable>(c, n, 1, 1, 0, true) : explore<ell>(c, n, 1, 1, 0, true);
                });
            mc::add(mc::fmt("%s n=%d tiny and huge, pairs", tn[st], n), 3,
                "2 or 4 initial ellipsoids of squared radius 1e-20, 1e20 x 3 units x (3 directions x 10 offset patterns)^2",
                [n, st](Ctx& c) {
                    st ? explore<ell_stable>(c, n, 2, 0, 0, true) : explore<ell>(c, n, 2, 0, 0, true);
                });
        }
    for (int n : {2, 3, 4})
        for (int st = 0; st < 2; ++st)
            mc::add(mc::fmt("%s n=%d triples", tn[st], n), 3, "3 initial ellipsoids x (3 directions x 10 offset patterns)^3",
                [n, st](Ctx& c) {
                    st ? explore<ell_stable>(c, n, 3, 0, 0) : explore<ell>(c, n, 3, 0, 0);
                }, n == 2 ? 1 : 2);
    for (int n : {2, 3, 5, 9})
        for (int st = 0; st < 2; ++st)
            mc::add(mc::fmt("%s n=%d long words", tn[st], n), 3, "21 x 21 periodic words of 40 cuts",
                [n, st](Ctx& c) {
                    st ? longWords<ell_stable>(c, n, c.thorough ? 120 : 40)
                       : longWords<ell>(c, n, c.thorough ? 120 : 40);
                });
    for (int n : {2, 3, 5, 9})
        for (int st = 0; st < 2; ++st)
            mc::add(mc::fmt("%s n=%d very long words", tn[st], n), 3, "192 periodic words of 400 (1000) cuts, 144 of them round robin",
                [n, st](Ctx& c) {
                    st ? longWords<ell_stable>(c, n, c.thorough ? 1000 : 400, true)
                       : longWords<ell>(c, n, c.thorough ? 1000 : 400, true);
                });
#if PROP == 3
    mc::add("ell exact boundaries", 1, "tangent, crossed, shallow", [](Ctx& c) { boundary<ell>(c); });
    mc::add("ell_stable exact boundaries", 1, "tangent, crossed, shallow",
        [](Ctx& c) { boundary<ell_stable>(c); });
#endif
    return mc::main(argc, argv);
}
#else // PROP == 4

//! one ell_stable object that is run along with ell
struct Tracked
{
    ell_stable s;
    StableDefect m;      // the recorded defect, run along
    bool defect = false; // has left ell the way the recorded defect does
    bool lost = false;   // rounding decides: not followed any further
    Tracked(int init, int n) : s {Maker<ell_stable>::make(init, n)} { m.init(init, n); }
    Tracked(const Tracked& o) : s {o.s.copy()}, m {o.m}, defect {o.defect}, lost {o.lost} { }
};

//! ell, ell with no_defer_trick, ell_stable, copies made on the way and
//! rescaled cuts, side by side
static void side(Ctx& ctx, int n, int depth, int level, int len, bool opts = false, bool units = false, bool round = false)
{
    const int init = units ? 3 + ctx.choose(2, "init") : ctx.choose(3, "init");
    const double unit = units ? ctx.pick(std::vector<double> {1e-12, 1., 1e12}, "unit") : 1.;
    const int copyAt = len ? 1 : ctx.choose(depth, "copy at");
    ell a = Maker<ell>::make(init, n);
    ell b = Maker<ell>::make(init, n);
    Tracked s(init, n), s2(init, n);
    // options: 0 as constructed, 1 parallel cuts off, 2 scale factor folded in
    // at every other step, 3 both
    const int mode = opts ? ctx.choose(4, "options") : 0;
    const bool par = !(mode & 1);
    a.use_parallel_cut = b.use_parallel_cut = par;
    s.s.use_parallel_cut = s2.s.use_parallel_cut = par;
    if (mode & 2) a.no_defer_trick = s.s.no_defer_trick = true;
    else b.no_defer_trick = s2.s.no_defer_trick = true;
    std::unique_ptr<ell> ca;         // copies that keep being updated
    std::unique_ptr<Tracked> cs;
    std::unique_ptr<ell> fa;         // copies left behind
    std::unique_ptr<Tracked> fs;
    RefEll frozen, frozenS;
    const auto D = dirs(n, level);
    const auto B = specs(n, level);
    std::vector<std::pair<int, int>> word;
    std::vector<Spec> LB {{0, 0, 0}, {0, .2, 0}, {0, -.1, 0}, {2, 0, .5}, {2, -.2, .2}, {2, .1, .8},
        {2, -.1, .6}};
    if (round) LB.resize(4);
    const int robin = round ? ctx.choose(3, "round robin") : 0, tilt = robin ? ctx.choose(3, "tilt") : 0;
    RefEll pre = observe(a);
    const int total = len ? len : depth;
    for (int k = 0; k < total; ++k)
    {
        std::vector<double> g;
        Spec sp;
        if (len)
        {
            if (k < 2) word.push_back({round ? (k + tilt) % (int)D.size() : ctx.choose((int)D.size(), "g"), ctx.choose((int)LB.size(), "beta")});
            g = D[word[k % 2].first];
            if (k % 4 >= 2)
                for (auto& v : g) v = -v;
            if (k % 3 == 2) std::rotate(g.begin(), g.begin() + 1, g.end());
            sp = LB[word[k % 2].second];
            if (round)
            { // keeps the ellipsoid round
                const int m = k % n;
                g.assign(n, 0.);
                g[m] = 1;
                g[(m + 1) % n] += .25 * tilt;
                if (robin == 2) g[(m + n - 1) % n] -= .125;
                if (robin && k / n % 2)
                    for (auto& v : g) v = -v;
            }
        }
        else
        {
            g = ctx.pick(D, "g");
            sp = ctx.pick(B, "beta");
        }
        for (auto& v : g) v *= unit;
        const RCut cut = realCut<ell>(pre, g, sp);
        const Expect ex = expect(n, sp, par);
        if (mode & 2) b.no_defer_trick = s2.s.no_defer_trick = (k + 1) % 2;
        if (k == copyAt)
        {
            ca = std::make_unique<ell>(a.copy());
            cs = std::make_unique<Tracked>(s);
            fa = std::make_unique<ell>(a.copy());
            fs = std::make_unique<Tracked>(s);
            frozen = pre;
            frozenS = observe(s.s);
            const ell c2(a);
            const ell_stable c3(s.s);
            ell t4(a);
            const ell c4(std::move(t4));
            ell_stable t5(s.s);
            const ell_stable c5(std::move(t5));
            LMat L0, LS0;
            if (chol(pre.P, L0) && chol(frozenS.P, LS0))
            {
                ctx.MUST(relDiff(pre, L0, observe(c2)) <= 1e-9L, "a copy-constructed ell is not its original");
                ctx.MUST(relDiff(pre, L0, observe(c4)) <= 1e-9L, "a moved ell is not its original");
                ctx.MUST(relDiff(frozenS, LS0, observe(c3)) <= 1e-9L, "a copy-constructed ell_stable is not its original");
                ctx.MUST(relDiff(frozenS, LS0, observe(c5)) <= 1e-9L, "a moved ell_stable is not its original");
            }
            for (const ell* p : std::vector<const ell*> {ca.get(), fa.get(), &c2, &c4, &cs->s, &fs->s, &c3, &c5})
                ctx.MUST(p->use_parallel_cut == par && p->no_defer_trick == a.no_defer_trick,
                    "a copy lost an option: use_parallel_cut=%d no_defer_trick=%d, original %d %d",
                    p->use_parallel_cut, p->no_defer_trick, par, a.no_defer_trick);
        }
        // the same half-space written at another scale
        RCut scaled = cut;
        const double f = (k % 2) ? 1024. : 1. / 64;
        for (auto& v : scaled.g) v *= f;
        scaled.b0 *= f;
        scaled.b1 *= f;
        ell as = a.copy();
        Tracked ss = s;
        const auto [sa, ta] = apply(a, cut);
        const RefEll pa = observe(a);
        ctx.state(hashEll(pa));
        ctx.LOG("update(%s) -> %s tsq=%.12g; %s", show(cut).c_str(), sname(sa), ta, show(pa).c_str());
        const RefEll want = ex.status == CUTStatus::success ? refUpdate(pre, g, ex.slab) : pre;
        if (!wellCond(want)) { ctx.step(2); return; }
        LMat L;
        ctx.MUST(finite(pa) && chol(pa.P, L), "ell is degenerate after %s on %s", show(cut).c_str(), show(pre).c_str());
        std::string why;
        auto same = [&](CUTStatus st, double t, const RefEll& o, double scale) {
            why.clear();
            if (ex.exact && st != sa)
                why = mc::fmt("says %s, ell says %s", sname(st), sname(sa));
            else if (st != sa) return true; // on the boundary between two answers
            else if (!(fabs(t - ta * scale) <= 1e-6 * fabs(ta * scale)))
                why = mc::fmt("reports tsq %.12g, ell %.12g (scale %g)", t, ta, scale);
            else
            {
                const LD d = relDiff(pa, L, o);
                if (!(d <= 1e-5L))
                    why = mc::fmt("differs from ell by %Lg: %s vs %s", d, show(o).c_str(), show(pa).c_str());
            }
            return why.empty();
        };
        auto cmp = [&](const char* what, CUTStatus st, double t, const RefEll& o, double scale) {
            ctx.step();
            const bool r = same(st, t, o, scale);
            ctx.MUST(r, "%s %s after step %d; cut %s on %s", what, why.c_str(), k,
                show(cut).c_str(), show(pre).c_str());
        };
        auto cmpS = [&](const char* what, Tracked& T, const RCut& c, double scale) {
            if (T.lost) return;
            const auto [st, t] = apply(T.s, c);
            ctx.step();
            const RefEll o = observe(T.s);
            CUTStatus ms;
            LD mt;
            bool edge;
            T.m.update(c, par, ms, mt, edge);
            const bool isDefect = (edge || (ms == st && fabsl(t - mt) <= 1e-6L * mt)) && matches(T.m, o);
            if (!T.defect)
            {
                if (same(st, t, o, scale)) { ctx.ok(); T.lost = st != sa; return; }
                ctx.MUST(isDefect, "%s %s after step %d; cut %s on %s", what, why.c_str(), k,
                    show(c).c_str(), show(pre).c_str());
                T.defect = true;
            }
            else
            {
                ctx.MUST(isDefect || edge, "%s does not behave like ell, nor as the recorded defect does: "
                    "%s tsq=%.12g %s, expected %s tsq=%.12Lg %s; step %d cut %s", what, sname(st), t,
                    show(o).c_str(), sname(ms), mt, show(T.m.ell()).c_str(), k, show(c).c_str());
                if (!isDefect || edge) T.lost = true;
            }
            ctx.known(STABLE_KEY, STABLE_DESC);
            if (!wellCond(o)) T.lost = true;
        };
        {
            const auto [st, t] = apply(b, cut);
            cmp("ell (no_defer_trick)", st, t, observe(b), 1);
        }
        if (ca)
        {
            const auto [st, t] = apply(*ca, cut);
            cmp("copy of ell", st, t, observe(*ca), 1);
        }
        {
            const auto [st, t] = apply(as, scaled);
            cmp("ell with a rescaled cut", st, t, observe(as), f * f);
        }
        if (cut.kind == 0 && k == copyAt)
        {
            // a one-element array is the same cut
            RCut c1 = cut;
            c1.kind = 1;
            ell a1 = fa->copy();
            const auto [st, t] = apply(a1, c1);
            cmp("ell with the offset in an array", st, t, observe(a1), 1);
            Tracked t1 = *fs;
            cmpS("ell_stable with the offset in an array", t1, c1, 1);
        }
        cmpS("ell_stable", s, cut, 1);
        cmpS("ell_stable (no_defer_trick)", s2, cut, 1);
        if (cs) cmpS("copy of ell_stable", *cs, cut, 1);
        cmpS("ell_stable with a rescaled cut", ss, scaled, f * f);
        pre = pa;
        if (sa != CUTStatus::success) break;
    }
    if (fa)
    {
        LMat L, LS;
        if (!chol(frozen.P, L) || !chol(frozenS.P, LS)) return;
        LD d = relDiff(frozen, L, observe(*fa));
        ctx.MUST(d <= 1e-9L, "a copy of ell changed (by %Lg) when the original was updated", d);
        d = relDiff(frozenS, LS, observe(fs->s));
        ctx.MUST(d <= 1e-9L, "a copy of ell_stable changed (by %Lg) when the original was updated", d);
        // set_xc moves the centre and nothing else
        const int n2 = (int)frozen.xc.size();
        // by very little as well
        for (double f : {1e-4, 1e-6, -1e-9, 1e-12})
        {
            Arr c0 = fa->xc(), c1 = fs->s.xc();
            c0(0) += f * (1 + std::fabs(c0(0)));
            c1(n2 - 1) -= f * (1 + std::fabs(c1(n2 - 1)));
            fa->set_xc(c0);
            fs->s.set_xc(c1);
            const Arr e0 = fa->xc(), e1 = fs->s.xc();
            ctx.MUST(e0(0) == c0(0) && e1(n2 - 1) == c1(n2 - 1), "the centre was set to %.17g, %.17g and is %.17g, %.17g", c0(0), c1(n2 - 1), e0(0), e1(n2 - 1));
        }
        std::vector<double> nx(n2);
        for (int i = 0; i < n2; ++i) nx[i] = 3.5 - i;
        fa->set_xc(toArr(nx));
        fs->s.set_xc(toArr(nx));
        for (int i = 0; i < n2; ++i) frozen.xc[i] = frozenS.xc[i] = nx[i];
        d = relDiff(frozen, L, observe(*fa));
        ctx.MUST(d <= 1e-9L, "set_xc of ell is off by %Lg", d);
        d = relDiff(frozenS, LS, observe(fs->s));
        ctx.MUST(d <= 1e-9L, "set_xc of ell_stable is off by %Lg", d);
    }
}

int main(int argc, char** argv)
{
    for (int n : {2, 3})
        mc::add(mc::fmt("n=%d all single cuts", n), 3, "3 initial ellipsoids x 6 directions x 65 offset patterns",
            [n](Ctx& c) { side(c, n, 1, 2, 0); });
    for (int n : {4, 5, 6, 8, 12})
        mc::add(mc::fmt("n=%d all single cuts", n), 3, "3 initial ellipsoids x 6 directions x 65 offset patterns",
            [n](Ctx& c) { side(c, n, 1, 2, 0); });
    for (int n : {7, 10, 17, 33})
        mc::add(mc::fmt("n=%d pairs", n), 4, "3 initial ellipsoids x 2 copy points x (3 x 10)^2",
            [n](Ctx& c) { side(c, n, 2, 0, 0); }, n > 12 ? 2 : 1);
    for (int n : {17, 33})
        mc::add(mc::fmt("n=%d single cuts", n), 4, "3 initial ellipsoids x 3 x 10",
            [n](Ctx& c) { side(c, n, 1, 0, 0); });
    mc::add("n=2 all pairs of cuts", 4, "3 initial ellipsoids x 2 copy points x (6 x 47)^2",
        [](Ctx& c) { side(c, 2, 2, 1, 0); }, 2);
    mc::add("n=3 all pairs of cuts", 4, "3 initial ellipsoids x 2 copy points x (6 x 47)^2",
        [](Ctx& c) { side(c, 3, 2, 1, 0); }, 2);
    for (int n : {2, 3, 5})
        mc::add(mc::fmt("n=%d options", n), 4, "3 initial ellipsoids x 2 copy points x 4 option settings x (3 x 10)^2",
            [n](Ctx& c) { side(c, n, 2, 0, 0, true); });
    for (int n : {2, 4})
    {
        mc::add(mc::fmt("n=%d tiny and huge", n), 4, "2 initial balls x 3 units x 6 x 47",
            [n](Ctx& c) { side(c, n, 1, 1, 0, false, true); });
        mc::add(mc::fmt("n=%d tiny and huge, pairs", n), 4, "2 initial balls x 3 units x 2 copy points x (3 x 10)^2",
            [n](Ctx& c) { side(c, n, 2, 0, 0, false, true); });
    }
    mc::add("n=3 options, all single cuts", 4, "3 initial ellipsoids x 4 option settings x 6 x 47",
        [](Ctx& c) { side(c, 3, 1, 1, 0, true); });
    mc::add("n=3 options, long words", 4, "3 initial ellipsoids x 4 option settings x 21 x 21 periodic words",
        [](Ctx& c) { side(c, 3, 0, 0, c.thorough ? 80 : 12, true); });
    for (int n : {2, 3, 4})
        mc::add(mc::fmt("n=%d pairs", n), 4, "3 initial ellipsoids x 2 copy points x (3 x 10)^2",
            [n](Ctx& c) { side(c, n, 2, 0, 0); });
    for (int n : {2, 3})
        mc::add(mc::fmt("n=%d triples", n), 4, "3 initial ellipsoids x 3 copy points x (3 x 10)^3",
            [n](Ctx& c) { side(c, n, 3, 0, 0); }, n == 3 ? 1 : 2);
    for (int n : {2, 3, 5, 9})
        mc::add(mc::fmt("n=%d long words", n), 3, "3 initial ellipsoids x 21 x 21 periodic words of 40 cuts",
            [n](Ctx& c) { side(c, n, 0, 0, c.thorough ? 120 : 40); });
    for (int n : {2, 3, 5, 9})
        mc::add(mc::fmt("n=%d very long words", n), 3, "3 initial ellipsoids x 7 round robins x 4 x 4 offset patterns, 400 (1000) cuts",
            [n](Ctx& c) { side(c, n, 0, 0, c.thorough ? 1000 : 400, false, false, true); });
    return mc::main(argc, argv);
}
#endif
