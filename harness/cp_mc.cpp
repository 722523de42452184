// C05..C10: ell1d, the cutting-plane drivers, bsearch and bsearch_adaptor.
// The environment (oracle and search space) of a driver is scripted: every
// answer it may give is a choice of the explorer.
#include "mc.hpp"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell1d.hpp>
#include <ellcpp/ell.hpp>
#include <optional>
#include <py2cpp/fractions.hpp>
#include <xtensor/xarray.hpp>

#ifndef PROP
#define PROP 5
#endif
using mc::Ctx;
using LD = long double;

static const char* sname(CUTStatus s)
{
    switch (s)
    {
        case CUTStatus::success: return "success";
        case CUTStatus::nosoln: return "nosoln";
        case CUTStatus::smallenough: return "smallenough";
        case CUTStatus::noeffect: return "noeffect";
    }
    return "?";
}

#if PROP == 5
// ------------------------------------------------------------------ ell1d
struct Iv { double l, u; };
static double radius(const ell1d& E)
{
    ell1d c(E);
    const auto [st, tsq] = c.update(std::tuple<double, double> {1., 1e200});
    (void)st;
    return std::sqrt(tsq);
}
static void ell1dRun(Ctx& ctx, int depth, int level, bool units = false, bool word = false)
{
    const double ti = std::ldexp(1., -40), hu = std::ldexp(1., 40), h = std::ldexp(1., -20), hh = std::ldexp(1., -40);
    const std::vector<Iv> init = units ? std::vector<Iv> {{-ti, ti}, {0, 8 * ti}, {-3 * ti, 5 * ti}, {-hu, hu},
            {-7 * hu, -2 * hu}, {0, 8}, {-1, 1}} : std::vector<Iv> {{-1, 1}, {0, 8}, {-3, 5}, {100, 100.5}, {-7, -2}};
    const std::vector<double> gs = units ? std::vector<double> {1, -1, ti, -ti, 4 * hu, -hu} : level ? std::vector<double> {1, -1, 2, -.5, 1024, -1. / 64}
                                         : std::vector<double> {1, -1, -4, .25};
    // offsets in units of |g| r
    const std::vector<double> fs = level ? std::vector<double> {0, .5, -.5, 1, -1, 1.5, -1.5, .25,
                                               -.25, .75, -.75, .9375, -.9375, 1.0078125, -1.0078125,
                                               3, -3, 1e-3, -1e-3, 1. / 3, -1. / 3, 100, -100,
                                               1 + h, 1 - h, h - 1, -1 - h, 1 + hh, 1 - hh, hh - 1, -1 - hh}
                                         : std::vector<double> {0, .5, -.5, 1, 1.5, -1.5, -.25, .75};
    Iv I = ctx.pick(init, "interval");
    ell1d E(I.l, I.u);
    ctx.MUST(std::fabs(E.xc() - (I.l + I.u) / 2) <= 1e-12 * (std::fabs(I.l) + std::fabs(I.u)) &&
            std::fabs(radius(E) - (I.u - I.l) / 2) <= 1e-12 * (I.u - I.l),
        "ell1d(%g,%g) has centre %.17g radius %.17g", I.l, I.u, E.xc(), radius(E));
    if (ctx.flag("moved"))
    {
        const double d = units ? 2.5 * (I.u - I.l) : 2.5;
        E.set_xc(E.xc() + d);
        I.l += d;
        I.u += d;
    }
    std::vector<double> wg, wf;
    for (int k = 0; k < depth; ++k)
    {
        // a long word repeats its first two cuts
        const bool rpt = word && k >= 2;
        const double g = rpt ? wg[k % 2] : ctx.pick(gs, "g"), f = rpt ? wf[k % 2] : ctx.pick(fs, "f");
        wg.push_back(g);
        wf.push_back(f);
        const double r = (I.u - I.l) / 2, c = (I.l + I.u) / 2, tau = std::fabs(g) * r;
        const double beta = f * tau;
        ell1d keep(E);
        const auto [st, tsq] = E.update(std::tuple<double, double> {g, beta});
        ctx.step();
        ctx.LOG("[%.12g,%.12g] cut g=%g beta=%g -> %s tsq=%g, centre %.12g radius %.12g", I.l, I.u, g,
            beta, sname(st), tsq, E.xc(), radius(E));
        const double eps = 1e-9 * (std::fabs(I.l) + std::fabs(I.u) + r);
        ctx.MUST(std::fabs(tsq - tau * tau) <= 1e-9 * tau * tau + 1e-15 * tau * std::fabs(g) * (std::fabs(I.l) + std::fabs(I.u)), "tsq %.17g, (g r)^2 is %.17g", tsq, tau * tau);
        // keep g (x-c) + beta <= 0
        const double x0 = c - beta / g;
        Iv J = I;
        if (g > 0) J.u = std::min(J.u, x0); else J.l = std::max(J.l, x0);
        const bool tangent = f == 1, all = f == -1;
        const CUTStatus want = f > 1 ? CUTStatus::nosoln : f < -1 ? CUTStatus::noeffect : CUTStatus::success;
        if (all) ctx.MUST(st == CUTStatus::success || st == CUTStatus::noeffect, "cut g=%g beta=%g keeps all of [%g,%g], status %s",
            g, beta, I.l, I.u, sname(st));
        else if (tangent && (k > 0 || std::fabs(beta) != tau)) {} // rounding decides
        else if (std::fabs(std::fabs(f) - 1) < 1e-10 && k > 0) {}
        else if (std::fabs(std::fabs(f) - 1) < 1e-5 && (r < 1e-3 * std::fabs(c))) {} // so does it here
        else if (tangent) ctx.MUST(st == CUTStatus::success, "the cut keeps one end point but the status is %s", sname(st));
        else ctx.MUST(st == want, "cut g=%g beta=%g on [%g,%g]: status %s, expected %s", g, beta, I.l, I.u,
            sname(st), sname(want));
        if (st != CUTStatus::success) J = I;
        const double nl = E.xc() - radius(E), nu = E.xc() + radius(E);
        ctx.MUST(std::fabs(nl - J.l) <= eps && std::fabs(nu - J.u) <= eps,
            "cut g=%g beta=%g (%s) on [%.12g,%.12g] leaves [%.12g,%.12g], expected [%.12g,%.12g]", g, beta,
            sname(st), I.l, I.u, nl, nu, J.l, J.u);
        ctx.MUST(std::fabs(keep.xc() - c) <= eps && std::fabs(radius(keep) - r) <= eps, "a copy changed with the original");
        ctx.state(mc::mix(mc::hdbl(E.xc()), mc::hdbl(radius(E))));
        if (st != CUTStatus::success || J.u - J.l <= 1e-6 * (units ? I.u - I.l : 1.) * (word ? 1e-3 * (std::fabs(J.l) + std::fabs(J.u) + 1e-9) : 1.)) return;
        // go on from the observed interval: rounding must not add up
        I = {nl, nu};
    }
}
#endif

// ------------------------------------------------ scripted search space
struct Upd { CUTStatus st; double tsq; };
struct World
{
    Ctx& ctx;
    std::vector<Upd> answers;
    int version = 0;    // changes with every successful update
    int cutId = 0;      // last cut given out
    int nUpd = 0, nQuery = 0;
    bool expectUpdate = false;
    // a long run: the environment chooses at two queries only
    int at1 = -1, at2 = -1, fill = 0, stopAt = -1;
    double big = 1e3; // a distance measure far above the tolerance
    bool open() const { return at1 < 0 || nQuery == at1 || nQuery == at2; }
    Upd last {CUTStatus::success, 1};
    explicit World(Ctx& c) : ctx {c} { }
};
struct Space
{
    World* w;
    bool first = false;
    int xc() const { return 1000 + w->version; }
    std::tuple<CUTStatus, double> update(const std::tuple<int, int>& cut)
    {
        w->ctx.step();
        w->ctx.MUST(w->expectUpdate, "the search space is updated without a fresh answer of the oracle");
        w->expectUpdate = false;
        w->ctx.MUST(std::get<0>(cut) == w->cutId && std::get<1>(cut) == -w->cutId,
            "the cut handed to the search space is not the one the oracle gave");
        ++w->nUpd;
        w->last = w->open() ? w->ctx.pick(w->answers, "update")
            : w->nQuery == w->stopAt ? Upd {CUTStatus::nosoln, w->big}
            : w->fill == 3 ? Upd {CUTStatus::noeffect, w->big} : Upd {CUTStatus::success, w->big};
        if (w->last.st == CUTStatus::success) ++w->version;
        w->ctx.LOG("update(cut %d) -> %s tsq=%g", std::get<0>(cut), sname(w->last.st), w->last.tsq);
        return {w->last.st, w->last.tsq};
    }
};

static std::vector<unsigned> maxIts(bool th, bool few = false)
{
    const unsigned top = PROP == 6 ? (th ? 24 : 18) : PROP == 7 ? (few ? 8 : 10) + (th ? 2 : 0) : (few ? 6 : 7) + (th ? 2 : 0);
    std::vector<unsigned> v {4, 3, 2, 1, 0}; // small ones first: short counterexamples
    for (unsigned k = 5; k <= top; ++k) v.push_back(k);
    return v;
}
//! where a long run may take a turn
static void longRun(Ctx& ctx, World& w, Options& o, int fills)
{
    // the retries of cutting_plane_q multiply the words
    std::vector<unsigned> lim {33, 65, 100, 129, 257, 1000};
    if (PROP != 8 || ctx.thorough) { lim.push_back(2000); lim.push_back(5000); }
    for (unsigned l : {70000u, 2147483647u, 2147483648u, 4294967295u}) lim.push_back(l);
    o.max_it = ctx.pick(lim, "max_it");
    if (o.max_it > 99999) // a limit that does not matter: two turns, then the end
    {
        w.at1 = ctx.pick(std::vector<int> {1, 2, 3, 5, 17, 40}, "first turn");
        w.at2 = w.at1 + 1;
        w.stopAt = ctx.pick(std::vector<int> {2, 3, 30}, "end") + w.at1;
        w.fill = ctx.choose(fills, "fill");
        return;
    }
    const int top = int(o.max_it) - 1; // the last query
    if (o.max_it > 9999) // one turn, late
    {
        w.at1 = ctx.pick(std::vector<int> {32767, 32768, 65535, 65536, top}, "turn");
        return;
    }
    std::vector<int> pos;
    for (int p : {1, 2, 9, 10, 11, 15, 16, 17, 19, 20, 21, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257,
             499, 500, 999, 1000, 1001, 1998, 1999, 2000, 2001, 4096})
        if (p < top - 1) pos.push_back(p);
    pos.push_back(top - 1);
    pos.push_back(top);
    w.at1 = ctx.pick(pos, "first turn");
    std::vector<int> later {0};
    for (int p : {w.at1 + 1, w.at1 + 2, top}) if (p > w.at1 && p <= top && p != later.back()) later.push_back(p);
    w.at2 = ctx.pick(later, "second turn");
    w.fill = ctx.choose(fills, "fill");
}
//! very small and very large tolerances only with short runs, or a long one
static double pickTol(Ctx& ctx, const Options& o, int base)
{
    std::vector<double> v {1e-8, 0.25, 0.};
    v.resize(base);
    if (o.max_it <= 4 || o.max_it == 100) for (double t : {1e-12, 1e-20, 1e-100, 3e-310, 1., 1e6, 1e100}) v.push_back(t);
    return ctx.pick(v, "tol");
}
static std::vector<Upd> answersFor(double tol, bool q, bool edge)
{
    std::vector<Upd> a {{CUTStatus::success, 2 * tol + 1}, {CUTStatus::nosoln, 2 * tol + 1},
        {CUTStatus::noeffect, 2 * tol + 1}};
    if (tol > 0)
    {
        a.push_back({CUTStatus::success, tol * 0.999});
        a.push_back({CUTStatus::success, tol * 1.001});
        a.push_back({CUTStatus::success, 0.});
        if (edge) a.push_back({CUTStatus::success, tol}); // not below the tolerance
        a.push_back({CUTStatus::nosoln, tol / 2});
        if (!q) a.push_back({CUTStatus::noeffect, tol / 2});
    }
    else if (edge) a.push_back({CUTStatus::success, 0.}); // not below a tolerance of zero
    return a;
}

#if PROP == 6
static void feas(Ctx& ctx, bool lng = false)
{
    Options o;
    World w(ctx);
    if (lng) longRun(ctx, w, o, 1);
    else o.max_it = ctx.pick(maxIts(ctx.thorough), "max_it");
    const double tol = pickTol(ctx, o, 3);
    o.tol = tol;
    w.big = tol * 2 + 1e3;
    w.answers = answersFor(tol, false, lng || o.max_it <= (ctx.thorough ? 8 : 6));
    Space S {&w};
    bool ended = false, found = false;
    CUTStatus want = CUTStatus::success;
    auto Omega = [&](const int& x) -> std::optional<std::tuple<int, int>> {
        ctx.step();
        ctx.MUST(!w.expectUpdate, "the oracle is asked again before its cut was used");
        if (w.nUpd > 0)
        {
            ctx.MUST(w.last.st == CUTStatus::success, "the run goes on after a cut with status %s", sname(w.last.st));
            ctx.MUST(!(w.last.tsq < tol), "the run goes on although tsq=%g < tol=%g", w.last.tsq, tol);
        }
        ctx.MUST(!ended, "the oracle is asked after the run has ended");
        ctx.MUST(x == S.xc(), "the oracle is asked at %d, the centre is %d", x, S.xc());
        ++w.nQuery;
        ctx.MUST(w.nQuery <= (long long)o.max_it, "%d queries with max_it=%u", w.nQuery, o.max_it);
        if (w.open() && ctx.flag("feasible")) { ended = found = true; ctx.LOG("oracle(%d): feasible", x); return {}; }
        ++w.cutId;
        w.expectUpdate = true;
        ctx.LOG("oracle(%d): cut %d", x, w.cutId);
        return std::tuple<int, int> {w.cutId, -w.cutId};
    };
    const CInfo info = cutting_plane_feas(Omega, S, o);
    ctx.LOG("-> feasible=%d num_iters=%zu status=%s", info.feasible, info.num_iters, sname(info.status));
    ctx.MUST(!w.expectUpdate, "the last cut was not given to the search space");
    ctx.MUST(info.feasible == found, "feasible=%d, the oracle %s a point", info.feasible, found ? "accepted" : "did not accept");
    const bool stopped = !found && w.nUpd > 0 && (w.last.st != CUTStatus::success || w.last.tsq < tol);
    if (stopped) want = w.last.st != CUTStatus::success ? w.last.st : CUTStatus::smallenough;
    ctx.MUST(info.status == want, "status %s, expected %s", sname(info.status), sname(want));
    if (found || stopped)
        ctx.MUST((int)info.num_iters == w.nQuery, "num_iters %zu after %d queries", info.num_iters, w.nQuery);
    else
        ctx.MUST(w.nQuery == std::max(0LL, (long long)o.max_it - 1) && (int)info.num_iters == w.nQuery + 1,
            "gave up after %d queries, num_iters %zu, max_it %u", w.nQuery, info.num_iters, o.max_it);
    ctx.state(mc::mix(mc::mix(info.feasible, info.num_iters), mc::mix((int)info.status, w.version)));
}
#endif

#if PROP == 7
template <class T>
static void dc(Ctx& ctx, bool mode, bool lng = false)
{
    Options o;
    World w(ctx);
    if (lng) longRun(ctx, w, o, 3);
    else o.max_it = ctx.pick(maxIts(ctx.thorough, mode), "max_it");
    const double tol = pickTol(ctx, o, 2);
    o.tol = tol;
    w.big = tol * 2 + 1e3;
    w.answers = answersFor(tol, false, lng || o.max_it <= (ctx.thorough ? 8 : 6));
    Space S {&w};
    // what an improvement does to the value: down, up, up and down, by a hair
    const int dir = mode ? 1 + ctx.choose(std::is_same<T, double>::value ? 3 : 2, "direction") : 0;
    const double starts[] = {100., 0., -7., 1. / 0.};
    T t = T(mode || lng || o.max_it > (ctx.thorough ? 6 : 5) ? 100. : starts[ctx.choose(std::is_same<T, double>::value ? 4 : 3, "start value")]);
    int bestX = 0;
    T bestT = t;
    bool shr = false;
    auto Omega = [&](const int& x, T& tt) -> std::tuple<std::tuple<int, int>, bool> {
        ctx.step();
        ctx.MUST(!w.expectUpdate, "the oracle is asked again before its cut was used");
        if (w.nUpd > 0)
        {
            ctx.MUST(w.last.st == CUTStatus::success, "the run goes on after a cut with status %s", sname(w.last.st));
            ctx.MUST(!(w.last.tsq < tol), "the run goes on although tsq=%g < tol=%g", w.last.tsq, tol);
        }
        ctx.MUST(x == S.xc(), "the oracle is asked at %d, the centre is %d", x, S.xc());
        ctx.MUST(tt == bestT, "the oracle is given t=%g, the best value is %g", double(tt), double(bestT));
        ++w.nQuery;
        ctx.MUST(w.nQuery <= (long long)o.max_it, "%d queries with max_it=%u", w.nQuery, o.max_it);
        ++w.cutId;
        w.expectUpdate = true;
        const bool s = w.open() ? ctx.flag("shrunk") : w.fill == 1 || (w.fill == 2 && w.nQuery % 7 == 0);
        if (s)
        {
            if (std::isinf(double(tt))) tt = 50;
            else if (dir == 0) tt -= 1;
            else if (dir == 1) tt += 1;
            else if (dir == 2) tt += w.nQuery % 2 ? 5 : -2; // never back to the start
            else tt = std::nextafter(double(tt), -1.);
            bestT = tt;
            bestX = x;
            shr = true;
        }
        ctx.LOG("oracle(%d): cut %d%s", x, w.cutId, s ? ", better" : "");
        return {std::tuple<int, int> {w.cutId, -w.cutId}, s};
    };
    const auto [x, info] = cutting_plane_dc(Omega, S, t, o);
    ctx.LOG("-> x=%d feasible=%d num_iters=%zu status=%s", shr ? (int)x : -1, info.feasible, info.num_iters, sname(info.status));
    ctx.MUST(!w.expectUpdate, "the last cut was not given to the search space");
    ctx.MUST(info.feasible == shr, "feasible=%d although the oracle %s", info.feasible, shr ? "found a better value" : "never found a better value");
    ctx.MUST(t == bestT, "t=%g on return, best value %g", double(t), double(bestT));
    if (shr) ctx.MUST(x == bestX, "returned point %d, the best value was attained at %d", x, bestX);
    const bool stopped = w.nUpd > 0 && (w.last.st != CUTStatus::success || w.last.tsq < tol);
    CUTStatus want = CUTStatus::success;
    if (stopped) want = w.last.st != CUTStatus::success ? w.last.st : CUTStatus::smallenough;
    ctx.MUST(info.status == want, "status %s, expected %s", sname(info.status), sname(want));
    if (stopped)
        ctx.MUST((int)info.num_iters == w.nQuery, "num_iters %zu after %d queries", info.num_iters, w.nQuery);
    else
        ctx.MUST(w.nQuery == std::max(0LL, (long long)o.max_it - 1) && (int)info.num_iters == w.nQuery + 1,
            "gave up after %d queries, num_iters %zu, max_it %u", w.nQuery, info.num_iters, o.max_it);
    ctx.state(mc::mix(mc::mix(info.feasible, info.num_iters), mc::mix((int)info.status, mc::mix(w.version, shr ? bestX : 0))));
}
#endif

#if PROP == 8
static void cpq(Ctx& ctx, bool mode, bool lng = false)
{
    Options o;
    World w(ctx);
    if (lng) longRun(ctx, w, o, 4);
    else o.max_it = ctx.pick(maxIts(ctx.thorough, mode), "max_it");
    const double tol = pickTol(ctx, o, 2);
    o.tol = tol;
    w.big = tol * 2 + 1e3;
    w.answers = answersFor(tol, true, lng || o.max_it <= (ctx.thorough ? 8 : 6));
    Space S {&w};
    const int dir = mode ? 1 + ctx.choose(3, "direction") : 0;
    const double starts[] = {100., 0., -7., 1. / 0.};
    double t = mode || lng || o.max_it > (ctx.thorough ? 6 : 5) ? 100. : starts[ctx.choose(4, "start value")], bestT = t;
    int bestX = 0;
    bool shr = false, lastMore = false;
    auto Omega = [&](const int& x, double& tt, bool retry) -> std::tuple<std::tuple<int, int>, int, bool, bool> {
        ctx.step();
        ctx.MUST(!w.expectUpdate, "the oracle is asked again before its cut was used");
        if (w.nUpd > 0)
        {
            ctx.MUST(w.last.st != CUTStatus::nosoln, "the run goes on after a cut that leaves nothing");
            ctx.MUST(w.last.st != CUTStatus::noeffect || lastMore,
                "the run goes on after a cut without effect although there is no alternative cut");
            ctx.MUST(!(w.last.tsq < tol), "the run goes on although tsq=%g < tol=%g", w.last.tsq, tol);
        }
        const bool wantRetry = w.nUpd > 0 && w.last.st == CUTStatus::noeffect;
        ctx.MUST(retry == wantRetry, "the oracle is asked with retry=%d after %s", retry,
            w.nUpd ? sname(w.last.st) : "the start");
        ctx.MUST(x == S.xc(), "the oracle is asked at %d, the centre is %d", x, S.xc());
        ctx.MUST(tt == bestT, "the oracle is given t=%g, the best value is %g", tt, bestT);
        ++w.nQuery;
        ctx.MUST(w.nQuery <= (long long)o.max_it, "%d queries with max_it=%u", w.nQuery, o.max_it);
        ++w.cutId;
        w.expectUpdate = true;
        const int x0 = 5000 + w.nQuery; // the discrete neighbour
        const bool s = w.open() ? ctx.flag("shrunk") : w.fill == 1 || (w.fill == 2 && w.nQuery % 7 == 0);
        lastMore = w.open() ? ctx.flag("more_alt") : w.fill >= 2;
        if (s)
        {
            if (std::isinf(tt)) tt = 50;
            else if (dir == 0) tt -= 1;
            else if (dir == 1) tt += 1;
            else if (dir == 2) tt += w.nQuery % 2 ? 5 : -2;
            else tt = std::nextafter(tt, -1.);
            bestT = tt;
            bestX = x0;
            shr = true;
        }
        ctx.LOG("oracle(%d, retry=%d): cut %d%s%s", x, retry, w.cutId, s ? ", better" : "", lastMore ? ", more" : "");
        return {std::tuple<int, int> {w.cutId, -w.cutId}, x0, s, lastMore};
    };
    const auto [x, info] = cutting_plane_q(Omega, S, t, o);
    ctx.LOG("-> x=%d feasible=%d num_iters=%zu status=%s", shr ? (int)x : -1, info.feasible, info.num_iters, sname(info.status));
    ctx.MUST(!w.expectUpdate, "the last cut was not given to the search space");
    ctx.MUST(info.feasible == shr, "feasible=%d although the oracle %s", info.feasible, shr ? "found a better value" : "never found a better value");
    ctx.MUST(t == bestT, "t=%g on return, best value %g", t, bestT);
    if (shr) ctx.MUST(x == bestX, "returned point %d, the best value was attained at %d", x, bestX);
    bool stopped = false;
    CUTStatus want = CUTStatus::success;
    if (w.nUpd > 0)
    {
        if (w.last.st == CUTStatus::nosoln || (w.last.st == CUTStatus::noeffect && !lastMore))
        { stopped = true; want = w.last.st; }
        else if (w.last.tsq < tol) { stopped = true; want = CUTStatus::smallenough; }
    }
    if (stopped)
    {
        ctx.MUST(info.status == want, "status %s, expected %s", sname(info.status), sname(want));
        ctx.MUST((int)info.num_iters == w.nQuery, "num_iters %zu after %d queries", info.num_iters, w.nQuery);
    }
    else
    {
        // iterations used up: what the last cut did
        if (w.nUpd > 0)
            ctx.MUST(info.status == w.last.st, "status %s although the iterations ran out after a cut with %s",
                sname(info.status), sname(w.last.st));
        ctx.MUST(w.nQuery == std::max(0LL, (long long)o.max_it - 1) && (int)info.num_iters == w.nQuery + 1,
            "gave up after %d queries, num_iters %zu, max_it %u", w.nQuery, info.num_iters, o.max_it);
    }
    ctx.state(mc::mix(mc::mix(info.feasible, info.num_iters), mc::mix((int)info.status, mc::mix(w.version, shr ? bestX : 0))));
}
#endif

#if PROP >= 6 && PROP <= 9
//! no options given: tolerance 1e-8, limit 2000
static void defaults(Ctx& ctx)
{
    const int at = ctx.pick(std::vector<int> {1, 2, 7, 1000, 1998, 1999, 0}, "small at"); // 0: never
    const double small = ctx.flag("under") ? 0.999e-8 : 1.001e-8;
    int n = 0, upd = 0;
    struct Sp
    {
        Ctx& ctx; int& upd; int at; double small;
        int xc() const { return 0; }
        std::tuple<CUTStatus, double> update(const int&)
        {
            ctx.step();
            ++upd;
            return {CUTStatus::success, upd == at ? small : 1.};
        }
    } S {ctx, upd, at, small};
    (void)S;
    CInfo info {false, 0, CUTStatus::success};
    const bool stop = at && small < 1e-8;
    const int want = stop ? at : 1999;
#if PROP == 6
    info = cutting_plane_feas([&](const int&) { ++n; return std::optional<int> {1}; }, S);
#elif PROP == 7
    double t = 1;
    auto Om = [&](const int&, double&) { ++n; return std::make_tuple(1, false); };
    info = std::get<1>(cutting_plane_dc(Om, S, t));
#elif PROP == 8
    double t = 1;
    auto Om = [&](const int&, double&, bool) { ++n; return std::make_tuple(1, 1, false, true); };
    info = std::get<1>(cutting_plane_q(Om, S, t));
#else
    // half the bracket is below 1e-8 after k probes of [0, 2^k * 1.99e-8]
    const double w = std::ldexp(small * 2, std::min(at, 40));
    std::pair<double, double> I {0., w};
    info = bsearch([&](double) { ++n; return true; }, I);
    const int probes = std::min(at, 40) + (small < 1e-8 ? 0 : 1);
    ctx.MUST(info.status == CUTStatus::smallenough && n == probes, "%d probes of [0,%g] without options, status %s", n, w, sname(info.status));
    ctx.state(n);
    return;
#endif
    ctx.MUST(n == want && upd == n, "%d queries without options, expected %d", n, want);
    ctx.MUST(info.status == (stop ? CUTStatus::smallenough : CUTStatus::success), "status %s", sname(info.status));
    ctx.MUST((int)info.num_iters == (stop ? at : 2000), "num_iters %zu", info.num_iters);
    ctx.state(n);
}
#endif

#if PROP == 9
template <class T>
struct Num
{
    static T mk(int v) { return T(v); }
    static double d(const T& v) { return double(v); }
    static T half(T a) { return a / 2; }
    static const bool exact = std::is_integral<T>::value;
};
template <>
struct Num<fun::Fraction<long>>
{
    using F = fun::Fraction<long>;
    static F mk(int v) { return F(long(v), 3L); }
    static double d(const F& v) { return double(v.numerator()) / double(v.denominator()); }
    static const bool exact = false;
};

//! mode 0: the answers are thresholded (t >= theta); 1: arbitrary answers
template <class T>
static void bs(Ctx& ctx, int mode, bool fraction)
{
    const int lo = ctx.range(std::is_unsigned<T>::value ? 0 : -3, 4, "lower"), w = ctx.range(0, mode ? 9 : 20, "width");
    Options o;
    const double tols[] = {1e-8, 1., 0.1, 3.};
    o.tol = fraction ? 1e-8 : tols[ctx.choose(4, "tol")];
    const std::vector<unsigned> its = fraction ? std::vector<unsigned> {8, 3, 1, 0}
        : mode ? std::vector<unsigned> {6, 2, 1, 0} : std::vector<unsigned> {2000, 6, 2, 1, 0};
    o.max_it = ctx.pick(its, "max_it");
    std::pair<T, T> I {Num<T>::mk(lo), Num<T>::mk(lo + w)};
    const double l0 = Num<T>::d(I.first), u0 = Num<T>::d(I.second);
    const int thetaI = mode ? 0 : ctx.range(0, w + 1, "threshold"); // w+1: nothing is feasible
    const double theta = thetaI > w ? 1e9 : l0 + (u0 - l0) * thetaI / std::max(1, w) - (Num<T>::exact ? 0 : 0.01);
    int n = 0;
    double bl = l0, bu = u0;
    bool any = false;
    auto Omega = [&](const T& t) {
        ctx.step();
        const double v = Num<T>::d(t);
        ++n;
        ctx.MUST(n <= (long long)o.max_it, "%d probes with max_it=%u", n, o.max_it);
        ctx.MUST(v >= bl && v <= bu, "probe %g outside of the bracket [%g,%g]", v, bl, bu);
        ctx.MUST(bu - bl < 1e-12 || v < bu, "probe at the upper end %g, which is known", v);
        ctx.MUST(bu - bl >= 2 * (Num<T>::exact ? 1 : 1e-300) || fraction || bu == bl || v > bl, "probe %g is no progress in [%g,%g]", v, bl, bu);
        const bool ok = mode ? ctx.flag("feasible") : v >= theta;
        if (ok) { bu = v; any = true; } else bl = v;
        ctx.LOG("probe %g -> %s", v, ok ? "feasible" : "infeasible");
        return ok;
    };
    const CInfo info = bsearch(Omega, I, o);
    const double l = Num<T>::d(I.first), u = Num<T>::d(I.second);
    ctx.LOG("-> [%g,%g] feasible=%d num_iters=%zu status=%s", l, u, info.feasible, info.num_iters, sname(info.status));
    ctx.MUST(u == bu && l == bl, "final bracket [%.12g,%.12g], the answers leave [%.12g,%.12g]", l, u, bl, bu);
    ctx.MUST(info.feasible == (any && bu != u0), "feasible=%d, but %s", info.feasible, any ? "a probe was feasible" : "no probe was feasible");
    const double half = Num<T>::exact ? std::floor((u - l) / 2) : (u - l) / 2;
    if (info.status == CUTStatus::smallenough)
        ctx.MUST(half < o.tol, "small enough with bracket [%g,%g] and tol %g", l, u, o.tol);
    else
    {
        ctx.MUST(info.status == CUTStatus::success, "status %s", sname(info.status));
        ctx.MUST(n == (long long)o.max_it, "ended after %d probes (max_it=%u), bracket [%g,%g] tol %g", n, o.max_it, l, u, o.tol);
    }
    // every probe halves the bracket
    if (!fraction && u0 > l0)
    {
        const double q = std::log2(std::max(1., (u0 - l0) / (Num<T>::exact ? 1. : o.tol))) + 2;
        ctx.MUST(n <= q, "%d probes for the bracket [%g,%g], tol %g", n, l0, u0, o.tol);
    }
    if (mode == 0 && Num<T>::exact && o.max_it == 2000 && o.tol <= 1 && any)
        ctx.MUST(u == l0 + thetaI || (thetaI == 0 && u == l0 + 1) , "smallest feasible value %g, found %g", theta, u);
    if (mode == 0 && any) ctx.MUST(u >= theta && (l < theta || l == l0), "bracket [%g,%g] does not hold the threshold %g", l, u, theta);
    ctx.MUST((int)info.num_iters == n + 1, "num_iters %zu after %d probes", info.num_iters, n);
    ctx.state(mc::mix(mc::mix(mc::hdbl(l), mc::hdbl(u)), n));
}
#endif

#if PROP == 9
//! brackets at the edge of what the type holds, and far from 1
template <class T>
static void bsBig(Ctx& ctx, const std::vector<std::pair<T, T>>& brackets, const std::vector<double>& rel)
{
    const auto I0 = ctx.pick(brackets, "bracket");
    Options o;
    o.tol = ctx.pick(rel, "tol") * (std::is_integral<T>::value ? 1. : double(I0.second / 2 - I0.first / 2) * 2);
    o.max_it = ctx.pick(std::vector<unsigned> {2000, 5, 4294967295u, 2147483648u}, "max_it");
    const int k = ctx.range(0, 17, "threshold"); // 17: nothing is feasible
    const T theta = k == 17 ? I0.second : T(I0.first + (I0.second - I0.first) / 16 * k);
    auto I = I0;
    T bl = I.first, bu = I.second;
    int n = 0;
    auto Omega = [&](const T& t) {
        ctx.step();
        ++n;
        ctx.MUST(n <= (long long)o.max_it, "%d probes with max_it=%u", n, o.max_it);
        ctx.MUST(t > bl && t < bu, "probe %.17Lg is not inside of the bracket [%.17Lg,%.17Lg]", LD(t), LD(bl), LD(bu));
        const LD off = fabsl((LD(t) - LD(bl)) - (LD(bu) - LD(t)));
        ctx.MUST(off <= (std::is_integral<T>::value ? 1 : 1e-12L * (fabsl(LD(bl)) + fabsl(LD(bu)))),
            "probe %.17Lg is not the middle of [%.17Lg,%.17Lg]", LD(t), LD(bl), LD(bu));
        const bool ok = k != 17 && t >= theta;
        if (ok) bu = t; else bl = t;
        return ok;
    };
    const CInfo info = bsearch(Omega, I, o);
    ctx.LOG("[%.17Lg,%.17Lg] -> [%.17Lg,%.17Lg] after %d probes, %s", LD(I0.first), LD(I0.second), LD(I.first), LD(I.second), n, sname(info.status));
    ctx.MUST(I.first == bl && I.second == bu, "final bracket [%.17Lg,%.17Lg], the answers leave [%.17Lg,%.17Lg]",
        LD(I.first), LD(I.second), LD(bl), LD(bu));
    ctx.MUST(info.feasible == (bu != I0.second), "feasible=%d", info.feasible);
    const LD half = std::is_integral<T>::value ? floorl((LD(bu) - LD(bl)) / 2) : (LD(bu) - LD(bl)) / 2;
    if (info.status == CUTStatus::smallenough)
        ctx.MUST(half <= o.tol * (1 + 1e-9), "small enough with bracket [%.17Lg,%.17Lg] and tol %g", LD(bl), LD(bu), o.tol);
    else ctx.MUST(info.status == CUTStatus::success && n == (long long)o.max_it, "status %s after %d probes (max_it=%u)", sname(info.status), n, o.max_it);
    ctx.MUST((int)info.num_iters == n + 1, "num_iters %zu after %d probes", info.num_iters, n);
    ctx.state(mc::mix(n, mc::hdbl(double(bl))));
}
#endif

#if PROP == 10
// scripted space with copies: the original must only ever change its centre
struct CWorld
{
    Ctx& ctx;
    int copies = 0, left = 1 << 30; // updates before the space must end the run
    int fill = -1;                  // >= 0: the answers are given, see adaptor()
    explicit CWorld(Ctx& c) : ctx {c} { }
};
struct CSpace
{
    CWorld* w;
    int center = 1, shape = 0, id = 0;
    CSpace(CWorld* w_) : w {w_} { }
    CSpace(CSpace&&) = default;
    CSpace copy() const
    {
        CSpace c(w);
        c.center = center;
        c.shape = shape;
        c.id = ++w->copies;
        return c;
    }
    int xc() const { return center; }
    void set_xc(const int& x) { center = x; }
    std::tuple<CUTStatus, double> update(const std::tuple<int, int>&)
    {
        w->ctx.step();
        w->ctx.MUST(id != 0, "the original search space is cut");
        const int r = w->fill >= 0 ? (w->fill == 2 ? 1 : w->fill == 3 ? 2 : 0) : w->left-- > 0 ? w->ctx.choose(3, "update") : 1 + w->ctx.choose(2, "last update");
        if (r == 0) { center = int(10u * unsigned(center) + 1u); ++shape; return {CUTStatus::success, 1.}; }
        if (r == 1) return {CUTStatus::nosoln, 1.};
        ++shape;
        center = int(10u * unsigned(center) + 2u);
        return {CUTStatus::success, 1e-20};
    }
};
//! lng: many probes; the environment is free in two of them, in the others the
//! oracle accepts at once, accepts the second centre, or the space is
//! exhausted by the first cut, or small enough after it
static void adaptor(Ctx& ctx, bool lng = false)
{
    CWorld w(ctx);
    CSpace S(&w);
    S.center = 1;
    struct P
    {
        Ctx& ctx;
        double t = -1;
        int queries = 0, start = 0;
        bool fresh = false;
        int accepted = 0;
        bool ok = false;
        void update(double v) { t = v; fresh = true; queries = 0; ok = false; }
        std::optional<std::tuple<int, int>> operator()(const int& x)
        {
            ctx.step();
            ctx.MUST(t >= 0, "the oracle is asked before it was given t");
            if (queries++ == 0)
            {
                ctx.MUST(fresh, "the oracle was not given the new t");
                ctx.MUST(x == start, "the search starts at %d, the stored centre is %d", x, start);
            }
            fresh = false;
            const bool yes = w->fill >= 0 ? w->fill == 0 || (w->fill == 1 && queries == 2) : ctx.flag("feasible");
            if (yes) { ok = true; accepted = x; return {}; }
            return std::tuple<int, int> {1, 1};
        }
        CWorld* w = nullptr;
    } p {ctx};
    p.w = &w;
    const int turn = lng ? ctx.pick(std::vector<int> {0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 31, 32, 33, 62, 63}, "free probe") : 0;
    const int gap = lng ? ctx.range(1, 3, "distance to the next one") : 0, pattern = lng ? ctx.choose(6, "pattern") : 0;
    // the probes are a unit apart, or so close that they may look the same
    const double gapT = lng ? ctx.pick(std::vector<double> {1., 1e-9, 1e-12, 1e9}, "scale of t") : 1.;
    const int m = ctx.choose(4, "options");
    Options o;
    o.max_it = m == 0 ? 2000 : m;
    const bool viaDefault = m == 0;
    auto run = [&](auto&& A) {
        const int calls = lng ? 64 : ctx.thorough ? 8 : 6;
        for (int k = 0; k < calls; ++k)
        {
            const double t = gapT * (100 - k) + (gapT < 1 ? 100. : 0.);
            if (lng) w.fill = k == turn || k == turn + gap ? -1 : pattern < 4 ? pattern : pattern == 4 ? k % 4 : k % 3 == 2;
            if (lng && S.center > 100000000) S.center = p.start = 7; // the user moves the centre
            const int before = S.center;
            p.start = before;
            if (viaDefault) w.left = 2;
            else if (lng) w.left = 3;
            const bool r = A(t);
            ctx.step();
            ctx.MUST(p.t == t, "the oracle was given t=%g instead of %g", p.t, t);
            ctx.MUST(r == p.ok, "answer %d for t=%g, the oracle %s", r, t, p.ok ? "accepted a point" : "accepted none");
            ctx.MUST(p.queries <= (long long)o.max_it, "%d queries with max_it=%u", p.queries, o.max_it);
            ctx.MUST(S.shape == 0, "the stored search space was cut");
            ctx.MUST(S.center == (p.ok ? p.accepted : before), "stored centre %d after %s, expected %d", S.center,
                p.ok ? "success" : "failure", p.ok ? p.accepted : before);
            ctx.MUST(A.x_best() == S.center, "x_best()=%d", (int)A.x_best());
            ctx.LOG("t=%g -> %d, centre %d", t, r, S.center);
            ctx.state(mc::mix(S.center, k));
        }
    };
    if (viaDefault)
    {
        bsearch_adaptor<P, CSpace> A(p, S);
        o.max_it = 2000;
        run(A);
    }
    else
    {
        bsearch_adaptor<P, CSpace> A(p, S, o);
        run(A);
    }
}

//! the real ellipsoid under the adaptor and bsearch: min t s.t. |x - c|_inf <= t
static void realSearch(Ctx& ctx)
{
    using Arr = xt::xarray<double, xt::layout_type::row_major>;
    const double cx = ctx.range(-3, 3, "cx") * 0.7, cy = ctx.range(-3, 3, "cy") * 0.9;
    const double w = ctx.choose(3, "w") * 1.0; // the constraint x0 + x1 >= w
    struct P
    {
        Ctx& ctx; double cx, cy, w, t = 0; int n = 0;
        void update(double v) { t = v; }
        std::optional<std::tuple<Arr, double>> operator()(const Arr& x)
        {
            ctx.step();
            const double d0 = x(0) - cx, d1 = x(1) - cy;
            if (d0 - t > 0) return std::tuple<Arr, double> {Arr {1., 0.}, d0 - t};
            if (-d0 - t > 0) return std::tuple<Arr, double> {Arr {-1., 0.}, -d0 - t};
            if (d1 - t > 0) return std::tuple<Arr, double> {Arr {0., 1.}, d1 - t};
            if (-d1 - t > 0) return std::tuple<Arr, double> {Arr {0., -1.}, -d1 - t};
            const double s = w - x(0) - x(1);
            if (s > 0) return std::tuple<Arr, double> {Arr {-1., -1.}, s};
            return {};
        }
    } p {ctx, cx, cy, w};
    ell E(400., Arr {0., 0.});
    bsearch_adaptor<P, ell> A(p, E);
    std::pair<double, double> I {0., 16.};
    Options o;
    o.tol = 1e-4;
    const auto info = bsearch(A, I, o);
    const double best = std::max(0., (w - cx - cy) / 2);
    const Arr x = A.x_best();
    ctx.LOG("c=(%g,%g) w=%g: t=%g (exact %g) x=(%g,%g)", cx, cy, w, I.second, best, x(0), x(1));
    ctx.MUST(info.feasible, "nothing found");
    ctx.MUST(I.second >= best - 1e-9 && I.second <= best + 5e-3, "optimum %g, found %g", best, I.second);
    ctx.MUST(std::max(std::fabs(x(0) - cx), std::fabs(x(1) - cy)) <= I.second + 1e-9 && x(0) + x(1) >= w - 1e-9,
        "x_best (%g,%g) is not feasible for the reported t=%g", x(0), x(1), I.second);
    ctx.state(mc::mix(mc::hdbl(x(0)), mc::hdbl(I.second)));
}
#endif

int main(int argc, char** argv)
{
#if PROP >= 6 && PROP <= 9
    mc::add("defaults", 2, "no options given: tolerance 1e-8, limit 2000", defaults);
#endif
#if PROP == 5
    mc::add("all cut pairs", 3, "5 intervals x moved or not x (6 g x 31 offsets)^2", [](Ctx& c) { ell1dRun(c, 2, 1); });
    mc::add("all cut triples", 3, "5 intervals x moved or not x (4 g x 8 offsets)^3", [](Ctx& c) { ell1dRun(c, 3, 0); });
    mc::add("all cut quadruples", 3, "5 intervals x moved or not x (4 g x 8 offsets)^4", [](Ctx& c) { ell1dRun(c, 4, 0); });
    mc::add("tiny and huge, pairs", 3, "7 intervals from 1e-12 to 1e12 wide x moved or not x (6 g from 1e-12 to 1e12 x 31 offsets)^2",
        [](Ctx& c) { ell1dRun(c, 2, 1, true); });
    mc::add("long words", 3, "5 intervals x moved or not x every pair of cuts (4 g x 8 offsets) repeated up to 80 times",
        [](Ctx& c) { ell1dRun(c, 160, 0, false, true); });
    mc::add("long words, full alphabet", 3, "as above, 6 g x 31 offsets", [](Ctx& c) { ell1dRun(c, 160, 1, false, true); }, 2);
    mc::add("all cut triples, full alphabet", 3, "5 intervals x moved or not x (6 g x 31 offsets)^3", [](Ctx& c) { ell1dRun(c, 3, 1); }, 2);
    mc::add("all cut quintuples", 3, "5 intervals x moved or not x (4 g x 8 offsets)^5", [](Ctx& c) { ell1dRun(c, 5, 0); }, 2);
#elif PROP == 6
    mc::add("cutting_plane_feas", 4, "3 tolerances x max_it 0..18 (24) x every oracle answer x every update answer", [](Ctx& c) { feas(c); });
    mc::add("long runs", 4, "limits from 33 to 70000 and at the edge of the type, the environment deviates at two of up to 40 queries", [](Ctx& c) { feas(c, true); });
#elif PROP == 7
    mc::add("cutting_plane_dc, t double", 4, "2 tolerances x max_it 0..10 (12) x every oracle answer x every update answer", [](Ctx& c) { dc<double>(c, false); });
#ifndef LEAN
    mc::add("cutting_plane_dc, t int", 4, "as above", [](Ctx& c) { dc<int>(c, false); });
#endif
    mc::add("long runs", 4, "limits from 33 to 70000 and at the edge of the type, the environment deviates at two of up to 40 queries, improvements never, always, every 7th",
        [](Ctx& c) { dc<double>(c, false, true); });
    mc::add("cutting_plane_dc, other values", 5, "max_it 0..8 (10): the value grows, alternates, changes by one ulp", [](Ctx& c) { dc<double>(c, true); });
#ifndef LEAN
    mc::add("cutting_plane_dc, other values, int", 5, "max_it 0..8 (10): the value grows or alternates", [](Ctx& c) { dc<int>(c, true); });
#endif
#elif PROP == 8
    mc::add("cutting_plane_q", 5, "2 tolerances x max_it 0..7 (9) x every oracle answer (shrunk, more_alt) x every update answer", [](Ctx& c) { cpq(c, false); });
    mc::add("long runs", 5, "limits from 33 to 70000 and at the edge of the type, the environment deviates at two of up to 40 queries, 4 backgrounds (improvements, retries)",
        [](Ctx& c) { cpq(c, false, true); });
    mc::add("cutting_plane_q, other values", 5, "max_it 0..6 (8): the value grows, alternates, changes by one ulp", [](Ctx& c) { cpq(c, true); });
#elif PROP == 9
    mc::add("int, threshold", 3, "lower -3..4, width 0..20, every threshold, 4 tolerances, 5 caps", [](Ctx& c) { bs<int>(c, 0, false); });
#ifndef LEAN // fewer instantiations, tried when the full harness does not build
    mc::add("unsigned, threshold", 3, "lower 0..4, as above", [](Ctx& c) { bs<unsigned>(c, 0, false); });
#endif
    mc::add("long, threshold", 3, "as above", [](Ctx& c) { bs<long>(c, 0, false); });
    mc::add("double, threshold", 3, "as above", [](Ctx& c) { bs<double>(c, 0, false); });
#ifndef LEAN
    mc::add("Fraction, threshold", 3, "as above", [](Ctx& c) { bs<fun::Fraction<long>>(c, 0, true); });
#endif
    mc::add("int, large", 4, "brackets that reach the limits of the type x 18 thresholds x tolerances",
        [](Ctx& c) { bsBig<int>(c, {{2000000000, 2147483647}, {0, 2147483647}, {-2147483647 - 1, -2000000000}, {1073741824, 2147483646},
            {-1000000000, 1000000000}}, {1., .5, 1e5}); });
#ifndef LEAN
    mc::add("unsigned, large", 4, "as above",
        [](Ctx& c) { bsBig<unsigned>(c, {{4000000000u, 4294967295u}, {0u, 4294967295u}, {2147483648u, 4294967294u}}, {1., .5, 1e5}); });
#endif
    mc::add("long, large", 4, "as above",
        [](Ctx& c) { bsBig<long>(c, {{9000000000000000000L, 9223372036854775807L}, {0, 9223372036854775807L},
            {-9223372036854775807L, -9000000000000000000L}, {-(1L << 52), 1L << 52}}, {1., .5, 1e9}); });
    mc::add("double, tiny and large", 4, "brackets of width 1e-300..1e308",
        [](Ctx& c) { bsBig<double>(c, {{1e308, 1.7e308}, {0, 1.7e308}, {-1.7e308, -1e308}, {1e-300, 1e-299}, {-1e-9, 1e-9}, {1e9, 3e9}, {0, 1e-20}}, {1e-3, .1, 1e-9}); });
    mc::add("int, any answers", 4, "every answer sequence", [](Ctx& c) { bs<int>(c, 1, false); });
    mc::add("double, any answers", 4, "every answer sequence of up to 6 probes", [](Ctx& c) { bs<double>(c, 1, false); });
#ifndef LEAN
    mc::add("Fraction, any answers", 4, "every answer sequence of up to 8 probes", [](Ctx& c) { bs<fun::Fraction<long>>(c, 1, true); });
#endif
#elif PROP == 10
    mc::add("adaptor, every environment", 6, "max_it 1..3 or unlimited, 6 calls (8), every oracle and update answer", [](Ctx& c) { adaptor(c); });
    mc::add("adaptor, many probes", 3, "64 calls, the environment is free in two of them, 6 patterns in the others", [](Ctx& c) { adaptor(c, true); });
    mc::add("bsearch over ell", 2, "49 targets x 3 side conditions", realSearch);
#endif
    return mc::main(argc, argv);
}
