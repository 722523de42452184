// C18..C20: network oracles, negative cycle detection, cycle ratios.
// Every small weighted directed graph (self loops and parallel edges included)
// is built as a boost graph under the repository's adaptor and handed to the
// real code; a reference enumerates all simple cycles.
#include "mc.hpp"
#include <bitset>
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/graph_traits.hpp>
#include <boost/graph/properties.hpp>
#include <boost/property_map/property_map.hpp>
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <netoptim/min_cycle_ratio.hpp>
#include <netoptim/neg_cycle.hpp>
#include <py2cpp/fractions.hpp>
#include <py2cpp/nx2bgl.hpp>
#include <ellcpp/oracles/network_oracle.hpp>
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>

#ifndef PROP
#define PROP 19
#endif
using mc::Ctx;
using ll = long long;
using Frac = fun::Fraction<int>;
using Arr = xt::xarray<double, xt::layout_type::row_major>;

// ------------------------------------------------------------------ graphs
struct RefEdge { int u, v; ll w, t; };
struct RefGraph
{
    int n = 0;
    std::vector<RefEdge> e;
    std::string show() const
    {
        std::string s = mc::fmt("%d nodes:", n);
        for (auto& x : e) s += mc::fmt(" %d->%d(%lld,%lld)", x.u, x.v, x.w, x.t);
        return s;
    }
};
using VecG = boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS, boost::no_property,
    boost::property<boost::edge_index_t, int>>;
#ifdef LEAN // fewer instantiations, tried when the full harness does not build
using ListG = VecG;
#else
using ListG = boost::adjacency_list<boost::listS, boost::vecS, boost::directedS, boost::no_property,
    boost::property<boost::edge_index_t, int>>;
#endif
template <typename G>
xn::grAdaptor<G> build(const RefGraph& R)
{
    G g(R.n);
    for (int i = 0; i < (int)R.e.size(); ++i) boost::add_edge(R.e[i].u, R.e[i].v, i, g);
    return xn::grAdaptor<G>(std::move(g));
}
// simple cycles as lists of edge numbers
using Nodes = std::bitset<512>;
static void cyclesFrom(const RefGraph& R, int start, int at, Nodes& used, std::vector<int>& path,
    std::vector<std::vector<int>>& out)
{
    for (int i = 0; i < (int)R.e.size(); ++i)
    {
        if (R.e[i].u != at || R.e[i].v < start) continue;
        path.push_back(i);
        if (R.e[i].v == start) out.push_back(path);
        else if (!used[R.e[i].v])
        {
            used.set(R.e[i].v);
            cyclesFrom(R, start, R.e[i].v, used, path, out);
            used.reset(R.e[i].v);
        }
        path.pop_back();
    }
}
static std::vector<std::vector<int>> cycles(const RefGraph& R)
{
    std::vector<std::vector<int>> out;
    std::vector<int> p;
    for (int s = 0; s < R.n; ++s)
    {
        Nodes used;
        used.set(s);
        cyclesFrom(R, s, s, used, p, out);
    }
    return out;
}
//! the edges form one simple closed cycle (listed forwards or backwards)
static bool closedCycle(const RefGraph& R, const std::vector<int>& c)
{
    if (c.empty()) return false;
    bool fw = true, bw = true;
    Nodes seen;
    for (size_t i = 0; i < c.size(); ++i)
    {
        const auto &a = R.e[c[i]], &b = R.e[c[(i + 1) % c.size()]];
        fw = fw && a.v == b.u;
        bw = bw && a.u == b.v;
        if (seen[a.u]) return false;
        seen.set(a.u);
    }
    return fw || bw;
}
struct Shape { int n, m; bool loops; std::vector<ll> w, t; bool big = false; };
//! weights shifted by the differences of a potential: every cycle keeps its
//! weight, but the numbers along it are large
static ll POT = 0;
struct Pot { Pot(ll k) { POT = k; } ~Pot() { POT = 0; } };
static ll pot(int v) { return POT * (v % 3 == 0 ? 0 : v % 3 == 1 ? 3 : -1); }
//! every graph of a shape: edges ordered by source (the order among edges of
//! different sources is not observable through the adaptor)
//! larger graphs: s.n selects the sizes, one edge (or pair) is special
static RefGraph bigGraph(Ctx& ctx, const Shape& s)
{
    static const std::vector<std::vector<int>> sizes[] = {{{5, 8, 13}, {3, 6}, {3, 6}}, {{5, 9, 16, 31, 48}, {3, 8, 17}, {3, 8, 16}}};
    RefGraph R;
    const std::vector<ll> ts = s.t.empty() ? std::vector<ll> {1} : s.t;
    const int kind = ctx.choose(3, "family"), k = ctx.pick(sizes[s.n][kind], "size");
    const ll w = ctx.pick(s.w, "weight"), t = ctx.pick(ts, "time");
    std::vector<int> pos {0};
    for (int p : {1, k / 2, k - 1}) if (p > pos.back()) pos.push_back(p);
    const int at = ctx.pick(pos, "special");
    const ll w1 = ctx.pick(s.w, "special weight"), t1 = ctx.pick(ts, "special time");
    const int var = ctx.choose(kind == 1 ? 2 : 3, "variant");
    const bool rev = ctx.flag("reversed");
    auto add = [&](int u, int v, bool sp) {
        R.e.push_back({rev ? R.n - 1 - u : u, rev ? R.n - 1 - v : v, sp ? w1 : w, sp ? t1 : t});
    };
    if (kind == 0) // a ring with or without a chord
    {
        R.n = k;
        for (int i = 0; i < k; ++i) add(i, (i + 1) % k, i == at);
        if (var == 1) add(0, k / 2, false);
        if (var == 2) add(k / 2, 0, false);
    }
    else if (kind == 1) // parallel edges, there and back
    {
        R.n = 2;
        for (int i = 0; i < k; ++i) add(0, 1, var == 0 && i == at);
        for (int i = 0; i < k; ++i) add(1, 0, var == 1 && i == at);
    }
    else // pairs, not linked, linked forwards, backwards
    {
        R.n = 2 * k;
        for (int i = 0; i < k; ++i)
        {
            add(2 * i, 2 * i + 1, i == at);
            add(2 * i + 1, 2 * i, false);
            if (var == 1 && i + 1 < k) add(2 * i, 2 * i + 2, false);
            if (var == 2 && i + 1 < k) add(2 * i + 3, 2 * i + 1, false);
        }
    }
    return R;
}
static RefGraph pickGraph(Ctx& ctx, const Shape& s)
{
    if (s.big)
    {
        auto R = bigGraph(ctx, s);
        for (auto& e : R.e) e.w += pot(e.v) - pot(e.u);
        return R;
    }
    RefGraph R;
    R.n = s.n;
    int lo = 0;
    for (int i = 0; i < s.m; ++i)
    {
        RefEdge e;
        e.u = ctx.range(lo, s.n - 1, "source");
        lo = e.u;
        int v = ctx.range(0, s.n - 1 - (s.loops ? 0 : 1), "target");
        if (!s.loops && v >= e.u) ++v;
        e.v = v;
        e.w = ctx.pick(s.w, "weight");
        e.t = s.t.empty() ? 1 : ctx.pick(s.t, "time");
        e.w += pot(e.v) - pot(e.u);
        R.e.push_back(e);
    }
    return R;
}
template <typename T> T conv(ll a, ll b = 1) { return T(a) / T(b); }
template <> Frac conv<Frac>(ll a, ll b) { return Frac((int)a, (int)b); }
template <> int conv<int>(ll a, ll) { return (int)a; }
//! weights in other units (exact: powers of two)
static int UNIT = 0;
struct Unit { Unit(int k) { UNIT = k; } ~Unit() { UNIT = 0; } };
template <> double conv<double>(ll a, ll b) { return std::ldexp(double(a) / double(b), UNIT); }
template <> ll conv<ll>(ll a, ll b) { return (ll(1) << UNIT) * (a / b); }
static double num(double d) { return d; }
static double num(int d) { return d; }
static double num(ll d) { return (double)d; }
static double num(const Frac& f) { return double(f.numerator()) / f.denominator(); }

// =============================================================== C19
#if PROP == 19
template <typename T, typename G, typename Dist>
void negCycle(Ctx& ctx, const RefGraph& R, const xn::grAdaptor<G>& g, negCycleFinder<xn::grAdaptor<G>>& S,
    Dist& dist, const std::vector<ll>& w, int div)
{
    auto idx = boost::get(boost::edge_index, g);
    using edge_t = typename xn::grAdaptor<G>::edge_t;
    auto getW = [&](const edge_t& e) -> T { return conv<T>(w[idx[e]], div); };
    std::vector<T> d0;
    bool feas0 = true;
    for (int v = 0; v < R.n; ++v) d0.push_back(dist[v]);
    for (size_t i = 0; i < R.e.size(); ++i)
        if (d0[R.e[i].v] > d0[R.e[i].u] + conv<T>(w[i], div)) feas0 = false;
    const auto C = S.find_neg_cycle(dist, getW);
    ctx.step();
    bool neg = false;
    for (auto& c : cycles(R))
    {
        ll s = 0;
        for (int i : c) s += w[i];
        neg = neg || s < 0;
    }
    std::vector<int> ids;
    for (auto& e : C) ids.push_back(idx[e]);
    if (ctx.tracing)
    {
        std::string s;
        for (int i : ids) s += mc::fmt(" #%d", i);
        ctx.LOG("%s weights/%d -> cycle{%s }", R.show().c_str(), div, s.c_str());
    }
    ctx.MUST(C.empty() == !neg, "%s: %s negative cycle was reported although there is %s", R.show().c_str(),
        C.empty() ? "no" : "a", neg ? "one" : "none");
    uint64_t h = mc::hstr(R.show());
    for (int v = 0; v < R.n; ++v) h = mc::mix(h, mc::hdbl(num(dist[v])));
    ctx.state(h);
    if (neg)
    {
        ll s = 0;
        for (int i : ids) s += w[i];
        ctx.MUST(closedCycle(R, ids), "%s: the reported edges do not form a cycle", R.show().c_str());
        ctx.MUST(s < 0, "%s: the reported cycle has weight %lld", R.show().c_str(), s);
        return;
    }
    for (size_t i = 0; i < R.e.size(); ++i)
        ctx.MUST(!(dist[R.e[i].v] > dist[R.e[i].u] + conv<T>(w[i], div)),
            "%s: no negative cycle, but the distances violate edge %d->%d: %.17g > %.17g + %.17g", R.show().c_str(),
            R.e[i].u, R.e[i].v, num(dist[R.e[i].v]), num(dist[R.e[i].u]), num(conv<T>(w[i], div)));
    for (int v = 0; v < R.n; ++v)
        ctx.MUST(feas0 ? dist[v] == d0[v] : !(dist[v] > d0[v]), "%s: distance of node %d went from %g to %g (%s)",
            R.show().c_str(), v, num(d0[v]), num(dist[v]), feas0 ? "they were feasible before" : "raised");
}
static std::vector<ll> dist0(Ctx& ctx, int n, int kinds)
{
    const int k = ctx.choose(kinds, "initial distances");
    std::vector<ll> d(n);
    for (int i = 0; i < n; ++i)
        d[i] = k == 0 ? 0 : k == 1 ? 10 * i : k == 2 ? -10 * i : (i == 1 ? 100 : 7);
    return d;
}
template <typename T, typename G>
void negScenario(Ctx& ctx, const Shape& s, int kinds, bool second, int div)
{
    const auto R = pickGraph(ctx, s);
    const auto d = dist0(ctx, R.n, kinds);
    const auto g = build<G>(R);
    negCycleFinder<xn::grAdaptor<G>> S(g);
    std::vector<T> dist;
    for (auto x : d) dist.push_back(conv<T>(x));
    std::vector<ll> w;
    for (auto& e : R.e) w.push_back(e.w);
    negCycle<T>(ctx, R, g, S, dist, w, div);
    if (second)
    {
        // the same finder and the same distances after the weights changed
        const int k = ctx.choose(3, "change");
        for (size_t i = 0; i < w.size(); ++i) w[i] = k == 0 ? -w[i] : k == 1 ? w[i] + 1 : w[i] - (i == 0 ? 2 : 0);
        RefGraph R2 = R;
        for (size_t i = 0; i < w.size(); ++i) R2.e[i].w = w[i];
        negCycle<T>(ctx, R2, g, S, dist, w, div);
        for (auto& x : w) x += 1;
        for (size_t i = 0; i < w.size(); ++i) R2.e[i].w = w[i];
        negCycle<T>(ctx, R2, g, S, dist, w, div);
    }
}
template <typename T>
void negDict(Ctx& ctx, const Shape& s)
{
    const auto R = pickGraph(ctx, s);
    const auto g = build<VecG>(R);
    negCycleFinder<xn::grAdaptor<VecG>> S(g);
    py::dict<size_t, T> dist;
    const auto d = dist0(ctx, R.n, 3);
    for (int i = 0; i < R.n; ++i) dist[i] = conv<T>(d[i]);
    std::vector<ll> w;
    for (auto& e : R.e) w.push_back(e.w);
    negCycle<T>(ctx, R, g, S, dist, w, 1);
}
//! directed rings and chains: the length of the propagation matters
template <typename T>
void negRing(Ctx& ctx, const std::vector<int>& sizes)
{
    const int n = ctx.pick(sizes, "nodes");
    const ll w = ctx.pick(std::vector<ll> {1, 0, -1}, "weight"), last = ctx.pick(std::vector<ll> {-9, -3, -1, 0, 1, 2, 9}, "last");
    const bool rev = ctx.flag("reversed");
    const int cut = n > 60 ? ctx.pick(std::vector<int> {n / 2, n}, "chord") : n > 14 ? ctx.pick(std::vector<int> {0, 1, n / 2, n - 1, n}, "chord") : ctx.choose(n + 1, "chord");   // n: none
    const ll cw = n > 60 ? 0 : ctx.pick(std::vector<ll> {-4, 0, 4}, "chord weight");
    RefGraph R;
    R.n = n;
    for (int i = 0; i < n; ++i)
    {
        const int u = rev ? n - 1 - i : i, v = rev ? (2 * n - 2 - i) % n : (i + 1) % n;
        R.e.push_back({u, v, i == n - 1 ? last : w, 1});
    }
    if (cut < n) R.e.push_back({cut, (cut + n / 2) % n, cw, 1});
    for (auto& e : R.e) e.w += pot(e.v) - pot(e.u);
    const auto d = dist0(ctx, n, 4);
    const auto g = build<VecG>(R);
    negCycleFinder<xn::grAdaptor<VecG>> S(g);
    std::vector<T> dist;
    for (auto x : d) dist.push_back(conv<T>(x));
    std::vector<ll> ws;
    for (auto& e : R.e) ws.push_back(e.w);
    negCycle<T>(ctx, R, g, S, dist, ws, 1);
}
//! one long cycle, the edges in its order, all of weight w but one
static void negEnormous(Ctx& ctx)
{
    const int n = ctx.pick(std::vector<int> {300, 1000, 32770, 66000}, "nodes"), w = ctx.choose(2, "weight"), at = ctx.pick(std::vector<int> {0, 1, n / 2, n - 1}, "special");
    const int below = ctx.pick(std::vector<int> {-1, 0, 1}, "total");
    RefGraph R;
    R.n = n;
    for (int i = 0; i < n; ++i) R.e.push_back({i, (i + 1) % n, i == at ? below - w * (n - 1) : w, 1});
    const auto g = build<VecG>(R);
    auto idx = boost::get(boost::edge_index, g);
    negCycleFinder<xn::grAdaptor<VecG>> S(g);
    std::vector<int> dist(n, 0);
    const auto C = S.find_neg_cycle(dist, [&](const auto& e) { return (int)R.e[idx[e]].w; });
    ctx.step();
    ctx.state(mc::mix(n, C.size()));
    ctx.MUST(C.empty() == (below >= 0), "a cycle of %d edges and total %d: %zu edges are returned", n, below, C.size());
    if (C.empty())
    {
        for (auto& e : R.e) ctx.MUST(dist[e.v] <= dist[e.u] + e.w, "no cycle, but %d > %d + %lld", dist[e.v], dist[e.u], e.w);
        return;
    }
    ctx.MUST((int)C.size() == n, "a cycle of %d edges, %zu are returned", n, C.size());
    std::vector<char> seen(n);
    for (auto& e : C) { ctx.MUST(!seen[idx[e]], "edge %d twice", (int)idx[e]); seen[idx[e]] = 1; }
}
//! a complete graph with weights p(v) - p(u) + slack, one of them lowered: a
//! negative cycle exists iff it was lowered by more than the slack of its cycles
static void negDense(Ctx& ctx)
{
    const int n = ctx.pick(std::vector<int> {4, 5, 8, 12, 17, 24}, "nodes"), pk = ctx.choose(4, "potentials");
    const ll slack = ctx.choose(3, "slack");
    const int a = ctx.pick(std::vector<int> {0, 1, n - 1}, "from"), b = ctx.pick(std::vector<int> {0, n / 2, n - 1}, "to");
    if (a == b) ctx.prune();
    const ll by = ctx.pick(std::vector<ll> {0, 1, 2, 3, 4, 5, 9}, "lowered by");
    RefGraph R;
    R.n = n;
    std::vector<ll> p(n);
    for (int i = 0; i < n; ++i) p[i] = pk == 0 ? 0 : pk == 1 ? 3 * i : pk == 2 ? (i * 7) % n * 5 - 11 : (i * 5) % 7 * 20000000;
    for (int u = 0; u < n; ++u)
        for (int v = 0; v < n; ++v)
            if (u != v) R.e.push_back({u, v, p[v] - p[u] + slack - (u == a && v == b ? by : 0), 1});
    const bool neg = by > 2 * slack; // the shortest way back is one edge
    const auto d = dist0(ctx, n, 4);
    const auto g = build<VecG>(R);
    auto idx = boost::get(boost::edge_index, g);
    using edge_t = typename xn::grAdaptor<VecG>::edge_t;
    negCycleFinder<xn::grAdaptor<VecG>> S(g);
    std::vector<int> dist;
    for (auto x : d) dist.push_back((int)x);
    const std::string nm = mc::fmt("complete graph of %d nodes, potentials %d, slack %lld, %d->%d lowered by %lld", n, pk, slack, a, b, by);
    for (int call = 0; call < 3; ++call)
    {
        // second call: the edge restored; third call: lowered again
        const bool restored = call == 1;
        auto getW = [&](const edge_t& e) { const auto& x = R.e[idx[e]]; return int(x.w + (restored && x.u == a && x.v == b ? by : 0)); };
        const auto C = S.find_neg_cycle(dist, getW);
        ctx.step();
        const bool want = neg && !restored;
        ctx.LOG("%s%s -> %zu edges", nm.c_str(), restored ? " (restored)" : "", C.size());
        ctx.MUST(C.empty() == !want, "%s%s: %s negative cycle was reported", nm.c_str(), restored ? " (restored)" : "", C.empty() ? "no" : "a");
        std::vector<int> ids;
        ll sum = 0;
        for (auto& e : C) { ids.push_back(idx[e]); sum += getW(e); }
        if (want)
        {
            ctx.MUST(closedCycle(R, ids), "%s: the reported edges do not form a cycle", nm.c_str());
            ctx.MUST(sum < 0, "%s: the reported cycle has weight %lld", nm.c_str(), sum);
        }
        else
            for (size_t i = 0; i < R.e.size(); ++i)
            {
                const ll w = R.e[i].w + (restored && R.e[i].u == a && R.e[i].v == b ? by : 0);
                ctx.MUST(dist[R.e[i].v] <= dist[R.e[i].u] + w, "%s: no negative cycle, but the distances violate edge %d->%d", nm.c_str(), R.e[i].u, R.e[i].v);
            }
        uint64_t h = mc::hstr(nm);
        for (int v : dist) h = mc::mix(h, v);
        ctx.state(h);
    }
}
//! k small cycles joined in a chain; at most two of them are negative
static void negBlocks(Ctx& ctx)
{
    const int len = ctx.range(1, 3, "cycle length"), k = ctx.pick(std::vector<int> {2, 3, 5, 8, 13, 16}, "cycles");
    const int a = ctx.choose(k + 1, "first negative"), b = ctx.choose(2, "second") ? k - 1 : a;
    const ll other = ctx.pick(std::vector<ll> {0, 1}, "other weight"), link = ctx.pick(std::vector<ll> {0, 1, -5, 99}, "link");
    const bool back = ctx.flag("links backwards");
    RefGraph R;
    R.n = k * len;
    for (int i = 0; i < k; ++i)
    {
        for (int j = 0; j < len; ++j)
            R.e.push_back({i * len + j, i * len + (j + 1) % len, j == len - 1 ? (i == a || i == b ? -1 : other) : 0, 1});
        if (!back && i + 1 < k) R.e.push_back({i * len, (i + 1) * len, link, 1});
        if (back && i > 0) R.e.push_back({i * len, (i - 1) * len, link, 1});
    }
    const auto d = dist0(ctx, R.n, 4);
    const auto g = build<VecG>(R);
    negCycleFinder<xn::grAdaptor<VecG>> S(g);
    std::vector<int> dist;
    for (auto x : d) dist.push_back((int)x);
    std::vector<ll> ws;
    for (auto& e : R.e) ws.push_back(e.w);
    negCycle<int>(ctx, R, g, S, dist, ws, 1);
    // the same finder, after the negative cycles have become cheaper or dearer
    const int by = ctx.choose(3, "change");
    RefGraph R2 = R;
    for (size_t i = 0; i < ws.size(); ++i)
        if (R.e[i].w == -1) R2.e[i].w = ws[i] = by == 0 ? 1 : by == 1 ? 0 : -3;
    negCycle<int>(ctx, R2, g, S, dist, ws, 1);
}
static void reg()
{
    const std::vector<ll> W5 {0, 1, -1, 3, -2}, W3 {1, -1, 2}, W2 {1, -2}, W4 {0, 1, -1, -2};
    for (int m : {0, 1, 2, 3})
        mc::add(mc::fmt("int-2n%de", m), 3, mc::fmt("all multigraphs with 2 nodes, %d edges, weights {0,1,-1,3,-2}, 4 initial distances, finder reused 3 times", m),
            [=](Ctx& c) { negScenario<int, VecG>(c, {2, m, true, W5, {}}, 4, true, 1); });
    mc::add("int-3n2e", 3, "all multigraphs with 3 nodes, 2 edges, 5 weights", [=](Ctx& c) { negScenario<int, ListG>(c, {3, 2, true, W5, {}}, 4, true, 1); });
    mc::add("int-3n3e", 4, "all multigraphs with 3 nodes, 3 edges, weights {0,1,-1,-2}; list and vector graphs",
        [=](Ctx& c) { if (c.flag("list")) negScenario<int, ListG>(c, {3, 3, true, W4, {}}, 2, false, 1);
                      else negScenario<int, VecG>(c, {3, 3, true, W4, {}}, 3, true, 1); });
    mc::add("int-3n4e", 5, "all graphs with 3 nodes, 4 edges, no self loops, weights {1,-1,2}",
        [=](Ctx& c) { negScenario<int, VecG>(c, {3, 4, false, W3, {}}, 2, false, 1); });
    mc::add("int-4n4e", 5, "all graphs with 4 nodes, 4 edges, no self loops, weights {1,-2}",
        [=](Ctx& c) { negScenario<int, VecG>(c, {4, 4, false, W2, {}}, 2, false, 1); });
    mc::add("double-3n3e", 4, "3 nodes, 3 edges, weights k/4, double",
        [=](Ctx& c) { negScenario<double, VecG>(c, {3, 3, true, W3, {}}, 3, true, 4); });
    mc::add("double-3n3e-units", 4, "3 nodes, 3 edges, weights in units from 2^-1000 to 2^1000, double",
        [=](Ctx& c) { Unit u(c.pick(std::vector<int> {-40, 40, -1000, 1000, -20, 300}, "unit")); negScenario<double, VecG>(c, {3, 3, true, W3, {}}, 3, true, 1); });
    mc::add("long-3n3e-units", 4, "3 nodes, 3 edges, weights in units from 1 to 2^50, 64-bit integers",
        [=](Ctx& c) { Unit u(c.pick(std::vector<int> {0, 31, 33, 50}, "unit")); negScenario<ll, VecG>(c, {3, 3, true, W3, {}}, 3, true, 1); });
    mc::add("ring-units", 3, "rings of 2..60 nodes with one chord, weights in units of 2^-40, 2^40, 2^-1000",
        [=](Ctx& c) { Unit u(c.pick(std::vector<int> {-40, 40, -1000}, "unit")); negRing<double>(c, {2, 3, 5, 9, 14, 17, 33, 60}); });
    mc::add("fraction-3n3e", 4, "3 nodes, 3 edges, weights k/3, exact fractions",
        [=](Ctx& c) { negScenario<Frac, VecG>(c, {3, 3, true, W2, {}}, 2, true, 3); });
    mc::add("dict-3n3e", 4, "distances in a dictionary", [=](Ctx& c) { negDict<int>(c, {3, 3, true, W3, {}}); });
    mc::add("ring", 3, "rings of 2..7 nodes with one chord, 3 x 7 x 3 weights", [=](Ctx& c) { negRing<int>(c, {2, 3, 4, 5, 6, 7}); });
    mc::add("int-3n5e", 5, "3 nodes, 5 edges, no self loops, weights {1,-2}",
        [=](Ctx& c) { negScenario<int, VecG>(c, {3, 5, false, W2, {}}, 2, true, 1); });
    mc::add("int-3n4e-loops", 5, "3 nodes, 4 edges with self loops, weights {0,1,-1,-2}",
        [=](Ctx& c) { negScenario<int, VecG>(c, {3, 4, true, W4, {}}, 3, true, 1); });
    mc::add("int-4n5e", 5, "4 nodes, 5 edges, weights {1,-2}",
        [=](Ctx& c) { negScenario<int, VecG>(c, {4, 5, false, W2, {}}, 2, false, 1); });
    mc::add("int-4n4e-w3", 5, "4 nodes, 4 edges with self loops, weights {1,-1,2}",
        [=](Ctx& c) { negScenario<int, ListG>(c, {4, 4, true, W3, {}}, 2, true, 1); });
    mc::add("int-3n5e-loops", 5, "3 nodes, 5 edges with self loops, weights {1,-1,2}",
        [=](Ctx& c) { negScenario<int, VecG>(c, {3, 5, true, W3, {}}, 2, false, 1); }, 2);
    mc::add("int-4n5e-w3", 5, "4 nodes, 5 edges, weights {1,-1,2}",
        [=](Ctx& c) { negScenario<int, VecG>(c, {4, 5, false, W3, {}}, 2, false, 1); }, 2);
    mc::add("int-5n5e", 5, "5 nodes, 5 edges, weights {1,-2}",
        [=](Ctx& c) { negScenario<int, VecG>(c, {5, 5, false, W2, {}}, 1, false, 1); }, 2);
    mc::add("families", 4, "rings of 5..48 nodes with a chord, 3..17 parallel edges each way, 3..16 linked pairs; weights {0,1,-1,-2}, one edge special, finder reused 3 times",
        [=](Ctx& c) { negScenario<int, VecG>(c, {1, 0, true, W4, {}, true}, 3, true, 1); });
    mc::add("families-dict", 4, "the smaller of them, distances in a dictionary", [=](Ctx& c) { negDict<int>(c, {0, 0, true, W4, {}, true}); });
    mc::add("int-3n3e-shifted", 4, "3 nodes, 3 edges, weights shifted by potentials of 10^8 (10^13 for 64-bit integers, 2^45 for double, 10^6 for fractions), which cancel in every cycle",
        [=](Ctx& c) {
            const int k = c.choose(4, "type");
            Pot p(k == 0 ? 100000000 : k == 1 ? 10000000000000 : k == 2 ? 1ll << 45 : 1000000);
            const Shape s {3, 3, false, {0, 1, -1}, {}};
            if (k == 0) negScenario<int, VecG>(c, s, 2, true, 1);
            else if (k == 1) negScenario<ll, VecG>(c, s, 2, true, 1);
            else if (k == 2) negScenario<double, ListG>(c, s, 2, true, 4);
            else negScenario<Frac, VecG>(c, s, 2, true, 3);
        });
    mc::add("families-shifted", 4, "the smaller families, shifted so", [=](Ctx& c) {
        const bool k = c.flag("double");
        Pot p(k ? 1ll << 45 : 100000000);
        if (k) negScenario<double, VecG>(c, {0, 0, true, {0, 1, -1}, {}, true}, 1, true, 4);
        else negScenario<int, VecG>(c, {0, 0, true, {0, 1, -1}, {}, true}, 1, true, 1);
    });
    mc::add("ring-shifted", 3, "rings of 2..60 nodes with one chord, shifted so", [=](Ctx& c) {
        const bool k = c.flag("double");
        Pot p(k ? 1ll << 45 : 100000000);
        const std::vector<int> sizes {2, 3, 4, 5, 6, 17, 60};
        if (k) negRing<double>(c, sizes); else negRing<int>(c, sizes);
    });
    mc::add("dense", 3, "complete graphs of 4..24 nodes, weights from potentials plus slack, one edge lowered", negDense);
    mc::add("ring-long", 3, "rings of 2..14 nodes with one chord", [=](Ctx& c) { negRing<double>(c, {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}); });
    mc::add("ring-large", 3, "rings of 16, 17, 31, 33, 47, 60 nodes with one chord", [=](Ctx& c) { negRing<int>(c, {16, 17, 31, 33, 47, 60}); });
    mc::add("ring-huge", 3, "rings of 101, 130, 240, 300 nodes with or without a chord", [=](Ctx& c) { negRing<int>(c, {101, 130, 240, 300}); });
    mc::add("ring-enormous", 3, "rings of 300, 1000, 32770, 66000 nodes, edges in order", negEnormous);
    mc::add("star", 3, "2..16 blocks (self loops, 2- or 3-cycles) in a chain, all of weight 0 or 1 but one or two of weight -1", [=](Ctx& c) { negBlocks(c); });
}
#endif

// =============================================================== C20
#if PROP == 20
struct Q { ll p, q; };   // q > 0
static bool less(const Q& a, const Q& b) { return a.p * b.q < b.p * a.q; }
static bool eq(const Q& a, const Q& b) { return a.p * b.q == b.p * a.q; }
template <typename T> bool same(const T& r, const Q& q);
template <> bool same(const Frac& r, const Q& q) { return (ll)r.numerator() * q.q == q.p * (ll)r.denominator() && r.denominator() > 0; }
template <> bool same(const double& r, const Q& q) { return std::fabs(r - double(q.p) / q.q) <= 1e-9 * (1 + std::fabs(r)); }

template <typename T, typename G>
void ratio(Ctx& ctx, const Shape& s, bool viaParametric, bool mixed = false, int uk = 0)
{
    // costs in other units: 2^uk, exact in floating point
    auto in = [&](const T& x) -> T { if constexpr (std::is_same<T, double>::value) return std::ldexp(x, uk); else return x; };
    auto out = [&](const T& x) -> T { if constexpr (std::is_same<T, double>::value) return std::ldexp(x, -uk); else return x; };
    // types of (cost, time): int, int | int, halves in T | halves in T, int | halves, quarters
    const int kind = !mixed ? 0 : std::is_same<T, double>::value ? 1 + ctx.choose(3, "types") : 2 + ctx.choose(2, "types");
    const ll fp = kind == 1 || kind == 3 ? 2 : 1, fq = kind == 2 ? 2 : 1;
    const auto R = pickGraph(ctx, s);
    const auto cs = cycles(R);
    bool any = false;
    Q best {0, 1};
    for (auto& c : cs)
    {
        Q q {0, 0};
        for (int i : c) { q.p += R.e[i].w * fp; q.q += R.e[i].t * fq; }
        if (q.q <= 0) ctx.prune();   // outside the contract: a cycle without transit time
        // floating point: only where every ratio is a dyadic number, so that the
        // arithmetic is exact (see inexact() for what happens otherwise)
        if (std::is_same<T, double>::value && (q.q & (q.q - 1))) ctx.prune();
        if (!any || less(q, best)) best = q;
        any = true;
    }
    // starting value: large, just above, equal to, below the minimum
    const int k = any ? ctx.choose(4, "start") : 0;
    Q start = k == 0 ? Q {20, 1} : k == 1 ? Q {best.p * 8 + best.q, best.q * 8} : k == 2 ? best : Q {best.p - best.q, best.q};
    const int mi = ctx.choose(3, "limit");
    const size_t maxIter = mi == 0 ? 1000 : mi == 1 ? 0 : 1;
    const int dk = ctx.choose(3, "initial distances");
    const auto g = build<G>(R);
    auto idx = boost::get(boost::edge_index, g);
    using edge_t = typename xn::grAdaptor<G>::edge_t;
    std::vector<T> dist;
    for (int i = 0; i < R.n; ++i) dist.push_back(in(conv<T>(dk == 0 ? 0 : dk == 1 ? 5 * i : -5 * i)));
    T r = in(conv<T>(start.p, start.q));
    const T r0 = out(r);
    std::vector<edge_t> C;
    auto cost = [&](const edge_t& e) { return (int)R.e[idx[e]].w; };
    auto time = [&](const edge_t& e) { return (int)R.e[idx[e]].t; };
    auto costH = [&](const edge_t& e) { return conv<T>(R.e[idx[e]].w, 2); };
    auto costU = [&](const edge_t& e) { return in(conv<T>(R.e[idx[e]].w)); };
    auto timeH = [&](const edge_t& e) { return conv<T>(R.e[idx[e]].t, 2); };
    auto timeQ = [&](const edge_t& e) { return conv<T>(R.e[idx[e]].t, 4); };
    if constexpr (std::is_same<T, double>::value)
        if (kind == 1) C = min_cycle_ratio(g, r, cost, timeH, dist, maxIter);
    if (kind == 1) {}
    else if (kind == 2) C = min_cycle_ratio(g, r, costH, time, dist, maxIter);
    else if (kind == 3) C = min_cycle_ratio(g, r, costH, timeQ, dist, maxIter);
    else if (!viaParametric && uk) C = min_cycle_ratio(g, r, costU, time, dist, maxIter);
    else if (!viaParametric) C = min_cycle_ratio(g, r, cost, time, dist, maxIter);
    else
    {
        // the general problem, d(r,e) = cost - r time, solved on a cycle by hand
        auto d = [&](const T& x, const edge_t& e) -> T { return in(conv<T>(cost(e))) - x * conv<T>(time(e)); };
        auto zc = [&](const std::vector<edge_t>& c) -> T
        {
            ll p = 0, q = 0;
            for (auto& e : c) { p += cost(e); q += time(e); }
            return in(conv<T>(p, q));
        };
        C = max_parametric(g, r, d, zc, dist, maxIter);
    }
    ctx.step();
    r = out(r);
    for (auto& x : dist) x = out(x);
    std::vector<int> ids;
    Q got {0, 0};
    for (auto& e : C) { ids.push_back(idx[e]); got.p += R.e[idx[e]].w * fp; got.q += R.e[idx[e]].t * fq; }
    ctx.LOG("%s start %g limit %zu -> %g, %zu edges (minimum %s)", R.show().c_str(), num(r0), maxIter, num(r), C.size(),
        any ? mc::fmt("%lld/%lld", best.p, best.q).c_str() : "none");
    uint64_t h = mc::mix(mc::hstr(R.show()), mc::hdbl(num(r)));
    ctx.state(h);
    const bool improvable = any && less(best, start);
    if (!improvable || maxIter == 0)
    {
        ctx.MUST(C.empty() && r == r0, "%s: nothing to improve from %g (limit %zu), but the result is %g with %zu edges",
            R.show().c_str(), num(r0), maxIter, num(r), C.size());
        if (maxIter == 0) return;
    }
    else
    {
        ctx.MUST(closedCycle(R, ids), "%s: the returned edges do not form a cycle", R.show().c_str());
        ctx.MUST(same(r, got), "%s: the result is %.17g but the returned cycle has ratio %lld/%lld", R.show().c_str(),
            num(r), got.p, got.q);
        if (maxIter == 1) { ctx.MUST(less(got, start), "%s: one step from %g did not improve", R.show().c_str(), num(r0)); return; }
        ctx.MUST(eq(got, best) && same(r, best), "%s: minimum cycle ratio %lld/%lld, the result is %.17g = %lld/%lld",
            R.show().c_str(), best.p, best.q, num(r), got.p, got.q);
    }
    if (maxIter < 1000) return;
    const double eps = std::is_same<T, double>::value ? 1e-12 : 0;
    for (auto& e : R.e)
        ctx.MUST(num(dist[e.v] - dist[e.u]) <= num(conv<T>(e.w * fp) - r * conv<T>(e.t * fq)) / (kind == 0 || kind == 2 ? 1. * fq : kind == 1 ? 2. : 4.) + eps,
            "%s: the final potentials violate edge %d->%d", R.show().c_str(), e.u, e.v);
}
//! k cycles of k ratios: the search needs many improvements.  With a limit of
//! at least k it reaches the minimum, and so does a limit of one used again
//! and again.
template <typename T>
void ladder(Ctx& ctx, const std::vector<int>& ks)
{
    const int k = ctx.pick(ks, "cycles"), len = ctx.range(1, 3, "cycle length");
    const int ord = ctx.choose(4, "order"), link = ctx.choose(3, "links"), tk = ctx.choose(3, "times");
    RefGraph R;
    R.n = k * len;
    std::vector<Q> q;
    for (int i = 0; i < k; ++i)
    {
        const int rank = ord == 0 ? i : ord == 1 ? k - 1 - i : ord == 2 ? (i % 2 ? k - 1 - i / 2 : i / 2) : (i * 7 + 3) % k;
        const int tt = len == 3 ? (tk == 0 ? 4 : 8) : tk == 0 ? len : tk == 1 ? 2 * len : i % 2 ? len : 2 * len;
        const ll c = 10 - 3 * rank;
        for (int j = 0; j < len; ++j)
        {
            const ll t = len == 3 ? tt / 4 * (j ? 1 : 2) : tt / len;
            R.e.push_back({i * len + j, i * len + (j + 1) % len, j ? 2 : c - 2 * (len - 1), t});
        }
        q.push_back({c, tt});
        if (link && i + 1 < k)
        {
            if (link == 1) R.e.push_back({i * len, (i + 1) * len, 0, 1});
            else R.e.push_back({(i + 1) * len, i * len, -40, 0});
        }
    }
    Q best = q[0];
    for (auto& x : q) if (less(x, best)) best = x;
    const auto g = build<VecG>(R);
    auto idx = boost::get(boost::edge_index, g);
    using edge_t = typename xn::grAdaptor<VecG>::edge_t;
    auto cost = [&](const edge_t& e) { return (int)R.e[idx[e]].w; };
    auto time = [&](const edge_t& e) { return (int)R.e[idx[e]].t; };
    std::vector<T> dist(R.n, conv<T>(0));
    const int mode = ctx.choose(4, "limit");
    T r = conv<T>(100);
    auto valid = [&](const std::vector<edge_t>& C) {
        std::vector<int> ids;
        Q got {0, 0};
        for (auto& e : C) { ids.push_back(idx[e]); got.p += cost(e); got.q += time(e); }
        ctx.MUST(closedCycle(R, ids), "%s: the returned edges do not form a cycle", R.show().c_str());
        ctx.MUST(same(r, got), "%s: the result is %.17g but the returned cycle has ratio %lld/%lld", R.show().c_str(), num(r), got.p, got.q);
    };
    if (mode < 2)
    {
        // one search
        const auto C = mode == 0 ? min_cycle_ratio(g, r, cost, time, dist) : min_cycle_ratio(g, r, cost, time, dist, (size_t)k);
        ctx.step();
        valid(C);
    }
    else
    {
        // short searches until there is nothing left to improve
        const size_t lim = mode == 2 ? 1 : 3;
        int calls = 0;
        for (;; ++calls)
        {
            ctx.MUST(calls <= k, "%s: %d searches still improve", R.show().c_str(), calls);
            const T old = r;
            const auto C = min_cycle_ratio(g, r, cost, time, dist, lim);
            ctx.step();
            if (C.empty()) { ctx.MUST(r == old, "no cycle, but the ratio went from %g to %g", num(old), num(r)); break; }
            valid(C);
            ctx.MUST(num(r) < num(old), "%s: the ratio went from %g to %g", R.show().c_str(), num(old), num(r));
        }
    }
    ctx.LOG("%d cycles of %d, order %d, links %d, times %d, limit %d -> %g", k, len, ord, link, tk, mode, num(r));
    ctx.state(mc::mix(mc::hdbl(num(r)), mc::hstr(R.show())));
    ctx.MUST(same(r, best), "%s: minimum cycle ratio %lld/%lld, the result is %.17g", R.show().c_str(), best.p, best.q, num(r));
}
//! Known finding: in floating point, with ratios that are not representable,
//! a cycle of weight zero may close in the policy graph by rounding.  Either
//! an assertion aborts, or that cycle ends the iteration before the minimum.
static void inexact(Ctx& ctx)
{
    struct In { RefGraph R; double start; std::vector<double> dist; double best; };
    const std::vector<In> ins {
        {{3, {{0, 0, 1, 3}, {0, 1, 1, 2}, {1, 0, 1, 3}}}, 11. / 24, {0, 0, 0}, 1. / 3},
        {{3, {{0, 2, 5, 1}, {0, 0, 5, 1}, {2, 0, 5, 2}}}, 83. / 24, {0, -5, -10}, 10. / 3},
    };
    const auto& in = ctx.pick(ins, "input");
    int fd[2];
    if (pipe(fd)) ctx.fail("pipe");
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0)
    {
        if (!freopen("/dev/null", "w", stderr)) _exit(9);
        const auto g = build<VecG>(in.R);
        auto idx = boost::get(boost::edge_index, g);
        using edge_t = xn::grAdaptor<VecG>::edge_t;
        auto dist = in.dist;
        double r = in.start;
        alarm(20);
        const auto C = min_cycle_ratio(g, r, [&](const edge_t& e) { return (int)in.R.e[idx[e]].w; },
            [&](const edge_t& e) { return (int)in.R.e[idx[e]].t; }, dist);
        std::vector<int> ids;
        double p = 0, q = 0;
        for (auto& e : C) { ids.push_back(idx[e]); p += in.R.e[idx[e]].w; q += in.R.e[idx[e]].t; }
        double o[2] {r, closedCycle(in.R, ids) && std::fabs(r - p / q) < 1e-9 ? 1. : 0.};
        if (write(fd[1], o, sizeof o) < 0) _exit(9);
        _exit(0);
    }
    close(fd[1]);
    double o[2] {0, 0};
    const bool got = read(fd[0], o, sizeof o) == (ssize_t)sizeof o;
    close(fd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    ctx.step();
    ctx.LOG("%s -> %s %g", in.R.show().c_str(), got ? "ratio" : "aborted", o[0]);
    if (got && o[1] == 1 && std::fabs(o[0] - in.best) < 1e-9) { ctx.ok(); return; }
    if ((!got && WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT) || (got && o[1] == 1 && o[0] > in.best && o[0] < in.start))
        ctx.known("cycle-ratio-rounding", "double arithmetic: the assertion in find_neg_cycle fails, or the search ends at a "
            "larger ratio, when a cycle of weight zero closes by rounding");
    else ctx.fail("%s: minimum cycle ratio %g, the result is %s %g", in.R.show().c_str(), in.best, got ? "" : "a crash", o[0]);
}
static void reg()
{
    mc::add("inexact-double", 0, "the recorded inputs of the known finding cycle-ratio-rounding", inexact);
    const std::vector<ll> W5 {1, 0, -1, 3, 5}, W3 {1, 4, -2}, W2 {1, 5}, T2 {1, 2}, T3 {1, 2, 3}, T0 {1, 0, 2}, T1 {};
    mc::add("fraction-ladder", 3, "1..20 cycles of 1..3 edges, 4 orders, 3 kinds of links, 3 sets of times; one search, or many limited ones", [=](Ctx& c) { ladder<Frac>(c, {1, 2, 3, 5, 8, 12, 16, 20}); });
    mc::add("double-ladder", 3, "the same in double", [=](Ctx& c) { ladder<double>(c, {4, 11, 20}); });
    mc::add("fraction-2n2e", 3, "2 nodes, 2 edges, 5 costs x 3 times", [=](Ctx& c) { ratio<Frac, VecG>(c, {2, 2, true, W5, T3}, c.flag("parametric")); });
    mc::add("fraction-2n3e", 3, "2 nodes, 3 edges, 3 costs x 2 times", [=](Ctx& c) { ratio<Frac, VecG>(c, {2, 3, true, W3, T2}, false); });
    mc::add("fraction-3n3e", 4, "3 nodes, 3 edges, 2 costs x times {1,0,2} (no cycle of zero time)", [=](Ctx& c) { ratio<Frac, VecG>(c, {3, 3, true, W2, T0}, false); });
    mc::add("fraction-3n4e", 4, "3 nodes, 4 edges, costs {1,4,-2}, unit times", [=](Ctx& c) { ratio<Frac, ListG>(c, {3, 4, false, W3, T1}, false); });
    mc::add("double-2n3e", 3, "2 nodes, 3 edges, double", [=](Ctx& c) { ratio<double, VecG>(c, {2, 3, true, W3, T2}, false); });
    mc::add("double-3n3e", 4, "3 nodes, 3 edges, double", [=](Ctx& c) { ratio<double, VecG>(c, {3, 3, true, W2, T3}, c.flag("parametric")); });
    mc::add("fraction-shifted", 4, "3 nodes, 3 edges, costs shifted by potentials of 10^5, which cancel in every cycle", [=](Ctx& c) { Pot p(100000); ratio<Frac, VecG>(c, {3, 3, true, W3, T2}, c.flag("parametric")); });
    mc::add("double-shifted", 4, "3 nodes, 3 edges, double, costs shifted by potentials of 2^16, 2^25", [=](Ctx& c) { Pot p(c.flag("large") ? 1 << 25 : 1 << 16); ratio<double, VecG>(c, {3, 3, true, W3, T2}, false); });
    mc::add("double-families-shifted", 4, "the families below, shifted by 2^25", [=](Ctx& c) { Pot p(1 << 25); ratio<double, VecG>(c, {1, 0, true, W2, T1, true}, false); });
    mc::add("double-2n3e-units", 3, "2 nodes, 3 edges, double, costs in units from 2^-900 to 2^900",
        [=](Ctx& c) { const int u = c.pick(std::vector<int> {-40, 40, -20, 20, -900, 900}, "unit"); ratio<double, VecG>(c, {2, 3, true, W3, T2}, c.flag("parametric"), false, u); });
    mc::add("double-families-units", 4, "the families below, costs in units of 2^-40, 2^40",
        [=](Ctx& c) { const int u = c.pick(std::vector<int> {-40, 40}, "unit"); ratio<double, VecG>(c, {1, 0, true, W2, T2, true}, false, false, u); });
    mc::add("fraction-2n3e-mixed", 4, "2 nodes, 3 edges, costs and/or times are fractions", [=](Ctx& c) { ratio<Frac, VecG>(c, {2, 3, true, W3, T2}, false, true); });
    mc::add("double-2n3e-mixed", 4, "2 nodes, 3 edges, int and double costs and times", [=](Ctx& c) { ratio<double, VecG>(c, {2, 3, true, W3, T3}, false, true); });
    mc::add("double-3n3e-mixed", 5, "3 nodes, 3 edges, int and double costs and times", [=](Ctx& c) { ratio<double, ListG>(c, {3, 3, true, W2, T2}, false, true); });
    mc::add("fraction-families", 4, "rings of 5..13 nodes with a chord, 3..6 parallel edges each way, 3..6 linked pairs; 3 costs x times {1,2}, one edge special",
        [=](Ctx& c) { ratio<Frac, VecG>(c, {0, 0, true, W3, T2, true}, c.flag("parametric")); });
    mc::add("fraction-families-large", 4, "rings up to 48 nodes, 17 parallel edges, 16 pairs; costs {1,5}, unit times",
        [=](Ctx& c) { ratio<Frac, VecG>(c, {1, 0, true, W2, T1, true}, false); });
    mc::add("double-families", 4, "those with dyadic ratios, double", [=](Ctx& c) { ratio<double, VecG>(c, {1, 0, true, W2, T2, true}, c.flag("parametric")); });
    mc::add("fraction-3n4e-times", 5, "3 nodes, 4 edges, 2 costs x 2 times", [=](Ctx& c) { ratio<Frac, VecG>(c, {3, 4, false, W2, T2}, true); });
    mc::add("fraction-3n5e", 5, "3 nodes, 5 edges, costs {1,4,-2}, unit times", [=](Ctx& c) { ratio<Frac, VecG>(c, {3, 5, false, W3, T1}, false); });
    mc::add("double-3n4e", 5, "3 nodes, 4 edges, 2 costs x 3 times", [=](Ctx& c) { ratio<double, ListG>(c, {3, 4, false, W2, T3}, false); });
    mc::add("fraction-4n4e", 5, "4 nodes, 4 edges, costs {1,5}, unit times", [=](Ctx& c) { ratio<Frac, VecG>(c, {4, 4, false, W2, T1}, false); });
    mc::add("fraction-3n5e-times", 5, "3 nodes, 5 edges, 2 costs x 2 times", [=](Ctx& c) { ratio<Frac, VecG>(c, {3, 5, false, W2, T2}, true); }, 2);
    mc::add("fraction-4n5e-w3", 5, "4 nodes, 5 edges, costs {1,4,-2}, unit times", [=](Ctx& c) { ratio<Frac, VecG>(c, {4, 5, false, W3, T1}, false); }, 2);
    mc::add("double-4n4e", 5, "4 nodes, 4 edges, 2 costs x 2 times", [=](Ctx& c) { ratio<double, ListG>(c, {4, 4, false, W2, T2}, false); }, 2);
    mc::add("fraction-4n5e", 5, "4 nodes, 5 edges, costs {1,5}, unit times", [=](Ctx& c) { ratio<Frac, VecG>(c, {4, 5, false, W2, T1}, false); });
}
#endif

// =============================================================== C18
#if PROP == 18
using GA = xn::grAdaptor<VecG>;
using E = GA::edge_t;
static std::vector<double> zs1() { return {-6, -3, -2, -1.5, -1, -.5, 0, .5, 1, 1.5, 2, 3, 6}; }

// ---- the general oracle with a scalar parameter: h = c - a x - b x^2, b >= 0
struct Coef { double c, a, b; };
static double hval(const Coef& k, double x) { return k.c - k.a * x - k.b * x * x; }
struct HFn
{
    const GA* g;
    const std::vector<Coef>* k;
    double* last;
    double eval(const E& e, const double& x) const { return hval((*k)[boost::get(boost::edge_index, *g)[e]], x); }
    double grad(const E& e, const double& x) const
    {
        const auto& q = (*k)[boost::get(boost::edge_index, *g)[e]];
        return -q.a - 2 * q.b * x;
    }
    void update(double t) { *last = t; }
};
static bool feasible(const std::vector<std::vector<int>>& cs, const std::vector<double>& w, double tol = 0)
{
    for (auto& c : cs)
    {
        double s = 0;
        for (int i : c) s += w[i];
        if (s < -tol) return false;
    }
    return true;
}
static void potentials(Ctx& ctx, const RefGraph& R, const std::vector<double>& u, const std::vector<double>& w, double un = 1)
{
    for (size_t i = 0; i < R.e.size(); ++i)
        ctx.MUST(u[R.e[i].v] - u[R.e[i].u] <= w[i] + 1e-9 * un, "%s: reported feasible, but u[%d]-u[%d] = %g > %g",
            R.show().c_str(), R.e[i].v, R.e[i].u, u[R.e[i].v] - u[R.e[i].u], w[i]);
}
static void networkScenario(Ctx& ctx, const Shape& s, int calls, bool units = false, double shift = 0)
{
    const auto R = pickGraph(ctx, s);
    const std::vector<Coef> menu {{1, 1, 0}, {1, -1, 0}, {0.5, 0, 1}, {-1, 2, 0}};
    std::vector<Coef> k;
    const double un = units ? std::ldexp(1., 50 * (ctx.choose(2, "units") ? 1 : -1)) : 1; // other units: the same graph
    auto p = [&](int v) { return shift * (v % 3 == 0 ? 0 : v % 3 == 1 ? 3 : -1); };
    for (auto& e : R.e) k.push_back({menu[e.w].c * un + p(e.v) - p(e.u), menu[e.w].a * un, menu[e.w].b * un});
    const auto g = build<VecG>(R);
    const auto cs = cycles(R);
    std::vector<double> u(R.n, 0.);
    double last = -77;
    network_oracle<GA, std::vector<double>, HFn> P(g, u, HFn {&g, &k, &last});
    const std::vector<double> xs {0, 1, -2};
    for (int q = 0; q < calls; ++q)
    {
        const double x = ctx.pick(xs, "x");
        P.update(x + 3);
        ctx.MUST(last == x + 3, "the objective value was not handed on");
        const auto cut = P(x);
        ctx.step();
        std::vector<double> w;
        for (auto& c : k) w.push_back(hval(c, x));
        const bool feas = feasible(cs, w);
        ctx.LOG("%s x=%g -> %s", R.show().c_str(), x, cut ? mc::fmt("cut g=%g f=%g", std::get<0>(*cut), std::get<1>(*cut)).c_str() : "feasible");
        ctx.MUST(!cut == feas, "%s (functions by weight) at x=%g: %s was reported, the constraints are %s", R.show().c_str(), x,
            cut ? "a cut" : "feasibility", feas ? "feasible" : "infeasible");
        uint64_t h = mc::mix(mc::hstr(R.show()), mc::hdbl(x));
        for (double v : u) h = mc::mix(h, mc::hdbl(v));
        ctx.state(h);
        if (!cut) { potentials(ctx, R, u, w, un); continue; }
        const double gr = std::get<0>(*cut), f = std::get<1>(*cut);
        ctx.MUST(f > 0, "%s at x=%g: infeasible, but the cut has offset %g", R.show().c_str(), x, f);
        for (double z : zs1())
        {
            std::vector<double> wz;
            for (auto& c : k) wz.push_back(hval(c, z));
            if (feasible(cs, wz)) ctx.MUST(gr * (z - x) + f <= 1e-9 * un, "%s at x=%g: the cut (%g,%g) removes the feasible point %g",
                R.show().c_str(), x, gr, f, z);
        }
    }
}
// ---- cycle ratio
static void cycleRatio(Ctx& ctx, const Shape& s, int calls, bool solve, bool units = false)
{
    const auto R = pickGraph(ctx, s);
    const auto g = build<VecG>(R);
    const auto cs = cycles(R);
    auto idx = boost::get(boost::edge_index, g);
    const double un = units ? std::ldexp(1., 50 * (ctx.choose(2, "units") ? 1 : -1)) : 1; // unit of cost
    const double ut = units && ctx.flag("time unit") ? std::ldexp(1., -20) : 1;           // unit of time
    auto cost = [&](const E& e) -> double { return R.e[idx[e]].w * un * ut; };
    auto time = [&](const E& e) -> double { return R.e[idx[e]].t * ut; };
    auto weights = [&](double x) { std::vector<double> w; for (auto& e : R.e) w.push_back((e.w * un - e.t * x) * ut); return w; };
    std::vector<double> u(R.n, 0.);
    using Fun = std::function<double(const E&)>; // owns memory: what is given goes away after the call
    cycle_ratio_oracle<GA, std::vector<double>, Fun, Fun> P(g, u, Fun(cost), Fun(time));
    if (solve)
    {
        // times >= 0: feasible set is x <= minimum cycle ratio
        double best = 1e9;
        for (auto& c : cs)
        {
            double p = 0, q = 0;
            for (int i : c) { p += R.e[i].w; q += R.e[i].t; }
            if (q > 0) best = std::min(best, p / q);
            else if (p < 0) best = -1e9;
        }
        const double lo = ctx.pick(std::vector<double> {-8, 0}, "low"), hi = lo + ctx.pick(std::vector<double> {20, 2}, "width");
        ell1d I(lo, hi);
        double t = -1e100;
        const auto [x, info] = cutting_plane_dc(P, I, t);
        ctx.step(info.num_iters);
        ctx.LOG("%s on [%g,%g] -> t=%.12g feasible=%d its=%zu (ratio %g)", R.show().c_str(), lo, hi, t, (int)info.feasible, info.num_iters, best);
        ctx.state(mc::mix(mc::hstr(R.show()), mc::hdbl(t)));
        if (best < lo - 1e-3) { ctx.MUST(!info.feasible, "%s: no feasible point in [%g,%g], but one was reported", R.show().c_str(), lo, hi); return; }
        if (best < lo + 1e-3) return;
        const double opt = std::min(best, hi);
        ctx.MUST(info.feasible, "%s: minimum cycle ratio %g inside [%g,%g] not found", R.show().c_str(), best, lo, hi);
        ctx.MUST(t <= opt + 1e-9 && t >= opt - 5e-4, "%s on [%g,%g]: the best value is %.12g, the optimum is %.12g", R.show().c_str(), lo, hi, t, opt);
        ctx.MUST(x == t, "the point returned (%.17g) does not have the value returned (%.17g)", x, t);
        ctx.MUST(feasible(cs, weights(x), 1e-9), "%s: the point returned, %.12g, is not feasible", R.show().c_str(), x);
        return;
    }
    double t = 0;
    const int tk = ctx.choose(5, "t");
    for (int q = 0; q < calls; ++q)
    {
        const double x = un * ctx.pick(std::vector<double> {0, 1, -2, .5}, "x");
        if (q == 0) // far below, two fixed values, a hair below / above the first point
            t = tk == 0 ? -1e100 : tk == 1 ? -un : tk == 2 ? .5 * un : tk == 3 ? x - std::ldexp(un, -30) : x + std::ldexp(un, -30);
        const double t0 = t;
        const auto [cut, shrunk] = P(x, t);
        ctx.step();
        const bool want = x > t0 && feasible(cs, weights(x));
        ctx.LOG("%s x=%g t=%g -> cut (%g,%g) better=%d t=%g", R.show().c_str(), x, t0, std::get<0>(cut), std::get<1>(cut), (int)shrunk, t);
        ctx.MUST(shrunk == want, "%s at x=%g, t=%g: reported %s", R.show().c_str(), x, t0, shrunk ? "an improvement" : "no improvement");
        ctx.MUST(t == (want ? x : t0), "%s at x=%g: the best value went from %g to %g", R.show().c_str(), x, t0, t);
        if (feasible(cs, weights(x)) && x > t0) potentials(ctx, R, u, weights(x), un * ut);
        ctx.state(mc::mix(mc::hstr(R.show()), mc::mix(mc::hdbl(x), mc::hdbl(t))));
        const double gr = std::get<0>(cut), f = std::get<1>(cut);
        ctx.MUST(shrunk ? f >= 0 : (f > 0 || (x == t0 && f >= 0)), "%s at x=%g: offset %g of the cut keeps the point itself", R.show().c_str(), x, f);
        ctx.MUST(gr != 0 || f > 0, "empty cut");
        const double fu = (shrunk || (x <= t0 && feasible(cs, weights(x)))) ? un : un * ut;
        for (double z1 : zs1())
            if (const double z = z1 * un; z >= t && feasible(cs, weights(z)))
                ctx.MUST(gr * (z - x) + f <= 1e-9 * std::max(fu, un * ut), "%s at x=%g: the cut (%g,%g) removes the feasible point %g (best value so far %g)",
                    R.show().c_str(), x, gr, f, z, t);
    }
}
// ---- optimal matrix scaling
static void optScaling(Ctx& ctx, const Shape& s, int calls, bool solve, bool units = false)
{
    const auto R = pickGraph(ctx, s);
    const auto g = build<VecG>(R);
    const auto cs = cycles(R);
    auto idx = boost::get(boost::edge_index, g);
    const double un = units ? std::ldexp(1., 50 * (ctx.choose(2, "units") ? 1 : -1)) : 1;
    auto cost = [&](const E& e) -> double { return R.e[idx[e]].w * .5 * un; };
    auto weights = [&](double p, double f)
    {
        std::vector<double> w;
        for (auto& e : R.e) w.push_back(e.u < e.v ? p - e.w * .5 * un : e.w * .5 * un - f);
        return w;
    };
    std::vector<double> u(R.n, 0.);
    using Fun = std::function<double(const E&)>;
    optscaling_oracle<GA, std::vector<double>, Fun> P(g, u, Fun(cost));
    if (solve)
    {
        const Arr x0 {1., 0.};
        const double rad = 3;
        ell el(rad * rad, x0);   // squared radius: P = 9 I
        double t = 1e100;
        const auto [x, info] = cutting_plane_dc(P, el, t);
        ctx.step(info.num_iters);
        ctx.LOG("%s -> t=%.9g at (%.9g,%.9g) feasible=%d its=%zu", R.show().c_str(), t, x.size() ? x(0) : 0, x.size() ? x(1) : 0, (int)info.feasible, info.num_iters);
        ctx.state(mc::mix(mc::hstr(R.show()), mc::hdbl(t)));
        double best = 1e100, bestIn = 1e100;
        for (double p = -2; p <= 4; p += .125)
            for (double f = -3; f <= 3; f += .125)
            {
                if ((p - 1) * (p - 1) + f * f > rad * rad - 1e-9) continue;
                if (feasible(cs, weights(p, f))) best = std::min(best, p - f);
                // a neighbourhood of the point is feasible
                bool in = (p - 1) * (p - 1) + f * f < (rad - .05) * (rad - .05);
                for (double a : {-.02, .02})
                    for (double b : {-.02, .02}) in = in && feasible(cs, weights(p + a, f + b));
                if (in) bestIn = std::min(bestIn, p - f);
            }
        if (bestIn < 1e99) ctx.MUST(info.feasible, "%s: a feasible neighbourhood exists, but none was found", R.show().c_str());
        if (!info.feasible) return;
        ctx.MUST(std::fabs(x(0) - x(1) - t) < 1e-12, "the point returned does not have the value returned");
        ctx.MUST(feasible(cs, weights(x(0), x(1)), 1e-9), "%s: the point returned, (%g,%g), is not feasible", R.show().c_str(), x(0), x(1));
        ctx.MUST(t <= bestIn + 1e-3, "%s: best value %.9g, but %.9g is feasible inside the initial ellipsoid", R.show().c_str(), t, bestIn);
        return;
    }
    double t = 0;
    const int tk = ctx.choose(5, "t");
    const std::vector<Arr> xs {{1., 0.}, {0., 0.}, {-1., .5}, {2., -1.}, {.5, 1.}};
    for (int q = 0; q < calls; ++q)
    {
        const Arr x = un * ctx.pick(xs, "x");
        if (q == 0)
            t = tk == 0 ? 1e100 : tk == 1 ? 1.5 * un : tk == 2 ? 0 : x(0) - x(1) + std::ldexp(un, tk == 3 ? -30 : -20) * (tk == 3 ? 1 : -1);
        const double t0 = t;
        const auto [cut, shrunk] = P(x, t);
        ctx.step();
        const auto w = weights(x(0), x(1));
        const bool feas = feasible(cs, w), want = feas && x(0) - x(1) < t0;
        const Arr gr = std::get<0>(cut);
        const double f = std::get<1>(cut);
        ctx.LOG("%s x=(%g,%g) t=%g -> cut (%g,%g;%g) better=%d t=%g", R.show().c_str(), x(0), x(1), t0, gr(0), gr(1), f, (int)shrunk, t);
        ctx.MUST(shrunk == want, "%s at (%g,%g), t=%g: reported %s", R.show().c_str(), x(0), x(1), t0, shrunk ? "an improvement" : "no improvement");
        ctx.MUST(t == (want ? x(0) - x(1) : t0), "%s at (%g,%g): the best value went from %g to %g", R.show().c_str(), x(0), x(1), t0, t);
        if (feas) potentials(ctx, R, u, w, un);
        ctx.MUST(feas ? f >= 0 : f > 0, "%s at (%g,%g): offset %g of the cut", R.show().c_str(), x(0), x(1), f);
        uint64_t h = mc::mix(mc::hstr(R.show()), mc::hdbl(x(0)));
        for (double v : u) h = mc::mix(h, mc::hdbl(v));
        ctx.state(h);
        for (double p = -2 * un; p <= 3 * un; p += .5 * un)
            for (double z = -2 * un; z <= 2 * un; z += .5 * un)
                if (p - z <= t && feasible(cs, weights(p, z)))
                    ctx.MUST(gr(0) * (p - x(0)) + gr(1) * (z - x(1)) + f <= 1e-9 * un,
                        "%s at (%g,%g): the cut (%g,%g;%g) removes the feasible point (%g,%g) (best value so far %g)", R.show().c_str(),
                        x(0), x(1), gr(0), gr(1), f, p, z, t);
    }
}
static void reg()
{
    const std::vector<ll> H {0, 1, 2, 3}, H3 {0, 2, 3}, C {1, 3, -2}, T {1, 0, 2}, Ts {1, 2}, S {1, -2, 3}, S2 {1, -2};
    mc::add("network-2n2e", 3, "2 nodes, 2 edges, 4 concave functions each, 3 calls on one oracle", [=](Ctx& c) { networkScenario(c, {2, 2, true, H, {}}, 3); });
    mc::add("network-2n3e", 3, "2 nodes, 3 edges, 4 functions, 2 calls", [=](Ctx& c) { networkScenario(c, {2, 3, true, H, {}}, 2); });
    mc::add("network-3n3e", 4, "3 nodes, 3 edges, 3 functions, 2 calls", [=](Ctx& c) { networkScenario(c, {3, 3, true, H3, {}}, 2); });
    mc::add("ratio-2n2e", 3, "2 nodes, 2 edges, 3 costs x 3 times, 3 calls", [=](Ctx& c) { cycleRatio(c, {2, 2, true, C, T}, 3, false); });
    mc::add("ratio-3n3e", 4, "3 nodes, 3 edges, 3 costs, times {1,2}, 2 calls", [=](Ctx& c) { cycleRatio(c, {3, 3, false, C, Ts}, 2, false); });
    mc::add("network-2n3e-units", 4, "2 nodes, 3 edges, 4 functions times 2^50 or 2^-50, 2 calls", [=](Ctx& c) { networkScenario(c, {2, 3, true, H, {}}, 2, true); });
    mc::add("network-shifted", 4, "3 nodes, 3 edges, 3 functions, shifted by potentials of 2^20, 2^30, 2^44, which cancel in every cycle, 2 calls", [=](Ctx& c) { const int k = c.pick(std::vector<int> {30, 20, 44}, "shift"); networkScenario(c, {3, 3, true, H3, {}}, 2, false, std::ldexp(1., k)); });
    mc::add("network-families-shifted", 4, "the families below shifted so, 1 call", [=](Ctx& c) { networkScenario(c, {1, 0, true, H, {}, true}, 1, false, std::ldexp(1., 30)); });
    mc::add("ratio-shifted", 4, "3 nodes, 3 edges, costs shifted by potentials of 2^25, 2^40, 2 calls", [=](Ctx& c) { Pot p(1ll << (c.flag("large") ? 40 : 25)); cycleRatio(c, {3, 3, false, C, {}}, 2, false); });
    mc::add("ratio-2n2e-units", 4, "2 nodes, 2 edges, cost unit 2^50 or 2^-50, time unit 1 or 2^-20, 2 calls", [=](Ctx& c) { cycleRatio(c, {2, 2, true, C, T}, 2, false, true); });
    mc::add("scaling-2n2e-units", 4, "2 nodes, 2 edges, unit 2^50 or 2^-50, 2 calls", [=](Ctx& c) { optScaling(c, {2, 2, false, S, {}}, 2, false, true); });
    mc::add("ratio-solve-2n3e", 3, "2 nodes, 3 edges: cutting plane to the optimum on an interval", [=](Ctx& c) { cycleRatio(c, {2, 3, true, C, T}, 0, true); });
    mc::add("scaling-2n2e", 3, "2 nodes, 2 edges, 3 costs, 3 calls on one oracle", [=](Ctx& c) { optScaling(c, {2, 2, false, S, {}}, 3, false); });
    mc::add("scaling-2n3e", 3, "2 nodes, 3 edges, 3 costs, 2 calls", [=](Ctx& c) { optScaling(c, {2, 3, false, S, {}}, 2, false); });
    mc::add("scaling-3n3e", 4, "3 nodes, 3 edges, 2 costs, 2 calls", [=](Ctx& c) { optScaling(c, {3, 3, false, S2, {}}, 2, false); });
    mc::add("scaling-solve-2n3e", 3, "2 nodes, 3 edges: ellipsoid to the optimum", [=](Ctx& c) { optScaling(c, {2, 3, false, S, {}}, 0, true); });
    mc::add("scaling-solve-3n3e", 4, "3 nodes, 3 edges: ellipsoid to the optimum", [=](Ctx& c) { optScaling(c, {3, 3, false, S2, {}}, 0, true); });
    const char* fam = "rings of 5..48 nodes with a chord, 3..17 parallel edges each way, 3..16 linked pairs, one edge special";
    mc::add("network-families", 4, mc::fmt("%s; 4 functions, 2 calls", fam), [=](Ctx& c) { networkScenario(c, {1, 0, true, H, {}, true}, 2); });
    mc::add("ratio-families", 4, mc::fmt("%s; 3 costs, times {1,2}", fam), [=](Ctx& c) { cycleRatio(c, {1, 0, true, C, Ts, true}, 1, false); });
    mc::add("scaling-families", 4, mc::fmt("%s; 3 costs", fam), [=](Ctx& c) { optScaling(c, {1, 0, false, S, {}, true}, 1, false); });
    mc::add("ratio-solve-families", 4, "the smaller ones: to the optimum", [=](Ctx& c) { cycleRatio(c, {0, 0, true, C, Ts, true}, 0, true); });
    mc::add("scaling-solve-families", 4, "the smaller ones: to the optimum", [=](Ctx& c) { optScaling(c, {0, 0, false, S2, {}, true}, 0, true); });
    mc::add("network-3n4e", 4, "3 nodes, 4 edges, 3 functions, 2 calls", [=](Ctx& c) { networkScenario(c, {3, 4, false, H3, {}}, 2); });
    mc::add("network-3n4e-loops", 4, "3 nodes, 4 edges, self loops, 4 functions, 2 calls", [=](Ctx& c) { networkScenario(c, {3, 4, true, H, {}}, 2); }, 2);
    mc::add("network-4n5e", 4, "4 nodes, 5 edges, 2 functions, 2 calls", [=](Ctx& c) { networkScenario(c, {4, 5, false, {0, 2}, {}}, 2); }, 2);
    mc::add("ratio-3n4e-times", 4, "3 nodes, 4 edges, 3 costs, times {1,2}, 2 calls", [=](Ctx& c) { cycleRatio(c, {3, 4, false, C, Ts}, 2, false); }, 2);
    mc::add("network-4n4e", 4, "4 nodes, 4 edges, 2 functions, 2 calls", [=](Ctx& c) { networkScenario(c, {4, 4, false, {0, 2}, {}}, 2); });
    mc::add("ratio-3n4e", 4, "3 nodes, 4 edges, 3 costs, 2 calls", [=](Ctx& c) { cycleRatio(c, {3, 4, false, C, {}}, 2, false); });
    mc::add("ratio-solve-3n3e", 4, "3 nodes, 3 edges: to the optimum", [=](Ctx& c) { cycleRatio(c, {3, 3, false, C, Ts}, 0, true); });
    mc::add("ratio-solve-3n4e", 4, "3 nodes, 4 edges, unit times: to the optimum", [=](Ctx& c) { cycleRatio(c, {3, 4, false, C, {}}, 0, true); });
    mc::add("scaling-3n4e", 4, "3 nodes, 4 edges, 2 costs, 2 calls", [=](Ctx& c) { optScaling(c, {3, 4, false, S2, {}}, 2, false); });
    mc::add("scaling-solve-3n4e", 4, "3 nodes, 4 edges: to the optimum", [=](Ctx& c) { optScaling(c, {3, 4, false, S2, {}}, 0, true); });
}
#endif

int main(int argc, char** argv)
{
    reg();
    return mc::main(argc, argv);
}
