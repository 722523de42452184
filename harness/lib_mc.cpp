// C24, C25: native graphs and posynomials.
#include "mc.hpp"
#include <string_view>
#ifndef PROP
#define PROP 24
#endif
using mc::Ctx;
using ll = long long;

#if PROP == 24
#include <boost/graph/adjacency_list.hpp>
#include <netoptim/neg_cycle.hpp>
#include <py2cpp/nx2bgl.hpp>
#include <xnetwork/classes/digraphs.hpp>
#include <xnetwork/classes/graph.hpp>
using Range = decltype(py::range<int>(1));
using USet = xn::Graph<Range, py::set<int>>;
using UDict = xn::Graph<Range, py::dict<int, int>>;
using DSet = xn::DiGraphS<Range, py::set<int>>;
using DDict = xn::DiGraphS<Range, py::dict<int, int>>;
template <typename G> constexpr bool directed = std::is_same<G, DSet>::value || std::is_same<G, DDict>::value;
template <typename G> constexpr bool hasData = std::is_same<G, UDict>::value || std::is_same<G, DDict>::value;
struct RefG
{
    int n;
    std::map<std::pair<int, int>, int> arc; // both directions when undirected
    size_t edges = 0;
    void add(int u, int v, bool dir, bool setData, int data)
    {
        if (!arc.count({u, v})) { ++edges; arc[{u, v}] = 0; if (!dir) arc[{v, u}] = 0; }
        if (setData) { arc[{u, v}] = data; if (!dir) arc[{v, u}] = data; }
    }
};
template <typename G>
void compare(Ctx& ctx, G& g, const RefG& r)
{
    ctx.MUST(g.number_of_nodes() == (size_t)r.n && g.order() == (size_t)r.n, "the graph has %zu nodes, expected %d", (size_t)g.number_of_nodes(), r.n);
    ctx.MUST(g.number_of_edges() == r.edges, "the graph has %zu edges, expected %zu", (size_t)g.number_of_edges(), r.edges);
    ctx.MUST(g.is_directed() == directed<G> && !g.is_multigraph(), "kind of graph");
    std::vector<int> nodes;
    for (auto v : g) { nodes.push_back(v); if (nodes.size() > (size_t)r.n + 50) break; }
    ctx.MUST((int)nodes.size() == r.n, "iterating visits %zu nodes, expected %d", nodes.size(), r.n);
    for (int i = 0; i < r.n; ++i) ctx.MUST(nodes[i] == i, "node %d is visited as %d", i, nodes[i]);
    ctx.MUST(!g.contains(g.null_vertex()) && !g.has_node(-1) && !g.has_node(r.n), "a node that does not exist is contained");
    const G& cg = g;
    for (int u = 0; u < r.n; ++u)
    {
        ctx.MUST(g.has_node(u) && g.contains(u), "node %d is missing", u);
        std::set<int> want, got;
        for (int v = 0; v < r.n; ++v)
        {
            const bool e = r.arc.count({u, v});
            if (e) want.insert(v);
            ctx.MUST(g.has_edge(u, v) == e, "has_edge(%d,%d) is %d", u, v, !e);
            if constexpr (directed<G>) ctx.MUST(g.has_successor(u, v) == e, "has_successor(%d,%d) is %d", u, v, !e);
            if constexpr (hasData<G>)
                if (e) ctx.MUST(g[u][v] == r.arc.at({u, v}), "the data of (%d,%d) is %d, expected %d", u, v, g[u][v], r.arc.at({u, v}));
        }
        for (auto v : g[u]) got.insert(v);
        ctx.MUST(got == want, "node %d has %zu neighbours, expected %zu, or other ones", u, got.size(), want.size());
        ctx.MUST(cg.degree(u) == want.size(), "degree of %d is %zu, expected %zu", u, (size_t)cg.degree(u), want.size());
        if constexpr (directed<G>)
        {
            got.clear();
            for (auto v : cg.successors(u)) got.insert(v);
            ctx.MUST(got == want, "node %d has %zu successors, expected %zu, or other ones", u, got.size(), want.size());
            ctx.MUST(!g.has_successor(r.n, u), "an arc from a node that does not exist");
        }
    }
    if constexpr (directed<G>)
    {
        std::set<std::pair<int, int>> got, want;
        for (auto&& e : cg.edges())
        {
            const auto p = g.end_points(e);
            ctx.MUST(got.insert({p.first, p.second}).second, "edge (%d,%d) is visited twice", p.first, p.second);
        }
        for (auto& a : r.arc) want.insert(a.first);
        ctx.MUST(got == want, "%zu edges are visited, expected %zu, or other ones", got.size(), want.size());
    }
    { // the adjacency views
        size_t arcs = 0, carcs = 0;
        auto av = g.adj();
        auto cav = cg.adj();
        for (auto&& row : av) arcs += row.size();
        for (auto&& row : cav) carcs += row.size();
        ctx.MUST(av.size() == (size_t)r.n && cav.size() == (size_t)r.n && arcs == r.arc.size() && carcs == r.arc.size(),
            "the adjacency views hold %zu, %zu rows and %zu, %zu entries, expected %d and %zu", (size_t)av.size(), (size_t)cav.size(), arcs, carcs, r.n, r.arc.size());
        for (int u = 0; u < r.n; ++u)
            for (int v = 0; v < r.n; ++v)
                ctx.MUST(av[u].contains(v) == (r.arc.count({u, v}) > 0) && cav[u].contains(v) == (r.arc.count({u, v}) > 0), "the adjacency view is wrong about (%d,%d)", u, v);
    }
    uint64_t h = r.n;
    for (auto& a : r.arc) h = mc::mix(mc::mix(h, a.first.first * 1024 + a.first.second), a.second);
    ctx.state(h);
}
template <typename G> std::unique_ptr<G> make(Ctx& ctx, int n)
{
    if (ctx.flag("from range")) return std::make_unique<G>(py::range<int>(n));
    return std::make_unique<G>(n);
}
template <typename G> void finish(Ctx& ctx, std::unique_ptr<G>& g, const RefG& r);
template <typename G>
void graphScenario(Ctx& ctx, int n, int depth)
{
    auto g = make<G>(ctx, n);
    RefG r {n, {}, 0};
    compare(ctx, *g, r);
    for (int k = 0; k < depth; ++k)
    {
        const int op = ctx.choose(hasData<G> ? 4 : 2, "op");
        const int u = op != 1 ? ctx.range(0, n - 1, "u") : 0, v = op != 1 ? ctx.range(0, n - 1, "v") : 0;
        ctx.step();
        if (op == 0) { g->add_edge(u, v); r.add(u, v, directed<G>, false, 0); }
        else if (op == 1)
        {
            auto h = std::make_unique<G>(std::move(*g));
            g = std::move(h);
        }
        if constexpr (hasData<G>)
        {
            if (op == 2) { g->add_edge(u, v, 10 + k); r.add(u, v, directed<G>, true, 10 + k); }
            if (op == 3)
            {
                const std::vector<std::pair<int, int>> es {{u, v}, {v, (u + 1) % n}};
                const std::vector<int> ds {20 + k, 30 + k};
                g->add_edges_from(es, ds);
                r.add(u, v, directed<G>, true, 20 + k);
                r.add(v, (u + 1) % n, directed<G>, true, 30 + k);
            }
        }
        ctx.LOG("op %d (%d,%d): %zu edges", op, u, v, (size_t)g->number_of_edges());
        compare(ctx, *g, r);
    }
    finish(ctx, g, r);
}
//! many nodes and edges in regular arrangements, an edge at a time, looked at along the way
static std::pair<int, int> arcOf(int shape, int n, int k)
{
    const int i = k % n, lap = k / n;
    switch (shape)
    {
        case 0: return {i, (i + 1 + lap) % n};                    // rings of growing stride
        case 1: return {0, (k * 7 + lap) % n};                    // star out of 0
        case 2: return {(k * 7 + lap) % n, n - 1};                // star into the last node
        case 3: return {(k / n) % n, i};                          // complete, row by row, loops included
        case 4: return {i, i / 2};                                // tree, then the same edges again
        default: return {(i * i + lap) % n, (i * 5 + 3 * lap) % n}; // scattered, with repetitions
    }
}
template <typename G>
void largeScenario(Ctx& ctx, int n)
{
    auto g = make<G>(ctx, n);
    RefG r {n, {}, 0};
    const int shape = ctx.choose(6, "shape"), style = ctx.choose(hasData<G> ? 3 : 1, "data"), moveAt = ctx.choose(3, "moved");
    const int m = std::min(n * n, ctx.pick(std::vector<int> {n / 2, 2 * n + 3, 5 * n}, "edges"));
    for (int k = 0; k < m; ++k)
    {
        const auto [u, v] = arcOf(shape, n, k);
        if (style == 0) { g->add_edge(u, v); r.add(u, v, directed<G>, false, 0); }
        if constexpr (hasData<G>)
        {
            if (style == 1) { g->add_edge(u, v, k + 1); r.add(u, v, directed<G>, true, k + 1); }
            if (style == 2)
            {
                std::vector<std::pair<int, int>> es;
                std::vector<int> ds;
                for (int q = 0; q < 7 && k < m; ++q, ++k) { es.push_back(arcOf(shape, n, k)); ds.push_back(k * 3 + 1); }
                --k;
                g->add_edges_from(es, ds);
                for (size_t q = 0; q < es.size(); ++q) r.add(es[q].first, es[q].second, directed<G>, true, ds[q]);
            }
        }
        if (moveAt && k == m * moveAt / 3) { auto h = std::make_unique<G>(std::move(*g)); g = std::move(h); compare(ctx, *g, r); }
        ctx.step();
    }
    compare(ctx, *g, r);
    finish(ctx, g, r);
}
//! name, attributes, move and clear at the end of a history
template <typename G>
void finish(Ctx& ctx, std::unique_ptr<G>& g, const RefG& r)
{
    ctx.MUST(std::string(g->get_name()).empty(), "a graph never named has the name '%s'", g->get_name());
    const std::string text = "net1, net2";
    for (int k = 0; k < 2; ++k)
    {
        std::string got;
        const std::string want = text.substr(k * 6, 4);
        try { g->set_name(boost::string_view(text.data() + k * 6, 4)); got = g->get_name(); }
        catch (const std::exception& e) { got = std::string("exception: ") + e.what(); }
        ctx.MUST(got == want, "the name set to '%s' reads '%s'", want.c_str(), got.c_str());
    }
    const char* key = "colour";
    g->graph[key] = boost::any(7);
    ctx.step();
    compare(ctx, *g, r);
    auto h = std::make_unique<G>(std::move(*g));
    g = std::move(h);
    ctx.MUST(std::string(g->get_name()) == "net2" && g->graph.contains(key) && boost::any_cast<int>(g->graph[key]) == 7, "the attributes are lost in a move");
    g->clear();
    ctx.step();
    size_t nodes = 0;
    for (auto v : *g) { (void)v; if (++nodes > 9) break; }
    ctx.MUST(g->number_of_edges() == 0 && g->number_of_nodes() == 0 && g->order() == 0 && nodes == 0,
        "a cleared graph has %zu edges and %zu nodes, %zu visited", (size_t)g->number_of_edges(), (size_t)g->number_of_nodes(), nodes);
    for (int u = 0; u < r.n; ++u) ctx.MUST(!g->has_node(u) && !g->contains(u), "a cleared graph has node %d", u);
    ctx.MUST(g->graph.empty() && std::string(g->get_name()).empty(), "a cleared graph keeps its attributes");
    if constexpr (directed<G>)
    {
        size_t edges = 0;
        for (auto&& e : g->edges()) { (void)e; ++edges; }
        ctx.MUST(edges == 0, "a cleared graph visits %zu edges", edges);
    }
}
//! the adaptor of Boost graphs: every sequence of arcs, parallel arcs and loops included
template <typename Dir>
void adaptorScenario(Ctx& ctx, int n, int m)
{
    using BG = boost::adjacency_list<boost::vecS, boost::vecS, Dir>;
    constexpr bool dir = !std::is_same<Dir, boost::undirectedS>::value;
    auto g = std::make_unique<xn::grAdaptor<BG>>(BG(n));
    std::multiset<std::pair<int, int>> all; // as given
    auto key = [&](int a, int b) { return dir ? std::make_pair(a, b) : std::make_pair(std::min(a, b), std::max(a, b)); };
    for (int k = 0; k <= m; ++k)
    {
        ctx.MUST(g->number_of_nodes() == (size_t)n && g->number_of_edges() == all.size(), "%zu nodes and %zu edges, expected %d and %zu", (size_t)g->number_of_nodes(), (size_t)g->number_of_edges(), n, all.size());
        std::vector<int> vs, cvs;
        for (auto v : *g) vs.push_back(v);
        for (auto it = g->cbegin(); it != g->cend(); ++it) cvs.push_back(*it);
        std::vector<int> want;
        for (int i = 0; i < n; ++i) want.push_back(i);
        ctx.MUST(vs == want && cvs == want, "iterating visits %zu, %zu nodes, expected %d, or other ones", vs.size(), cvs.size(), n);
        std::multiset<std::pair<int, int>> got, cgot;
        const auto es = g->edges();
        for (auto&& e : es)
        {
            const auto p = g->end_points(e);
            ctx.MUST(p.first == g->source(e) && p.second == g->target(e), "end_points (%d,%d), source %d, target %d", (int)p.first, (int)p.second, (int)g->source(e), (int)g->target(e));
            got.insert(key(p.first, p.second));
        }
        for (auto it = es.cbegin(); it != es.cend(); ++it) cgot.insert(key(g->source(*it), g->target(*it)));
        ctx.MUST(got == all && cgot == all, "%zu, %zu edges are visited, expected %zu, or other ones", got.size(), cgot.size(), all.size());
        for (int u = 0; u < n; ++u)
        {
            std::multiset<int> out, cout_, wantOut;
            const auto nb = g->neighbors(u);
            for (auto&& e : nb) { ctx.MUST((int)g->source(e) == u, "an edge out of %d starts at %d", u, (int)g->source(e)); out.insert(g->target(e)); }
            for (auto it = nb.cbegin(); it != nb.cend(); ++it) cout_.insert(g->target(*it));
            for (auto& e : all)
            {
                if (e.first == u) wantOut.insert(e.second);
                if (!dir && e.second == u) wantOut.insert(e.first);
            }
            ctx.MUST(out == wantOut && cout_ == wantOut, "%zu, %zu edges out of %d, expected %zu, or other ones", out.size(), cout_.size(), u, wantOut.size());
            ctx.MUST((int)g->null_vertex() != u, "node %d is the null vertex", u);
        }
        uint64_t h = n;
        for (auto& e : all) h = mc::mix(h, e.first * 16 + e.second);
        ctx.state(h);
        if (k == m) break;
        const int u = ctx.range(0, n - 1, "u"), v = ctx.range(0, n - 1, "v");
        const auto added = g->add_edge(u, v);
        ctx.step();
        ctx.MUST(added.second && (int)g->source(added.first) == u && (int)g->target(added.first) == v, "the edge added is not (%d,%d)", u, v);
        all.insert(key(u, v));
        if (ctx.flag("move")) g = std::make_unique<xn::grAdaptor<BG>>(std::move(*g));
    }
}
//! the adaptor on larger graphs
template <typename Dir>
void adaptorLarge(Ctx& ctx)
{
    using BG = boost::adjacency_list<boost::vecS, boost::vecS, Dir>;
    constexpr bool dir = !std::is_same<Dir, boost::undirectedS>::value;
    const int n = ctx.pick(std::vector<int> {9, 40, 120}, "nodes"), shape = ctx.choose(6, "shape"), m = ctx.pick(std::vector<int> {n / 2, 2 * n + 3, 4 * n}, "edges");
    auto g = std::make_unique<xn::grAdaptor<BG>>(BG(n));
    std::multiset<std::pair<int, int>> all;
    std::vector<std::multiset<int>> out(n);
    auto key = [&](int a, int b) { return dir ? std::make_pair(a, b) : std::make_pair(std::min(a, b), std::max(a, b)); };
    for (int k = 0; k < m; ++k)
    {
        const auto [u, v] = arcOf(shape, n, k);
        g->add_edge(u, v);
        all.insert(key(u, v));
        out[u].insert(v);
        if (!dir) out[v].insert(u);
        ctx.step();
    }
    if (ctx.flag("move")) g = std::make_unique<xn::grAdaptor<BG>>(std::move(*g));
    ctx.MUST(g->number_of_nodes() == (size_t)n && g->number_of_edges() == all.size(), "%zu nodes and %zu edges, expected %d and %zu", (size_t)g->number_of_nodes(), (size_t)g->number_of_edges(), n, all.size());
    int i = 0;
    for (auto v : *g) { ctx.MUST((int)v == i, "node %d is visited as %d", i, (int)v); ++i; }
    ctx.MUST(i == n, "%d nodes are visited, expected %d", i, n);
    std::multiset<std::pair<int, int>> got;
    for (auto&& e : g->edges()) got.insert(key(g->source(e), g->target(e)));
    ctx.MUST(got == all, "%zu edges are visited, expected %zu, or other ones", got.size(), all.size());
    for (int u = 0; u < n; ++u)
    {
        std::multiset<int> o;
        for (auto&& e : g->neighbors(u)) { ctx.MUST((int)g->source(e) == u, "an edge out of %d starts at %d", u, (int)g->source(e)); o.insert(g->target(e)); }
        ctx.MUST(o == out[u], "%zu edges out of %d, expected %zu, or other ones", o.size(), u, out[u].size());
    }
    uint64_t h = n;
    for (auto& e : all) h = mc::mix(h, e.first * 1024 + e.second);
    ctx.state(h);
}
//! the negative cycle finder on the native directed graph
static void nativeNeg(Ctx& ctx, int n, int m)
{
    DDict g(n);
    const int INF = 1 << 20;
    std::vector<std::vector<int>> d(n, std::vector<int>(n, INF));
    int lo = 0;
    for (int i = 0; i < m; ++i)
    {
        const int a = ctx.range(lo, n * n - 1, "arc"), w = ctx.pick(std::vector<int> {1, -1, 2, -3}, "weight");
        lo = a + 1;
        if (lo > n * n - 1 && i + 1 < m) ctx.prune();
        g.add_edge(a / n, a % n, w);
        d[a / n][a % n] = w;
    }
    const auto w = d;
    for (int k = 0; k < n; ++k)
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) if (d[i][k] < INF && d[k][j] < INF) d[i][j] = std::max(-INF, std::min(d[i][j], d[i][k] + d[k][j]));
    bool neg = false;
    for (int i = 0; i < n; ++i) neg = neg || d[i][i] < 0;
    negCycleFinder<DDict> S(g);
    std::vector<int> dist(n, 0);
    const auto C = S.find_neg_cycle(dist, [&](const auto& e) { const auto p = g.end_points(e); return g[p.first][p.second]; });
    ctx.step();
    ctx.LOG("%d nodes %d arcs -> cycle of %zu", n, m, C.size());
    ctx.MUST(C.empty() == !neg, "negative cycle: reported %d, exists %d", !C.empty(), neg);
    int s = 0;
    for (size_t i = 0; i < C.size(); ++i)
    {
        const auto &a = C[i], &b = C[(i + 1) % C.size()];
        s += w[a.first][a.second];
        ctx.MUST(w[a.first][a.second] < INF && (a.first == b.second || a.second == b.first), "the reported edges do not form a cycle");
    }
    if (neg) ctx.MUST(s < 0, "the reported cycle has weight %d", s);
    else for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) if (w[i][j] < INF) ctx.MUST(dist[j] <= dist[i] + w[i][j], "the distances violate arc %d->%d", i, j);
    uint64_t h = neg;
    for (int x : dist) h = mc::mix(h, x + 1000);
    ctx.state(h);
}
static void reg()
{
    mc::add("undirected-set", 3, "every history of 5 (thorough 6) operations on 3 nodes", [](Ctx& c) { graphScenario<USet>(c, 3, c.thorough ? 6 : 5); });
    mc::add("undirected-data", 3, "every history of 4 (thorough 5) operations on 3 nodes, edge data", [](Ctx& c) { graphScenario<UDict>(c, 3, c.thorough ? 5 : 4); });
    mc::add("directed-set", 3, "every history of 5 (thorough 6) operations on 3 nodes", [](Ctx& c) { graphScenario<DSet>(c, 3, c.thorough ? 6 : 5); });
    mc::add("directed-data", 3, "every history of 4 (thorough 5) operations on 3 nodes, edge data", [](Ctx& c) { graphScenario<DDict>(c, 3, c.thorough ? 5 : 4); });
    mc::add("directed-data-2", 3, "every history of 4 operations on 2 nodes", [](Ctx& c) { graphScenario<DDict>(c, 2, 4); });
    mc::add("undirected-data-2", 3, "every history of 4 operations on 2 nodes", [](Ctx& c) { graphScenario<UDict>(c, 2, 4); });
    mc::add("boost-directed", 3, "every sequence of 4 arcs on 3 nodes through the adaptor of Boost graphs", [](Ctx& c) { adaptorScenario<boost::directedS>(c, 3, c.thorough ? 5 : 4); });
    mc::add("boost-undirected", 3, "every sequence of 4 edges on 3 nodes, undirected", [](Ctx& c) { adaptorScenario<boost::undirectedS>(c, 3, c.thorough ? 5 : 4); });
    mc::add("boost-both-ways", 3, "every sequence of 4 arcs on 2 nodes, graph with incoming edges too", [](Ctx& c) { adaptorScenario<boost::bidirectionalS>(c, 2, c.thorough ? 6 : 4); });
    for (int n : {7, 17, 33, 65, 130, 300})
    {
        mc::add(mc::fmt("undirected-set-%d", n), 3, mc::fmt("%d nodes: 6 arrangements of edges x 3 counts x 3 places of a move", n), [n](Ctx& c) { largeScenario<USet>(c, n); });
        mc::add(mc::fmt("undirected-data-%d", n), 3, mc::fmt("%d nodes: 6 arrangements of edges x 3 counts x 3 places of a move x 3 ways of adding", n), [n](Ctx& c) { largeScenario<UDict>(c, n); });
        mc::add(mc::fmt("directed-set-%d", n), 3, mc::fmt("%d nodes: 6 arrangements of edges x 3 counts x 3 places of a move", n), [n](Ctx& c) { largeScenario<DSet>(c, n); });
        mc::add(mc::fmt("directed-data-%d", n), 3, mc::fmt("%d nodes: 6 arrangements of edges x 3 counts x 3 places of a move x 3 ways of adding", n), [n](Ctx& c) { largeScenario<DDict>(c, n); });
    }
    mc::add("boost-large", 3, "9, 40, 120 nodes: 6 arrangements x 3 counts, directed", [](Ctx& c) { adaptorLarge<boost::directedS>(c); });
    mc::add("boost-large-undirected", 3, "9, 40, 120 nodes: 6 arrangements x 3 counts, undirected", [](Ctx& c) { adaptorLarge<boost::undirectedS>(c); });
    mc::add("boost-large-both-ways", 3, "9, 40, 120 nodes: 6 arrangements x 3 counts, with incoming edges", [](Ctx& c) { adaptorLarge<boost::bidirectionalS>(c); });
    for (int m : {1, 2, 3, 4})
        mc::add(mc::fmt("neg-cycle-%d", m), 2, mc::fmt("every digraph with 3 nodes and %d arcs, 4 weights: negative cycles on the native graph", m),
            [m](Ctx& c) { nativeNeg(c, 3, m); });
    mc::add("neg-cycle-5", 2, "every digraph with 3 nodes and 5 arcs, 4 weights", [](Ctx& c) { nativeNeg(c, 3, 5); });
}
#endif

#if PROP == 25
#include <cmath>
#include <ellip/monomial.hpp>
#include <ellip/posynomial.hpp>
using M = monomial<double>;
using P = posynomial<double>;
using V = std::valarray<double>;
struct RM { long double b; std::vector<long double> a; };
using RP = std::vector<RM>;
static long double lse(const RM& m, const std::vector<double>& y)
{
    long double s = m.b;
    for (size_t i = 0; i < y.size(); ++i) s += m.a[i] * y[i];
    return s;
}
static void grad(const RP& p, const std::vector<double>& y, long double& f, std::vector<long double>& g)
{
    long double s = 0;
    g.assign(y.size(), 0);
    for (auto& m : p)
    {
        const long double e = expl(lse(m, y));
        s += e;
        for (size_t i = 0; i < y.size(); ++i) g[i] += e * m.a[i];
    }
    for (auto& x : g) x /= s;
    f = logl(s);
}
//! tolerance for values at y: rounding grows with the size of the logarithms of the terms
static long double tolAt(const RP& p, const std::vector<double>& y)
{
    long double m = 1, e = 1;
    for (auto& t : p)
    {
        long double q = fabsl(t.b);
        for (size_t i = 0; i < y.size(); ++i) { q += fabsl(t.a[i] * y[i]); e = std::max(e, fabsl(t.a[i])); }
        m = std::max(m, q);
    }
    return 1e-12L * m * e;
}
static bool near(double a, long double b, long double tol) { return fabsl(a - b) <= tol; }
static std::vector<std::vector<double>> points(int n)
{
    std::vector<std::vector<double>> r {std::vector<double>(n, 0)};
    for (int i = 0; i < n; ++i) { r.push_back(std::vector<double>(n, .25)); r.back()[i] = 1.5; r.push_back(std::vector<double>(n, -.5)); r.back()[i] = -2; }
    return r;
}
static V val(const std::vector<double>& y) { V v(y.size()); for (size_t i = 0; i < y.size(); ++i) v[i] = y[i]; return v; }
static void checkM(Ctx& ctx, const M& m, const RM& r, const char* what)
{
    const int n = r.a.size();
    ctx.MUST((int)m._a.size() == n, "%s: %zu exponents, expected %d", what, (size_t)m._a.size(), n);
    for (auto& y : points(n))
    {
        const V v = val(y);
        const long double f = lse(r, y), tol = tolAt({r}, y);
        ctx.MUST(near(m.lse(v), f, tol), "%s: log value %.15g, expected %.15Lg", what, m.lse(v), f);
        double f2 = 0;
        V g1 = m.lse_gradient(v), g2(n), g3 = m.lse_gradient(v, f2);
        const double f3 = m.log_exp_fvalue_with_gradient(v, g2);
        ctx.MUST(near(f2, f, tol) && near(f3, f, tol), "%s: log value with gradient %.15g, %.15g, expected %.15Lg", what, f2, f3, f);
        for (int i = 0; i < n; ++i)
            ctx.MUST(near(g1[i], r.a[i], tol) && near(g2[i], r.a[i], tol) && near(g3[i], r.a[i], tol), "%s: gradient[%d] is %g, %g, %g, expected %Lg", what, i, g1[i], g2[i], g3[i], r.a[i]);
    }
    uint64_t h = mc::hdbl(r.b);
    for (auto a : r.a) h = mc::mix(h, mc::hdbl(a));
    ctx.state(h);
}
static void checkP(Ctx& ctx, const P& p, const RP& r, const char* what)
{
    const int n = r[0].a.size();
    uint64_t h = r.size();
    for (auto& y : points(n))
    {
        const V v = val(y);
        long double f;
        std::vector<long double> g;
        grad(r, y, f, g);
        const long double tol = tolAt(r, y);
        ctx.MUST(near(p.lse(v), f, tol), "%s: log value %.15g, expected %.15Lg", what, p.lse(v), f);
        double f2 = 0;
        V g1 = p.log_exp_gradient(v), g2(n), g3 = p.lse_gradient(v, f2);
        const double f3 = p.log_exp_fvalue_with_gradient(v, g2);
        ctx.MUST(near(f2, f, tol) && near(f3, f, tol), "%s: log value with gradient %.15g, %.15g, expected %.15Lg", what, f2, f3, f);
        for (int i = 0; i < n; ++i)
            ctx.MUST(near(g1[i], g[i], tol) && near(g2[i], g[i], tol) && near(g3[i], g[i], tol), "%s: gradient[%d] is %g, %g, %g, expected %Lg", what, i, g1[i], g2[i], g3[i], g[i]);
        h = mc::mix(h, mc::hdbl(f));
    }
    ctx.state(h);
}
static RM rmul(const RM& a, const RM& b, int s)
{
    RM r = a;
    r.b += s * b.b;
    for (size_t i = 0; i < r.a.size(); ++i) r.a[i] += s * b.a[i];
    return r;
}
static const std::vector<double> Cs {1, 2, .25, 7.5}, As {0, 1, -1, .5, 2};
static M pickM(Ctx& ctx, int n, RM& r, const std::vector<double>& cs, const std::vector<double>& as)
{
    const double c = ctx.pick(cs, "coefficient");
    V a(n);
    r.b = logl(c);
    r.a.assign(n, 0);
    for (int i = 0; i < n; ++i) r.a[i] = a[i] = ctx.pick(as, "exponent");
    return M(c, a);
}
static void monoScenario(Ctx& ctx, int n)
{
    RM ra, rb;
    const std::vector<double> as = n > 1 ? std::vector<double> {0, -1, .5} : As;
    const M a = pickM(ctx, n, ra, Cs, as), b = pickM(ctx, n, rb, {2, .25}, as);
    ctx.step(16);
    checkM(ctx, a, ra, "a");
    checkM(ctx, a * b, rmul(ra, rb, 1), "a*b");
    checkM(ctx, a / b, rmul(ra, rb, -1), "a/b");
    { M t(a); t *= b; checkM(ctx, t, rmul(ra, rb, 1), "a*=b"); checkM(ctx, a, ra, "a after changing a copy"); }
    { M t(a); t /= b; checkM(ctx, t, rmul(ra, rb, -1), "a/=b"); }
    { M t(a); t *= t; checkM(ctx, t, rmul(ra, ra, 1), "a*=a"); }
    { M t(a); t /= t; checkM(ctx, t, rmul(ra, ra, -1), "a/=a"); }
    RM s = ra;
    const double c = 3;
    s.b = ra.b + logl(c);
    checkM(ctx, a * c, s, "a*c");
    checkM(ctx, c * a, s, "c*a");
    { M t(a); t *= c; checkM(ctx, t, s, "a*=c"); }
    s.b = ra.b - logl(c);
    checkM(ctx, a / c, s, "a/c");
    { M t(a); t /= c; checkM(ctx, t, s, "a/=c"); }
    s.b = logl(c) - ra.b;
    for (auto& x : s.a) x = -x;
    checkM(ctx, c / a, s, "c/a");
    s = ra;
    s.b /= 2;
    for (auto& x : s.a) x /= 2;
    checkM(ctx, sqrt(a), s, "sqrt(a)");
    { M t(a); t.set_coeff(5); s = ra; s.b = logl(5); checkM(ctx, t, s, "set_coeff"); }
    checkM(ctx, M((size_t)n, 4.), RM {logl(4), std::vector<long double>(n, 0)}, "constant");
    checkM(ctx, M((size_t)n), RM {0, std::vector<long double>(n, 0)}, "one");
    std::vector<double> ar {2.5};
    RM r2 {logl(2.5), {}};
    for (int i = 0; i < n; ++i) { ar.push_back(i - .5); r2.a.push_back(i - .5); }
    checkM(ctx, M((size_t)n, ar.data()), r2, "from an array");
    if (n == 1) checkM(ctx, M(2.5, {-.5}), r2, "from a list");
    if (n == 3) checkM(ctx, M(2.5, {-.5, .5, 1.5}), r2, "from a list");
    { M t(a); t.sqrt(); s = ra; s.b /= 2; for (auto& x : s.a) x /= 2; checkM(ctx, t, s, "a.sqrt()"); }
    checkP(ctx, a + b, RP {ra, rb}, "a+b");
    checkP(ctx, P(a), RP {ra}, "a as a sum");
    for (int k : {1, 2, 5}) checkP(ctx, P((size_t)n, (size_t)k), RP(k, RM {0, std::vector<long double>(n, 0)}), "ones");
}
static void posyScenario(Ctx& ctx, int n, int terms, int depth)
{
    RP r(1);
    const std::vector<double> cs {1, .25}, as {0, -1, 2};
    P p(pickM(ctx, n, r[0], cs, as));
    for (int k = 1; k < terms; ++k)
    {
        RM t;
        const M m = pickM(ctx, n, t, cs, as);
        p += m;
        r.push_back(t);
    }
    checkP(ctx, p, r, "sum of terms");
    for (int k = 0; k < depth; ++k)
    {
        const int op = ctx.choose(12, "op");
        RM t {logl(2), std::vector<long double>(n, .5)};
        t.a[0] = -1;
        V a(.5, n);
        a[0] = -1;
        const M m(2., a);
        const P keep(p);
        const RP rkeep = r;
        ctx.step();
        switch (op)
        {
            case 0: p *= m; for (auto& x : r) x = rmul(x, t, 1); break;
            case 1: p /= m; for (auto& x : r) x = rmul(x, t, -1); break;
            case 2: p *= 3.; for (auto& x : r) x.b += logl(3); break;
            case 3: p /= 3.; for (auto& x : r) x.b -= logl(3); break;
            case 4: p += m; r.push_back(t); break;
            case 5: p += P(m); r.push_back(t); break;
            case 6: p += p; { const RP q = r; r.insert(r.end(), q.begin(), q.end()); } break;
            case 7: p = p * p; { RP q; for (auto& x : r) for (auto& y : r) q.push_back(rmul(x, y, 1)); r = q; } break;
            case 8: p = p + m; r.push_back(t); break;
            case 9: p = p * m; for (auto& x : r) x = rmul(x, t, 1); break;
            case 10: p = p / 3.; for (auto& x : r) x.b -= logl(3); break;
            default: p = p * 3. ; p = p / m; for (auto& x : r) { x.b += logl(3); x = rmul(x, t, -1); } break;
        }
        ctx.LOG("op %d: %zu terms", op, r.size());
        checkP(ctx, p, r, mc::fmt("after op %d", op).c_str());
        checkP(ctx, keep, rkeep, "a copy");
        if (r.size() > 40) return;
    }
}
//! many terms of very different size, many variables, large and tiny coefficients and exponents
static void wideScenario(Ctx& ctx, int n, int terms)
{
    const std::vector<double> cs {1, 3e-9, 4e5, 1e-20}, as {0, 1e-7, -3, 1, .5};
    const int c0 = ctx.choose(4, "c0"), c1 = ctx.choose(4, "c1"), a0 = ctx.choose(5, "a0"), a1 = ctx.choose(5, "a1");
    auto term = [&](int k, RM& r) {
        const double c = cs[(k * c1 + c0) % 4];
        V a(n);
        r.b = logl(c);
        r.a.assign(n, 0);
        for (int i = 0; i < n; ++i) r.a[i] = a[i] = as[(a0 + k * a1 + i * (k + 1)) % 5];
        return M(c, a);
    };
    RP r(1);
    P p(term(0, r[0]));
    for (int k = 1; k < terms; ++k)
    {
        RM t;
        const M m = term(k, t);
        ctx.step();
        p += m;
        r.push_back(t);
    }
    checkP(ctx, p, r, "sum of terms");
    RM t;
    const M m = term(7, t);
    ctx.step();
    checkM(ctx, m * m, rmul(t, t, 1), "m*m");
    checkM(ctx, 3. / m, [&] { RM u = t; u.b = logl(3) - u.b; for (auto& x : u.a) x = -x; return u; }(), "3/m");
    { RP q = r; for (auto& x : q) x = rmul(x, t, 1); checkP(ctx, p * m, q, "p*m"); }
    { RP q = r; for (auto& x : q) x = rmul(x, t, -1); P u(p); u /= m; checkP(ctx, u, q, "p/=m"); }
    { RP q = r; for (auto& x : q) x.b += logl(2e-7); P u(p); u *= 2e-7; checkP(ctx, u, q, "p*=c"); }
    { RP q = r; for (auto& x : q) x.b -= logl(2e-7); checkP(ctx, p / 2e-7, q, "p/c"); }
    { RP q = r; q.insert(q.end(), r.begin(), r.end()); P u(p); u += p; checkP(ctx, u, q, "p+=p"); }
    if (terms <= 5) { RP q; for (auto& x : r) for (auto& y : r) q.push_back(rmul(x, y, 1)); checkP(ctx, p * p, q, "p*p"); }
}
static void reg()
{
    for (int n : {1, 2, 4, 6})
        for (int t : {1, 3, 5, 12, 40})
            mc::add(mc::fmt("wide-%dv%dt", n, t), 2, mc::fmt("%d variables, %d terms: 400 sums of terms of very different size, 8 operations", n, t), [n, t](Ctx& c) { wideScenario(c, n, t); });
    mc::add("monomial-1", 1, "1 variable: all pairs of monomials over 4 coefficients and 5 exponents, every operation", [](Ctx& c) { monoScenario(c, 1); });
    mc::add("monomial-2", 2, "2 variables: all pairs over 3 exponents, every operation", [](Ctx& c) { monoScenario(c, 2); });
    mc::add("monomial-3", 3, "3 variables: all pairs over 3 exponents, every operation", [](Ctx& c) { monoScenario(c, 3); });
    for (int t : {1, 2, 3})
        mc::add(mc::fmt("posynomial-1v%dt", t), 2, mc::fmt("1 variable, %d terms, every history of 3 (thorough 4) operations out of 12", t),
            [t](Ctx& c) { posyScenario(c, 1, t, c.thorough ? 4 : 3); });
    mc::add("posynomial-2v1t", 2, "2 variables, 1 term, histories of 3 (thorough 4)", [](Ctx& c) { posyScenario(c, 2, 1, c.thorough ? 4 : 3); });
    mc::add("posynomial-2v2t", 2, "2 variables, 2 terms, histories of 2 (thorough 3)", [](Ctx& c) { posyScenario(c, 2, 2, c.thorough ? 3 : 2); });
    mc::add("posynomial-3v2t", 2, "3 variables, 2 terms, histories of 1 (thorough 2)", [](Ctx& c) { posyScenario(c, 3, 2, c.thorough ? 2 : 1); });
    mc::add("posynomial-2v3t", 2, "2 variables, 3 terms, histories of 2", [](Ctx& c) { posyScenario(c, 2, 3, 2); });
}
#endif

int main(int argc, char** argv)
{
    reg();
    return mc::main(argc, argv);
}
