// C21..C23: exact fractions, canonical signed digits, python-like containers.
#include "mc.hpp"
#ifndef PROP
#define PROP 21
#endif
using mc::Ctx;
using ll = long long;

#if PROP == 21
#include <py2cpp/fractions.hpp>
using I = __int128;
struct Q // exact reference, lowest terms, positive denominator
{
    I p, q;
    Q(I a, I b)
        : p {a}
        , q {b}
    {
        I x = p < 0 ? -p : p, y = q < 0 ? -q : q;
        while (y) { I r = x % y; x = y; y = r; }
        if (x == 0) x = 1;
        if (q < 0) x = -x;
        p /= x;
        q /= x;
    }
};
static std::string show(const Q& a) { return mc::fmt("%lld/%lld", (ll)a.p, (ll)a.q); }
static int cmp(const Q& a, const Q& b)
{
    const I l = a.p * b.q, r = b.p * a.q;
    return l < r ? -1 : l > r;
}
static bool fits(const Q& a, ll lim) { return a.p <= lim && a.p >= -lim && a.q <= lim; }
template <typename Z>
std::string show(const fun::Fraction<Z>& f)
{
    std::ostringstream o;
    o << f;
    return o.str();
}
template <typename Z>
void expect(Ctx& ctx, const fun::Fraction<Z>& f, const Q& want, const std::string& what)
{
    ctx.MUST(I(f.numerator()) == want.p && I(f.denominator()) == want.q, "%s is %s, the exact value is %s", what.c_str(),
        show(f).c_str(), show(want).c_str());
    ctx.MUST(show(f) == show(want), "%s is printed as %s", what.c_str(), show(f).c_str());
}
template <typename Z>
void binary(Ctx& ctx, ll a, ll b, ll c, ll d)
{
    using F = fun::Fraction<Z>;
    const F x(static_cast<Z>(a), static_cast<Z>(b)), y(static_cast<Z>(c), static_cast<Z>(d));
    const Q p(a, b), q(c, d);
    const auto X = mc::fmt("%lld/%lld", a, b), Y = mc::fmt("%lld/%lld", c, d);
    ctx.step(18);
    ctx.LOG("x=%s y=%s", X.c_str(), Y.c_str());
    expect(ctx, x, p, X);
    expect(ctx, x + y, Q(p.p * q.q + q.p * p.q, p.q * q.q), X + " + " + Y);
    expect(ctx, x - y, Q(p.p * q.q - q.p * p.q, p.q * q.q), X + " - " + Y);
    expect(ctx, x * y, Q(p.p * q.p, p.q * q.q), X + " * " + Y);
    if (q.p != 0) expect(ctx, x / y, Q(p.p * q.q, p.q * q.p), X + " / " + Y);
    { F z(x); z += y; expect(ctx, z, Q(p.p * q.q + q.p * p.q, p.q * q.q), X + " += " + Y); }
    { F z(x); z -= y; expect(ctx, z, Q(p.p * q.q - q.p * p.q, p.q * q.q), X + " -= " + Y); }
    { F z(x); z *= y; expect(ctx, z, Q(p.p * q.p, p.q * q.q), X + " *= " + Y); }
    if (q.p != 0) { F z(x); z /= y; expect(ctx, z, Q(p.p * q.q, p.q * q.p), X + " /= " + Y); }
    const int k = cmp(p, q);
    ctx.MUST((x == y) == (k == 0) && (x != y) == (k != 0) && (x < y) == (k < 0) && (x > y) == (k > 0) &&
            (x <= y) == (k <= 0) && (x >= y) == (k >= 0), "comparing %s with %s: == %d != %d < %d > %d <= %d >= %d", X.c_str(),
        Y.c_str(), x == y, x != y, x < y, x > y, x <= y, x >= y);
    const auto s = x.cmp(y);
    ctx.MUST((s < 0 ? -1 : s > 0) == k, "the sign of cmp(%s,%s) is %d", X.c_str(), Y.c_str(), (int)s);
    ctx.state(mc::mix(mc::hstr(show(x)), mc::hstr(show(y))));
}
template <typename Z>
void scalar(Ctx& ctx, ll a, ll b, ll i)
{
    using F = fun::Fraction<Z>;
    const F x(static_cast<Z>(a), static_cast<Z>(b));
    const Q p(a, b);
    const Z c = static_cast<Z>(i);
    const auto X = mc::fmt("%lld/%lld", a, b), C = mc::fmt("%lld", i);
    ctx.step(20);
    ctx.LOG("x=%s i=%s", X.c_str(), C.c_str());
    expect(ctx, x + c, Q(p.p + i * p.q, p.q), X + " + " + C);
    expect(ctx, x - c, Q(p.p - i * p.q, p.q), X + " - " + C);
    expect(ctx, x * c, Q(p.p * i, p.q), X + " * " + C);
    if (i) expect(ctx, x / c, Q(p.p, p.q * i), X + " / " + C);
    expect(ctx, c + x, Q(p.p + i * p.q, p.q), C + " + " + X);
    expect(ctx, c - x, Q(i * p.q - p.p, p.q), C + " - " + X);
    expect(ctx, c * x, Q(p.p * i, p.q), C + " * " + X);
    expect(ctx, int(i) + x, Q(p.p + i * p.q, p.q), C + " + " + X);
    expect(ctx, int(i) - x, Q(i * p.q - p.p, p.q), C + " - " + X);
    expect(ctx, int(i) * x, Q(p.p * i, p.q), C + " * " + X);
    { F z(x); z += c; expect(ctx, z, Q(p.p + i * p.q, p.q), X + " += " + C); }
    { F z(x); z -= c; expect(ctx, z, Q(p.p - i * p.q, p.q), X + " -= " + C); }
    { F z(x); z *= c; expect(ctx, z, Q(p.p * i, p.q), X + " *= " + C); }
    if (i) { F z(x); z /= c; expect(ctx, z, Q(p.p, p.q * i), X + " /= " + C); }
    const int k = cmp(p, Q(i, 1));
    ctx.MUST((x == c) == (k == 0) && (x != c) == (k != 0) && (x < c) == (k < 0) && (x > c) == (k > 0) &&
            (x <= c) == (k <= 0) && (x >= c) == (k >= 0), "comparing %s with the integer %s", X.c_str(), C.c_str());
    ctx.MUST((c == x) == (k == 0) && (c != x) == (k != 0) && (c < x) == (k > 0) && (c > x) == (k < 0) &&
            (c <= x) == (k >= 0) && (c >= x) == (k <= 0), "comparing the integer %s with %s", C.c_str(), X.c_str());
    expect(ctx, F(c), Q(i, 1), "Fraction(" + C + ")");
    expect(ctx, -x, Q(-p.p, p.q), "-(" + X + ")");
    expect(ctx, x.abs(), Q(p.p < 0 ? -p.p : p.p, p.q), "abs(" + X + ")");
    if (p.p != 0) { F z(x); z.reciprocal(); expect(ctx, z, Q(p.q, p.p), "1/(" + X + ")"); }
    ctx.state(mc::hstr(show(x)));
}
//! histories: the operand may be the object itself
template <typename Z>
void history(Ctx& ctx, int depth, ll lim, int ops = 15)
{
    using F = fun::Fraction<Z>;
    const std::vector<std::pair<ll, ll>> ini {{0, 1}, {1, 2}, {-3, 4}, {2, -3}, {-5, -6}, {7, 1}};
    const auto s = ini[ctx.choose(depth > 4 ? 3 : (int)ini.size(), "start")];
    F x(static_cast<Z>(s.first), static_cast<Z>(s.second));
    Q p(s.first, s.second);
    const std::vector<std::pair<ll, ll>> args {{1, 2}, {-1, 3}, {2, -6}, {-4, 1}};
    const std::vector<ll> is {2, -3, 0, -1};
    for (int k = 0; k < depth; ++k)
    {
        const int op = ctx.choose(ops, "op");
        const int ai = (op < 8) ? ctx.choose(4, "arg") : 0;
        const Q a(args[ai].first, args[ai].second);
        const F f(static_cast<Z>(args[ai].first), static_cast<Z>(args[ai].second));
        const ll i = is[ai];
        Q n = p;
        switch (op)
        {
            case 0: n = Q(p.p * a.q + a.p * p.q, p.q * a.q); break;
            case 1: n = Q(p.p * a.q - a.p * p.q, p.q * a.q); break;
            case 2: n = Q(p.p * a.p, p.q * a.q); break;
            case 3: n = Q(p.p * a.q, p.q * a.p); break;
            case 4: n = Q(p.p + i * p.q, p.q); break;
            case 5: n = Q(p.p - i * p.q, p.q); break;
            case 6: n = Q(p.p * i, p.q); break;
            case 7: if (i == 0) ctx.prune(); n = Q(p.p, p.q * i); break;
            case 8: n = Q(2 * p.p, p.q); break;               // x += x
            case 9: n = Q(0, 1); break;                       // x -= x
            case 10: n = Q(p.p * p.p, p.q * p.q); break;      // x *= x
            case 11: if (p.p == 0) ctx.prune(); n = Q(1, 1); break; // x /= x
            case 12: n = Q(p.p * p.q, p.q); break;            // x *= own denominator
            case 13: if (p.p == 0) ctx.prune(); n = Q(p.q, p.p); break;
            case 14: n = Q(-p.p, p.q); break;
            case 15: n = Q(p.p * p.p, p.q); break;            // x *= own numerator
            case 16: if (p.p == 0) ctx.prune(); n = Q(1, p.q); break; // x /= own numerator
            case 17: n = Q(p.p, p.q * p.q); break;            // x /= own denominator
            case 18: n = Q(p.p + p.p * p.q, p.q); break;      // x += own numerator
            case 19: n = Q(p.p - p.p * p.q, p.q); break;      // x -= own numerator
            case 20: n = Q(p.p + p.q * p.q, p.q); break;      // x += own denominator
            case 21: n = Q(p.p - p.q * p.q, p.q); break;      // x -= own denominator
            case 22: n = Q(2 * p.p, p.q); break;              // x = x + x
            case 23: n = Q(p.p * p.p, p.q * p.q); break;      // x = x * x
            default: n = Q(p.p - p.p * p.q, p.q); break;      // x = x - own numerator
        }
        if (!fits(n, lim)) ctx.prune(); // the type would overflow
        switch (op)
        {
            case 0: x += f; break;
            case 1: x -= f; break;
            case 2: x *= f; break;
            case 3: x /= f; break;
            case 4: x += static_cast<Z>(i); break;
            case 5: x -= static_cast<Z>(i); break;
            case 6: x *= static_cast<Z>(i); break;
            case 7: x /= static_cast<Z>(i); break;
            case 8: x += x; break;
            case 9: x -= x; break;
            case 10: x *= x; break;
            case 11: x /= x; break;
            case 12: x *= x.denominator(); break;
            case 13: x.reciprocal(); break;
            case 14: x = -x; break;
            case 15: x *= x.numerator(); break;
            case 16: x /= x.numerator(); break;
            case 17: x /= x.denominator(); break;
            case 18: x += x.numerator(); break;
            case 19: x -= x.numerator(); break;
            case 20: x += x.denominator(); break;
            case 21: x -= x.denominator(); break;
            case 22: x = x + x; break;
            case 23: x = x * x; break;
            default: x = x - x.numerator(); break;
        }
        ctx.step();
        ctx.LOG("op %d arg %s / %lld -> %s", op, show(a).c_str(), i, show(x).c_str());
        expect(ctx, x, n, mc::fmt("after op %d on %s the result", op, show(p).c_str()));
        ctx.MUST(x == F(static_cast<Z>(n.p), static_cast<Z>(n.q)), "a value is not equal to itself");
        ctx.state(mc::hstr(show(x)));
        p = n;
    }
}
template <typename Z>
void gcdlcm(Ctx& ctx, int lim)
{
    const ll a = ctx.range(-lim, lim, "a"), b = ctx.range(-lim, lim, "b");
    ll g = 0;
    for (ll d = 1; d <= lim; ++d) if (a % d == 0 && b % d == 0) g = d;
    if (a == 0 && b == 0) g = 0;
    else if (a == 0) g = std::llabs(b);
    else if (b == 0) g = std::llabs(a);
    const Z r = fun::gcd<Z>(static_cast<Z>(a), static_cast<Z>(b));
    ctx.MUST(r == static_cast<Z>(g), "gcd(%lld,%lld) is %lld", a, b, (ll)r);
    const Z l = fun::lcm<Z>(static_cast<Z>(a), static_cast<Z>(b));
    ctx.MUST((ll)l == (g ? std::llabs(a) / g * std::llabs(b) : 0) || (a == 0 || b == 0) && l == 0, "lcm(%lld,%lld) is %lld", a, b, (ll)l);
    ctx.step(2);
    ctx.state(mc::mix(a + 1000, b + 1000));
}
static void reg()
{
    mc::add("int-pairs", 2, "all pairs a/b, c/d with |a|,|c| <= 12 (thorough 24), 1 <= |b|,|d| <= 12 (24)", [](Ctx& c) {
        const int L = c.thorough ? 24 : 12;
        const ll a = c.range(-L, L, "a"), b0 = c.range(1, 2 * L, "b"), b = b0 > L ? L - b0 : b0;
        const ll d = c.range(-L, L, "c"), e0 = c.range(1, 2 * L, "d"), e = e0 > L ? L - e0 : e0;
        binary<int>(c, a, b, d, e);
    });
#ifdef LEAN // fewer instantiations, tried when the full harness does not build
    using Wide = int;
#else
    using Wide = ll;
#endif
    mc::add("longlong-pairs", 2, "the same over 64-bit integers with values up to 10^4", [](Ctx& c) {
        const std::vector<ll> n {0, 1, -1, 9973, -10000, 720, -5040, 17}, m {1, -1, 7, -12, 5040, 10007};
        binary<Wide>(c, c.pick(n), c.pick(m), c.pick(n), c.pick(m));
    });
#ifndef LEAN
    mc::add("longlong-near", 2, "64-bit integers beside 2^29 and 2^30: values that differ by less than a double tells apart", [](Ctx& c) {
        const ll A = 1ll << 30, B = 1ll << 29;
        const std::vector<ll> n {0, 1, A, A - 1, A - 2, A - 3, 1 - A, 2 - A, B, B - 1, 1 - B}, m {1, A, A - 1, A - 2, 2 - A, B, B + 1, B - 1};
        binary<ll>(c, c.pick(n), c.pick(m), c.pick(n), c.pick(m));
    });
    mc::add("longlong-scalar-large", 2, "the same with integers beside 2^30", [](Ctx& c) {
        const ll A = 1ll << 30;
        const std::vector<ll> n {0, 1, A, A - 1, A - 2, 2 - A, 1 - A, -A}, m {1, -1, A, A - 1, 1 - A, 3};
        scalar<ll>(c, c.pick(n), c.pick(m), c.pick(n));
    });
#endif
    mc::add("int-large", 2, "values whose products just fit the type", [](Ctx& c) {
        const std::vector<ll> n {0, 1, 20011, -32003, 30030, -32760, 32002, 32001}, m {1, -1, 30030, 32003, -32760, 32002};
        binary<int>(c, c.pick(n), c.pick(m), c.pick(n), c.pick(m));
    });
    mc::add("int-scalar", 2, "all a/b with |a| <= 30 (thorough 60), 1 <= |b| <= 30 (60) and integers in the same range", [](Ctx& c) {
        const int L = c.thorough ? 60 : 30;
        const ll a = c.range(-L, L, "a"), b0 = c.range(1, 2 * L, "b"), b = b0 > L ? L - b0 : b0;
        scalar<int>(c, a, b, c.range(-L, L, "i"));
    });
    mc::add("longlong-scalar", 2, "the same over 64-bit integers, |.| <= 9", [](Ctx& c) {
        const int L = 9;
        const ll a = c.range(-L, L, "a"), b0 = c.range(1, 2 * L, "b"), b = b0 > L ? L - b0 : b0;
        scalar<Wide>(c, a, b, c.range(-L, L, "i"));
    });
    mc::add("history-int", 3, "every sequence of 4 operations out of 15 from 6 values (thorough: 5 from 3 values), the object itself as operand included",
        [](Ctx& c) { history<int>(c, c.thorough ? 5 : 4, 20000); });
    mc::add("history-own", 3, "every sequence of 3 (thorough 4) operations out of 25, the object's own numerator, denominator or itself as operand included", [](Ctx& c) { history<int>(c, c.thorough ? 4 : 3, 20000, 25); });
    mc::add("history-longlong", 3, "every sequence of 3 (thorough 4) operations over 64-bit integers",
        [](Ctx& c) { history<Wide>(c, c.thorough ? 4 : 3, sizeof(Wide) == 4 ? 20000 : 1000000000); });
    mc::add("gcd", 1, "gcd and lcm of all pairs in -40..40", [](Ctx& c) { gcdlcm<int>(c, 40); });
}
#endif

#if PROP == 22
#include <string>
#include <string_view>
extern auto to_csd(double num, int places = 0) noexcept -> std::string;
extern auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> std::string;
extern auto to_decimal(std::string_view csd_str) noexcept -> double;
struct Csd { bool ok = true, canonical = true; int nz = 0, frac = -1; long double val = 0, last = 0; };
//! independent reading of a digit string
static Csd parse(const std::string& s)
{
    Csd r;
    int point = -1, nd = 0;
    std::vector<int> d;
    for (char c : s)
    {
        if (c == '.') { if (point >= 0) r.ok = false; point = nd; }
        else if (c == '0' || c == '+' || c == '-') { d.push_back(c == '0' ? 0 : c == '+' ? 1 : -1); ++nd; }
        else r.ok = false;
    }
    if (s.empty()) r.ok = false;
    const int frac = point < 0 ? 0 : nd - point;
    r.frac = point < 0 ? -1 : frac;
    for (int i = 0; i < nd; ++i)
    {
        const long double w = ldexpl(1.0L, nd - 1 - i - frac);
        r.val += d[i] * w;
        if (d[i]) { ++r.nz; r.last = w; if (i && d[i - 1]) r.canonical = false; }
    }
    return r;
}
static std::string flip(std::string s)
{
    for (auto& c : s) c = c == '+' ? '-' : c == '-' ? '+' : c;
    return s;
}
//! fewest non-zero signed digits of k
static int weight(ll k)
{
    int w = 0;
    for (k = std::llabs(k); k; k /= 2)
        if (k & 1) { ++w; k += (k & 2) ? 1 : -1; }
    return w;
}
static void csdCheck(Ctx& ctx, double x, int places, bool dyadic, ll k, int j)
{
    const auto s = to_csd(x, places);
    ctx.step();
    const auto r = parse(s);
    ctx.LOG("to_csd(%.17g,%d) = %s", x, places, s.c_str());
    ctx.state(mc::hstr(s));
    ctx.MUST(r.ok, "to_csd(%.17g,%d) = \"%s\" is not a digit string", x, places, s.c_str());
    ctx.MUST(r.canonical, "to_csd(%.17g,%d) = %s has adjacent non-zero digits", x, places, s.c_str());
    const long double err = fabsl((long double)x - r.val), bound = ldexpl(2.0L / 3, -places);
    ctx.MUST(err <= bound * (1 + 1e-9L), "to_csd(%.17g,%d) = %s is off by %.6Lg", x, places, s.c_str(), err);
    ctx.MUST((double)r.val == to_decimal(s), "to_decimal(%s) is %.17g, the value is %.17Lg", s.c_str(), to_decimal(s), r.val);
    ctx.MUST(flip(s) == to_csd(-x, places), "to_csd(%.17g,%d) is not the negation of to_csd(%.17g,%d)", -x, places, x, places);
    if (x != 0) ctx.MUST(places > 0 ? r.frac == places : r.frac == -1, "to_csd(%.17g,%d) = %s has the wrong number of places", x, places, s.c_str());
    if (dyadic && j <= places)
    {
        ctx.MUST(r.val == x, "to_csd(%.17g,%d) = %s is not exact", x, places, s.c_str());
        ctx.MUST(r.nz == weight(k), "to_csd(%.17g,%d) = %s has %d non-zero digits, %d suffice", x, places, s.c_str(), r.nz, weight(k));
    }
}
static void fixedCheck(Ctx& ctx, double x, unsigned nnz, bool dyadic, ll k)
{
    const auto s = to_csdfixed(x, nnz);
    ctx.step();
    const auto r = parse(s);
    ctx.LOG("to_csdfixed(%.17g,%u) = %s", x, nnz, s.c_str());
    ctx.state(mc::hstr(s));
    ctx.MUST(r.ok && r.canonical, "to_csdfixed(%.17g,%u) = \"%s\" is not canonical", x, nnz, s.c_str());
    ctx.MUST(r.nz <= (int)nnz, "to_csdfixed(%.17g,%u) = %s has %d non-zero digits", x, nnz, s.c_str(), r.nz);
    ctx.MUST((double)r.val == to_decimal(s), "to_decimal(%s) is %.17g, the value is %.17Lg", s.c_str(), to_decimal(s), r.val);
    ctx.MUST(flip(s) == to_csdfixed(-x, nnz), "to_csdfixed(%.17g,%u) is not the negation of that of %.17g", -x, nnz, x);
    if (dyadic && weight(k) <= (int)nnz)
        ctx.MUST(r.val == x, "to_csdfixed(%.17g,%u) = %s, but %d digits represent it exactly", x, nnz, s.c_str(), weight(k));
    else if (nnz > 0)
    {
        ctx.MUST(fabsl((long double)x - r.val) <= r.last / 3 * (1 + 1e-9L), "to_csdfixed(%.17g,%u) = %s is off by %.6Lg", x, nnz,
            s.c_str(), fabsl((long double)x - r.val));
        if (dyadic) ctx.MUST(r.nz == (int)nnz, "to_csdfixed(%.17g,%u) = %s uses only %d digits", x, nnz, s.c_str(), r.nz);
    }
    else ctx.MUST(r.val == 0, "to_csdfixed(%.17g,0) = %s", x, s.c_str());
}
static void reg()
{
    mc::add("dyadic", 2, "k/2^j for |k| <= 4096 (thorough 32768), j <= 12 (15), places 0..14 (18)", [](Ctx& c) {
        const int K = c.thorough ? 32768 : 4096;
        const ll k = c.range(-K, K, "k");
        const int j = c.range(0, c.thorough ? 15 : 12, "j"), p = c.range(0, c.thorough ? 18 : 14, "places");
        ll kk = k;
        int jj = j;
        while (jj > 0 && kk % 2 == 0) { kk /= 2; --jj; }
        csdCheck(c, std::ldexp((double)k, -j), p, true, kk, jj);
    });
    mc::add("non-dyadic", 2, "k/d for |k| <= 2000 (thorough 20000), d in {3,6,7,10,12,96}, places 0..20", [](Ctx& c) {
        const int K = c.thorough ? 20000 : 2000;
        const std::vector<int> ds {3, 6, 7, 10, 12, 96};
        csdCheck(c, c.range(-K, K, "k") / (double)c.pick(ds), c.range(0, 20, "places"), false, 0, 0);
    });
    mc::add("extreme", 1, "large and small magnitudes", [](Ctx& c) {
        const std::vector<ll> ks {1, 3, 5, 7, 11, 21, 43, 85, 1023, 1025, 43691, (1LL << 40) - 1, (1LL << 40) + 1, 12345678901LL};
        const ll k = c.pick(ks, "k") * (c.flag("negative") ? -1 : 1);
        const int j = c.pick(std::vector<int> {0, 1, 13, 20, 30}, "j");
        if (c.flag("fixed")) fixedCheck(c, std::ldexp((double)k, -j), c.range(0, 12, "nnz"), true, k);
        else csdCheck(c, std::ldexp((double)k, -j), c.pick(std::vector<int> {0, 1, 5, 13, 20, 30, 40}, "places"), true, k, j);
    });
    mc::add("turning points", 1, "2^k/3, 2^k 2/3, 2^k 5/6, 2^k: exactly, or a relative 2^-12 to 2^-53 above or below, k -10..45", [](Ctx& c) {
        const int k = c.range(-10, 45, "k");
        const double b = c.pick(std::vector<double> {2. / 3, 1. / 3, 5. / 6, 1.}, "base");
        const double h = c.pick(std::vector<double> {0, 12, 16, 20, 24, 28, 32, 36, 40, 44, 48, 50, 51, 52, 53}, "hair");
        const double x = std::ldexp(b * (1 + (h == 0 ? 0 : (c.flag("below") ? -1 : 1) * std::ldexp(1., -(int)h))), k) * (c.flag("negative") ? -1 : 1);
        if (c.flag("fixed")) fixedCheck(c, x, c.range(0, 8, "nnz"), false, 0);
        else csdCheck(c, x, c.pick(std::vector<int> {0, 1, 2, 5, 8, 13}, "places"), false, 0, 0);
    });
    mc::add("fixed-dyadic", 2, "k/2^j for |k| <= 4096 (thorough 32768), j <= 12 (15), 0..6 digits", [](Ctx& c) {
        const int K = c.thorough ? 32768 : 4096;
        const ll k = c.range(-K, K, "k");
        fixedCheck(c, std::ldexp((double)k, -c.range(0, c.thorough ? 15 : 12, "j")), c.range(0, 6, "nnz"), true, k);
    });
    mc::add("fixed-non-dyadic", 2, "k/d for |k| <= 2000 (thorough 20000), 0..8 digits", [](Ctx& c) {
        const int K = c.thorough ? 20000 : 2000;
        const std::vector<int> ds {3, 6, 7, 10, 12, 96};
        const int k = c.range(-K, K, "k");
        if (k == 0) c.prune();
        fixedCheck(c, k / (double)c.pick(ds), c.range(0, 8, "nnz"), false, 0);
    });
    mc::add("decimal", 3, "every string of up to 10 (thorough 12) digits 0,+,- with the point anywhere", [](Ctx& c) {
        const int n = c.range(1, c.thorough ? 12 : 10, "length");
        std::string s;
        const int point = c.choose(n + 2, "point"); // n+1: none
        for (int i = 0; i < n; ++i)
        {
            if (i == point) s += '.';
            s += "0+-"[c.choose(3, "digit")];
        }
        if (point == n) s += '.';
        const double v = to_decimal(s);
        c.step();
        c.LOG("to_decimal(%s) = %.17g", s.c_str(), v);
        c.state(mc::hstr(s));
        c.MUST(v == (double)parse(s).val, "to_decimal(%s) is %.17g, expected %.17Lg", s.c_str(), v, parse(s).val);
        const std::string around = "-" + s + "+.-";
        const double w = to_decimal(std::string_view(around).substr(1, s.size()));
        c.MUST(w == v, "to_decimal(%s) is %.17g as a part of a longer string, %.17g alone", s.c_str(), w, v);
    });
    mc::add("decimal-long", 3, "strings of up to 900 digits: zeros, 1-4 digits, up to 40 zeros, 0-2 digits, zeros, the point anywhere between", [](Ctx& c) {
        const std::string ts = "0+-";
        const std::vector<int> zs = {0, 1, 30, 31, 32, 62, 63, 64, 65, 127, 128, 129, 300};
        std::string core, tail;
        const int n1 = c.range(1, c.thorough ? 4 : 3, "digits"), n2 = c.choose(3, "digits of the second group");
        for (int i = 0; i < n1; ++i) core += ts[c.choose(3, "digit")];
        const int gap = n2 ? c.pick(std::vector<int> {0, 10, 31, 40}, "gap") : 0;
        for (int i = 0; i < n2; ++i) tail += ts[c.choose(3, "digit")];
        const std::string part[] = {std::string(c.pick(zs, "leading zeros"), '0'), core, std::string(gap, '0'), tail,
            std::string(c.pick(zs, "trailing zeros"), '0')};
        const int point = c.choose(7, "point"); // 6: none
        std::string s;
        for (int k = 0; k < 5; ++k)
        {
            if (point == k) s += '.';
            s += part[k];
        }
        if (point == 5) s += '.';
        const double v = to_decimal(s);
        c.step();
        c.LOG("to_decimal(%s) = %.17g", s.c_str(), v);
        c.state(mc::hstr(s));
        c.MUST(v == (double)parse(s).val, "to_decimal(%s) is %.17g, expected %.17Lg", s.c_str(), v, parse(s).val);
        const std::string around = "-" + s + "+.-";
        const double w = to_decimal(std::string_view(around).substr(1, s.size()));
        c.MUST(w == v, "to_decimal(%s) is %.17g as a part of a longer string, %.17g alone", s.c_str(), w, v);
    });
}
#endif

#if PROP == 23
#include <py2cpp/py2cpp.hpp>
#include <string>
template <typename T>
void rangeScenario(Ctx& ctx, int lo, int hi)
{
    const int a = ctx.range(lo, hi, "start"), b = ctx.range(lo, hi, "stop");
    const bool one = a == 0 && ctx.flag("one argument");
    const T s = static_cast<T>(a), e = static_cast<T>(b);
    auto R = one ? py::range(e) : py::range(s, e);
    ctx.step();
    std::vector<T> want, got;
    for (int i = a; i < b; ++i) want.push_back(static_cast<T>(i));
    for (auto i : R)
    {
        got.push_back(i);
        if (got.size() > 1000) ctx.fail("range(%d,%d) does not end", a, b);
    }
    ctx.LOG("range(%d,%d): %zu values", a, b, got.size());
    ctx.state(mc::mix(a + 100, b + 100));
    ctx.MUST(got == want, "range(%d,%d) yields %zu values, expected %zu, or the wrong ones", a, b, got.size(), want.size());
    ctx.MUST(R.size() == want.size() && R.empty() == want.empty(), "range(%d,%d) has size %zu, empty %d", a, b, (size_t)R.size(), R.empty());
    for (size_t i = 0; i < want.size(); ++i) ctx.MUST(R[i] == want[i], "range(%d,%d)[%zu] is %lld", a, b, i, (ll)R[i]);
    for (int x = lo - (lo < 0); x <= hi + 1; ++x)
        ctx.MUST(R.contains(static_cast<T>(x)) == (x >= a && x < b), "range(%d,%d).contains(%d) is %d", a, b, x, R.contains(static_cast<T>(x)));
}
//! ranges too long to walk through
template <typename T>
void wideRange(Ctx& ctx, const std::vector<T>& ends)
{
    const T a = ctx.pick(ends, "start"), b = ctx.pick(ends, "stop");
    using W = __int128;
    const W d = W(b) - W(a);
    if (d > W(std::numeric_limits<T>::max())) ctx.prune(); // the length does not fit the type
    const auto R = py::range(a, b);
    ctx.step();
    const W n = d > 0 ? d : 0;
    ctx.LOG("range(%lld,%llu): size %zu", (ll)a, (unsigned long long)b, (size_t)R.size());
    ctx.MUST(W(R.size()) == n && R.empty() == (n == 0), "range(%lld,%lld) has size %zu, empty %d", (ll)a, (ll)b, (size_t)R.size(), R.empty());
    for (T x : ends)
        for (int o : {-1, 0, 1})
        {
            if (W(x) + o > W(std::numeric_limits<T>::max()) || W(x) + o < W(std::numeric_limits<T>::min())) continue;
            const T y = static_cast<T>(W(x) + o);
            ctx.MUST(R.contains(y) == (y >= a && y < b), "range(%lld,%lld).contains(%lld) is %d", (ll)a, (ll)b, (ll)y, R.contains(y));
            if (y >= a && y < b) ctx.MUST(R[static_cast<size_t>(W(y) - W(a))] == y, "range(%lld,%lld)[%lld] is %lld", (ll)a, (ll)b,
                (ll)(W(y) - W(a)), (ll)R[static_cast<size_t>(W(y) - W(a))]);
        }
    auto it = R.begin();
    W i = 0;
    for (; it != R.end() && i < 100000; ++it, ++i)
        if (W(*it) != W(a) + i) ctx.fail("range(%lld,%lld): item %lld is %lld", (ll)a, (ll)b, (ll)i, (ll)*it);
    ctx.MUST(i == (n < 100000 ? n : 100000), "range(%lld,%lld) ends after %lld items", (ll)a, (ll)b, (ll)i);
    ctx.MUST((it == R.end()) == (i == n), "range(%lld,%lld): the end is reached after %lld items", (ll)a, (ll)b, (ll)i);
    ctx.state(mc::mix((uint64_t)a, (uint64_t)b));
}
//! more items than a small counter or a first bucket table holds
static void many(Ctx& ctx)
{
    const int n = ctx.pick(std::vector<int> {1, 10, 12, 13, 14, 100, 255, 256, 257, 1000, 65535, 65536, 70000}, "items");
    const int kind = ctx.choose(3, "container"), step = ctx.pick(std::vector<int> {1, 2, 3, 97}, "erase every");
    ctx.step(n);
    ctx.LOG("%d items, every %dth erased", n, step);
    ctx.state(mc::mix(n, kind));
    if (kind == 0)
    {
        std::vector<unsigned char> v(n);
        for (int i = 0; i < n; ++i) v[i] = (unsigned char)(i * 7);
        size_t k = 0;
        for (auto&& [i, x] : py::enumerate(v))
        {
            if (i != k || k >= v.size() || x != (unsigned char)(k * 7)) ctx.fail("enumerate: item %zu is (%zu,%d)", k, (size_t)i, x);
            ++k;
        }
        ctx.MUST(k == v.size(), "enumerate: %zu items of %zu", k, v.size());
        return;
    }
    if (kind == 1)
    {
        py::set<int> S;
        for (int i = 0; i < n; ++i) S.insert(i * 3);
        for (int i = 0; i < n; i += step) S.erase(i * 3);
        const auto T = S.copy();
        const size_t want = n - (n + step - 1) / step;
        ctx.MUST(py::len(S) == want && py::len(T) == want, "the set has %zu elements, expected %zu", py::len(S), want);
        for (int i = 0; i < 3 * n; ++i)
        {
            const bool in = i % 3 == 0 && i / 3 % step;
            if (S.contains(i) != in || T.contains(i) != in || (i < T) != in) ctx.fail("membership of %d is wrong", i);
        }
        return;
    }
    py::dict<int, int> D;
    for (int i = 0; i < n; ++i) D[i * 3] = i;
    for (int i = 0; i < n; i += step) D.erase(i * 3);
    auto T = D.copy();
    const size_t want = n - (n + step - 1) / step;
    size_t seen = 0;
    for (auto&& key : D) { ++seen; if (key % 3 || key / 3 % step == 0) ctx.fail("key %d is visited", key); }
    ctx.MUST(py::len(D) == want && py::len(T) == want && seen == want, "the dictionary has %zu keys, %zu visited, expected %zu", py::len(D), seen, want);
    for (int i = 0; i < 3 * n; ++i)
    {
        const bool in = i % 3 == 0 && i / 3 % step;
        if (D.contains(i) != in || T.contains(i) != in || (i < T) != in || D.get(i, -1) != (in ? i / 3 : -1)) ctx.fail("entry %d is wrong", i);
    }
    ctx.MUST(py::len(D) == want, "get added keys");
}
static void enumScenario(Ctx& ctx)
{
    std::vector<int> v;
    const int n = ctx.range(0, 4, "length");
    for (int i = 0; i < n; ++i) v.push_back(ctx.range(-1, 1, "item"));
    const auto want = v;
    const int kind = ctx.choose(4, "kind");
    size_t k = 0;
    ctx.step();
    auto see = [&](size_t i, int x) { ctx.MUST(i == k && k < want.size() && x == want[k], "enumerate: item %zu is (%zu,%d)", k, i, x); ++k; };
    if (kind == 0)
    {
        for (auto&& [i, x] : py::enumerate(v)) { see(i, x); x += 10; } // through to the container
        for (size_t i = 0; i < v.size(); ++i) ctx.MUST(v[i] == want[i] + 10, "enumerate does not refer to the container's items");
    }
    else if (kind == 1)
    {
        const auto& c = v;
        for (auto&& [i, x] : py::enumerate(c)) see(i, x);
        ctx.MUST(v == want, "the container changed");
    }
    else if (kind == 2) { for (auto&& [i, x] : py::enumerate(std::vector<int>(v))) see(i, x); }
    else
    {
        for (auto&& [i, x] : py::enumerate(v)) { see(i, x); if (k == 2) break; }
        k = 0;
        for (auto&& [i, x] : py::enumerate(v)) see(i, x);
    }
    ctx.MUST(k == want.size(), "enumerate: %zu items of %zu", k, want.size());
    ctx.state(mc::mix(n, kind));
}
using Key = int;
static void setScenario(Ctx& ctx, int depth)
{
    py::set<Key> S, other {7};
    std::set<Key> M, otherM {7};
    const int init = ctx.choose(3, "construction");
    if (init == 1) { S = py::set<Key> {1, 2, 2}; M = {1, 2}; }
    if (init == 2) { const std::vector<int> v {0, 2, 0}; S = py::set<Key>(v.begin(), v.end()); M = {0, 2}; }
    for (int k = 0; k < depth; ++k)
    {
        const int op = ctx.choose(6, "op");
        const Key key = op < 2 ? ctx.range(0, 2, "key") : 0;
        switch (op)
        {
            case 0: S.insert(key); M.insert(key); break;
            case 1: S.erase(key); M.erase(key); break;
            case 2: other = S.copy(); otherM = M; break;
            case 3: { S = std::move(other); M = otherM; other = py::set<Key> {7}; otherM = {7}; break; }
            case 4: { py::set<Key> t(S); t.insert(9); ctx.MUST(t.contains(9) && !S.contains(9), "a copy shares its elements"); break; }
            default: { py::set<Key> t(std::move(S)); S = std::move(t); break; }
        }
        ctx.step();
        for (int q = 0; q < 2; ++q)
        {
            const auto& s = q ? other : S;
            const auto& m = q ? otherM : M;
            std::set<Key> seen;
            for (auto x : s) ctx.MUST(seen.insert(x).second, "an element is visited twice");
            ctx.MUST(seen == m && py::len(s) == m.size(), "after op %d the set has %zu elements, expected %zu", op, py::len(s), m.size());
            for (Key x = -1; x <= 9; ++x)
                ctx.MUST(s.contains(x) == (m.count(x) > 0) && (x < s) == (m.count(x) > 0), "membership of %d is wrong", x);
        }
        uint64_t h = 0;
        for (auto x : M) h = mc::mix(h, x + 1);
        for (auto x : otherM) h = mc::mix(h, x + 50);
        ctx.state(h);
    }
}
template <typename K>
K mk(int i);
template <> int mk<int>(int i) { return i; }
template <> std::string mk<std::string>(int i) { return std::string(1, char('a' + i + 1)); }
template <typename K>
void dictScenario(Ctx& ctx, int depth)
{
    using D = py::dict<K, int>;
    D S, other;
    std::map<K, int> M, otherM;
    if (ctx.flag("initialised")) { S = D {{mk<K>(0), 5}, {mk<K>(1), 6}}; M = {{mk<K>(0), 5}, {mk<K>(1), 6}}; }
    for (int k = 0; k < depth; ++k)
    {
        const int op = ctx.choose(9, "op");
        const K key = mk<K>(op < 5 ? ctx.range(0, 2, "key") : 0);
        switch (op)
        {
            case 0: S[key] = k + 1; M[key] = k + 1; break;
            case 1: S.erase(key); M.erase(key); break;
            case 2:
            {
                const int v = S.get(key, -7);
                ctx.MUST(v == (M.count(key) ? M[key] : -7), "get with a default returns %d", v);
                break;
            }
            case 3:
            {
                const D& c = S;
                bool threw = false;
                int v = 0;
                try { v = c[key]; } catch (std::out_of_range&) { threw = true; }
                ctx.MUST(threw == !M.count(key) && (threw || v == M[key]), "reading a constant dictionary");
                break;
            }
            case 4: S[key] += 2; M[key] += 2; break;
            case 5: other = S.copy(); otherM = M; break;
            case 6: S = std::move(other); M = otherM; other = D {}; otherM.clear(); break;
            case 7: S.clear(); M.clear(); break;
            default: for (auto& kv : S.items()) kv.second *= 2; for (auto& kv : M) kv.second *= 2; break;
        }
        ctx.step();
        for (int q = 0; q < 2; ++q)
        {
            const auto& s = q ? other : S;
            const auto& m = q ? otherM : M;
            std::set<K> keys;
            for (auto&& x : s) ctx.MUST(keys.insert(x).second, "a key is visited twice");
            ctx.MUST(keys.size() == m.size() && py::len(s) == m.size(), "after op %d the dictionary has %zu keys, %zu are visited, expected %zu",
                op, py::len(s), keys.size(), m.size());
            for (auto& kv : m)
                ctx.MUST(keys.count(kv.first) && s[kv.first] == kv.second && s.contains(kv.first) && (kv.first < s), "after op %d an entry is missing or wrong", op);
            std::map<K, int> it;
            for (auto& kv : s.items()) it[kv.first] = kv.second;
            ctx.MUST(it == m, "after op %d items() does not agree with the contents", op);
            for (int x = -1; x <= 3; ++x)
                ctx.MUST(s.contains(mk<K>(x)) == (m.count(mk<K>(x)) > 0) && (mk<K>(x) < s) == (m.count(mk<K>(x)) > 0), "after op %d membership of key %d is wrong", op, x);
        }
        uint64_t h = 0;
        for (auto& x : M) h = mc::mix(mc::mix(h, x.second), std::hash<K>()(x.first));
        for (auto& x : otherM) h = mc::mix(mc::mix(h, x.second + 99), std::hash<K>()(x.first));
        ctx.state(h);
    }
}
static void reg()
{
    mc::add("range-int", 1, "all start, stop in -20..20 (thorough -60..60)", [](Ctx& c) { c.thorough ? rangeScenario<int>(c, -60, 60) : rangeScenario<int>(c, -20, 20); });
#ifndef LEAN
    mc::add("range-unsigned", 1, "all start, stop in 0..8", [](Ctx& c) { rangeScenario<unsigned>(c, 0, 8); });
    mc::add("range-size_t", 1, "all start, stop in 0..8", [](Ctx& c) { rangeScenario<size_t>(c, 0, 8); });
#endif
    mc::add("range-wide", 1, "start, stop in {+-2^62, +-2^40, +-2^33, +-2^32, +-2^31, +-70000, 0, 1 and neighbours}", [](Ctx& c) {
        std::vector<ll> e {0, 1};
        for (ll x : {1LL << 62, 1LL << 40, 1LL << 33, 1LL << 32, 1LL << 31, 70000LL, 256LL})
            for (ll o : {-1, 0, 3}) { e.push_back(x + o); e.push_back(-x + o); }
        wideRange<ll>(c, e);
    });
    mc::add("range-wide-int", 1, "the ends of int and 16 bits", [](Ctx& c) { wideRange<int>(c, {INT_MIN, INT_MIN + 1, -70000, -1, 0, 1, 32767, 32768, 65535, 65536, 70000, INT_MAX - 1, INT_MAX}); });
    mc::add("range-wide-size_t", 1, "the ends of size_t and 32 bits", [](Ctx& c) { wideRange<size_t>(c, {0, 1, 255, 256, 65536, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, 1ull << 63, (1ull << 63) + 1, ~0ull - 1, ~0ull}); });
    mc::add("range-short", 1, "the ends of short and char", [](Ctx& c) { if (c.flag("char")) wideRange<signed char>(c, {-128, -127, -1, 0, 1, 126, 127}); else wideRange<short>(c, {-32768, -32767, -129, -1, 0, 1, 127, 128, 32766, 32767}); });
    mc::add("many", 2, "up to 70000 items enumerated, or in a set or dictionary", many);
    mc::add("enumerate", 2, "all sequences of up to 4 items, 4 ways to enumerate", enumScenario);
    mc::add("set", 3, "every history of 6 (thorough 7) operations", [](Ctx& c) { setScenario(c, c.thorough ? 7 : 6); });
    mc::add("dict-int", 3, "every history of 5 (thorough 6) operations", [](Ctx& c) { dictScenario<int>(c, c.thorough ? 6 : 5); });
    mc::add("dict-string", 3, "every history of 4 (thorough 5) operations, string keys", [](Ctx& c) { dictScenario<std::string>(c, c.thorough ? 5 : 4); });
}
#endif

int main(int argc, char** argv)
{
    reg();
    return mc::main(argc, argv);
}
