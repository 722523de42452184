// C12..C15: LDL^T factorisation, LMI, QMI and correlation oracles.
#include "ref.hpp"
#include <ellcpp/oracles/ldlt_ext.hpp>
#include <ellcpp/oracles/lmi0_oracle.hpp>
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <ellcpp/oracles/qmi_oracle.hpp>
#include <optional>
#if PROP == 15 || PROP == 26
#include "lsq_corr_ell.cpp"
#endif
using mc::Ctx;
using Cut1 = std::tuple<Arr, double>;

static Arr mat(size_t r, size_t c, const std::vector<double>& v)
{
    Arr a = Arr::from_shape({r, c});
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) a(i, j) = v[i * c + j];
    return a;
}
static LMat lm(const Arr& A)
{
    const int n = (int)A.shape()[0];
    LMat r(n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) r(i, j) = A(i, j);
    return r;
}
//! A + eps I positive definite?
static bool pd(LMat A, LD eps)
{
    for (int i = 0; i < A.n; ++i) A(i, i) += eps;
    LMat L;
    return chol(A, L);
}
static std::string showM(const Arr& A)
{
    std::string s = "[";
    for (double v : A) s += mc::fmt("%g ", v);
    return s + "]";
}
static LD EPS = 1e-7L; //!< entries are of order one: "certainly" means with this margin
//! 1: positive definite, -1: not, where elimination does not round anywhere
//! before that is decided; 0: it does round
static int exactly(const LMat& A0)
{
    const int n = A0.n;
    std::vector<double> a(n * n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            a[i * n + j] = (double)A0(i, j);
            if ((LD)a[i * n + j] != A0(i, j)) return 0;
        }
    for (int k = 0; k < n; ++k)
    {
        const double d = a[k * n + k];
        if (d <= 0) return -1;
        for (int i = k + 1; i < n; ++i)
        {
            const double t = a[i * n + k] / d;
            if (std::fma(t, d, -a[i * n + k]) != 0) return 0;
            for (int j = k + 1; j < n; ++j)
            {
                const double p = t * a[k * n + j], x = a[i * n + j];
                if (std::fma(t, a[k * n + j], -p) != 0) return 0;
                const double r = x - p;
                if ((LD)x - (LD)p != (LD)r) return 0;
                a[i * n + j] = r;
            }
        }
    }
    return 1;
}
static bool surelyPD(const LMat& A) { return exactly(A) > 0 || pd(A, -EPS); }
static bool surelyNotPD(const LMat& A) { return exactly(A) < 0 || !pd(A, EPS); }

// symmetric matrices of small integers, by index
static Arr symOf(int n, int code, const std::vector<double>& vals)
{
    Arr A = Arr::from_shape({(size_t)n, (size_t)n});
    const int b = (int)vals.size();
    for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j)
        {
            A(i, j) = A(j, i) = vals[code % b];
            code /= b;
        }
    return A;
}

#if PROP == 12
// -------------------------------------------------------------- ldlt_ext
//! 1: positive semidefinite, and no rounding anywhere; -1: a clearly negative
//! pivot comes before any (nearly) zero one; 0: neither
static int semi(const Arr& A0)
{
    const int n = (int)A0.shape()[0];
    std::vector<double> a(A0.begin(), A0.end());
    bool exact = true, zero = false;
    for (int k = 0; k < n; ++k)
    {
        const double d = a[k * n + k];
        if (d < -1e-7) return !zero ? -1 : 0;
        if (d < 0) return 0;
        if (d < 1e-7)
        {
            if (d != 0) return 0;
            zero = true;
            for (int i = k + 1; i < n; ++i)
                if (a[i * n + k] != 0) return 0; // indefinite
            continue;
        }
        int e;
        if (std::frexp(d, &e) != 0.5) exact = false;
        for (int i = k + 1; i < n; ++i)
            for (int j = k + 1; j < n; ++j) a[i * n + j] -= a[i * n + k] * a[k * n + j] / d;
    }
    return exact ? 1 : 0;
}
//! entries are of this size, and sums of products are good to this many digits
static LD UNIT = 1, TW = 1e-9L;
//! decide everything the documentation says about one factorisation
static void decide(Ctx& ctx, ldlt_ext& Q, const Arr& A, int mode, const char* what)
{
    const int n = (int)A.shape()[0];
    const LMat L = lm(A);
    bool r;
    auto get = [&](size_t i, size_t j) { return A(i, j); };
    if (mode == 0) r = Q.factorize(A);
    else if (mode == 1) r = Q.factor(get);
    else r = Q.factor<decltype(get)&, true>(get);
    ctx.step();
    ctx.LOG("%s: %s of %s -> %d p=(%zu,%zu)", what, mode == 0 ? "factorize" : mode == 1 ? "factor" : "factor (semidefinite)",
        showM(A).c_str(), r, Q.p.first, Q.p.second);
    ctx.MUST(r == Q.is_spd(), "%s: result %d but is_spd() %d for %s", what, r, Q.is_spd(), showM(A).c_str());
    ctx.state(mc::mix(mc::mix(r, Q.p.first), mc::mix(Q.p.second, mode)));
    if (mode == 2)
    {
        const int k = semi(A);
        if (surelyPD(L) || k == 1) ctx.MUST(r, "%s: %s is positive semidefinite and rejected", what, showM(A).c_str());
        if (k == -1) ctx.MUST(!r, "%s: %s is indefinite and accepted", what, showM(A).c_str());
    }
    else
    {
        if (surelyPD(L)) ctx.MUST(r, "%s: %s is positive definite and rejected", what, showM(A).c_str());
        if (surelyNotPD(L)) ctx.MUST(!r, "%s: %s is not positive definite and accepted", what, showM(A).c_str());
    }
    if (!r)
    {
        const double ep = Q.witness();
        const double again = Q.witness(); // asking twice is asking once
        ctx.MUST(again == ep, "%s: witness() says %g, then %g, for %s", what, ep, again, showM(A).c_str());
        const int a = (int)Q.p.first, b = (int)Q.p.second;
        ctx.MUST(0 <= a && a < b && b <= n, "%s: rows (%d,%d) for %s", what, a, b, showM(A).c_str());
        LD q = 0, nrm = 0, scale = 0;
        for (int i = a; i < b; ++i)
            for (int j = a; j < b; ++j)
            {
                q += (LD)A(i, j) * Q.v(i) * Q.v(j);
                scale += fabsl((LD)A(i, j) * Q.v(i) * Q.v(j));
            }
        for (int i = a; i < b; ++i) nrm += (LD)Q.v(i) * Q.v(i);
        ctx.MUST(std::isfinite(ep) && nrm > 1e-12L, "%s: witness of %s: ep=%g |v|^2=%Lg", what, showM(A).c_str(), ep, nrm);
        const LD tl = TW * (scale + 1e-9L * UNIT);
        ctx.MUST(q <= tl, "%s: v'Av = %Lg > 0 is no certificate for %s", what, q, showM(A).c_str());
        ctx.MUST(fabsl(q + ep) <= tl, "%s: v'Av = %Lg, witness() says -%g, for %s", what, q, ep, showM(A).c_str());
        ctx.MUST(ep >= 0, "%s: witness() = %g < 0 for %s", what, ep, showM(A).c_str());
        // quadratic forms of other matrices
        for (int k = 0; k < 3; ++k)
        {
            Arr B = symOf(n, 7 + 1234567 * k, {-2., 1., 3.});
            LD w = 0, sc = 0;
            for (int i = a; i < b; ++i)
                for (int j = a; j < b; ++j)
                {
                    w += (LD)B(i, j) * Q.v(i) * Q.v(j);
                    sc += fabsl((LD)B(i, j) * Q.v(i) * Q.v(j));
                }
            const double s = Q.sym_quad(B);
            ctx.MUST(fabsl(s - w) <= 1e-9L * (sc + 1e-9L), "%s: sym_quad = %g, v'Bv = %Lg (A=%s)", what, s, w, showM(A).c_str());
        }
    }
    else if (surelyPD(L))
    {
        const Arr R = Q.sqrt(), R2 = Q.sqrt(); // asking twice is asking once
        ctx.MUST(R.shape() == R2.shape() && std::equal(R.begin(), R.end(), R2.begin()), "%s: sqrt() gives two results for %s", what, showM(A).c_str());
        ctx.MUST((int)R.shape()[0] == n && (int)R.shape()[1] == n, "%s: shape of the square root", what);
        LD worst = 0;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
                LD s = 0;
                for (int k = 0; k < n; ++k) s += (LD)R(k, i) * R(k, j);
                worst = std::max(worst, fabsl(s - A(i, j)));
                if (j < i) ctx.MUST(R(i, j) == 0, "%s: the square root of %s is not upper triangular", what, showM(A).c_str());
            }
        ctx.MUST(worst <= 1e-9L * UNIT, "%s: R'R differs from %s by %Lg", what, showM(A).c_str(), worst);
    }
}
static void single(Ctx& ctx, int n, const std::vector<double>& vals)
{
    Arr A = Arr::from_shape({(size_t)n, (size_t)n});
    for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j) A(i, j) = A(j, i) = ctx.pick(vals, "a");
    for (int mode = 0; mode < 3; ++mode)
    {
        ldlt_ext Q(n);
        decide(ctx, Q, A, mode, "fresh object");
    }
    // one object used for everything, and once more
    ldlt_ext Q(n);
    for (int mode : {2, 0, 1, 2, 0})
        decide(ctx, Q, A, mode, "reused object");
}
//! L D L' with pivots of very different size, none of them lost to rounding
static void nearSingular(Ctx& ctx, int n)
{
    const double e = 1. / (1LL << 40);
    const std::vector<double> D {1, 2, e, -e, 0, 1024 * e, -1024 * e, -1};
    const int ku = ctx.pick(std::vector<int> {0, -60, 60}, "unit");
    std::vector<double> d(n), l(n * n, 0.);
    for (int i = 0; i < n; ++i)
    {
        d[i] = ctx.pick(n < 3 || i + 1 == n ? D : std::vector<double> {1, e, 0}, "pivot");
        for (int j = 0; j < i; ++j) l[i * n + j] = ctx.pick(std::vector<double> {0, 1, -1}, "factor");
        l[i * n + i] = 1;
    }
    Arr A = Arr::from_shape({(size_t)n, (size_t)n});
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            double s = 0;
            for (int k = 0; k <= std::min(i, j); ++k) s += l[i * n + k] * l[j * n + k] * d[k];
            A(i, j) = std::ldexp(s, ku);
        }
    UNIT = ldexpl(1, ku);
    EPS = std::ldexp(1e-7L, ku);
    TW = 1e-14L;
    bool zero = false;
    for (double x : d) { zero = zero || x == 0; if (x < 0) break; }
    for (int mode = 0; mode < (zero ? 2 : 3); ++mode)
    {
        ldlt_ext Q(n);
        decide(ctx, Q, A, mode, "fresh object");
    }
}
//! matrices of larger size: a band, an arrow, or full, where one pivot fails
static void large(Ctx& ctx)
{
    const int n = ctx.pick(std::vector<int> {9, 16, 17, 24, 33, 65, 97, 130}, "n"), kind = ctx.choose(3, "kind");
    ldlt_ext Q(n);
    EPS = 1e-7L * n;
    for (int c = 0; c < 2; ++c)
    {
        const int bad = ctx.pick(std::vector<int> {0, 1, n / 2, n - 2, n - 1, n}, "bad pivot"), mode = ctx.choose(3, "mode");
        const double by = bad == n ? 0 : ctx.pick(std::vector<double> {.01, 1, 8}, "by");
        Arr A = Arr::from_shape({(size_t)n, (size_t)n});
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                A(i, j) = kind == 0 ? (i == j ? 2.5 : abs(i - j) == 1 ? -1 : 0) : kind == 1 ? (i == j ? 1 + n * (i == n - 1) : i == n - 1 || j == n - 1 ? .5 : 0)
                    : (i == j ? n : ((i * 5 + j * 5 + i * j) % 7 - 3) * .25);
        if (bad < n)
        {
            // the pivot there becomes -by
            LMat L = lm(A);
            for (int k = 0; k < bad; ++k)
                for (int i = k + 1; i < n; ++i)
                {
                    const LD f = L(i, k) / L(k, k);
                    for (int j = k; j < n; ++j) L(i, j) -= f * L(k, j);
                }
            A(bad, bad) -= (double)(L(bad, bad) + by);
        }
        decide(ctx, Q, A, mode, c ? "large, second use" : "large");
    }
}
static void history(Ctx& ctx, int n, int len, int num)
{
    std::vector<Arr> M;
    const std::vector<double> vals {-1, 0, 1, 2, 3};
    for (int k = 0; k < num; ++k)
    {
        Arr A = symOf(n, 1 + 7919 * (k + 1), vals);
        if (k % 3 == 0)
            for (int i = 0; i < n; ++i) A(i, i) = 4 + i;
        if (k % 5 == 1) A(0, 0) = 0;
        if (k % 7 == 2)
            for (int i = 0; i < n; ++i) A(n - 1, i) = A(i, n - 1) = 0;
        M.push_back(A);
    }
    ldlt_ext Q(n);
    for (int k = 0; k < len; ++k)
    {
        const Arr& A = ctx.pick(M, "matrix");
        const int mode = ctx.choose(2, "mode") * 2;
        decide(ctx, Q, A, mode, "history");
        ldlt_ext F(n);
        auto get = [&](size_t i, size_t j) { return A(i, j); };
        const bool r = mode ? F.factor<decltype(get)&, true>(get) : F.factorize(A);
        ctx.MUST(r == Q.is_spd() && F.p == Q.p, "a used object decides %s differently from a fresh one", showM(A).c_str());
        if (!r) ctx.MUST(F.witness() == Q.witness(), "a used object has a different witness for %s", showM(A).c_str());
    }
}
int main(int argc, char** argv)
{
    mc::add("n=1", 1, "entries -2..3 step .5", [](Ctx& c) { single(c, 1, {-2, -1.5, -1, -.5, 0, .5, 1, 1.5, 2, 3}); });
    mc::add("n=2", 2, "all symmetric matrices with entries -2..4", [](Ctx& c) { single(c, 2, {-2, -1, 0, 1, 2, 3, 4}); });
    mc::add("n=3", 4, "all symmetric matrices with entries -1..3", [](Ctx& c) { single(c, 3, {-1, 0, 1, 2, 3}); });
    mc::add("n=4", 5, "all symmetric matrices with entries 0,1,-2", [](Ctx& c) { single(c, 4, {0, 1, -2}); });
    mc::add("n=4 more", 5, "all symmetric matrices with entries -1,0,1,2", [](Ctx& c) { single(c, 4, {-1, 0, 1, 2}); });
    mc::add("n=4 definite", 5, "all symmetric matrices with entries .5,2,-.25", [](Ctx& c) { single(c, 4, {2, .5, -.25}); });
    mc::add("n=2 nearly singular", 4, "3 units x pivots 1, 2, +-2^-40, +-2^-30, 0, -1 x factors -1, 0, 1", [](Ctx& c) { nearSingular(c, 2); });
    mc::add("n=3 nearly singular", 4, "3 units x pivots (1, 2^-40, 0)^2 and any last one x factors -1, 0, 1", [](Ctx& c) { nearSingular(c, 3); });
    mc::add("n=4 nearly singular", 4, "3 units x pivots (1, 2^-40, 0)^3 and any last one x factors -1, 0, 1", [](Ctx& c) { nearSingular(c, 4); });
    mc::add("large", 3, "n = 9, 16, 17, 24, 33, 65, 97, 130: band, arrow or full x (failing pivot x by how much x mode)^2, one object", large);
    mc::add("n=3 histories", 4, "every sequence of 3 factorisations of 14 matrices in both modes", [](Ctx& c) { history(c, 3, 3, 14); });
    mc::add("n=5 histories", 4, "every sequence of 2 factorisations of 60 matrices in both modes", [](Ctx& c) { history(c, 5, 2, 60); });
    mc::add("n=8 histories", 4, "every sequence of 2 factorisations of 40 matrices in both modes", [](Ctx& c) { history(c, 8, 2, 40); });
    return mc::main(argc, argv);
}
#endif

#if PROP == 13 || PROP == 14
static std::vector<std::vector<double>> grid(int k)
{
    std::vector<std::vector<double>> r;
    if (k == 1)
        for (double a : {-2., -1., -.5, 0., .25, .5, 1., 1.5, 3.}) r.push_back({a});
    else if (k == 2)
        for (double a : {-1., -.5, 0., .5, 1., 2.})
            for (double b : {-1.5, -.5, 0., .25, 1.}) r.push_back({a, b});
    else if (k == 3)
    {
        for (double a : {-1., 0., .5})
            for (double b : {-.5, 0., 1.})
                for (double c : {-1., 0., .25}) r.push_back({a, b, c});
    }
    else
        for (double a : {0., .25, 1.})
            for (int i = 0; i < k; ++i)
                for (double s : {1., -1.})
                {
                    r.push_back(std::vector<double>(k, a * s / 4));
                    r.back()[i] = a * s;
                }
    return r;
}
#endif

#if PROP == 13
// ----------------------------------------------------------- LMI oracles
static LMat lin(const std::vector<Arr>& F, const Arr* F0, const std::vector<double>& x)
{
    const int n = (int)F[0].shape()[0];
    LMat r(n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            LD s = 0;
            for (size_t k = 0; k < x.size(); ++k) s += (LD)F[k](i, j) * x[k];
            r(i, j) = F0 ? (*F0)(i, j) - s : s;
        }
    return r;
}
//! where the factorisation proves that the matrix is not definite, the cut is
//! (a multiple of) the value and gradient of the quadratic form of its witness
static void form(Ctx& ctx, const char* what, const LMat& A, const std::vector<Arr>& F, const Arr* F0, const Arr& g, double b)
{
    const int n = A.n;
    Arr D = Arr::from_shape({(size_t)n, (size_t)n});
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            D(i, j) = (double)A(i, j);
            if ((LD)D(i, j) != A(i, j)) return;
        }
    ldlt_ext Q(n);
    if (F0 ? Q.factorize(D) : Q.factor([&](size_t i, size_t j) { return D(i, j); })) return;
    Q.witness();
    for (double v : Q.v) if (!(fabs(v) < 1e4)) return; // a pivot that is rounding error
    auto quad = [&](auto&& at) {
        LD r = 0;
        for (size_t i = Q.p.first; i < Q.p.second; ++i)
            for (size_t j = Q.p.first; j < Q.p.second; ++j) r += (LD)Q.v(i) * Q.v(j) * at(i, j);
        return r;
    };
    std::vector<LD> want {-quad([&](int i, int j) { return A(i, j); })}, got {b};
    LD sc = 0, sg = 0;
    for (size_t k = 0; k < F.size(); ++k)
    {
        want.push_back((F0 ? 1 : -1) * quad([&](int i, int j) { return (LD)F[k](i, j); }));
        got.push_back(g(k));
        sc += fabsl(want.back());
        sg += fabsl(g(k));
    }
    // F and x have units of their own: compare beta with the gradient alone
    if (sc == 0) { ctx.MUST(sg == 0, "%s: gradient %s, the form does not change", what, showM(g).c_str()); return; }
    const LD f = sg / sc;
    for (size_t k = 0; k < want.size(); ++k)
        ctx.MUST(fabsl(got[k] - f * want[k]) <= 1e-9L * f * (fabsl(want[k]) + (k ? sc : EPS * 100)), "%s: %s %zu of the cut is %Lg, that of the violated form is %Lg (times %Lg)",
            what, k ? "coefficient" : "offset", k, got[k], want[k], f);
}
template <class O>
static std::optional<Cut1> decide(Ctx& ctx, const char* what, O& P, const std::vector<Arr>& F, const Arr* F0,
    const std::vector<double>& x, const std::vector<std::pair<std::vector<double>, bool>>& Z)
{
    const std::optional<Cut1> c = P(toArr(x));
    ctx.step();
    const LMat A = lin(F, F0, x);
    std::string xs;
    for (double v : x) xs += mc::fmt("%g ", v);
    ctx.LOG("%s at (%s) -> %s", what, xs.c_str(), c ? mc::fmt("cut g=%s beta=%g", showM(std::get<0>(*c)).c_str(), std::get<1>(*c)).c_str() : "feasible");
    if (surelyPD(A)) ctx.MUST(!c, "%s: the matrix at x=(%s) is positive definite, but a cut is returned", what, xs.c_str());
    if (surelyNotPD(A)) ctx.MUST(bool(c), "%s: the matrix at x=(%s) is not positive definite, but x is accepted", what, xs.c_str());
    if (!c) { ctx.state(1); return c; }
    const Arr& g = std::get<0>(*c);
    const double b = std::get<1>(*c);
    ctx.state(mc::mix(mc::hdbl(b), mc::hstr(showM(g))));
    ctx.MUST(g.size() == x.size(), "%s: gradient of size %zu", what, (size_t)g.size());
    ctx.MUST(std::isfinite(b) && b >= 0, "%s: offset %g at x=(%s)", what, b, xs.c_str());
    LD gn = 0;
    for (double v : g) gn += fabsl(v);
    ctx.MUST(gn == gn, "%s: gradient %s", what, showM(g).c_str());
    form(ctx, what, A, F, F0, g, b);
    for (const auto& z : Z)
    {
        if (!z.second) continue;
        LD s = b, sc = fabsl(b);
        for (size_t k = 0; k < x.size(); ++k)
        {
            s += (LD)g(k) * (z.first[k] - x[k]);
            sc += fabsl((LD)g(k) * (z.first[k] - x[k]));
        }
        if (!(s <= 1e-9L * sc + 1e-5L * EPS))
        {
            std::string zs;
            for (double v : z.first) zs += mc::fmt("%g ", v);
            ctx.fail("%s: the cut at x=(%s), g=%s beta=%g, removes the feasible point (%s): %Lg > 0", what, xs.c_str(),
                showM(g).c_str(), b, zs.c_str(), s);
        }
        ctx.ok();
    }
    return c;
}
static void same(Ctx& ctx, const char* what, const std::optional<Cut1>& a, const std::optional<Cut1>& b)
{
    ctx.MUST(bool(a) == bool(b), "%s: one accepts the point, the other cuts it", what);
    if (!a) return;
    const double one = (double)(1e7L * EPS);
    bool eq = fabs(std::get<1>(*a) - std::get<1>(*b)) <= 1e-9 * (one + fabs(std::get<1>(*a)));
    for (size_t k = 0; k < std::get<0>(*a).size(); ++k)
        eq = eq && fabs(std::get<0>(*a)(k) - std::get<0>(*b)(k)) <= 1e-9 * (one + fabs(std::get<0>(*a)(k)));
    ctx.MUST(eq, "%s: different cuts: %s %g and %s %g", what, showM(std::get<0>(*a)).c_str(), std::get<1>(*a),
        showM(std::get<0>(*b)).c_str(), std::get<1>(*b));
}
//! pts: which points; every ordered pair when hist
//! ku: every variable is measured in units of 2^-ku (F grows by 2^ku), all of
//! the matrices are multiplied by 2^ka
static void lmis(Ctx& ctx, std::vector<Arr> F, Arr F0, bool hist, int ku = 0, int ka = 0, int only = -1)
{
    auto X = grid((int)F.size());
    EPS = std::ldexp(1e-7L, ka);
    for (size_t k = 0; k < F.size(); ++k)
    {
        const bool s = only < 0 || (size_t)only == k;
        F[k] *= std::ldexp(1., ka + (s ? ku : 0));
        for (auto& x : X)
            if (s) x[k] = std::ldexp(x[k], -ku);
    }
    F0 *= std::ldexp(1., ka);
    std::vector<std::pair<std::vector<double>, bool>> Z, Z0;
    for (double sc : {1., 3., 10.})
        for (auto z : X)
        {
            for (auto& v : z) v *= sc;
            Z.push_back({z, pd(lin(F, &F0, z), std::ldexp(1e-13L, ka))});
            Z0.push_back({z, pd(lin(F, nullptr, z), std::ldexp(1e-13L, ka))});
        }
    lmi_oracle P(F, Arr(F0)); // (keeps its own copy)
    lmi_old_oracle Po(F, Arr(F0));
    lmi0_oracle P0(F);
    for (int k = 0; k < (hist ? 2 : 1); ++k)
    {
        const auto& x = ctx.pick(X, "x");
        const auto c = decide(ctx, "lmi", P, F, &F0, x, Z);
        const auto co = decide(ctx, "lmi_old", Po, F, &F0, x, Z);
        if (surelyPD(lin(F, &F0, x)) || surelyNotPD(lin(F, &F0, x))) same(ctx, "lmi and lmi_old", c, co);
        const auto c0 = decide(ctx, "lmi0", P0, F, nullptr, x, Z0);
        if (k == 1)
        {
            lmi_oracle Q(F, F0);
            lmi_old_oracle Qo(F, F0);
            lmi0_oracle Q0(F);
            same(ctx, "lmi after another call and fresh", c, Q(toArr(x)));
            same(ctx, "lmi_old after another call and fresh", co, Qo(toArr(x)));
            same(ctx, "lmi0 after another call and fresh", c0, Q0(toArr(x)));
        }
    }
}
//! points at which the matrix has a pivot of +-2^-20, +-2^-40 or zero
static void lmiNear(Ctx& ctx)
{
    EPS = 1e-7L;
    const int m = ctx.range(1, 3, "m"), at = ctx.choose(m, "pivot");
    const double e = ctx.pick(std::vector<double> {1. / (1 << 20), -1. / (1 << 20), 1. / (1LL << 40), -1. / (1LL << 40), 0, -1}, "value");
    const double l = ctx.pick(std::vector<double> {0, 1, -1}, "factor"), x0 = ctx.pick(std::vector<double> {1, -2, .5}, "x");
    Arr T = Arr::from_shape({(size_t)m, (size_t)m}), G = T, H = T;
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < m; ++j)
        {
            double s = 0;
            for (int k = 0; k <= std::min(i, j); ++k) s += (k == i ? 1 : l) * (k == j ? 1 : l) * (k == at ? e : 1);
            T(i, j) = s;
            G(i, j) = i == j ? 1 : .5;
            H(i, j) = i == j ? i : 0;
        }
    const std::vector<double> x {x0, 1};
    // F0 - F x = T and the sum of F x = T
    std::vector<Arr> F {G, H}, Fz {G, H};
    const Arr F0 = T + G * x0 + H;
    Fz[1] = T - G * x0;
    std::vector<std::pair<std::vector<double>, bool>> Z, Z0;
    for (double a : {-3., -1., 0., .5, 1., 2.})
        for (double b : {-3., 0., 1., 4.})
        {
            Z.push_back({{a, b}, pd(lin(F, &F0, {a, b}), 1e-16L)});
            Z0.push_back({{a, b}, pd(lin(Fz, nullptr, {a, b}), 1e-16L)});
        }
    lmi_oracle P(F, Arr(F0)); // (keeps its own copy)
    lmi_old_oracle Po(F, Arr(F0));
    lmi0_oracle P0(Fz);
    decide(ctx, "lmi", P, F, &F0, x, Z);
    decide(ctx, "lmi_old", Po, F, &F0, x, Z);
    decide(ctx, "lmi0", P0, Fz, nullptr, x, Z0);
}
//! larger matrices in more variables
static void lmiLarge(Ctx& ctx, const std::vector<int>& ms, const std::vector<int>& nvs, int calls)
{
    EPS = 1e-6L;
    const int m = ctx.pick(ms, "m"), nv = ctx.pick(nvs, "variables");
    std::vector<Arr> F;
    const int seed = ctx.choose(2, "F");
    for (int k = 0; k < nv; ++k)
    {
        Arr A = Arr::from_shape({(size_t)m, (size_t)m});
        for (int i = 0; i < m; ++i)
            for (int j = 0; j <= i; ++j) A(i, j) = A(j, i) = ((i * (3 + seed) + j * (5 + k) + i * j * (1 + seed % 3) + k) % 5 - 2) * .5;
        F.push_back(A);
    }
    Arr F0 = Arr::from_shape({(size_t)m, (size_t)m});
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < m; ++j) F0(i, j) = i == j ? 2 + i % 3 : abs(i - j) == 1 ? .5 : 0;
    std::vector<std::vector<double>> X;
    for (double r : {0., .05, .2, 1.})
        for (int k = 0; k < nv; ++k)
            for (double s : {1., -1.})
            {
                std::vector<double> x(nv, r * s / 2);
                x[k] = r * s * (1 + k);
                X.push_back(x);
            }
    std::vector<std::pair<std::vector<double>, bool>> Z, Z0;
    for (auto& z : X)
    {
        Z.push_back({z, pd(lin(F, &F0, z), 1e-12L)});
        Z0.push_back({z, pd(lin(F, nullptr, z), 1e-12L)});
    }
    lmi_oracle P(F, Arr(F0)); // (keeps its own copy)
    lmi_old_oracle Po(F, Arr(F0));
    lmi0_oracle P0(F);
    for (int c = 0; c < calls; ++c)
    {
        const auto& x = ctx.pick(X, "x");
        const auto a = decide(ctx, "lmi", P, F, &F0, x, Z);
        const auto b = decide(ctx, "lmi_old", Po, F, &F0, x, Z);
        if (surelyPD(lin(F, &F0, x)) || surelyNotPD(lin(F, &F0, x))) same(ctx, "lmi and lmi_old", a, b);
        decide(ctx, "lmi0", P0, F, nullptr, x, Z0);
    }
}
static Arr pickM(Ctx& ctx, int m, int num)
{
    const std::vector<double> v {-1, 0, 1};
    if (m == 2) return symOf(2, ctx.choose(27, "F"), v);
    const int k = ctx.choose(num, "F");
    return symOf(m, 5 + 104729 * (k + 1) + 13 * k * k, {-1, 0, 1, .5, 2});
}
static Arr pickF0(Ctx& ctx, int m, int num)
{
    const int k = ctx.choose(num, "F0");
    Arr A = symOf(m, 11 + 15485863 * k, {0, .5, -.5, 1});
    for (int i = 0; i < m; ++i) A(i, i) = k == 0 ? 1 : k == 1 ? 1 + i : k == 2 ? 3 - i : k == 3 ? .5 + i * .5 : -.5 + i;
    return A;
}
int main(int argc, char** argv)
{
    mc::add("2x2, one variable", 3, "27 F x 5 F0 x all ordered pairs of 9 points", [](Ctx& c) {
        std::vector<Arr> F {pickM(c, 2, 0)};
        const Arr F0 = pickF0(c, 2, 5);
        lmis(c, F, F0, true);
    });
    mc::add("2x2, two variables", 3, "27^2 F x 5 F0 x 30 points", [](Ctx& c) {
        std::vector<Arr> F;
        F.push_back(pickM(c, 2, 0));
        F.push_back(pickM(c, 2, 0));
        const Arr F0 = pickF0(c, 2, 5);
        lmis(c, F, F0, false);
    });
    mc::add("3x3, two variables, histories", 4, "8^2 F x 3 F0 x all ordered pairs of 30 points", [](Ctx& c) {
        std::vector<Arr> F;
        F.push_back(pickM(c, 3, 8));
        F.push_back(pickM(c, 3, 8));
        const Arr F0 = pickF0(c, 3, 3);
        lmis(c, F, F0, true);
    });
    mc::add("2x2, two variables, units", 4, "8^2 F x 3 F0 x 30 points x one or all variables in units of 2^-30, 2^-14, 2^14, 2^30, or all matrices times 2^-30, 2^30",
        [](Ctx& c) {
            std::vector<Arr> F;
            for (int k = 0; k < 2; ++k) F.push_back(symOf(2, 1 + 3 * c.choose(8, "F"), {-1, 0, 1}));
            const Arr F0 = pickF0(c, 2, 3);
            const int u = c.choose(10, "units");
            const std::vector<int> e {-30, -14, 14, 30};
            if (u < 4) lmis(c, F, F0, false, e[u], 0);
            else if (u < 8) lmis(c, F, F0, false, e[u - 4], 0, 1);
            else lmis(c, F, F0, false, 0, u == 8 ? -30 : 30);
        });
    mc::add("2x2, one variable, units, histories", 4, "27 F x 5 F0 x all ordered pairs of 9 points x the variable in units of 2^-300, 2^-45, 2^45, 2^300", [](Ctx& c) {
        std::vector<Arr> F {pickM(c, 2, 0)};
        const Arr F0 = pickF0(c, 2, 5);
        lmis(c, F, F0, true, c.pick(std::vector<int> {45, -45, 300, -300}, "units"));
    });
    mc::add("2x2, two variables, units, histories", 4, "4^2 F x 2 F0 x all ordered pairs of 30 points x one or both variables in units of 2^-45, 2^45", [](Ctx& c) {
        std::vector<Arr> F;
        for (int k = 0; k < 2; ++k) F.push_back(symOf(2, 1 + 3 * c.choose(4, "F"), {-1, 0, 1}));
        const Arr F0 = pickF0(c, 2, 2);
        const int u = c.pick(std::vector<int> {45, -45}, "units"), o = c.choose(2, "which");
        lmis(c, F, F0, true, u, 0, o ? 1 : -1);
    });
    mc::add("3x3, three variables", 4, "10^3 F x 3 F0 x 27 points", [](Ctx& c) {
        std::vector<Arr> F;
        for (int k = 0; k < 3; ++k) F.push_back(pickM(c, 3, 10));
        const Arr F0 = pickF0(c, 3, 3);
        lmis(c, F, F0, false);
    });
    mc::add("5x5, two variables", 3, "20^2 F x 4 F0 x 30 points", [](Ctx& c) {
        std::vector<Arr> F;
        for (int k = 0; k < 2; ++k) F.push_back(pickM(c, 5, 20));
        const Arr F0 = pickF0(c, 5, 4);
        lmis(c, F, F0, false);
    });
    mc::add("nearly singular", 4, "m 1..3 x a pivot of +-2^-20, +-2^-40, 0 or -1 in each place x 3 factors x 3 points", lmiNear);
    mc::add("large", 3, "m = 6, 9, 12 x 1, 5, 7 variables x 2 F x all ordered pairs of up to 56 points", [](Ctx& c) { lmiLarge(c, {6, 9, 12}, {1, 5, 7}, 2); });
    mc::add("many variables", 3, "m = 2, 3, 8 x 9, 12, 17, 33 variables x 2 F x up to 264 points", [](Ctx& c) { lmiLarge(c, {2, 3, 8}, {9, 12, 17, 33}, 1); });
    mc::add("larger", 3, "m = 17, 20, 33, 40 x 1, 2, 9 variables x 2 F x up to 72 points", [](Ctx& c) { lmiLarge(c, {17, 20, 33, 40}, {1, 2, 9}, 1); });
    mc::add("4x4, three variables, deep", 4, "20^3 F x 4 F0 x all ordered pairs of 27 points", [](Ctx& c) {
        std::vector<Arr> F;
        for (int k = 0; k < 3; ++k) F.push_back(pickM(c, 4, 20));
        const Arr F0 = pickF0(c, 4, 4);
        lmis(c, F, F0, false);
    }, 2);
    return mc::main(argc, argv);
}
#endif

#if PROP == 14
// ------------------------------------------------------------ QMI oracle
//! t I - F(x)'F(x)
static LMat qm(const std::vector<Arr>& F, const Arr& F0, const std::vector<double>& x, double t)
{
    const int r = (int)F0.shape()[0], m = (int)F0.shape()[1];
    std::vector<LD> f(r * m);
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < m; ++j)
        {
            f[i * m + j] = F0(i, j);
            for (size_t k = 0; k < x.size(); ++k) f[i * m + j] -= (LD)F[k](i, j) * x[k];
        }
    LMat A(m);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < m; ++j)
        {
            A(i, j) = i == j ? t : 0;
            for (int k = 0; k < r; ++k) A(i, j) -= f[k * m + i] * f[k * m + j];
        }
    return A;
}
static Arr gen(int r, int m, int k)
{
    const std::vector<double> v {-1, 0, 1, 2, .5};
    std::vector<double> e;
    unsigned s = 2654435761u * (k + 1);
    for (int i = 0; i < r * m; ++i)
    {
        e.push_back(v[(s >> 16) % v.size()]);
        s = s * 1103515245u + 12345u;
    }
    return mat(r, m, e);
}
//! the vector the oracle holds as the reason of its cut, where it can be seen
template <class O>
static auto certificate(O& P, size_t& start, size_t& stop, Arr& v, int) -> decltype(P._Q.p.first, P._Q.v.size(), true)
{
    start = P._Q.p.first;
    stop = P._Q.p.second;
    v = P._Q.v;
    return true;
}
template <class O> static bool certificate(O&, size_t&, size_t&, Arr&, long) { return false; }
//! ku: variables in units of 2^-ku; ka: F0 and F times 2^ka, t times 4^ka
//! bounds: 1 a hair beside whole numbers, 2 zero, negative or tiny
static void qmi(Ctx& ctx, int r, int m, int nx, int nF, int nF0, int steps, int ku = 0, int ka = 0, int bounds = 0)
{
    std::vector<Arr> F;
    for (int k = 0; k < nx; ++k) F.push_back(gen(r, m, ctx.choose(nF, "F") + 17 * k));
    Arr F0 = gen(r, m, 1000 + ctx.choose(nF0, "F0"));
    auto X = grid(nx);
    std::vector<double> T {1., 4., 0.25, 9., 20.};
    EPS = std::ldexp(1e-7L, 2 * ka);
    if (bounds == 2) T = {0., -3., -.25, -100., 1. / 1024};
    else if (bounds == 1)
    {
        T.clear();
        for (double b : {1., 4., 2., 5.})
            for (double e : {0., 1. / (1 << 20), -1. / (1 << 20), 1. / (1LL << 36), -1. / (1LL << 36)}) T.push_back(b + e);
    }
    else if (m > 5)
    {
        T = {30, 200};
        if (nx > 3) X.erase(X.begin(), X.begin() + 2 * nx);
    }
    for (auto& M : F) M *= std::ldexp(1., ku + ka);
    F0 *= std::ldexp(1., ka);
    for (auto& x : X)
        for (auto& v : x) v = std::ldexp(v, -ku);
    for (auto& t : T) t = std::ldexp(t, 2 * ka);
    qmi_oracle P(F, Arr(F0));
    double t = 0.;
    for (int s = 0; s < steps; ++s)
    {
        // in every later step the bound may stay without being set again
        const int it = ctx.choose((int)T.size() + (s > 0), "t");
        const auto& x = ctx.pick(X, "x");
        if (it < (int)T.size()) P.update(t = T[it]);
        const auto c = P(toArr(x));
        ctx.step();
        const LMat A = qm(F, F0, x, t);
        std::string xs;
        for (double v : x) xs += mc::fmt("%g ", v);
        ctx.LOG("t=%g x=(%s) -> %s", t, xs.c_str(), c ? mc::fmt("cut g=%s beta=%g", showM(std::get<0>(*c)).c_str(), std::get<1>(*c)).c_str() : "feasible");
        if (surelyPD(A)) ctx.MUST(!c, "|F(x)|^2 < t=%g at x=(%s), but a cut is returned", t, xs.c_str());
        if (surelyNotPD(A)) ctx.MUST(bool(c), "|F(x)|^2 > t=%g at x=(%s), but x is accepted", t, xs.c_str());
        if (s > 0)
        {
            qmi_oracle Q(F, F0);
            Q.update(t);
            const auto d = Q(toArr(x));
            ctx.MUST(bool(c) == bool(d), "the answer depends on earlier calls");
            if (c)
                ctx.MUST(std::get<1>(*c) == std::get<1>(*d) && std::get<0>(*c) == std::get<0>(*d), "the cut depends on earlier calls");
        }
        if (!c) { ctx.state(1); continue; }
        const Arr& g = std::get<0>(*c);
        const double b = std::get<1>(*c);
        ctx.state(mc::mix(mc::hdbl(b), mc::hstr(showM(g))));
        ctx.MUST((int)g.size() == nx && std::isfinite(b) && b >= 0, "offset %g", b);
        for (double sc : {1., 3.})
            for (auto z : X)
            {
                for (auto& v : z) v *= sc;
                if (!pd(qm(F, F0, z, t), 1e-6L * EPS)) continue;
                LD q = b, m2 = fabsl(b);
                for (int k = 0; k < nx; ++k)
                {
                    q += (LD)g(k) * (z[k] - x[k]);
                    m2 += fabsl((LD)g(k) * (z[k] - x[k]));
                }
                std::string zs;
                for (double v : z) zs += mc::fmt("%g ", v);
                ctx.MUST(q <= 1e-9L * m2 + 1e-5L * EPS, "t=%g: the cut at x=(%s), g=%s beta=%g, removes (%s), where |F|^2 <= t: %Lg > 0", t,
                    xs.c_str(), showM(g).c_str(), b, zs.c_str(), q);
            }
        // the cut is the linearisation of v'(F'F - t)v: its value at x and its slope fit some v
        // of norm >= 1 -- a shorter gradient would be valid but a wrong one shows along x +- h
        // g(k) must equal the derivative of v' F(x)'F(x) v for the oracle's own v
        size_t start = 0, stop = 0;
        Arr wv;
        if (!certificate(P, start, stop, wv, 0)) continue;
        LD quad = 0;
        std::vector<LD> Fv(r, 0.0L);
        for (int i = 0; i < r; ++i)
            for (size_t j = start; j < stop; ++j)
            {
                LD f = F0(i, j);
                for (int k = 0; k < nx; ++k) f -= (LD)F[k](i, j) * x[k];
                Fv[i] += f * wv(j);
            }
        for (int i = 0; i < r; ++i) quad += Fv[i] * Fv[i];
        LD vv = 0;
        for (size_t j = start; j < stop; ++j) vv += (LD)wv(j) * wv(j);
        ctx.MUST(fabsl(quad - t * vv - b) <= 1e-8L * (1e7L * EPS + quad + fabsl(t * vv)), "offset %g, v'(F'F - t)v = %Lg", b, quad - t * vv);
        for (int k = 0; k < nx; ++k)
        {
            LD d = 0, ab = 0;
            for (int i = 0; i < r; ++i)
            {
                LD fk = 0;
                for (size_t j = start; j < stop; ++j) fk += (LD)F[k](i, j) * wv(j);
                d -= 2 * fk * Fv[i];
                ab += fabsl(fk * Fv[i]);
            }
            ctx.MUST(fabsl(d - g(k)) <= 1e-8L * (1e7L * EPS + ab), "g(%d) = %g, derivative of the certificate %Lg", k, g(k), d);
        }
    }
}
int main(int argc, char** argv)
{
    auto sc = [](int r, int m, int nx, int nF, int nF0, int steps, int tier) {
        mc::add(mc::fmt("%dx%d, %d variables, %d calls%s", r, m, nx, steps, tier == 2 ? ", deep" : ""), 3,
            mc::fmt("%d^%d F x %d F0 x (5 t x every point)^%d", nF, nx, nF0, steps),
            [=](Ctx& c) { qmi(c, r, m, nx, nF, nF0, steps); }, tier);
    };
    mc::add("2x2, one variable, units", 3, "6 F x 4 F0 x 5 t x 9 points x units of x 2^-300, 2^-30, 2^30, 2^300, of F 2^-150, 2^-20, 2^20, 2^150", [](Ctx& c) {
        const int u = c.choose(8, "units");
        qmi(c, 2, 2, 1, 6, 4, 1, u == 0 ? -30 : u == 1 ? 30 : u == 2 ? -300 : u == 3 ? 300 : 0, u == 4 ? -20 : u == 5 ? 20 : u == 6 ? -150 : u == 7 ? 150 : 0);
    });
    mc::add("2 and 3 variables, units, two calls", 3, "2x2 and 3x2, 2 F each x 2 F0 x (5 t x every point)^2 x units of x 2^-45, 2^45", [](Ctx& c) {
        const int u = c.choose(4, "units");
        qmi(c, u / 2 ? 3 : 2, 2, u / 2 ? 2 : 1, u / 2 ? 1 : 3, 2, 2, u % 2 ? 45 : -45);
    });
    mc::add("a hair beside the bound", 3, "1x1 to 2x2, 6 F x 4 F0 x 20 t at, 2^-20 and 2^-36 beside whole numbers x 9 points", [](Ctx& c) {
        const int k = c.choose(4, "size");
        qmi(c, 1 + k % 2, 1 + k / 2, 1, 6, 4, 1, 0, 0, 1);
    });
    mc::add("bounds not above zero", 3, "1x1 to 3x3, 6 F x 4 F0 x (t = 0, -3, -1/4, -100, 1/1024 x 9 points)^2", [](Ctx& c) {
        const int k = c.choose(9, "size");
        qmi(c, 1 + k % 3, 1 + k / 3, 1, 6, 4, 2, 0, 0, 2);
    });
    for (int k = 0; k < 4; ++k)
        mc::add(mc::fmt("large %d", k), 3, "12x7, 7x12, 9x9, 6x6 matrices in 5 or 1 variables, 2 calls", [=](Ctx& c) {
            const int r[] {12, 7, 9, 6}, m[] {7, 12, 9, 6};
            qmi(c, r[k], m[k], k == 3 ? 1 : 5, k == 3 ? 6 : 1, k == 3 ? 3 : 2, 2);
        });
    mc::add("2x2, three calls", 3, "3 F x 2 F0 x (t, x)^3, t set or left", [](Ctx& c) { qmi(c, 2, 2, 1, 3, 2, 3); });
    sc(2, 2, 1, 10, 5, 2, 1);
    sc(2, 2, 2, 14, 8, 1, 1);
    sc(3, 2, 2, 12, 8, 1, 1);
    sc(2, 3, 2, 12, 8, 1, 1);
    sc(3, 3, 2, 12, 8, 1, 1);
    sc(1, 3, 1, 10, 5, 2, 1);
    sc(3, 1, 1, 10, 5, 2, 1);
    sc(4, 4, 3, 6, 4, 1, 1);
    sc(3, 3, 2, 4, 2, 2, 1);
    sc(2, 2, 1, 60, 20, 2, 2);
    sc(2, 2, 2, 40, 10, 1, 2);
    sc(3, 2, 2, 30, 10, 1, 2);
    sc(2, 3, 2, 30, 10, 1, 2);
    sc(1, 3, 1, 40, 10, 2, 2);
    sc(3, 1, 1, 40, 10, 2, 2);
    sc(4, 4, 3, 9, 5, 1, 2);
    sc(3, 3, 2, 8, 4, 2, 2);
    sc(2, 4, 3, 14, 6, 1, 2);
    sc(3, 3, 3, 20, 8, 1, 2);
    return mc::main(argc, argv);
}
#endif

#if PROP == 15
// -------------------------------------------- correlation fitting oracles
static Arr ymat(int n, int k)
{
    Arr A = Arr::from_shape({(size_t)n, (size_t)n});
    for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j)
            A(i, j) = A(j, i) = i == j ? 1.5 + 0.5 * ((k + i) % 4) : (((k * 5 + i * 3 + j) % 5) - 1) * 0.3;
    return A;
}
//! the 0th to (m-1)st powers of the distances between the sites
static std::vector<Arr> powers(const Arr& s, int m)
{
    const size_t n = s.shape()[0], d = s.shape()[1];
    std::vector<Arr> F;
    for (int k = 0; k < m; ++k)
    {
        Arr A = Arr::from_shape({n, n});
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
            {
                LD q = 0;
                for (size_t c = 0; c < d; ++c) q += ((LD)s(i, c) - s(j, c)) * ((LD)s(i, c) - s(j, c));
                A(i, j) = (double)powl(sqrtl(q), k);
            }
        F.push_back(A);
    }
    return F;
}
static std::vector<Arr> basis(int n, int m, int k)
{
    // sites on a line, spaced unevenly
    Arr s = Arr::from_shape({(size_t)n, 2});
    for (int i = 0; i < n; ++i)
    {
        s(i, 0) = i * (0.5 + 0.25 * (k % 3)) + (k == 2 ? i * i * 0.2 : 0);
        s(i, 1) = (k / 2) * 0.3 * i;
    }
    return powers(s, m);
}
static LMat omega(const std::vector<Arr>& F, const std::vector<double>& p)
{
    const int n = (int)F[0].shape()[0];
    LMat A(n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            for (size_t k = 0; k < F.size(); ++k) A(i, j) += (LD)F[k](i, j) * p[k];
    return A;
}
static LMat resid(const std::vector<Arr>& F, const Arr& Y, const std::vector<double>& p, double t)
{
    LMat O = omega(F, p), A(O.n);
    for (int i = 0; i < O.n; ++i)
        for (int j = 0; j < O.n; ++j) O(i, j) = Y(i, j) - O(i, j);
    for (int i = 0; i < O.n; ++i)
        for (int j = 0; j < O.n; ++j)
        {
            A(i, j) = i == j ? t : 0;
            for (int k = 0; k < O.n; ++k) A(i, j) -= O(k, i) * O(k, j);
        }
    return A;
}
static std::vector<std::vector<double>> pgrid(int m)
{
    std::vector<std::vector<double>> r;
    for (double a : {0.5, 1., 2., 3., -1., 6.})
        for (double b : {0., -.5, .3, -1.5})
        {
            if (m == 1) { if (b == 0) r.push_back({a}); }
            else if (m == 2) r.push_back({a, b});
            else if (m == 3)
                for (double c : {0., .2, -.1}) r.push_back({a, b, c});
            else
                for (double c : {0., .05})
                {
                    std::vector<double> p(m, 0.);
                    p[0] = a;
                    p[1] = b;
                    for (int i = 2; i < m; ++i) p[i] = c * (i % 2 ? -1 : 1) / i;
                    r.push_back(p);
                }
        }
    return r;
}
//! many sites: data close to a covariance that the basis can represent, and
//! points near it
static void manySites(const std::vector<Arr>& F, Arr& Y, std::vector<std::vector<double>>& X)
{
    const int n = (int)Y.shape()[0], m = (int)F.size();
    if (n < 12) return;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) Y(i, j) = .1 * Y(i, j) + 3 * F[0](i, j) - .15 * F[1](i, j) + (i == j ? .5 : 0);
    X.resize(X.size() / 4);
    for (double a : {1., .9, 1.2, 1.02})
        for (double c : {0., 1e-4, -1e-4, 2e-3})
        {
            std::vector<double> p(m, 0.);
            p[0] = 3 * a;
            p[1] = -.15 * (2 - a);
            p[m - 1] += c;
            X.push_back(p);
        }
}
static LD CUT0 = 1e-11L; //!< rounding of a cut that is zero
static void checkCut(Ctx& ctx, const Arr& g, double b, const std::vector<double>& x, const std::vector<double>& z, const char* why)
{
    LD q = b, m2 = fabsl(b);
    for (size_t k = 0; k < x.size(); ++k)
    {
        q += (LD)g(k) * (z[k] - x[k]);
        m2 += fabsl((LD)g(k) * (z[k] - x[k]));
    }
    if (q <= 1e-8L * m2 + CUT0) { ctx.ok(); return; }
    std::string xs, zs;
    for (double v : x) xs += mc::fmt("%g ", v);
    for (double v : z) zs += mc::fmt("%g ", v);
    ctx.fail("the cut at x=(%s), g=%s beta=%g, removes (%s), %s: %Lg > 0", xs.c_str(), showM(g).c_str(), b, zs.c_str(), why, q);
}
//! ku: the data in units of 2^-ku
static void lsq(Ctx& ctx, int n, int m, int steps, bool close = false, int ku = 0)
{
    const auto F = basis(n, m, ctx.choose(3, "sites"));
    Arr Y = ymat(n, ctx.choose(4, "Y"));
    auto X = pgrid(m);
    std::vector<double> T {0.5, 2., 8., 100., -1.};
    std::vector<double> best {1e100, 4., 1.};
    manySites(F, Y, X);
    const LD u = std::ldexp(1., ku), eps = 1e-7L;
    Y *= (double)u;
    for (auto& x : X)
        for (auto& v : x) v *= u;
    for (auto& v : T) v *= u * u;
    for (auto& v : best) v *= u * u;
    CUT0 = 1e-11L * std::max(u, u * u);
    lsq_oracle P(F, Y);
    double t = close ? 0 : ctx.pick(best, "t");
    for (int s = 0; s < steps; ++s)
    {
        auto x = ctx.pick(X, "p");
        x.push_back(ctx.pick(T, "tau"));
        const double tau = x.back();
        if (close) t = tau * (1 + ctx.pick(std::vector<double> {-1e-6, -1e-10, -1e-14, 1e-14, 1e-10, 1e-6}, "margin"));
        std::vector<double> p(x.begin(), x.end() - 1);
        const double t0 = t;
        const auto [cut, shrunk] = P(toArr(x), t);
        ctx.step();
        const auto& [g, b] = cut;
        ctx.LOG("p0=%g p1=%g tau=%g t=%g -> g=%s beta=%g shrunk=%d t=%g", p[0], m > 1 ? p[1] : 0, tau, t0, showM(g).c_str(), b, shrunk, t);
        ctx.state(mc::mix(mc::hdbl(b), mc::hstr(showM(g))));
        const LMat O = omega(F, p), R = resid(F, Y, p, tau);
        EPS = eps * u;
        const bool okO = surelyPD(O), noO = surelyNotPD(O);
        EPS = eps * u * u;
        const bool feas = okO && surelyPD(R), infeas = noO || surelyNotPD(R);
        if (feas && tau < t0) ctx.MUST(shrunk, "feasible with value %g < %g, but not taken", tau, t0);
        if (infeas || tau > t0) ctx.MUST(!shrunk, "taken although it is %s", infeas ? "infeasible" : "no better");
        ctx.MUST(t == (shrunk ? tau : t0), "t=%g after value %g (shrunk=%d), before %g", t, tau, shrunk, t0);
        ctx.MUST(g.size() == x.size() && std::isfinite(b) && b >= 0, "offset %g", b);
        for (double sc : {1., 1.3})
            for (auto z : X)
            {
                for (auto& v : z) v *= sc;
                const bool ok0 = pd(omega(F, z), 1e-13L * u);
                if (!ok0) continue;
                for (double w : {0.1, 0.5, 2., 3., 8., 50.})
                {
                    w *= u * u;
                    if (w > t) continue;
                    if (!pd(resid(F, Y, z, w), 1e-13L * u * u)) continue;
                    auto y = z;
                    y.push_back(w);
                    checkCut(ctx, g, b, x, y, "which is feasible and not worse than t");
                }
            }
    }
}
static LMat inv(const LMat& A)
{
    LMat L, R(A.n);
    chol(A, L);
    for (int j = 0; j < A.n; ++j)
    {
        LVec e(A.n, 0.0L);
        e[j] = 1;
        e = fwd(L, e);
        for (int i = A.n - 1; i >= 0; --i)
        {
            for (int k = i + 1; k < A.n; ++k) e[i] -= L(k, i) * e[k];
            e[i] /= L(i, i);
        }
        for (int i = 0; i < A.n; ++i) R(i, j) = e[i];
    }
    return R;
}
static LMat mm(const LMat& A, const LMat& B)
{
    LMat R(A.n);
    for (int i = 0; i < A.n; ++i)
        for (int j = 0; j < A.n; ++j)
            for (int k = 0; k < A.n; ++k) R(i, j) += A(i, k) * B(k, j);
    return R;
}
static LD mleValue(const LMat& O, const LMat& Y)
{
    LMat L;
    chol(O, L);
    const LMat S = mm(inv(O), Y);
    LD s = logdet(L);
    for (int i = 0; i < O.n; ++i) s += S(i, i);
    return s;
}
static const LD GAP = 3e-4L;  //!< accuracy of the fits
static const LD TLX = 1e-11L; //!< rounding of a log-likelihood of order one
static void mle(Ctx& ctx, int n, int m, int steps, bool close = false, int ku = 0)
{
    const auto F = basis(n, m, ctx.choose(3, "sites"));
    Arr Y = ymat(n, ctx.choose(4, "Y"));
    auto X = pgrid(m);
    manySites(F, Y, X);
    const LD u = std::ldexp(1., ku);
    Y *= (double)u;
    for (auto& x : X)
        for (auto& v : x) v *= u;
    const LMat YL = lm(Y);
    const double sh = n * ku * std::log(2.); // what the units add to a log-likelihood
    const std::vector<double> best {1e100, 6. + sh, 3. + sh};
    EPS = 1e-7L * u;
    CUT0 = 1e-11L * std::max(u, LD(1));
    mle_oracle P(F, Y);
    double t = close ? 0 : ctx.pick(best, "t");
    for (int s = 0; s < steps; ++s)
    {
        const auto& x = ctx.pick(X, "p");
        const LMat O = omega(F, x);
        if (close)
        {
            if (!surelyPD(O)) ctx.prune();
            const LD f = mleValue(O, YL);
            t = (double)(f + (1 + fabsl(f)) * ctx.pick(std::vector<double> {-1e-6, -1e-8, -1e-10, 1e-10, 1e-8, 1e-6}, "margin"));
        }
        const double t0 = t;
        const auto [cut, shrunk] = P(toArr(x), t);
        ctx.step();
        const auto& [g, b] = cut;
        ctx.LOG("p0=%g p1=%g t=%g -> g=%s beta=%g shrunk=%d t=%g", x[0], m > 1 ? x[1] : 0, t0, showM(g).c_str(), b, shrunk, t);
        ctx.state(mc::mix(mc::hdbl(b), mc::hstr(showM(g))));
        auto upper = [&](const LMat& W) {
            LMat U(W.n);
            for (int i = 0; i < W.n; ++i)
                for (int j = 0; j < W.n; ++j) U(i, j) = 2 * YL(i, j) - W(i, j);
            return U;
        };
        const LMat U = upper(O);
        const bool feas = surelyPD(O) && surelyPD(U), infeas = surelyNotPD(O) || surelyNotPD(U);
        ctx.MUST(g.size() == x.size() && std::isfinite(b), "offset %g", b);
        if (infeas)
            ctx.MUST(!shrunk && t == t0 && b >= 0, "infeasible point: shrunk=%d t=%g beta=%g", shrunk, t, b);
        if (feas)
        {
            const LD f = mleValue(O, YL);
            const LD tl = TLX * (1 + fabsl(f));
            if (f < t0 - tl)
            {
                ctx.MUST(shrunk && fabsl(t - f) <= tl, "value %Lg < %g: shrunk=%d t=%g", f, t0, shrunk, t);
                ctx.MUST(fabs(b) <= 1e-12, "cut through the new best point has offset %g", b);
            }
            if (f > t0 + tl)
                ctx.MUST(!shrunk && t == t0 && fabsl(b - (f - t0)) <= tl, "value %Lg > %g: shrunk=%d t=%g beta=%g", f, t0, shrunk, t, b);
            // gradient of log det W + tr(W^-1 Y)
            const LMat S = inv(O), SY = mm(S, YL);
            for (int k = 0; k < m; ++k)
            {
                LMat SF = mm(S, lm(F[k])), Q = mm(SF, SY);
                LD d = 0, sc = 1 / u;
                for (int i = 0; i < n; ++i) { d += SF(i, i) - Q(i, i); sc += fabsl(SF(i, i)) + fabsl(Q(i, i)); }
                ctx.MUST(fabsl(d - g(k)) <= 1e-7L * sc, "g(%d) = %g, the derivative is %Lg", k, g(k), d);
            }
        }
        // points that satisfy the constraints must survive a constraint cut;
        // where the objective is convex (W <= 2Y) also the value cut
        for (double sc : {1., 0.7})
            for (auto z : X)
            {
                for (auto& v : z) v *= sc;
                const LMat W = omega(F, z);
                if (!pd(W, -1e-9L * u) || !pd(upper(W), -1e-9L * u)) continue;
                if (infeas) checkCut(ctx, g, b, x, z, "which satisfies the constraints");
                else if (feas && mleValue(W, YL) <= t - 1e-9L) checkCut(ctx, g, b, x, z, "which is feasible and better than t");
            }
    }
}
//! the whole fits, against the best point of a fine grid
static void fit(Ctx& ctx, int which, int m)
{
    const int n = m == 1 ? 1 : m == 2 ? ctx.pick(std::vector<int> {2, 3, 5}, "n") : 4, k = ctx.choose(3, "sites");
    const Arr Y = ymat(n, ctx.choose(4, "Y"));
    Arr s = Arr::from_shape({(size_t)n, 2});
    for (int i = 0; i < n; ++i) { s(i, 0) = i * (0.5 + 0.25 * k); s(i, 1) = 0.1 * k * i; }
    const auto F = powers(s, m);
    const LMat YL = lm(Y);
    LD slack = -1e-9L; // candidates are strictly inside, the answer inside up to rounding
    auto inside = [&](const std::vector<double>& p) {
        const LMat O = omega(F, p);
        if (which == 2) return true;
        if (!pd(O, slack)) return false;
        if (which == 0) return true;
        LMat U(n);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) U(i, j) = 2 * YL(i, j) - O(i, j);
        return pd(U, slack);
    };
    auto value = [&](const std::vector<double>& p) -> LD {
        if (!inside(p)) return INFINITY;
        if (which == 1) return mleValue(omega(F, p), YL);
        LD lo = 0, hi = 1000;
        for (int it = 0; it < 60; ++it)
        {
            const LD t = (lo + hi) / 2;
            if (pd(resid(F, Y, p, (double)t), 0)) hi = t; else lo = t;
        }
        return hi;
    };
    const auto [a, niter, feasible] = which == 0 ? lsq_corr_poly2(Y, s, m) : which == 1 ? mle_corr_poly(Y, s, m) : lsq_corr_poly(Y, s, m);
    ctx.step();
    // candidates: a grid, refined around its best points
    std::vector<double> at(m, 0.), bp(m, 0.);
    LD bestv = INFINITY;
    auto better = [&](const std::vector<double>& p) {
        if (!inside(p)) return false;
        if (which != 1 && bestv < 1e30L && !pd(resid(F, Y, p, (double)bestv), 0)) return false;
        const LD w = value(p);
        if (!(w < bestv)) return false;
        bestv = w;
        bp = p;
        return true;
    };
    const double st = m == 3 ? 0.2 : 0.1;
    for (double p0 = 0.1; p0 < 4; p0 += st)
    {
        at[0] = p0;
        if (m == 1) { better(at); continue; }
        for (double p1 = -3; p1 < 2; p1 += st)
        {
            at[1] = p1;
            if (m == 2) { better(at); continue; }
            for (double p2 = -.5; p2 < .6; p2 += .05) { at[2] = p2; better(at); }
        }
    }
    for (double h = st / 2; h > 1e-4; h /= 2)
        for (bool any = true; any;)
        {
            any = false;
            for (int i = 0; i < (int)std::pow(3, m); ++i)
            {
                auto p = bp;
                for (int c = 0, q = i; c < m; ++c, q /= 3) p[c] += (q % 3 - 1) * h;
                any = better(p) || any;
            }
        }
    if (!(bestv < 1e30L)) { ctx.ok(); return; }
    ctx.MUST(feasible, "no fit found, although (%g,..) has value %Lg", bp[0], bestv);
    ctx.MUST(a.size() == (size_t)m, "%zu coefficients", (size_t)a.size());
    const std::vector<double> res(a.begin(), a.end());
    const LD v = [&] { slack = 1e-9L; return value(res); }();
    ctx.LOG("n=%d sites %d: p=(%g,%g) value %Lg after %zu iterations; reference %Lg", n, k, a(0), m > 1 ? a(1) : 0, v, niter, bestv);
    ctx.MUST(v < 1e30L, "the fit (%g,..) violates the constraints", a(0));
    ctx.MUST(v <= bestv + GAP * (1 + fabsl(bestv)), "the fit (%g,..) has value %Lg, (%g,..) has %Lg", a(0), v, bp[0], bestv);
    ctx.state(mc::hdbl((double)v));
}
static void helpers(Ctx& ctx)
{
    const int n = ctx.pick(std::vector<int> {1, 2, 3, 4, 5, 6, 8, 9, 16, 17, 40}, "n"), d = ctx.range(1, 5, "coordinates"), m = ctx.range(1, 6, "m"), k = ctx.choose(9, "sites");
    Arr s = Arr::from_shape({(size_t)n, (size_t)d});
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < d; ++j) s(i, j) = k == 0 ? i : k == 1 ? ((i * 3 + j * 5) % 7) * 1.5 - 4 : k == 2 ? (i / 2) * (j + .25) : k == 3 ? (i * i - j) * 1e-3
            : k == 4 ? 1. + j + ((i + j) % 3) * 1e-7 : k == 5 ? (i * 7 % 5 - 2.) * 1e-12 : k == 6 ? (i % 3 + j) * 1e-25 : k == 7 ? (i - j) * 1e25 : 1e3 * j + (i % 4) * 1e-9;
    const auto F = powers(s, m), G = construct_poly_matrix(s, m);
    const Arr D = construct_distance_matrix(s);
    ctx.step(2);
    ctx.MUST(G.size() == (size_t)m, "%zu basis matrices, expected %d", G.size(), m);
    const auto P = powers(s, 2);
    auto same = [&](const Arr& A, const Arr& B, const char* what, int q) {
        ctx.MUST(A.dimension() == 2 && (int)A.shape()[0] == n && (int)A.shape()[1] == n, "shape of %s %d", what, q);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) ctx.MUST(fabs(A(i, j) - B(i, j)) <= 1e-13 * fabs(B(i, j)), "%s %d (%d,%d) is %.17g, expected %.17g", what, q, i, j, A(i, j), B(i, j));
    };
    same(D, P[1], "distance", 1);
    for (int q = 0; q < m; ++q) same(G[q], F[q], "power of the distance", q);
    ctx.state(mc::mix(mc::mix(n, d), mc::mix(m, k)));
}
int main(int argc, char** argv)
{
    mc::add("helpers", 3, "1..6, 8, 9, 16, 17, 40 sites x 1..5 coordinates x 1..6 powers x 9 layouts, distances from 1e-25 to 1e26", helpers);
    mc::add("lsq n=7 m=5", 3, "3 site sets x 4 Y x 3 t x 48 p x 5 tau", [](Ctx& c) { lsq(c, 7, 5, 1); });
    mc::add("mle n=7 m=5", 3, "3 site sets x 4 Y x 3 t x 48 p", [](Ctx& c) { mle(c, 7, 5, 1); });
    for (int ku : {-30, -10, 10, 30})
    {
        mc::add(mc::fmt("lsq n=3 m=2 units %d", ku), 3, "3 site sets x 4 Y x 3 t x 24 p x 5 tau, data in units of 2^-30 to 2^30", [ku](Ctx& c) { lsq(c, 3, 2, 1, false, ku); });
        mc::add(mc::fmt("mle n=3 m=2 units %d", ku), 3, "3 site sets x 4 Y x 3 t x 24 p, data in units of 2^-30 to 2^30", [ku](Ctx& c) { mle(c, 3, 2, 1, false, ku); });
    }
    for (int n : {12, 17})
    {
        mc::add(mc::fmt("lsq n=%d m=3", n), 3, "3 site sets x 4 Y x 3 t x 34 p x 5 tau", [n](Ctx& c) { lsq(c, n, 3, 1); });
        mc::add(mc::fmt("mle n=%d m=3", n), 3, "3 site sets x 4 Y x 3 t x 34 p", [n](Ctx& c) { mle(c, n, 3, 1); });
    }
    mc::add("mle n=17 m=3 far units", 3, "3 site sets x 4 Y x 3 t x 34 p, data in units of 2^-150, 2^150", [](Ctx& c) { mle(c, 17, 3, 1, false, c.flag("large") ? 150 : -150); });
    mc::add("mle n=5 m=2 far units", 3, "3 site sets x 4 Y x 3 t x 24 p, data in units of 2^-250, 2^250", [](Ctx& c) { mle(c, 5, 2, 1, false, c.flag("large") ? 250 : -250); });
    mc::add("lsq n=1 m=1", 3, "3 site sets x 4 Y x 3 t x (6 p x 5 tau)^2", [](Ctx& c) { lsq(c, 1, 1, 2); });
    mc::add("lsq n=3 m=2", 3, "3 site sets x 4 Y x 3 t x 24 p x 5 tau", [](Ctx& c) { lsq(c, 3, 2, 1); });
    mc::add("lsq n=4 m=3", 3, "3 site sets x 4 Y x 3 t x 72 p x 5 tau", [](Ctx& c) { lsq(c, 4, 3, 1); });
    mc::add("lsq n=3 m=2 twice", 4, "3 site sets x 4 Y x 3 t x (24 p x 5 tau)^2", [](Ctx& c) { lsq(c, 3, 2, 2); }, 2);
    mc::add("mle n=1 m=1", 3, "3 site sets x 4 Y x 3 t x 6 p x 6 p", [](Ctx& c) { mle(c, 1, 1, 2); });
    mc::add("mle n=3 m=2", 3, "3 site sets x 4 Y x 3 t x 24 p x 24 p", [](Ctx& c) { mle(c, 3, 2, 2); });
    mc::add("mle n=4 m=3", 3, "3 site sets x 4 Y x 3 t x 72 p", [](Ctx& c) { mle(c, 4, 3, 1); });
    mc::add("mle n=3 m=3 three calls", 4, "3 site sets x 4 Y x 3 t x 72 p x 72 p", [](Ctx& c) { mle(c, 3, 3, 2); }, 2);
    mc::add("lsq close", 4, "n=3, 3 site sets x 4 Y x 24 p x 5 tau, the best value from 1e-6 to 1e-14 above and below", [](Ctx& c) { lsq(c, 3, 2, 1, true); });
    mc::add("mle close", 4, "n=3, 3 site sets x 4 Y x 24 p, the best value 1e-6, 1e-8, 1e-10 above and below", [](Ctx& c) { mle(c, 3, 2, 1, true); });
    mc::add("fit lsq_corr_poly2 1", 3, "1 coefficient, 1 site x 4 Y", [](Ctx& c) { fit(c, 0, 1); });
    mc::add("fit lsq_corr_poly2 2", 3, "2 coefficients, n 2, 3, 5 x 3 site sets x 4 Y", [](Ctx& c) { fit(c, 0, 2); });
    mc::add("fit lsq_corr_poly2 3", 3, "3 coefficients, n 4, 3 site sets x 4 Y", [](Ctx& c) { fit(c, 0, 3); });
    mc::add("fit mle_corr_poly 2", 3, "2 coefficients, n 2, 3, 5 x 3 site sets x 4 Y", [](Ctx& c) { fit(c, 1, 2); });
    mc::add("fit mle_corr_poly 3", 3, "3 coefficients, n 4, 3 site sets x 4 Y", [](Ctx& c) { fit(c, 1, 3); });
    mc::add("fit lsq_corr_poly 2", 3, "2 coefficients, n 2, 3, 5 x 3 site sets x 4 Y", [](Ctx& c) { fit(c, 2, 2); });
    mc::add("fit lsq_corr_poly 3", 3, "3 coefficients, n 4, 3 site sets x 4 Y", [](Ctx& c) { fit(c, 2, 3); });
    return mc::main(argc, argv);
}
#endif

#if PROP == 26
// ------------------------------------------- site layouts and sample data
static void sites(Ctx& ctx)
{
    const int nx = ctx.range(2, 9, "nx"), ny = ctx.range(2, 9, "ny");
    const Arr s = create_2d_sites(nx, ny);
    ctx.step();
    ctx.MUST(s.dimension() == 2 && (int)s.shape()[0] == nx * ny && s.shape()[1] == 2, "shape of the sites");
    std::set<std::pair<int, int>> seen;
    for (int i = 0; i < nx * ny; ++i)
    {
        const double a = s(i, 0) * (nx - 1) / 10., b = s(i, 1) * (ny - 1) / 8.;
        const int p = (int)lround(a), q = (int)lround(b);
        ctx.MUST(fabs(a - p) < 1e-12 * nx && fabs(b - q) < 1e-12 * ny && 0 <= p && p < nx && 0 <= q && q < ny, "site %d at (%g,%g) is not on the grid", i, s(i, 0), s(i, 1));
        ctx.MUST(seen.insert({p, q}).second, "site %d at (%g,%g) occurs twice", i, s(i, 0), s(i, 1));
    }
    ctx.state(mc::mix(nx, ny));
}
//! the samples are drawn from a seeded generator, so every deviation from the
//! expectation that exceeds six standard deviations is a defect, not chance
static void cov(Ctx& ctx, int lo, int hi, const std::vector<int>& counts)
{
    const int n = ctx.range(lo, hi, "n"), kind = ctx.choose(4, "layout"), N = ctx.pick(counts, "samples");
    Arr s = Arr::from_shape({(size_t)n, 2});
    for (int i = 0; i < n; ++i)
    {
        s(i, 0) = kind == 0 ? i : kind == 1 ? (i % 3) * 2.5 : kind == 2 ? ((i * 5) % 7) - 3 + .1 * i : i * .05;
        s(i, 1) = kind == 0 ? 0 : kind == 1 ? (i / 3) * 4 : kind == 2 ? (i * i) % 5 : -i * .02;
    }
    const Arr Y = create_2d_isotropic(s, N), Z = create_2d_isotropic(s, N);
    ctx.step(2);
    ctx.MUST(Y.dimension() == 2 && (int)Y.shape()[0] == n && (int)Y.shape()[1] == n, "shape of the covariance");
    LMat L = lm(Y);
    LD big = 0;
    for (int i = 0; i < n; ++i) big = std::max(big, L(i, i));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            ctx.MUST(std::isfinite(Y(i, j)) && fabs(Y(i, j) - Y(j, i)) <= 1e-12 * (double)big, "not symmetric at (%d,%d): %.17g, %.17g", i, j, Y(i, j), Y(j, i));
            ctx.MUST(Y(i, j) == Z(i, j), "the same call gives another result at (%d,%d): %.17g, %.17g", i, j, Y(i, j), Z(i, j));
            const LD d = sqrtl(((LD)s(i, 0) - s(j, 0)) * ((LD)s(i, 0) - s(j, 0)) + ((LD)s(i, 1) - s(j, 1)) * ((LD)s(i, 1) - s(j, 1)));
            const LD e = 4 * expl(-0.3L * d), sd = sqrtl((e * e + 16) / N);
            if (N >= 50) ctx.MUST(fabsl(Y(i, j) - e) <= 6 * sd, "entry (%d,%d) is %g, expected %Lg with deviation %Lg", i, j, Y(i, j), e, sd);
        }
    ctx.MUST(pd(L, 1e-10L * big), "the covariance is not positive semidefinite");
    if (N < n)
    { // the rank is at most N: eliminate with the largest diagonal first
        LMat M = L;
        for (int k = 0; k < N; ++k)
        {
            int p = 0;
            for (int i = 1; i < n; ++i) if (M(i, i) > M(p, p)) p = i;
            const LD dd = M(p, p);
            if (dd <= 1e-12L * big) break;
            LMat Q = M;
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j) Q(i, j) -= M(i, p) * M(p, j) / dd;
            M = Q;
        }
        for (int i = 0; i < n; ++i) ctx.MUST(fabsl(M(i, i)) <= 1e-9L * big, "%d samples give rank more than %d", N, N);
    }
    ctx.state(mc::hdbl(Y(0, 0) + 3 * Y(n - 1, 0)));
}
int main(int argc, char** argv)
{
    mc::add("sites", 2, "2..9 x 2..9 sites", sites);
    mc::add("covariance", 3, "1..10 sites x 4 layouts x 1, 2, 3, 7, 50, 400, 3000 samples", [](Ctx& c) { cov(c, 1, c.thorough ? 16 : 10, {1, 2, 3, 7, 50, 400, 3000}); });
    return mc::main(argc, argv);
}
#endif
