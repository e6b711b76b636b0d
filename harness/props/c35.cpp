// C35: BLAS and LAPACK wrappers.
#include "mc.h"
#include <cmath>
#include <complex>
#include <string>
#include <lube/c++blas.h>
#include <lube/c++lapack.h>

namespace
{
    typedef std::complex<float> cf;
    typedef std::complex<double> cd;
    const int G = 3;                         // guard elements each side

    template<class T> struct Name;
    template<> struct Name<float>  { static const char* n() { return "float"; } };
    template<> struct Name<double> { static const char* n() { return "double"; } };
    template<> struct Name<cf>     { static const char* n() { return "cfloat"; } };
    template<> struct Name<cd>     { static const char* n() { return "cdouble"; } };
    template<class T> double eps() { return sizeof(T) == 4 ? 1.2e-7 : 2.3e-16; }

    cd num(float x) { return x; }
    cd num(double x) { return x; }
    cd num(cf x) { return cd(x.real(), x.imag()); }
    cd num(cd x) { return x; }
    cf conj(cf x) { return std::conj(x); }
    cd conj(cd x) { return std::conj(x); }
    float conj(float x) { return x; }
    double conj(double x) { return x; }

    // An exactly sized heap array: beyond the guards is a sanitizer error
    template<class T> struct Buf
    {
        int n; T* p; std::vector<T> want;
        Buf(int n, T fill = T(55)) : n(n), p(new T[n + 2*G]), want(n + 2*G, fill)
        {
            for (int i=0; i<n+2*G; i++) p[i] = i < G || i >= n+G ? T(-77 - i) : fill;
            for (int i=0; i<n+2*G; i++) want[i] = p[i];
        }
        ~Buf() { delete[] p; }
        Buf(const Buf&) = delete;
        operator T*() { return p + G; }
        T& operator[](int i) { return p[G + i]; }
        void set(int i, T x) { p[G + i] = want[G + i] = x; }
        T& expect(int i) { return want[G + i]; }
        std::string str()
        {
            std::string s;
            for (int i=0; i<n; i++)
            {
                char b[80];
                cd x = num(p[G + i]);
                snprintf(b, sizeof b, x.imag() != 0 ? "%s%g%+gi" : "%s%g", i ? "," : "", x.real(), x.imag());
                s += b;
            }
            return "[" + s + "]";
        }
        void check(const char* sig, const std::string& what)
        {
            for (int i=0; i<n+2*G; i++)
            {
                if (p[i] == want[i]) continue;
                cd x = num(p[i]), y = num(want[i]);
                mc::violate(i < G || i >= n+G ? "outside" : sig, "%s: %s: element %d is %g%+gi, should be %g%+gi", what.c_str(), sig,
                            i - G, x.real(), x.imag(), y.real(), y.imag());
            }
        }
        void guards(const std::string& what)
        {
            for (int i=0; i<n+2*G; i++)
                if (i < G || i >= n+G) MC_CHECK(p[i] == want[i], "outside", "%s: writes at element %d of %d", what.c_str(), i - G, n);
        }
    };

    // Small values, all sums and products of which are exact
    template<class T> T value(int k);
    const double reals[] = { 0, 1, -2, 0.5, -1, 3 };
    const cd cplx[] = { 0, cd(0, 1), cd(1, -2), -1.5, cd(-1, 1), 2 };
    template<> float value(int k) { return reals[k]; }
    template<> double value(int k) { return reals[k]; }
    template<> cf value(int k) { return cf(cplx[k].real(), cplx[k].imag()); }
    template<> cd value(int k) { return cplx[k]; }

    template<class T> void fill(Buf<T>& b, int alphabet)
    {
        for (int i=0; i<b.n; i++) b.set(i, value<T>(mc::choose(alphabet)));
    }
    template<class T> std::string call(const char* f, const std::string& args)
    {
        std::string s = std::string(f) + "<" + Name<T>::n() + ">(" + args + ")";
        MC_NOTE("%s", s.c_str());
        mc::step();
        mc::state(s);
        return s;
    }

    // Vectors
    template<class T> void unary(int maxn, int k)
    {
        int n = mc::range(0, maxn), op = mc::choose(4);
        Buf<T> x(n);
        fill(x, k);
        if (op == 0)
        {
            std::string s = call<T>("copy", x.str());
            Buf<T> y(n);
            blas::copy<T>(n, x, y);
            for (int i=0; i<n; i++) y.expect(i) = x[i];
            x.check("input", s);
            y.check("copy", s);
        }
        else if (op == 1)
        {
            T a = value<T>(mc::choose(5));
            Buf<T> av(1); av.set(0, a);
            std::string s = call<T>("scal", av.str() + x.str());
            for (int i=0; i<n; i++) x.expect(i) = a * x[i];
            blas::scal<T>(n, a, x);
            x.check("scal", s);
        }
        else if (op == 2)
        {
            std::string s = call<T>("iamax", x.str());
            int best = -1;
            double big = -1;
            for (int i=0; i<n; i++)
            {
                double m = std::abs(num(x[i]).real()) + std::abs(num(x[i]).imag());
                if (m > big) { big = m; best = i; }
            }
            long r = blas::iamax<T>(n, x);
            MC_CHECK(r == best, "iamax", "%s is %ld, should be %d", s.c_str(), r, best);
            x.check("input", s);
        }
        else if (!std::is_floating_point<T>::value) mc::prune();
        else
        {
            std::string s = call<T>("asum", x.str());
            double want = 0;
            for (int i=0; i<n; i++) want += std::abs(num(x[i]));
            double r = blas::asum<typename std::conditional<std::is_floating_point<T>::value, T, float>::type>(n, (typename std::conditional<std::is_floating_point<T>::value, T, float>::type*)(T*)x);
            MC_CHECK(r == want, "asum", "%s is %g, should be %g", s.c_str(), r, want);
            x.check("input", s);
        }
    }
    template<class T> void binary(int maxn, int k)
    {
        int n = mc::range(0, maxn), op = mc::choose(3);
        Buf<T> x(n), y(n);
        fill(x, k);
        fill(y, k);
        if (op == 0)
        {
            std::string s = call<T>("swap", x.str() + y.str());
            for (int i=0; i<n; i++) { x.expect(i) = y[i]; y.expect(i) = x[i]; }
            blas::swap<T>(n, x, y);
            x.check("swap", s);
            y.check("swap", s);
        }
        else if (op == 1)
        {
            T a = value<T>(mc::choose(5));
            Buf<T> av(1); av.set(0, a);
            std::string s = call<T>("axpy", av.str() + x.str() + y.str());
            for (int i=0; i<n; i++) y.expect(i) = a * x[i] + y[i];
            blas::axpy<T>(n, a, x, y);
            x.check("input", s);
            y.check("axpy", s);
        }
        else
        {
            std::string s = call<T>("dot", x.str() + y.str());
            T want = 0;
            for (int i=0; i<n; i++) want += conj(x[i]) * y[i];
            T r = blas::dot<T>(n, x, y);
            MC_CHECK(r == want, "dot", "%s is %g%+gi, should be %g%+gi", s.c_str(), num(r).real(), num(r).imag(), num(want).real(), num(want).imag());
            x.check("input", s);
            y.check("input", s);
        }
    }
    // Longer vectors: every position is dealt with, whatever the unrolling
    template<class T> void lengths(int maxn)
    {
        int n = mc::range(1, maxn), at = mc::choose(n), op = mc::choose(6);
        Buf<T> x(n, T(1)), y(n, T(2));
        x.set(at, T(-5));
        char b[80];
        snprintf(b, sizeof b, "n=%d at=%d", n, at);
        static const char* const name[] = { "copy", "scal", "iamax", "swap", "axpy", "dot" };
        std::string s = call<T>(name[op], b);
        switch (op)
        {
        case 0: blas::copy<T>(n, x, y); for (int i=0; i<n; i++) y.expect(i) = x[i]; break;
        case 1: for (int i=0; i<n; i++) x.expect(i) = x[i] * T(3); blas::scal<T>(n, T(3), x); break;
        case 2: { long r = blas::iamax<T>(n, x); MC_CHECK(r == at, "iamax", "%s is %ld", s.c_str(), r); } break;
        case 3: for (int i=0; i<n; i++) { x.expect(i) = y[i]; y.expect(i) = x[i]; } blas::swap<T>(n, x, y); break;
        case 4: for (int i=0; i<n; i++) y.expect(i) = T(3) * x[i] + y[i]; blas::axpy<T>(n, T(3), x, y); break;
        case 5: { T r = blas::dot<T>(n, x, y); MC_CHECK(r == T(2 * (n - 1) - 10), "dot", "%s is %g", s.c_str(), num(r).real()); } break;
        }
        x.check(name[op], s);
        y.check(name[op], s);
    }

    // Matrices
    template<class T> void gemm(int maxd, int maxe, int k)
    {
        int m = mc::range(0, maxd), n = mc::range(0, maxd), d = mc::range(0, maxd);
        if (m*d + d*n > maxe) mc::prune();
        Buf<T> a(m*d), b(d*n), c(m*n);
        fill(a, k);
        fill(b, k);
        for (int i=0; i<m*n; i++) c.set(i, i + 1);
        static const double coef[] = { 0, 1, -2 };
        T alpha = mc::pick(coef), beta = mc::pick(coef);
        char buf[80];
        snprintf(buf, sizeof buf, "%d,%d,%d, %g,%g,", m, n, d, (double)alpha, (double)beta);
        std::string s = call<T>("gemm", buf + a.str() + b.str());
        for (int i=0; i<m; i++)
            for (int j=0; j<n; j++)
            {
                T t = 0;
                for (int l=0; l<d; l++) t += a[i*d + l] * b[l*n + j];
                c.expect(i*n + j) = alpha * t + beta * c[i*n + j];
            }
        blas::gemm<T>(m, n, d, alpha, a, b, beta, c);
        a.check("input", s);
        b.check("input", s);
        c.check("gemm", s);
    }
    // Bigger ones: a product of units
    template<class T> void units(int maxd)
    {
        int m = mc::range(1, maxd), n = mc::range(1, maxd), d = mc::range(1, maxd);
        Buf<T> a(m*d, T(1)), b(d*n, T(1)), c(m*n, T(4));
        int i = mc::choose(m), l = mc::choose(d), j = mc::choose(n);
        for (int r=0; r<m; r++) a.set(r*d + l, T(r + 2));
        for (int q=0; q<n; q++) b.set(l*n + q, T(-q - 3));
        char buf[80];
        snprintf(buf, sizeof buf, "%d,%d,%d at %d,%d,%d", m, n, d, i, l, j);
        a.set(i*d + l, T(7));
        b.set(l*n + j, T(11));
        std::string s = call<T>("gemm", buf);
        for (int r=0; r<m; r++)
            for (int q=0; q<n; q++)
            {
                T t = 0;
                for (int e=0; e<d; e++) t += a[r*d + e] * b[e*n + q];
                c.expect(r*n + q) = t;
            }
        blas::gemm<T>(m, n, d, T(1), a, b, T(0), c);
        a.check("input", s);
        b.check("input", s);
        c.check("gemm", s);
    }
    // Row i of the band is A(i,i), A(i,i+1) ... A(i,i+k)
    template<class T> void banded(int maxn, int maxk, int alphabet)
    {
        int n = mc::range(0, maxn), k = mc::range(0, maxk), w = k + 1, sym = mc::choose(2);
        Buf<T> a(n*w), x(n), y(sym ? n : 0);
        for (int i=0; i<n; i++)
            for (int j=0; j<w; j++)
                // Outside the matrix: must not be used
                a.set(i*w + j, i + j < n ? value<T>(mc::choose(alphabet)) : T(1000));
        for (int i=0; i<n; i++) x.set(i, value<T>(mc::choose(alphabet)));
        for (int i=0; i<y.n; i++) y.set(i, i + 1);
        T alpha = 1, beta = 0;
        if (sym) { alpha = value<T>(mc::choose(3)); beta = value<T>(mc::choose(3)); }
        char buf[80];
        snprintf(buf, sizeof buf, "%d,%d, %g,%g,", n, k, (double)alpha, (double)beta);
        std::string s = call<T>(sym ? "sbmv" : "tbmv", buf + a.str() + x.str());
        std::vector<T> r(n);
        for (int i=0; i<n; i++)
            for (int j=i; j<n && j<i+w; j++)
            {
                r[i] += a[i*w + j - i] * x[j];
                if (sym && j > i) r[j] += a[i*w + j - i] * x[i];
            }
        if (sym)
        {
            for (int i=0; i<n; i++) y.expect(i) = alpha * r[i] + beta * y[i];
            blas::sbmv<T>(n, k, alpha, a, x, beta, y);
        }
        else
        {
            for (int i=0; i<n; i++) x.expect(i) = r[i];
            blas::tbmv<T>(n, k, a, x);
        }
        a.check("input", s);
        x.check(sym ? "input" : "tbmv", s);
        y.check("sbmv", s);
    }

    // Eigenvalues.  The characteristic polynomial, by Faddeev-LeVerrier, is
    // exact for integers
    typedef std::vector<double> M;
    std::vector<double> charpoly(const M& a, int n)
    {
        std::vector<double> c(n + 1);
        c[0] = 1;
        M m(n*n, 0);
        for (int k=1; k<=n; k++)
        {
            M t(n*n, 0);
            for (int i=0; i<n; i++)
                for (int j=0; j<n; j++)
                {
                    for (int l=0; l<n; l++) t[i*n+j] += a[i*n+l] * m[l*n+j];
                    if (i == j) t[i*n+j] += c[k-1];
                }
            m = t;
            double tr = 0;
            for (int i=0; i<n; i++)
                for (int l=0; l<n; l++) tr += a[i*n+l] * m[l*n+i];
            c[k] = -tr / k;
        }
        return c;
    }
    double norm(const M& a)
    {
        double s = 0;
        for (double x : a) s += x * x;
        return std::max(1.0, std::sqrt(s));
    }
    template<class T> void eigenvalues(const M& a, int n, Buf<T>& wr, Buf<T>& wi, const std::string& s)
    {
        double tol = eps<T>() * 200 * n;
        std::vector<double> c = charpoly(a, n);
        std::vector<cd> p(1, 1);
        for (int i=0; i<n; i++)
        {
            p.push_back(0);
            for (int j=p.size()-1; j>0; j--) p[j] -= cd(wr[i], wi[i]) * p[j-1];
        }
        double big = norm(a);
        for (int i=0; i<=n; i++)
            MC_CHECK(std::abs(p[i] - c[i]) <= tol * std::pow(big, i), "eigenvalues",
                     "%s: %s + i%s: coefficient %d is %g%+gi, should be %g", s.c_str(), wr.str().c_str(), wi.str().c_str(), i, p[i].real(), p[i].imag(), c[i]);
        // Conjugate pairs are next to each other
        for (int i=0; i<n; i++)
            if (wi[i] != 0)
            {
                MC_CHECK(i + 1 < n && wr[i] == wr[i+1] && wi[i] == -wi[i+1], "pairs", "%s: %s + i%s", s.c_str(), wr.str().c_str(), wi.str().c_str());
                i++;
            }
        wr.guards(s);
        wi.guards(s);
    }
    // Rows of v are right (or left) vectors
    template<class T> void vectors(const M& a, int n, bool left, Buf<T>& wr, Buf<T>& wi, Buf<T>& v, const std::string& s)
    {
        v.guards(s);
        double tol = eps<T>() * 200 * n * norm(a);
        for (int i=0; i<n; i++)
        {
            bool pair = wi[i] != 0;
            std::vector<cd> x(n);
            double len = 0;
            for (int j=0; j<n; j++)
            {
                x[j] = cd(v[i*n+j], pair ? v[(i+1)*n+j] : 0);
                len += std::norm(x[j]);
            }
            MC_CHECK(std::abs(len - 1) <= tol, "length", "%s: %s vector %d has length %g", s.c_str(), left ? "left" : "right", i, std::sqrt(len));
            // Which of the pair it belongs to depends on the convention for
            // the sign
            double best = 1e9;
            for (int sign=-1; sign<=1; sign+=2)
            {
                cd lambda(wr[i], wi[i] * sign);
                double worst = 0;
                for (int j=0; j<n; j++)
                {
                    cd y = 0;
                    for (int k=0; k<n; k++) y += (left ? a[k*n+j] : a[j*n+k]) * x[k];
                    worst = std::max(worst, std::abs(y - lambda * x[j]));
                }
                best = std::min(best, worst);
            }
            MC_CHECK(best <= tol, "vectors", "%s: %s vector %d is not one of %g%+gi: off by %g; vectors %s", s.c_str(), left ? "left" : "right",
                     i, (double)wr[i], (double)wi[i], best, v.str().c_str());
            if (pair) i++;
        }
    }
    template<class T> Buf<T>* optional(bool b, int n) { return b ? new Buf<T>(n) : 0; }
    template<class T> void geev(int lo, int hi, int alphabet)
    {
        int n = mc::range(lo, hi), l = mc::choose(2), r = mc::choose(2);
        Buf<T> a(n*n), wr(n), wi(n);
        M m(n*n);
        static const double val[] = { 0, 1, -2, 3 };
        for (int i=0; i<n*n; i++) a.set(i, m[i] = val[mc::choose(alphabet)]);
        std::string s = call<T>("geev", a.str() + (l ? " left" : "") + (r ? " right" : ""));
        Buf<T> vl(l ? n*n : 0), vr(r ? n*n : 0);
        long ret = lapack::geev<T>(n, a, wr, wi, l ? (T*)vl : 0, r ? (T*)vr : 0);
        MC_CHECK(ret == 0, "status", "%s returns %ld", s.c_str(), ret);
        a.guards(s);
        vl.guards(s);
        vr.guards(s);
        eigenvalues(m, n, wr, wi, s);
        if (l) vectors(m, n, true, wr, wi, vl, s);
        if (r) vectors(m, n, false, wr, wi, vr, s);
    }
    void gees(int lo, int hi, int alphabet)
    {
        typedef float T;
        int n = mc::range(lo, hi), v = mc::choose(2);
        Buf<T> a(n*n), wr(n), wi(n), q(v ? n*n : 0);
        M m(n*n);
        static const double val[] = { 0, 1, -2, 3 };
        for (int i=0; i<n*n; i++) a.set(i, m[i] = val[mc::choose(alphabet)]);
        std::string s = call<T>("gees", a.str() + (v ? " vectors" : ""));
        long ret = v ? lapack::gees<T>(n, a, wr, wi, q) : lapack::gees<T>(n, a, wr, wi);
        MC_CHECK(ret == 0, "status", "%s returns %ld", s.c_str(), ret);
        a.guards(s);
        q.guards(s);
        eigenvalues(m, n, wr, wi, s);
        double tol = eps<T>() * 200 * n * norm(m);
        // Block triangular, with the eigenvalues down the diagonal
        for (int i=0; i<n; i++)
            for (int j=i+1; j<n; j++)
                if (j != i+1 || wi[i] == 0 || (i && wi[i-1] == -wi[i] && wi[i] < 0))
                    MC_CHECK(a[i*n+j] == 0, "triangular", "%s gives %s", s.c_str(), a.str().c_str());
        for (int i=0; i<n; i++)
            MC_CHECK(std::abs(a[i*n+i] - wr[i]) <= tol, "diagonal", "%s gives %s, eigenvalues %s", s.c_str(), a.str().c_str(), wr.str().c_str());
        if (!v) return;
        // Orthogonal, and gives the matrix back
        for (int i=0; i<n; i++)
            for (int j=0; j<n; j++)
            {
                double o = 0, b = 0;
                for (int k=0; k<n; k++)
                {
                    o += q[i*n+k] * q[j*n+k];
                    for (int l=0; l<n; l++) b += (double)q[k*n+i] * a[k*n+l] * q[l*n+j];
                }
                MC_CHECK(std::abs(o - (i == j)) <= tol, "orthogonal", "%s: vectors %s", s.c_str(), q.str().c_str());
                MC_CHECK(std::abs(b - m[i*n+j]) <= tol, "schur", "%s: vectors %s, form %s give %g at %d,%d", s.c_str(), q.str().c_str(), a.str().c_str(), b, i, j);
            }
    }
}

int main(int argc, char** argv)
{
    mc::add("unary", [] {
        bool t = mc::thorough();
        switch (mc::choose(4))
        {
        case 0: unary<float>(t ? 7 : 6, t ? 5 : 4); break;
        case 1: unary<double>(t ? 7 : 6, t ? 5 : 4); break;
        case 2: unary<cf>(t ? 7 : 6, t ? 5 : 4); break;
        case 3: unary<cd>(t ? 7 : 6, t ? 5 : 4); break;
        }
    });
    mc::add("binary", [] {
        bool t = mc::thorough();
        switch (mc::choose(4))
        {
        case 0: binary<float>(t ? 4 : 3, 5); break;
        case 1: binary<double>(t ? 4 : 3, 5); break;
        case 2: binary<cf>(t ? 4 : 3, 5); break;
        case 3: binary<cd>(t ? 4 : 3, 5); break;
        }
    });
    mc::add("lengths", [] {
        int n = mc::thorough() ? 130 : 40;
        switch (mc::choose(4))
        {
        case 0: lengths<float>(n); break;
        case 1: lengths<double>(n); break;
        case 2: lengths<cf>(n); break;
        case 3: lengths<cd>(n); break;
        }
    });
    mc::add("gemm", [] {
        bool t = mc::thorough();
        if (mc::choose(2)) gemm<float>(3, t ? 9 : 8, 3); else gemm<double>(3, t ? 9 : 8, 3);
    });
    mc::add("units", [] { int n = mc::thorough() ? 10 : 6; if (mc::choose(2)) units<float>(n); else units<double>(n); });
    mc::add("banded", [] {
        bool t = mc::thorough();
        if (mc::choose(2)) banded<float>(3, 2, t ? 4 : 3); else banded<double>(3, 2, t ? 4 : 3);
    });
    mc::add("bandwidths", [] {
        if (mc::choose(2)) banded<float>(4, 5, 2); else banded<double>(4, 5, 2);
    });
    mc::add("eigen", [] {
        bool t = mc::thorough();
        switch (mc::choose(3))
        {
        case 0: geev<float>(0, 3, t ? 4 : 3); break;
        case 1: geev<double>(0, 3, t ? 4 : 3); break;
        case 2: gees(0, 3, t ? 4 : 3); break;
        }
    });
    mc::add("eigen4", [] {
        if (!mc::thorough()) { if (mc::choose(2)) geev<double>(4, 4, 2); else gees(4, 4, 2); return; }
        switch (mc::choose(3))
        {
        case 0: geev<float>(4, 4, 2); break;
        case 1: geev<double>(4, 4, 2); break;
        case 2: gees(4, 4, 2); break;
        }
    });
    return mc::run(argc, argv, "C35", "model_checking", {
        "the BLAS and LAPACK library of the sandbox (MKL) is trusted: what is checked is how the wrappers use it",
        "values are such that every sum and product is exact; eigenvalues are compared to within rounding" });
}
