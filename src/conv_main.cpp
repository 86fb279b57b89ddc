// C07: convolution, correlation and the block convolution filter against the defining sums.
#include "isa.hpp"
#include "stream.hpp"
#include <kfr/dft.hpp>
using namespace kfr;

template <typename T>
using refv = std::vector<typename num<T>::ref>;

template <typename T>
static ld norm2(const T* p, size_t n)
{
    ld s = 0;
    for (size_t i = 0; i < n; ++i)
    {
        ld m = num<T>::mag(num<T>::up(p[i]));
        s += m * m;
    }
    return sqrtl(s);
}
template <typename T>
static typename num<T>::ref conv_at(const T* a, size_t na, const T* b, size_t nb, size_t k)
{
    typename num<T>::ref s = 0;
    size_t lo = k + 1 > nb ? k + 1 - nb : 0, hi = std::min(k, na - 1);
    for (size_t i = lo; i <= hi; ++i)
        s += num<T>::up(a[i]) * num<T>::up(b[k - i]);
    return s;
}

enum Op
{
    op_conv,
    op_corr,
    op_auto
};
static const char* op_names[] = { "convolve", "correlate", "autocorrelate" };

template <typename T>
static void one_conv(Op op, size_t na, size_t nb, int sig)
{
    using R = typename num<T>::real;
    if (!begin("%s/%s/%zux%zu/%d", op_names[op], num<T>::name(), na, nb, sig))
        return;
    Rng r = case_rng();
    univector<T> a(na), b(nb);
    make_signal(r, a.data(), na, sig);
    make_signal(r, b.data(), nb, sig / 2);
    if (op == op_auto)
        b = a, nb = na;
    size_t n = na + nb - 1;
    // expected
    std::vector<T> br(nb), bc(nb);
    for (size_t i = 0; i < nb; ++i)
    {
        br[i] = op == op_conv ? b[i] : b[nb - 1 - i];
        bc[i] = br[i];
        if constexpr (!std::is_same_v<T, R>)
            bc[i] = T(br[i].real(), -br[i].imag());
    }
    ld tol = 6 * eps<R>() * (2 + log2l((ld)n)) * norm2(a.data(), na) * norm2(b.data(), nb) + std::numeric_limits<R>::min();
    for (auto& isa : isas())
    {
        select_isa(isa);
        dft_cache::instance().clear();
        univector<T> out;
        if (op == op_conv)
            out = convolve(a, b);
        else if (op == op_corr)
            out = correlate(a, b);
        else
            out = autocorrelate(a);
        size_t off = op == op_auto ? n / 2 : 0;
        if (out.size() != n - off)
            return fail("%s: length %zu, expected %zu", isa.name, out.size(), n - off);
        // the complex correlation may or may not conjugate its second operand, but has to decide
        bool plain = true, conj = op != op_conv;
        size_t at = 0;
        ld worst  = 0;
        for (size_t k = 0; k < out.size(); ++k)
        {
            if (out.size() > 3000 && r.below(out.size()) > 1500)
                continue;
            auto y = num<T>::up(out[k]);
            ld e1  = num<T>::mag(y - conv_at(a.data(), na, br.data(), nb, k + off));
            ld e2  = std::is_same_v<T, R> || !conj ? e1 : num<T>::mag(y - conv_at(a.data(), na, bc.data(), nb, k + off));
            if (!(e1 <= tol))
                plain = false;
            if (!(e2 <= tol))
                conj = false;
            if (!plain && !conj)
            {
                at = k, worst = std::min(e1, e2);
                break;
            }
        }
        if (!plain && !conj)
            return fail("%s: element %zu of %zu is off by %Lg (tolerance %Lg)", isa.name, at, out.size(), worst, tol);
        seen(hash_bytes(isa.name, strlen(isa.name)));
    }
    sample("%s agrees with the direct sum within %.2Lg", cur(), tol);
}

template <typename T>
static void one_filter(size_t nh, size_t block, size_t total, int style, int sig, int form)
{
    using R = typename num<T>::real;
    if (!begin("filter/%s/h%zu/block%zu/n%zu/split%d/sig%d/form%d", num<T>::name(), nh, block, total, style, sig, form))
        return;
    Rng r = case_rng();
    Buf<T> h(nh);
    make_signal(r, h.data(), nh, 0);
    Buf<T> x(total);
    make_signal(r, x.data(), total, sig);
    size_t bp = 1;
    while (bp < block)
        bp *= 2;
    auto calls = split_calls(r, total, style, bp);
    std::vector<cld> ex(total);
    ld tolx = norm2(h.data(), nh) * eps<R>() * 6 * (2 + log2l(2.0L * bp));
    for (size_t i = 0; i < total; ++i)
        ex[i] = conv_at(h.data(), nh, x.data(), total, i);
    ld tol = tolx * norm2(x.data(), total) + std::numeric_limits<R>::min();
    for (auto& isa : isas())
    {
        select_isa(isa);
        std::unique_ptr<convolve_filter<T>> f;
        if (form & 1)
        {
            // impulse response of another length first, the right one later
            size_t n0 = 1 + r.below(3 * bp);
            univector<T> h0(n0, T(1));
            f.reset(new convolve_filter<T>(h0.slice(), block));
            f->set_data(make_univector(h.data(), nh));
        }
        else
            f.reset(new convolve_filter<T>(make_univector(h.data(), nh), block));
        if (f->input_block_size() < 1)
            return fail("block size %zu", f->input_block_size());
        int passes = 1 + (form >> 1 & 1);
        for (int p = 0; p < passes; ++p)
        {
            if (p)
                f->reset();
            Buf<T> y(total);
            size_t pos = 0;
            int k      = 0;
            for (size_t c : calls)
            {
                switch ((form >> 2) % 3)
                {
                case 0:
                    f->apply(y.data() + pos, x.data() + pos, c);
                    break;
                case 1: // in place
                    memcpy((void*)(y.data() + pos), x.data() + pos, c * sizeof(T));
                    f->apply(y.data() + pos, c);
                    break;
                default: // as an expression
                {
                    auto in = make_univector(x.data() + pos, c);
                    f->apply(y.data() + pos, to_handle(in), c);
                }
                }
                pos += c;
                ++k;
            }
            if (!y.intact())
                return fail("%s: wrote outside the output", isa.name);
            for (size_t i = 0; i < total; ++i)
            {
                ld e = std::abs(cld(num<T>::up(y[i])) - ex[i]);
                if (!(e <= tol))
                    return fail("%s: pass %d, output %zu of %zu is off by %Lg (tolerance %Lg)", isa.name, p, i, total, e, tol);
            }
            seen(hash_bytes(isa.name, strlen(isa.name), p));
        }
    }
    sample("%s agrees with the direct sum, %zu calls", cur(), calls.size());
}

template <typename T>
static void all()
{
    Rng r(st().seed * 977 + sizeof(T));
    for (int op = 0; op < 3; ++op)
    {
        for (size_t na = 1; na <= 12; ++na)
            for (size_t nb = 1; nb <= 12; ++nb)
                if (op != op_auto || na == nb)
                    one_conv<T>((Op)op, na, nb, (na * 5 + nb) % 12);
        int n = thorough() ? 700 : 90;
        for (int i = 0; i < n; ++i)
        {
            size_t lim = i % 9 == 0 ? 3000 : i % 3 == 0 ? 300 : 70;
            size_t na  = 1 + r.below(lim);
            size_t nb  = i % 4 == 0 ? na : 1 + r.below(lim);
            one_conv<T>((Op)op, na, nb, r.below(12));
        }
    }
    for (size_t nh = 1; nh <= 40; ++nh)
        for (size_t block : { (size_t)2, (size_t)4, (size_t)8, (size_t)16 })
            one_filter<T>(nh, block, 3 * nh + 40, (nh + block / 2) % n_split_styles, nh % n_signals, (nh * 3 + block / 2) % 12);
    int n = thorough() ? 4000 : 500;
    for (int i = 0; i < n; ++i)
    {
        size_t block = i % 3 == 0 ? (size_t)1 << r.range(1, 8) : 2 + r.below(i % 5 ? 60 : 400);
        size_t nh    = i % 4 == 0 ? block * (1 + r.below(5)) : 1 + r.below(5 * block);
        size_t total = 1 + r.below(nh + 6 * block);
        one_filter<T>(nh, block, total, r.below(n_split_styles), r.below(n_signals), r.below(12));
    }
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(60);
    all<float>();
    all<double>();
    all<complex<float>>();
    all<complex<double>>();
    return done();
}
