// Stand-in for fsph (github.com/glotzerlab/fsph), whose submodule is empty here: spherical harmonics of one
// direction, without the Condon-Shortley phase, in the order l = 0.., m = 0..l (and then -1..-l if full_m).

#pragma once

#include <cmath>
#include <complex>
#include <cstddef>
#include <iterator>
#include <vector>

namespace fsph {

//! Number of spherical harmonics with 0 <= l <= lmax and 0 <= m <= l
inline unsigned int sphCount(unsigned int lmax)
{
    return (lmax + 1) * (lmax + 2) / 2;
}

template<typename Real> class PointSPHEvaluator
{
public:
    class iterator
    {
    public:
        using iterator_category = std::input_iterator_tag;
        using value_type = std::complex<Real>;
        using difference_type = std::ptrdiff_t;
        using pointer = const value_type*;
        using reference = value_type;

        iterator(const PointSPHEvaluator* e, unsigned int l, unsigned int m, bool full) : e(e), l(l), m(m), full(full)
        {}

        bool operator==(const iterator& o) const
        {
            return l == o.l && m == o.m;
        }

        bool operator!=(const iterator& o) const
        {
            return !(*this == o);
        }

        iterator& operator++()
        {
            ++m;
            if (m > (full ? 2 * l : l))
            {
                ++l;
                m = 0;
            }
            return *this;
        }

        iterator operator++(int)
        {
            iterator r(*this);
            ++*this;
            return r;
        }

        std::complex<Real> operator*() const
        {
            return m <= l ? e->value(l, m) : std::conj(e->value(l, m - l));
        }

    private:
        const PointSPHEvaluator* e;
        unsigned int l;
        unsigned int m; // l + 1 .. 2 l stand for -1 .. -l
        bool full;
    };

    explicit PointSPHEvaluator(unsigned int lmax) : m_lmax(lmax), m_p(sphCount(lmax)), m_e(lmax + 1) {}

    //! phi: polar angle, theta: azimuth
    void compute(Real phi, Real theta)
    {
        double const x = std::cos(double(phi));
        double const s = std::sin(double(phi));
        double d = std::sqrt(0.25 / M_PI);
        for (unsigned int m = 0; m <= m_lmax; ++m)
        {
            m_e[m] = std::polar(1.0, m * double(theta));
            if (m > 0)
            {
                d *= s * std::sqrt((2.0 * m + 1) / (2.0 * m));
            }
            double p0 = 0;
            double p1 = d;
            m_p[at(m, m)] = d;
            for (unsigned int l = m + 1; l <= m_lmax; ++l)
            {
                double const a = std::sqrt((4.0 * l * l - 1) / (double(l) * l - double(m) * m));
                double const k = l - 1;
                double const b = std::sqrt((k * k - double(m) * m) / (4 * k * k - 1));
                double const p2 = a * (x * p1 - (l == m + 1 ? 0 : b * p0));
                p0 = p1;
                p1 = p2;
                m_p[at(l, m)] = p2;
            }
        }
    }

    iterator begin(bool full_m) const
    {
        return iterator(this, 0, 0, full_m);
    }

    iterator begin_l(unsigned int l, unsigned int m, bool full_m) const
    {
        return iterator(this, l, m, full_m);
    }

    iterator end() const
    {
        return iterator(this, m_lmax + 1, 0, false);
    }

private:
    static size_t at(unsigned int l, unsigned int m)
    {
        return size_t(l) * (l + 1) / 2 + m;
    }

    std::complex<Real> value(unsigned int l, unsigned int m) const
    {
        auto const v = m_p[at(l, m)] * m_e[m];
        return {Real(v.real()), Real(v.imag())};
    }

    unsigned int m_lmax;
    std::vector<double> m_p;
    std::vector<std::complex<double>> m_e;
};

} // namespace fsph
