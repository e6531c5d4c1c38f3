// Stand-in for the parts of fsph that freud uses (the submodule is empty here): spherical
// harmonics without the Condon-Shortley phase, evaluated in double precision.
#pragma once
#include <cmath>
#include <complex>
#include <cstddef>
#include <iterator>
#include <vector>

namespace fsph {

//! Number of (l, m) with 0 <= m <= l <= lmax
inline unsigned int sphCount(unsigned int lmax)
{
    return (lmax + 1) * (lmax + 2) / 2;
}

template<typename Real> class PointSPHEvaluator
{
public:
    //! Runs over m = 0..l, then, if full, m = -1..-l, for every l from the first one
    class iterator
    {
    public:
        using iterator_category = std::forward_iterator_tag;
        using value_type = std::complex<Real>;
        using difference_type = std::ptrdiff_t;
        using pointer = void;
        using reference = value_type;

        iterator(const PointSPHEvaluator* e, unsigned int l, unsigned int m, bool full)
            : m_e(e), m_l(l), m_m(m), m_full(full)
        {}
        bool operator==(const iterator& o) const
        {
            return m_l == o.m_l && m_m == o.m_m;
        }
        bool operator!=(const iterator& o) const
        {
            return !(*this == o);
        }
        iterator& operator++()
        {
            if (++m_m == (m_full ? 2 * m_l + 1 : m_l + 1))
            {
                m_m = 0;
                ++m_l;
            }
            return *this;
        }
        iterator operator++(int)
        {
            iterator r(*this);
            ++*this;
            return r;
        }
        value_type operator*() const
        {
            return m_m <= m_l ? m_e->ylm(m_l, m_m) : std::conj(m_e->ylm(m_l, m_m - m_l));
        }

    private:
        const PointSPHEvaluator* m_e;
        unsigned int m_l;
        unsigned int m_m;
        bool m_full;
    };

    explicit PointSPHEvaluator(unsigned int lmax) : m_lmax(lmax), m_ylm(sphCount(lmax)) {}

    //! phi is the polar angle, theta the azimuth
    void compute(Real phi, Real theta)
    {
        for (unsigned int l = 0; l <= m_lmax; ++l)
        {
            for (unsigned int m = 0; m <= l; ++m)
            {
                // std::sph_legendre includes the phase (-1)^m
                const double r = (m % 2 == 1 ? -1.0 : 1.0) * std::sph_legendre(l, m, double(phi));
                m_ylm[l * (l + 1) / 2 + m]
                    = std::complex<Real>(std::complex<double>(r * std::cos(m * double(theta)), r * std::sin(m * double(theta))));
            }
        }
    }
    iterator begin(bool full) const
    {
        return iterator(this, 0, 0, full);
    }
    iterator begin_l(unsigned int l, unsigned int m, bool full) const
    {
        return iterator(this, l, m, full);
    }
    iterator end() const
    {
        return iterator(this, m_lmax + 1, 0, false);
    }
    std::complex<Real> ylm(unsigned int l, unsigned int m) const
    {
        return m_ylm[l * (l + 1) / 2 + m];
    }

private:
    unsigned int m_lmax;
    std::vector<std::complex<Real>> m_ylm;
};

} // namespace fsph
