// Stand-in for the parts of voro++ that freud uses (the submodule is empty here): cells of a
// periodic system by cutting with every image in reach, in double precision.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <vector>

namespace voro {

constexpr double optimal_particles = 5.6;

struct vp_v3
{
    double x, y, z;
    vp_v3 operator+(const vp_v3& o) const
    {
        return {x + o.x, y + o.y, z + o.z};
    }
    vp_v3 operator-(const vp_v3& o) const
    {
        return {x - o.x, y - o.y, z - o.z};
    }
    vp_v3 operator*(double s) const
    {
        return {x * s, y * s, z * s};
    }
    double dot(const vp_v3& o) const
    {
        return x * o.x + y * o.y + z * o.z;
    }
    vp_v3 cross(const vp_v3& o) const
    {
        return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x};
    }
};

class voronoicell_neighbor
{
public:
    struct Face
    {
        int id;
        vp_v3 normal;
        std::vector<int> v;
    };
    std::vector<vp_v3> m_v;
    std::vector<Face> m_f;

    void init(double r)
    {
        m_v.clear();
        m_f.clear();
        for (int i = 0; i < 8; i++)
        {
            m_v.push_back({(i & 1) != 0 ? r : -r, (i & 2) != 0 ? r : -r, (i & 4) != 0 ? r : -r});
        }
        const int q[6][4] = {{0, 4, 6, 2}, {1, 3, 7, 5}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 2, 3, 1}, {4, 5, 7, 6}};
        const vp_v3 n[6] = {{-1, 0, 0}, {1, 0, 0}, {0, -1, 0}, {0, 1, 0}, {0, 0, -1}, {0, 0, 1}};
        for (int i = 0; i < 6; i++)
        {
            m_f.push_back({-1 - i, n[i], {q[i][0], q[i][1], q[i][2], q[i][3]}});
        }
    }

    double reach() const
    {
        double m = 0;
        for (const auto& f : m_f)
        {
            for (int i : f.v)
            {
                m = std::max(m, m_v[i].dot(m_v[i]));
            }
        }
        return 2 * std::sqrt(m);
    }

    //! Keep the side of the plane halfway to p
    void cut(const vp_v3& p, int id)
    {
        const double len2 = p.dot(p);
        const double len = std::sqrt(len2);
        if (len2 == 0)
        {
            return;
        }
        const double eps = 1e-10 * len;
        std::vector<double> d(m_v.size());
        bool any = false;
        for (size_t i = 0; i < m_v.size(); i++)
        {
            d[i] = m_v[i].dot(p) / len - len / 2;
        }
        for (const auto& f : m_f)
        {
            for (int i : f.v)
            {
                any = any || d[i] > eps;
            }
        }
        if (!any)
        {
            return;
        }
        std::vector<Face> out;
        std::vector<int> rim;
        std::vector<std::array<int, 3>> made;
        for (const auto& f : m_f)
        {
            Face g {f.id, f.normal, {}};
            const size_t n = f.v.size();
            for (size_t k = 0; k < n; k++)
            {
                const int a = f.v[k];
                const int b = f.v[(k + 1) % n];
                if (d[a] <= eps)
                {
                    g.v.push_back(a);
                    if (d[a] >= -eps)
                    {
                        rim.push_back(a);
                    }
                }
                if ((d[a] > eps && d[b] < -eps) || (d[a] < -eps && d[b] > eps))
                {
                    const int lo = std::min(a, b);
                    const int hi = std::max(a, b);
                    int c = -1;
                    for (const auto& m : made)
                    {
                        if (m[0] == lo && m[1] == hi)
                        {
                            c = m[2];
                        }
                    }
                    if (c < 0)
                    {
                        c = static_cast<int>(m_v.size());
                        m_v.push_back(m_v[lo] + (m_v[hi] - m_v[lo]) * (d[lo] / (d[lo] - d[hi])));
                        made.push_back({lo, hi, c});
                    }
                    g.v.push_back(c);
                    rim.push_back(c);
                }
            }
            if (g.v.size() >= 3)
            {
                out.push_back(g);
            }
        }
        std::sort(rim.begin(), rim.end());
        rim.erase(std::unique(rim.begin(), rim.end()), rim.end());
        if (rim.size() >= 3)
        {
            const vp_v3 n = p * (1 / len);
            vp_v3 c {0, 0, 0};
            for (int i : rim)
            {
                c = c + m_v[i] * (1.0 / double(rim.size()));
            }
            const vp_v3 u = std::abs(n.x) < 0.7 ? vp_v3 {1, 0, 0}.cross(n) : vp_v3 {0, 1, 0}.cross(n);
            const vp_v3 w = n.cross(u);
            std::sort(rim.begin(), rim.end(), [&](int a, int b) {
                const vp_v3 x = m_v[a] - c;
                const vp_v3 y = m_v[b] - c;
                return std::atan2(x.dot(w), x.dot(u)) < std::atan2(y.dot(w), y.dot(u));
            });
            out.push_back({id, n, rim});
        }
        m_f = out;
    }

    //! Renumber the vertices in use, dropping what was cut off
    void tidy()
    {
        std::vector<int> to(m_v.size(), -1);
        std::vector<vp_v3> v;
        for (auto& f : m_f)
        {
            for (int& i : f.v)
            {
                if (to[i] < 0)
                {
                    to[i] = static_cast<int>(v.size());
                    v.push_back(m_v[i]);
                }
                i = to[i];
            }
        }
        m_v = v;
    }

    vp_v3 area(const Face& f) const
    {
        vp_v3 s {0, 0, 0};
        for (size_t k = 1; k + 1 < f.v.size(); k++)
        {
            s = s + (m_v[f.v[k]] - m_v[f.v[0]]).cross(m_v[f.v[k + 1]] - m_v[f.v[0]]) * 0.5;
        }
        return s;
    }
    void face_areas(std::vector<double>& r) const
    {
        r.clear();
        for (const auto& f : m_f)
        {
            const vp_v3 s = area(f);
            r.push_back(std::sqrt(s.dot(s)));
        }
    }
    void face_vertices(std::vector<int>& r) const
    {
        r.clear();
        for (const auto& f : m_f)
        {
            r.push_back(static_cast<int>(f.v.size()));
            r.insert(r.end(), f.v.begin(), f.v.end());
        }
    }
    void neighbors(std::vector<int>& r) const
    {
        r.clear();
        for (const auto& f : m_f)
        {
            r.push_back(f.id);
        }
    }
    void normals(std::vector<double>& r) const
    {
        r.clear();
        for (const auto& f : m_f)
        {
            r.insert(r.end(), {f.normal.x, f.normal.y, f.normal.z});
        }
    }
    void vertices(double x, double y, double z, std::vector<double>& r) const
    {
        r.clear();
        for (const auto& v : m_v)
        {
            r.insert(r.end(), {v.x + x, v.y + y, v.z + z});
        }
    }
    double volume() const
    {
        double s = 0;
        for (const auto& f : m_f)
        {
            const vp_v3 a = area(f);
            s += std::sqrt(a.dot(a)) * std::abs(m_v[f.v[0]].dot(f.normal)) / 3;
        }
        return s;
    }
};

class c_loop_all_periodic;

class container_periodic
{
public:
    container_periodic(double bx, double bxy, double by, double bxz, double byz, double bz, int, int, int, int)
        : m_a {bx, 0, 0}, m_b {bxy, by, 0}, m_c {bxz, byz, bz}
    {}
    void put(int id, double x, double y, double z)
    {
        vp_v3 p {x, y, z};
        p = p - m_c * std::floor(p.z / m_c.z);
        p = p - m_b * std::floor(p.y / m_b.y);
        p = p - m_a * std::floor(p.x / m_a.x);
        m_id.push_back(id);
        m_p.push_back(p);
    }
    template<class L> bool compute_cell(voronoicell_neighbor& cell, const L& loop)
    {
        const vp_v3 p = m_p[loop.index()];
        const double big = std::sqrt(m_a.dot(m_a)) + std::sqrt(m_b.dot(m_b)) + std::sqrt(m_c.dot(m_c));
        cell.init(big);
        std::vector<std::pair<double, std::pair<vp_v3, int>>> near;
        // the lattice alone bounds every cell, so images beyond its own are reached from there
        for (int round = 0; round < 2; round++)
        {
            const double r = round == 0 ? 2 * big : cell.reach() * (1 + 1e-9);
            const int nz = static_cast<int>(r / m_c.z) + 1;
            near.clear();
            for (size_t j = 0; j < m_p.size(); j++)
            {
                if (round == 0 && j != loop.index())
                {
                    continue;
                }
                const vp_v3 o = m_p[j] - p;
                for (int k = -nz; k <= nz; k++)
                {
                    const vp_v3 oz = o + m_c * k;
                    const int ylo = static_cast<int>(std::floor((-r - oz.y) / m_b.y));
                    const int yhi = static_cast<int>(std::ceil((r - oz.y) / m_b.y));
                    for (int b = ylo; b <= yhi; b++)
                    {
                        const vp_v3 oy = oz + m_b * b;
                        const int xlo = static_cast<int>(std::floor((-r - oy.x) / m_a.x));
                        const int xhi = static_cast<int>(std::ceil((r - oy.x) / m_a.x));
                        for (int a = xlo; a <= xhi; a++)
                        {
                            const vp_v3 q = oy + m_a * a;
                            const double d = q.dot(q);
                            if (d > 0 && d <= r * r)
                            {
                                near.push_back({d, {q, m_id[j]}});
                            }
                        }
                    }
                }
            }
            std::stable_sort(near.begin(), near.end(), [](const auto& x, const auto& y) { return x.first < y.first; });
            if (round == 1)
            {
                cell.init(big);
            }
            for (const auto& n : near)
            {
                if (std::sqrt(n.first) > cell.reach() * (1 + 1e-9))
                {
                    break;
                }
                cell.cut(n.second.first, n.second.second);
            }
        }
        cell.tidy();
        return true;
    }
    std::vector<int> m_id;
    std::vector<vp_v3> m_p;

private:
    vp_v3 m_a, m_b, m_c;
};

class c_loop_all_periodic
{
public:
    explicit c_loop_all_periodic(container_periodic& c) : m_c(c) {}
    bool start()
    {
        m_i = 0;
        return !m_c.m_p.empty();
    }
    bool inc()
    {
        return ++m_i < m_c.m_p.size();
    }
    int pid() const
    {
        return m_c.m_id[m_i];
    }
    double x() const
    {
        return m_c.m_p[m_i].x;
    }
    double y() const
    {
        return m_c.m_p[m_i].y;
    }
    double z() const
    {
        return m_c.m_p[m_i].z;
    }
    size_t index() const
    {
        return m_i;
    }

private:
    container_periodic& m_c;
    size_t m_i {0};
};

} // namespace voro
