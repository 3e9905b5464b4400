#ifndef SIM_VORO_CELL_HH
#define SIM_VORO_CELL_HH

#include "config.hh"
#include <algorithm>
#include <array>
#include <cmath>
#include <vector>

namespace voro {

using V3 = std::array<double, 3>;

inline V3 sub(const V3& a, const V3& b)
{
    return {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
inline double dot3(const V3& a, const V3& b)
{
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
inline V3 cross3(const V3& a, const V3& b)
{
    return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}

//! A convex cell around the origin, as a list of faces with the neighbor beyond each.
class voronoicell_neighbor
{
    struct Face
    {
        int id;
        std::vector<V3> p; // counterclockwise as seen from outside
        V3 n;
    };
    std::vector<Face> m_faces;
    std::vector<V3> m_v;
    std::vector<std::vector<int>> m_index;
    double m_eps = 0;

    static V3 area_vector(const std::vector<V3>& p)
    {
        V3 s {0, 0, 0};
        for (size_t i = 1; i + 1 < p.size(); i++)
        {
            V3 c = cross3(sub(p[i], p[0]), sub(p[i + 1], p[0]));
            for (int k = 0; k < 3; k++)
            {
                s[k] += 0.5 * c[k];
            }
        }
        return s;
    }

public:
    void init(double w)
    {
        m_faces.clear();
        m_eps = 1e-11 * w;
        for (int k = 0; k < 3; k++)
        {
            for (int s = -1; s <= 1; s += 2)
            {
                Face f {-1 - 2 * k - (s + 1) / 2, {}, {0, 0, 0}};
                f.n[k] = s;
                int a = (k + 1) % 3;
                int b = (k + 2) % 3;
                const int order[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
                for (auto o : order)
                {
                    V3 v;
                    v[k] = s * w;
                    v[a] = s * o[0] * w;
                    v[b] = o[1] * w;
                    f.p.push_back(v);
                }
                m_faces.push_back(f);
            }
        }
    }

    double max_radius_sq() const
    {
        double m = 0;
        for (const auto& f : m_faces)
        {
            for (const auto& v : f.p)
            {
                m = std::max(m, dot3(v, v));
            }
        }
        return m;
    }

    //! Cut with the bisector to a point.
    void plane(const V3& to, int id)
    {
        double len = std::sqrt(dot3(to, to));
        V3 n {to[0] / len, to[1] / len, to[2] / len};
        double d = len / 2;
        bool cuts = false;
        for (const auto& f : m_faces)
        {
            for (const auto& v : f.p)
            {
                cuts = cuts || dot3(v, n) > d + m_eps;
            }
        }
        if (!cuts)
        {
            return;
        }
        std::vector<V3> rim;
        std::vector<Face> faces;
        for (auto& f : m_faces)
        {
            Face g {f.id, {}, f.n};
            size_t k = f.p.size();
            for (size_t i = 0; i < k; i++)
            {
                const V3& a = f.p[i];
                const V3& b = f.p[(i + 1) % k];
                double x = dot3(a, n) - d;
                double y = dot3(b, n) - d;
                if (x <= m_eps)
                {
                    g.p.push_back(a);
                    if (x >= -m_eps)
                    {
                        rim.push_back(a);
                    }
                }
                if ((x < -m_eps && y > m_eps) || (x > m_eps && y < -m_eps))
                {
                    double t = x / (x - y);
                    V3 c {a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2])};
                    g.p.push_back(c);
                    rim.push_back(c);
                }
            }
            if (g.p.size() >= 3)
            {
                faces.push_back(g);
            }
        }
        // the new face
        V3 u = std::abs(n[0]) < 0.6 ? V3 {1, 0, 0} : V3 {0, 1, 0};
        V3 e1 = cross3(n, u);
        V3 e2 = cross3(n, e1);
        V3 c {0, 0, 0};
        std::vector<V3> pts;
        for (const auto& r : rim)
        {
            bool have = false;
            for (const auto& q : pts)
            {
                V3 w = sub(q, r);
                have = have || dot3(w, w) < 100 * m_eps * m_eps;
            }
            if (!have)
            {
                pts.push_back(r);
            }
        }
        for (const auto& r : pts)
        {
            for (int k = 0; k < 3; k++)
            {
                c[k] += r[k] / static_cast<double>(pts.size());
            }
        }
        std::sort(pts.begin(), pts.end(), [&](const V3& a, const V3& b) {
            V3 p = sub(a, c);
            V3 q = sub(b, c);
            return std::atan2(dot3(p, e2), dot3(p, e1)) < std::atan2(dot3(q, e2), dot3(q, e1));
        });
        m_faces = faces;
        if (pts.size() >= 3)
        {
            Face f {id, pts, n};
            if (dot3(area_vector(f.p), n) < 0)
            {
                std::reverse(f.p.begin(), f.p.end());
            }
            m_faces.push_back(f);
        }
    }

    //! Number the vertices.
    void finish()
    {
        m_v.clear();
        m_index.clear();
        std::vector<Face> keep;
        for (auto& f : m_faces)
        {
            std::vector<int> ix;
            for (const auto& v : f.p)
            {
                int k = 0;
                for (; k < int(m_v.size()); k++)
                {
                    V3 w = sub(m_v[k], v);
                    if (dot3(w, w) < 400 * m_eps * m_eps)
                    {
                        break;
                    }
                }
                if (k == int(m_v.size()))
                {
                    m_v.push_back(v);
                }
                if (ix.empty() || (ix.back() != k && ix.front() != k))
                {
                    ix.push_back(k);
                }
            }
            if (ix.size() >= 3)
            {
                keep.push_back(f);
                m_index.push_back(ix);
            }
        }
        m_faces = keep;
    }

    double volume() const
    {
        double v = 0;
        for (const auto& f : m_faces)
        {
            v += dot3(area_vector(f.p), f.p[0]) / 3;
        }
        return v;
    }
    void face_areas(std::vector<double>& out) const
    {
        out.clear();
        for (const auto& f : m_faces)
        {
            V3 a = area_vector(f.p);
            out.push_back(std::sqrt(dot3(a, a)));
        }
    }
    void face_vertices(std::vector<int>& out) const
    {
        out.clear();
        for (const auto& ix : m_index)
        {
            out.push_back(int(ix.size()));
            out.insert(out.end(), ix.begin(), ix.end());
        }
    }
    void neighbors(std::vector<int>& out) const
    {
        out.clear();
        for (const auto& f : m_faces)
        {
            out.push_back(f.id);
        }
    }
    void normals(std::vector<double>& out) const
    {
        out.clear();
        for (const auto& f : m_faces)
        {
            out.insert(out.end(), f.n.begin(), f.n.end());
        }
    }
    void vertices(double x, double y, double z, std::vector<double>& out) const
    {
        out.clear();
        for (const auto& v : m_v)
        {
            out.push_back(x + v[0]);
            out.push_back(y + v[1]);
            out.push_back(z + v[2]);
        }
    }
};

} // namespace voro

#endif
