#ifndef SIM_VORO_CONTAINER_PRD_HH
#define SIM_VORO_CONTAINER_PRD_HH

#include "cell.hh"
#include <algorithm>
#include <cmath>
#include <vector>

namespace voro {

//! Points in a periodic box, moved into its primary domain.
class container_periodic
{
public:
    struct Point
    {
        int block, id;
        V3 r;
    };
    std::vector<Point> m_points;

    container_periodic(double bx, double bxy, double by, double bxz, double byz, double bz, int nx, int ny, int nz, int /*init_mem*/)
        : m_a {V3 {bx, 0, 0}, V3 {bxy, by, 0}, V3 {bxz, byz, bz}}, m_n {nx, ny, nz}
    {}

    void put(int id, double x, double y, double z)
    {
        V3 r {x, y, z};
        int block = 0;
        for (int k = 2; k >= 0; k--)
        {
            double s = std::floor(r[k] / m_a[k][k]);
            for (int c = 0; c <= k; c++)
            {
                r[c] -= s * m_a[k][c];
            }
            block = block * m_n[k] + std::clamp(int(r[k] / m_a[k][k] * m_n[k]), 0, m_n[k] - 1);
        }
        m_points.push_back({block, id, r});
        std::stable_sort(m_points.begin(), m_points.end(), [](const Point& a, const Point& b) { return a.block < b.block; });
    }

    template<class Loop> bool compute_cell(voronoicell_neighbor& cell, const Loop& loop)
    {
        const Point& me = m_points[loop.index()];
        // nothing in the cell is farther away than the covering radius of the lattice
        double cover = 0;
        for (const auto& v : m_a)
        {
            cover += 0.5 * std::sqrt(dot3(v, v));
        }
        cell.init(1.01 * cover + 1e-6);
        struct Image
        {
            double d2;
            V3 to;
            int id;
        };
        std::vector<Image> images;
        // the images of the point itself come first, to leave fewer of the others
        for (int k = -1; k <= 1; k++)
        {
            for (int j = -1; j <= 1; j++)
            {
                for (int i = -1; i <= 1; i++)
                {
                    V3 to {i * m_a[0][0] + j * m_a[1][0] + k * m_a[2][0], j * m_a[1][1] + k * m_a[2][1], k * m_a[2][2]};
                    if (i != 0 || j != 0 || k != 0)
                    {
                        cell.plane(to, me.id);
                    }
                }
            }
        }
        double far = std::min(2 * cover, 2.0001 * std::sqrt(cell.max_radius_sq()));
        double far2 = far * far;
        for (const auto& p : m_points)
        {
            V3 d = sub(p.r, me.r);
            double z0 = m_a[2][2];
            for (int k = int(std::floor((-far - d[2]) / z0)); k <= int(std::ceil((far - d[2]) / z0)); k++)
            {
                double ey = d[1] + k * m_a[2][1];
                double y0 = m_a[1][1];
                for (int j = int(std::floor((-far - ey) / y0)); j <= int(std::ceil((far - ey) / y0)); j++)
                {
                    double ex = d[0] + k * m_a[2][0] + j * m_a[1][0];
                    double x0 = m_a[0][0];
                    for (int i = int(std::floor((-far - ex) / x0)); i <= int(std::ceil((far - ex) / x0)); i++)
                    {
                        V3 to {ex + i * x0, ey + j * y0, d[2] + k * z0};
                        double d2 = dot3(to, to);
                        if (d2 <= far2 && d2 > 0)
                        {
                            images.push_back({d2, to, p.id});
                        }
                    }
                }
            }
        }
        std::stable_sort(images.begin(), images.end(), [](const Image& a, const Image& b) { return a.d2 < b.d2; });
        double reach = far;
        int n = 0;
        for (const auto& m : images)
        {
            if (std::sqrt(m.d2) > reach)
            {
                break;
            }
            cell.plane(m.to, m.id);
            if (++n % 8 == 0)
            {
                reach = 2 * std::sqrt(cell.max_radius_sq());
            }
        }
        cell.finish();
        return true;
    }

private:
    V3 m_a[3];
    int m_n[3];
};

} // namespace voro

#endif
