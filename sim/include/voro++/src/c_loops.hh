#ifndef SIM_VORO_C_LOOPS_HH
#define SIM_VORO_C_LOOPS_HH

#include "container_prd.hh"

namespace voro {

class c_loop_all_periodic
{
    const container_periodic& m_con;
    size_t m_i = 0;

public:
    explicit c_loop_all_periodic(const container_periodic& con) : m_con(con) {}
    bool start()
    {
        m_i = 0;
        return !m_con.m_points.empty();
    }
    bool inc()
    {
        return ++m_i < m_con.m_points.size();
    }
    size_t index() const
    {
        return m_i;
    }
    int pid() const
    {
        return m_con.m_points[m_i].id;
    }
    double x() const
    {
        return m_con.m_points[m_i].r[0];
    }
    double y() const
    {
        return m_con.m_points[m_i].r[1];
    }
    double z() const
    {
        return m_con.m_points[m_i].r[2];
    }
};

} // namespace voro

#endif
