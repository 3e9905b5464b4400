// Stand-in for voro++ (which is not in this sandbox), with the part of its interface that freud uses: the cells are computed by
// clipping with the bisectors to all images near enough. Written for correctness on small systems, not for speed.
#ifndef SIM_VORO_CONFIG_HH
#define SIM_VORO_CONFIG_HH

namespace voro {
const double optimal_particles = 5.6;
} // namespace voro

#endif
