"""Computed results can be read after a successful computation, and not before."""

from .. import adapters as A
from .. import faults as X
from .common import gen_case

ID = "P11"
RULE = (
    "a run counts when every computed result was asked for after at least one failed computation and before the first "
    "successful one, and again after it; two runs are the same when their operations, scheduling decisions and analysis agree"
)
ASSUME = ["an interruption after the computation itself was done may leave its results readable"]
SCHED_NONTRIVIAL = False
HIST = ("bin_counts", "box")
COMPUTED = {
    "RDF": (*HIST, "n_r", "rdf"),
    "CorrelationFunction": (*HIST, "correlation"),
    "BondOrder": (*HIST, "bond_order"),
    "PMFTR12": (*HIST, "pmft"),
    "PMFTXYT": (*HIST, "pmft"),
    "PMFTXY": (*HIST, "pmft"),
    "PMFTXYZ": (*HIST, "pmft"),
    "StaticStructureFactorDebye": ("S_k", "min_valid_k"),
    "LocalDensity": ("box", "density", "num_neighbors"),
    "Hexatic": ("particle_order",),
    "Cluster": ("cluster_idx", "cluster_keys", "num_clusters"),
    "ClusterProperties": ("centers", "centers_of_mass", "cluster_masses", "gyrations", "inertia_tensors", "radii_of_gyration", "sizes"),
    "Interface": ("point_count", "point_ids", "query_point_count", "query_point_ids"),
    "AngularSeparationNeighbor": ("angles", "nlist"),
    "AngularSeparationGlobal": ("angles",),
    "LocalBondProjection": ("nlist", "normed_projections", "projections"),
    "RotationalAutocorrelation": ("order", "particle_order"),
    "Cubatic": ("cubatic_tensor", "global_tensor", "order", "orientation", "particle_order"),
    "GaussianDensity": ("box", "density"),
    "SphereVoxelization": ("box", "voxels"),
    "FilterSANN": ("filtered_nlist", "unfiltered_nlist"),
    "FilterRAD": ("filtered_nlist", "unfiltered_nlist"),
    "PeriodicBuffer": ("buffer_box", "buffer_ids", "buffer_points"),
    "DiffractionPattern": ("N_points", "diffraction", "k_values", "k_vectors"),
    "MSD": ("msd", "particle_msd"),
    "Steinhardt": ("order", "particle_harmonics", "particle_order", "ql"),
    "SolidLiquid": (
        "cluster_idx", "cluster_sizes", "largest_cluster_size", "nlist", "num_connections", "particle_harmonics", "ql_ij",
    ),
    "Nematic": ("director", "nematic_tensor", "order", "particle_tensor"),
    "LocalDescriptors": ("nlist", "num_sphs", "sph"),
    "StaticStructureFactorDirect": ("S_k", "k_points", "min_valid_k"),
    "EnvironmentCluster": ("cluster_environments", "cluster_idx", "num_clusters", "point_environments"),
    "EnvironmentMotifMatch": ("matches", "point_environments"),
    "EnvironmentRMSDMinimizer": ("point_environments", "rmsds"),
}
PLOT = (
    "RDF", "CorrelationFunction", "PMFTXY", "StaticStructureFactorDebye", "Hexatic", "Cluster", "GaussianDensity",
    "SphereVoxelization", "DiffractionPattern", "MSD", "Steinhardt", "SolidLiquid", "EnvironmentCluster",
    "StaticStructureFactorDirect",
)
OPTIONS = {
    "RDF": ("bin_centers", "bin_edges", "bounds", "mode", "nbins"),
    "CorrelationFunction": ("bin_centers", "bin_edges", "bins", "bounds", "nbins"),
    "BondOrder": ("bin_centers", "bin_edges", "bounds", "mode", "nbins"),
    "PMFTR12": ("bin_centers", "bin_edges", "bounds", "nbins"),
    "PMFTXYT": ("bin_centers", "bin_edges", "bounds", "nbins"),
    "PMFTXY": ("bin_centers", "bin_edges", "bounds", "nbins"),
    "PMFTXYZ": ("bin_centers", "bin_edges", "bounds", "nbins"),
    "StaticStructureFactorDebye": ("bounds", "k_max", "k_min", "k_values", "num_k_values"),
    "LocalDensity": ("diameter", "r_max", "default_query_args"),
    "Hexatic": ("k", "weighted", "default_query_args"),
    "RotationalAutocorrelation": ("l",),
    "Cubatic": ("n_replicates", "scale", "seed", "t_final", "t_initial"),
    "GaussianDensity": ("r_max", "sigma", "width"),
    "SphereVoxelization": ("r_max", "width"),
    "DiffractionPattern": ("grid_size", "output_size"),
    "Steinhardt": ("average", "l", "weighted", "wl", "wl_normalize"),
    "SolidLiquid": ("l", "normalize_q", "q_threshold", "solid_threshold"),
    "LocalDescriptors": ("l_max", "mode", "negative_m"),
    "StaticStructureFactorDirect": ("bin_centers", "bin_edges", "bounds", "nbins", "num_sampled_k_points"),
}


def gen(rng, tier):
    c = gen_case(rng, list(COMPUTED), kmax=3, same=rng.random() < 0.5, small=rng.random() < 0.9)
    c["kind"] = c["a"]
    nf = len(c["frames"])
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        x = rng.random()
        which = int(rng.random() < 0.25)
        if x < 0.75:
            ops.append(["x", which, rng.randrange(nf), X.gen(rng), rng.random() < 0.6])
        elif x < 0.9:
            ops.append(["c", which, rng.randrange(nf), rng.random() < 0.5])
        else:
            ops.append(["n", which])
    ops.append(["c", rng.randrange(2), rng.randrange(nf), rng.random() < 0.7])
    c["ops"] = ops
    c["late"] = rng.random() < 0.3  # whether reading is put off
    return c


def ask(o, name):
    """ok, closed, or the exception."""
    try:
        getattr(o, name)
        return "ok"
    except AttributeError:
        return "closed"


def run(sc, ctx):
    a = sc["a"]
    ad = A.ALL[a]
    p = sc["p"]
    frames = [ad.frame(p, f) for f in sc["frames"]]
    with ctx.sim.world():
        objs = [ad.make(p), ad.make(p)]
    state = ["closed", "closed"]
    tried = [False, False]
    odd = [False, False]
    after_failure = after_success = False
    last = "nothing"
    for n, op in enumerate(sc["ops"]):
        k = op[1]
        with ctx.sim.world():
            if op[0] == "n":
                objs[k] = ad.make(p)
                state[k], tried[k] = "closed", False
            elif op[0] == "c":
                ad.compute(objs[k], p, frames[op[2]], **({"reset": op[3] or odd[k]} if ad.accum else {}))
                odd[k] = False
                state[k] = "open"
                last = "compute"
            else:
                r = X.faulty(ctx, ad, p, objs[k], frames[op[2]], op[3], **({"reset": op[4] or odd[k]} if ad.accum else {}))
                tried[k] = True
                if r.exc is None:
                    state[k] = "open"
                    odd[k] = r.fired  # strange, yet accepted: others need not go with it
                elif state[k] != "open" and r.kind == "interrupt" and "compute_wrapper" in r.where:
                    state[k] = "unknown"
                last = f"failed-{r.kind}"
                r = None
        if sc["late"] and n < len(sc["ops"]) - 2:
            continue
        for m, o in enumerate(objs):
            if state[m] == "unknown":
                continue
            for name in COMPUTED[a]:
                with ctx.sim.world():
                    got = ask(o, name)
                want = "ok" if state[m] == "open" else "closed"
                if got != want:
                    ctx.fail(
                        f"{a}.{name}.{'unreadable' if want == 'ok' else 'readable'}",
                        f"operation {n} {op} (last {last}): object {m} gave {got} for {name} instead of {want}",
                    )
                    return
            if a in PLOT and state[m] == "closed" and ask(o, "plot") != "closed":
                ctx.fail(f"{a}.plot.readable", f"operation {n} {op}: plot before the first computation")
                return
            if a == "DiffractionPattern":
                try:
                    o.to_image()
                    got = "ok"
                except AttributeError:
                    got = "closed"
                except ImportError:
                    got = None
                if got and got != ("ok" if state[m] == "open" else "closed"):
                    ctx.fail(f"{a}.to_image", f"operation {n} {op}: to_image() gave {got} while results are {state[m]}")
                    return
            for name in OPTIONS.get(a, ()):
                getattr(o, name)
            if state[m] == "closed" and tried[m]:
                after_failure = True
            if state[m] == "open":
                after_success = True
    ctx.nontrivial = after_failure and after_success
