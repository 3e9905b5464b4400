NOTE = {
    "": "Samples schedules, inputs and histories of the real sources of /repo under a simulated scheduler; a clean batch is evidence, not proof. "
        "Trusts the simulator's stand-in for oneTBB, NumPy and CPython.",
    "P22": "Samples schedules, inputs and histories of the real sources of /repo under a simulated scheduler; a clean batch is evidence, not proof. "
           "voro++ (absent here) is a stand-in that clips cells, so the claim is about what freud makes of its cells; trusts the stand-in for oneTBB, NumPy and CPython.",
    "P23": "Samples schedules, inputs and histories of the real sources of /repo under a simulated scheduler; a clean batch is evidence, not proof. "
           "The spherical harmonics themselves (fsph, absent here) are a stand-in, and Eigen is the system's; trusts the stand-in for oneTBB, NumPy and CPython.",
}
NA = {}
