"""Which harnesses decide which property."""
# property -> list of (engine, crate, argument); symx: the harness binary selects by property id; kani: harness names
CHECKS = {
    "A01": [("symx", "h_arith", None)],
    "A02": [("symx", "h_arith", None)],
    "A03": [("symx", "h_arith", None)],
    "A04": [("symx", "h_arith", None)],
    "A05": [("kani", "leaf", ["uendo_"])],
    "A06": [("kani", "arith", ["msm_", "batch_", "bitreverse_"])],
    "C01": [("kani", "leaf", ["maybe_"])],
    "C02": [("kani", "leaf", ["cast_"])],
    "C03": [("symx", "h_core", None)],
    "C04": [("symx", "h_core", None)],
    "C05": [("symx", "h_core", None)],
    "C07": [("symx", "h_core", None)],
    "C08": [("symx", "h_core", None)],
    "C06": [("kani", "leaf", ["err_"])],
    "M01": [("kani?", "macros", ["repr_"]), ("symx", "h_macros", None)],
    "M02": [("symx", "h_macros", None)],
    "M03": [("symx", "h_macros", None)],
    "M04": [("symx", "h_macros", None)],
    "M05": [("symx", "h_macros", None)],
    "M06": [("symx", "h_macros", None)],
    "P01": [("symx", "h_prims", None)],
    "P02": [("symx", "h_prims", None)],
    "P03": [("symx", "h_prims", None)],
    "P04": [("symx", "h_prims", None)],
    "P05": [("symx", "h_prims", None)],
    "P06": [("symx", "h_prims", None)],
    "P07": [("symx", "h_prims", None)],
    "P08": [("symx", "h_prims", None)],
    "P09": [("symx", "h_prims", None)],
    "P10": [("symx", "h_prims", None)],
    "R01": [("symx", "h_circuits", None)],
    "R02": [("symx", "h_circuits", None)],
    "R03": [("symx", "h_circuits", None)],
    "R04": [("symx", "h_circuits", None)],
    "R05": [("symx", "h_circuits", None)],
    "R06": [("symx", "h_circuits", None)],
    "R07": [("symx", "h_circuits", None)],
    "Q01": [("symx", "h_pcd", None)],
    "Q02": [("symx", "h_pcd", None)],
    "Q03": [("symx", "h_pcd", None), ("kani", "pcd", ["suffix_"])],
    "Q04": [("symx", "h_pcd", None), ("kani", "pcd", ["index_", "count_"])],
    "Q06": [("symx", "h_pcd", None)],
    "Q07": [("symx", "h_pcd", None)],
    "Q10": [("symx", "h_pcd", None)],
    "Q05": [("symx", "h_pcd", None)],
    "Q08": [("symx", "h_pcd", None)],
    "Q09": [("symx", "h_pcd", None)],
    "Q11": [("symx", "h_pcd", None)],
    "Q12": [("symx", "h_pcd", None)],
    "Q13": [("symx", "h_pcd", None)],
}
