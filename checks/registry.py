import importlib
import vf

# property -> (module, level, assumptions)
FIN = ["positions are finite numbers whose cell index fits an int"]
CHECKS = {
    "C01": ("pose_graph", "model_checking", ["single-threaded use of the graph"]),
    "C02": ("pose_graph", "model_checking", ["single-threaded use of the graph"]),
    "C03": ("pose_graph", "model_checking", ["no edge is added during an iteration"]),
    "C04": ("voxel_grid", "model_checking", FIN),
    "C05": ("voxel_grid", "model_checking", FIN),
    "C06": ("voxel_grid", "model_checking", FIN),
    "C07": ("voxel_grid", "model_checking", FIN),
    "C08": ("voxel_grid", "model_checking", FIN),
    "C09": ("ndt_cell", "model_checking", ["finite point coordinates", "fewer than a thousand million points in a cell"]),
    "C10": ("ndt_cell", "model_checking", ["finite ray end points"]),
    "C11": ("robust", "model_checking", []),
    "C12": ("robust", "model_checking", ["positive weights and positive definite information matrices"]),
    "C14": ("planar", "model_checking", ["finite coordinates"]),
    "C15": ("planar", "model_checking", ["symmetric input covariances"]),
    "C16": ("planar", "model_checking", []),
    "C24": ("correlation", "model_checking", ["points at the centres of cells", "a non-empty range"]),
    "C25": ("planar", "model_checking", ["values and derivatives belong to one function that has a minimum"]),
    "C17": ("loop", "model_checking", ["finite poses, positive definite information matrices"]),
    "C18": ("slam_graph", "model_checking", ["every constrained pose hangs together with the first one", "initial guesses near enough for Gauss-Newton"]),
    "C19": ("ndt_grid", "model_checking", FIN),
    "C20": ("ndt_grid", "model_checking", FIN),
    "C21": ("ndt_mapper", "model_checking", FIN + ["no two frames have the same capture time when the map is redrawn"]),
    "C22": ("front_end", "model_checking", ["calls from one thread"]),
    "C23": ("node", "model_checking", ["calls from one thread"]),
    "C27": ("robust_match", "model_checking", ["scores not exactly at a threshold"]),
    "C26": ("ndt_grid", "model_checking", FIN),
    "C13": ("robust", "model_checking", ["values that the six digits of a C++ stream represent"]),
}

NOT_APPLICABLE = []
TECHNIQUE = {"*": "TLA+ specification checked with TLC; conformance by replaying model transitions into the code and validating recorded traces with TLC"}
NOTE = {"*": "TLC explores the specification exhaustively within the stated bounds and proves its own invariants there; "
             "every transition of that model and seeded random histories beyond its bounds are executed by the real code "
             "(ASan/UBSan build from /repo) and each recorded step is checked by TLC against the specification. The code is "
             "covered by the executed histories, not proved."}


def run(prop):
    mod, level, assume = CHECKS[prop]
    m = importlib.import_module(mod)
    return vf.main(prop, m.run, level, assume)
