"""Properties C09 onwards (see properties.py)."""


def add(prop, I, S):
    CE, CT = I + "registration/correlative_estimation2d.h", I + "registration/correlative_estimation_tools.h"
    prop("C24", "The coarse search finds the best placement in its range",
         "The lookup table scores a cloud by the part of the target's points it hits: each point in a cell occupied by the target counts fully, one near such a cell less, any other nothing, divided by the number of the target's points; an empty cloud or target scores nothing, and scoring points, their indexes, or shifted indexes agrees. The smoothing kernel is symmetric, falls off from its centre as a normal distribution and is as wide as documented; where targets' surroundings meet the larger value counts. Correlative search, from any initial guess and with any number of threads, returns the guess followed by a motion of its range that no other motion tried beats, so that a source moved by one of them is found again; the output cloud is the source moved by the result.",
         ["inputs"], "every target and source of points at cell centres, every guess, range, cell size and number of threads, in any sequence on one object",
         "No test builds the registration classes; errors of one cell, lost edge points or a forgotten guess only make loop closures a little rarer or worse.",
         [CE, CT], [("CorrelativeEstimation::computeTransformation", CE), ("LookUpTable, SmoothingKernel", CT)],
         [("table_, border_size_, target_points_", "smoothed cells of the target", CT)], ["align", "getFinalTransformation", "LookUpTable::getScore", "SmoothingKernel::operator()"])
    DR, NM = I + "registration/d2d_ndt2d_robust.h", I + "slam_optimizer/ndt_scanmatcher.h"
    prop("C27", "Robust matching accepts a match only on proof, and reports that proof",
         "A first precise match from the guess that converges and puts over 70 % of the target's points on the target is taken as it is; otherwise a coarse search from the same guess and a precise match from its result follow, and the match fails unless both converge. The match so found succeeds if it scores at least the rejection limit; if not, the first one still does if it puts over 60 % in place; anything else fails. On success the transform is the one judged, the quality its score and the output the source moved by it. The limit can be set between 0 and 1 only. The loop closure matcher shows the two frames' distributions, passes the guess on, and returns verdict, score and transform unchanged with the information fixed for loop closures. Earlier matches do not influence later ones.",
         ["inputs", "histories"], "every outcome and convergence of the three stages, every limit, guess and pair of frames, in sequence",
         "No test builds the matcher; a wrong verdict means a false loop closure, which wrecks the map, and takes a particular combination of failing stages.",
         [DR, NM], [("computeTransformation, proofTransform, setRejectionLimit, setInputSource, setInputTarget", DR), ("match, setScoreThreshold", NM)],
         [("rejection_limit_, alignment_quality_", "limit and quality of the match", DR), ("d2d_, corr_est_", "the matchers used", DR)], ["hasConverged", "getFinalTransformation", "getAlignmentQuality", "NdtScanmatcher::match"])
    NC, NH = S + "ndt/ndt_cell.cpp", I + "ndt/ndt_cell.h"
    prop("C09", "Fusing points into an NDT cell gives the distribution of all its points",
         "An NDT cell's point count, mean and covariance are those of all the points it was given, whatever batches, merges of cells, copies and rigid transforms they arrived through: counts add, the mean is the mean of all points, covariances pool (up to the estimator's bounded regularisation and the floor on eigenvalues). A batch of fewer than six points never creates a distribution nor disturbs an existing one, merging a cell without a distribution changes nothing, and a serialised cell carries exactly these values.",
         ["histories", "inputs"], "every sequence of point insertions, computations, merges, copies and rigid transforms over a set of cells, any point positions",
         "The unit test fuses a few fixed Gaussian clouds and compares loosely; order of batches, small batches, nearly degenerate clouds and merges after transforms are not sampled.",
         [NC, NH], [("NDTCell::computeGaussian, operator+=, transform, serialize", NC), ("rescaleCovar", NC)],
         [("mean_, cov_, points_, points_vec_, gaussian_", "distribution and points waiting for the next computation", NH)],
         ["getMean", "getCov", "getICov", "points", "hasGaussian", "serialize"])
    prop("C10", "Cell occupancy follows the evidence and stays within its bounds",
         "The occupancy of an NDT cell always stays between -1 and 1 and is a number. Points and merged cells raise it, a ray passing through a cell never raises it and lowers it the more the closer it passes to the cell's distribution and the more points it stands for, a ray ending at the distribution's mean makes the cell fully occupied, and a cell whose occupancy falls below zero loses its distribution. Setting and reading occupancy use the documented scale: -1 for free, otherwise percent.",
         ["histories", "inputs"], "every sequence of updates, every ray start, end and weight, degenerate rays included",
         "The tests exercise a few rays; the clamp, the loss of the distribution and degenerate rays depend on the history of a cell.",
         [NC, NH], [("NDTCell::updateOccupancy, calcMaxLikelihoodOnLine", NC), ("getOccupancy/setOccupancy", NH)],
         [("occup_", "bounded log-odds occupancy", NH)], ["getOccupancy", "getOccupancyRaw", "hasGaussian"])
    R = S + "slam_optimizer/switchable_constraints/"
    RH = I + "slam_optimizer/switchable_constraints/"
    M = S + "slam_optimizer/max_mixture/"
    MH = I + "slam_optimizer/max_mixture/"
    prop("C11", "A switch variable stays in [0,1] and scales its edge exactly",
         "An optimiser update leaves a switch variable within 0 and 1, and a rejected step restores exactly the value before it. A switchable pose edge reports the relative-pose error multiplied by the current value of its switch, and Jacobians that are the derivatives of that error for both poses and for the switch. A switch prior reports measurement minus switch and derivative -1. An optimisation never ends with a larger error than it started with.",
         ["histories", "inputs"], "every sequence of updates, saves and restores of switch values, every pose, measurement and switch value",
         "The tests evaluate one edge; clamping, restore order and Jacobians at partially open switches depend on the optimiser's history.",
         [R + "edge_se2Switchable.cpp", R + "vertex_switchLinear.cpp", R + "edge_switchPrior.cpp", RH + "edge_se2Switchable.h", RH + "vertex_switchLinear.h", RH + "edge_switchPrior.h"],
         [("EdgeSE2Switchable::computeError/linearizeOplus", R + "edge_se2Switchable.cpp"), ("VertexSwitchLinear::oplusImpl", R + "vertex_switchLinear.cpp"),
          ("EdgeSwitchPrior::computeError/linearizeOplus", R + "edge_switchPrior.cpp")],
         [("_estimate", "value of the switch", RH + "vertex_switchLinear.h")], ["estimate", "computeError", "linearizeOplus", "push/pop"])
    prop("C12", "A max-mixture edge behaves exactly as its most likely component",
         "Whenever a max-mixture edge (pose to pose, or pose to landmark) is evaluated it selects the component with the highest weighted likelihood for the current estimates - weight, normalisation by the information matrix and error together - and from then on has that component's vertices, measurement, information, error and Jacobians. The components themselves are never changed, and re-initialising the mixture leaves nothing of the old components behind.",
         ["histories", "inputs"], "every set of components, weights and information matrices, and every sequence of moves, evaluations and re-initialisations",
         "The tests have one two-component mixture per kind at one estimate; staleness needs estimates that change the winner between evaluations.",
         [M + "edge_se2_mixture.cpp", M + "edge_se2_pointxy_mixture.cpp", MH + "edge_se2_mixture.h", MH + "edge_se2_pointxy_mixture.h"],
         [("getNegLogProb, computeError, UpdateBelief, initializeComponents (se2)", M + "edge_se2_mixture.cpp"),
          ("getNegLogProb, computeError, UpdateBelief, initializeComponents (pointxy)", M + "edge_se2_pointxy_mixture.cpp")],
         [("allEdges, weights, determinants, bestComponent", "components and the current choice", MH + "edge_se2_mixture.h")],
         ["computeError", "linearizeOplus", "getBestComponent", "getComponent", "measurement", "information", "vertex"])
    prop("C13", "Robust graph elements survive being written and read back",
         "Writing a switch variable, switch prior, switchable edge or max-mixture edge to a stream and reading it into an element of the same registered type reproduces its measurement, information matrix, vertices, components and weights (to the stream's precision), reports success, consumes exactly what was written, and leaves nothing of what the target held before. The library's types are created under the documented tags.",
         ["inputs", "histories"], "every element content, read into fresh and into used objects",
         "No test writes an element; asymmetric fields, several components and reused objects are never sampled.",
         [R + "edge_se2Switchable.cpp", R + "edge_switchPrior.cpp", R + "vertex_switchLinear.cpp", R + "types_g2o_robust.cpp", M + "edge_se2_mixture.cpp", M + "edge_se2_pointxy_mixture.cpp"],
         [("read/write of each element", R + "edge_se2Switchable.cpp"), ("read/write of mixtures", M + "edge_se2_mixture.cpp"), ("type registration", R + "types_g2o_robust.cpp")],
         [], ["read", "write", "g2o::Factory tags"])
    U = I + "utils/"
    PG, PO, RT = I + "slam_optimizer/pose_graph.h", I + "slam_optimizer/slam2d_policy.h", I + "registration/ndt_reg_tools.h"
    prop("C14", "Poses, transforms and relative errors agree with plane geometry",
         "Chaining a motion onto a pose, adding a world-axes increment, taking the displacement between two poses or two frames and applying it, and converting between vectors, planar and spatial matrices all agree with rigid motion in the plane for every pose: conversions invert each other, the relation between two poses applied to the first gives the second, and every heading the library reports lies within a half turn either side. The error of a pose-graph edge is the motion from the measured to the actual relative pose, and its Jacobians are the derivatives of that error for both poses.",
         ["inputs", "histories"], "every chain of poses, any heading including several turns, every pair of frames and measurement",
         "The unit tests check a few poses; wrap-around, composition order and sign conventions show only for general headings and chains of operations.",
         [U + "eigen_tools.h", PO, PG], [("transformPose, transformConcat, transBtwPoses, transBtwFrames, normalizeAngle, conversions", U + "eigen_tools.h"),
          ("Slam2d_Policy::addPoses, calcError, calcJacobianBlocks", PO), ("Edge::getError, getJacobianBlocks, Node::addToPose", PG), ("vecToMat, matToVec", RT)],
         [], ["transformPose", "transBtwPoses", "transBtwFrames", "normalizeAngle", "calcError", "calcJacobianBlocks", "getPoseFromTransform"])
    prop("C15", "Inverting and propagating covariances keeps them valid",
         "Inverting a covariance fails exactly for a matrix without positive trace, and otherwise returns a symmetric positive definite covariance whose smallest eigenvalues are floored at a hundredth of the largest (and which is untouched if they were above that), together with its true inverse, in either precision. Adding the covariance of a further motion gives the first-order covariance of the chained motion, which stays symmetric and positive semidefinite.",
         ["inputs"], "every symmetric matrix, every motion",
         "Tests invert a few matrices; the floor on eigenvalues and coupling terms need particular spectra and headings.",
         [U + "covariance_inverse.h", U + "covariance_wrapper.h"], [("covarInverse", U + "covariance_inverse.h"), ("CovarianceWrapper::addToCovar", U + "covariance_wrapper.h")],
         [("covar_", "accumulated covariance", U + "covariance_wrapper.h")], ["covarInverse", "addToCovar", "covar_"])
    prop("C16", "Splitting a string loses nothing",
         "Splitting terminates and returns pieces that, joined with the separator, give back the original string; no piece contains the separator; an empty separator gives the whole string.",
         ["inputs"], "every string and separator", "The tests split three strings; empty pieces, overlapping and empty separators are not sampled.",
         [U + "string_tools.h"], [("split", U + "string_tools.h")], [], ["split"])
    prop("C25", "The line search of the registration narrows its interval and steps correctly",
         "The More-Thuente interval update keeps the better end, moves the ends exactly as the published cases demand for either search direction and reports convergence only when the derivative vanishes. The next trial is the minimiser the published cases choose among the cubic, quadratic and secant interpolations, within its bound. The sufficient-decrease function, the score parameters fitted to the outlier ratio and the sums of scores with their derivatives follow their definitions.",
         ["inputs", "histories"], "every pair of interval ends and trial step on functions with a minimum, either direction",
         "No test calls these helpers; a wrong case or sign only makes registration converge worse on some scans.",
         [RT], [("updateIntervalMT, trialValueSelectionMT, auxilaryFunction_PsiMT, auxilaryFunction_dPsiMT", RT), ("FittingParams, ScoreAndDerivatives", RT)],
         [], ["updateIntervalMT", "trialValueSelectionMT", "FittingParams"])
    G = I + "ndt/ndt_grid2d.h"
    prop("C19", "Merging keeps every distribution and every point of a map",
         "Initialising a grid from a scan and merging a scan or another grid into it, from any pose and heading, put the distribution of each group of points into the cell containing its mean, as seen from the grid: where the grid already has a distribution the two are pooled (counts add up; mean and scatter are those of the union), nothing else in the grid changes, the merged grid is not altered, and points without a value are ignored. The grid grows to hold what is merged, unless told not to, when what lies outside is left out. If rays are traced, exactly the cells seen through from the sensor's position to the incoming distributions lose occupancy, and distributions that are contradicted disappear.",
         ["histories", "inputs"], "every sequence of merges of scans and grids, every pose of sensor and grid, with and without tracing and growing",
         "No test builds a grid; losses show only after growing, from shifted or turned poses, or when several cells meet in one.",
         [G, I + "utils/point_cloud_tools.h"], [("mergeIn, mergeInTraced, initialize, initializeSimple, createGrid", G), ("getMinMax2D, getMinMaxNDT2D", I + "utils/point_cloud_tools.h")],
         [("grid_", "cells of the map", G), ("initialized_", "whether the extent was decided", G)], ["operator[]", "createOccupancyGrid", "getGaussianCells"])
    prop("C20", "Moving and turning a grid keeps the map where it is in the world",
         "Following the robot, a grid moves by whole cells towards zero, returns exactly the part of the motion it did not use, and shifts its cells and their means so that everything that still fits stays in its place in the world; what leaves the extent is dropped, and a turned grid refuses. Turning a grid rotates every distribution about the grid's origin into the cell it then belongs to, pooling those that meet, and moves the origin by the translation. Setting the origin, clearing, enlarging and copying change nothing else; copies are independent.",
         ["histories", "inputs"], "every sequence of motions, turns and merges",
         "No test moves a grid; drift of means against cells, lost remainders and aliasing build up over several moves.",
         [G], [("move, transform, enlarge, clear, setOrigin, makeShared", G)], [("origin_", "pose of the grid", G), ("grid_", "cells", G)], ["move", "transform", "getOrigin"])
    prop("C26", "Grid queries and exports agree with the grid's contents",
         "At any time: the neighbours of a point are the distributions whose means lie within the radius (its own cell for no radius); the K nearest are the K distributions with the closest means, fewer only if there are fewer; the cloud of means, in the grid's and in world coordinates, has one point per distribution; the occupancy message and the serialised grid have the grid's size, cells, occupancy and the world position of its corner; a coarser grid pools the distributions of the finer one. None of them alters the grid or fails on an empty one.",
         ["histories", "inputs"], "after every history of merges, moves, turns and clears; every query point, radius and count",
         "No test queries a grid; stale search trees and means show only after particular histories.",
         [G], [("getNeighbors, getKNearestNeighbors, getMeans, getMeansTransformed, createOccupancyGrid, serialize, createCoarserGrid", G)],
         [("means_, kdtree_", "cloud of means and its search tree", G)], ["getNeighbors", "getKNearestNeighbors", "getMeans", "getMeansTransformed", "createOccupancyGrid", "serialize", "createCoarserGrid"])
    MP = I + "ndt/ndt_mapper.h"
    prop("C21", "The map is the merge of its frames at their current poses",
         "The mapper holds exactly the frames that were added and not removed. Redrawing merges each of them once, at its current pose and in order of capture, so that after moving, updating, combining or removing frames the map is what those frames make of it and nothing else; adding a frame merges just that frame. Combining two frames leaves the first, with the second merged into it where it lies in the world and with its capture time. Asking for an unknown frame is refused and changes nothing. The published occupancy map lists the cells row by row from the lower left corner, whose world position is the message's origin, with the map's size and resolution and the time of the last redraw; the published cloud has one point per distribution of the map, in the world.",
         ["histories", "inputs"], "every sequence of additions, removals, updates, combinations, moves and redraws",
         "No test uses the mapper; stale or doubled frames, and a mirrored or shifted map, show only after several operations or in asymmetric maps.",
         [MP], [("addFrame, removeFrame, updateFrame, combineFrames, recalc", MP), ("calcOccupancyGridMsg, getPclMap", MP)],
         [("grids_", "frames held", MP), ("map_", "merged map", MP)], ["addFrame", "removeFrame", "updateFrame", "combineFrames", "recalc", "calcOccupancyGridMsg"])
    L, SL = I + "slam_optimizer/loop_detector.h", I + "slam_optimizer/slam2d.h"
    prop("C17", "Loop closures are sought exactly where they are possible",
         "Searching loop closures from a pose hands to the scan matcher, at most once each and at most fifty, the poses of the past (reached against the direction of the constraints) that lie nearer than the maximal distance and from which the robot travelled at least the minimal distance; none that is certain to qualify is left out unless the fifty are used up. The matcher is asked to align the candidate with the start, guessing their relative heading. Exactly the successful matches come back, each as the constraint from the start to the candidate with the matcher's motion and information. The search ends on every graph, and changes nothing in it; attaching closures adds exactly them, detaching removes exactly them.",
         ["histories", "inputs"], "every graph (branches, cycles, several ways to a pose, separate parts), every start, every outcome of matching",
         "No test runs the detector; double or missing attempts need several ways to one pose, earlier searches or earlier closures.",
         [L], [("genLoopClosures, genPossibleEdges, isCloseMatch, addToGraph, removeFromGraph", L)],
         [("visited_, used_", "marks of nodes and edges, clear between searches", PG), ("min_dist_, max_dist_", "limits of the search", L)],
         ["genLoopClosures", "addToGraph", "removeFromGraph", "IScanmatcher2d::match"])
    prop("C18", "The back end keeps what it is told and optimising satisfies it",
         "Poses and constraints are kept under ids in order, with the data and values given. The constraint between the last two poses joins exactly those; closing loops adds one loop constraint for every match, from the pose in question to the matched one, and says whether there were any. Optimising leaves the first pose where it is and poses without constraints alone; if the constraints agree every pose ends where they put it, whatever order and direction they came in; if they do not, they balance at every pose. Afterwards every pose's data knows its new pose. The graph is drawn with one node per pose and one edge per constraint at the current poses, loops told apart from odometry.",
         ["histories", "inputs"], "every sequence of poses, constraints, closures and optimisations with the constrained poses hanging together",
         "No test uses the back end; stale poses, mixed-up ids or directions show after several optimisations or mixed constraints.",
         [SL], [("addPose, addConstrain, addLastConstrain, tryLoopClose, optimalize, updatePoseGraph, getGraphSerialized", SL)],
         [("graph_, id_to_g2o_vertex_, nodes_to_edge_id_", "poses and constraints, and their images in g2o", SL)],
         ["addPose", "addConstrain", "addLastConstrain", "tryLoopClose", "optimalize", "optimalizeIterationaly", "getGraphSerialized", "getPoseLocation"])
    NA = I + "ndt_slam_algorithm.h"
    prop("C22", "The SLAM front end loses no motion and keeps every scan in its place",
         "Odometry is gathered until it exceeds 20 cm or 0.1 rad, then the scan is matched once against the window, starting from the last matched pose moved by all the odometry gathered; a matched scan puts the robot where the matcher says, a failed one where odometry says, and no motion is lost or counted twice. The pose told is the pose in the map moved by odometry not yet used. When the robot has gone farther from its frame's origin than the generation distance, the frame is finished, entered into graph and map with the motion since the frame before, and a new frame starts where the robot is; after the graph is optimised the robot stays where it is seen from the last finished frame. Every scan is kept in one frame only, where the robot was when it was taken; matched ones also in the window, which goes with the robot. The window, the map, the occupancy grid and the drawing of the graph can be had at any time, in the asked frame, the window stamped with the last matched scan.",
         ["histories", "inputs"], "every sequence of motions, scans, match outcomes and loop closures, every setting",
         "No test runs the front end; lost or doubled motion shows after skipped or failed scans only, misplaced scans after several frames or a closed loop.",
         [NA], [("update, updateGraph, movedEnough", NA), ("getOccupancyGrid, getNDTMap, getPclMap, getPclMap2, getGraphSerialized, toNdtMapMsg", NA)],
         [("position_, position_cumul_, last_matcher_pose_, unused_trans_", "pose in the map, in the window, by the matcher; odometry not used yet", NA),
          ("transform_temp_, last_trans_, frame_temp_, frames_", "motion within the frame, since the frame before; frames", NA)],
         ["update", "getNDTMap", "getPclMap", "getPclMap2", "getOccupancyGrid", "getGraphSerialized"])
    NC, NH = "ndt_gslam/src/graph_slam2d_node.cpp", I + "graph_slam2d_node.h"
    prop("C23", "The node tells the truth about where the robot is",
         "Every message pair of the chosen mode (odometry, pose or scan only) that has its transforms at its own time and at least 400 points reaches the algorithm exactly once, with the motion since the last such message, the points as the robot sees them, the planar part of the covariance and the message's time; any other is dropped, and the motion of dropped ones is not lost. After every message, dropped or not, exactly one transform from the map to the odometry frame is published for its time, such that at the last scan used the map, the odometry frame and the robot agree with the pose the algorithm gave; it is the identity before any. After each scan used but the first the occupancy map, window, clouds and (if wanted) graph as of that scan are published in the map's frame. Parameters, their defaults, topics and the prefix of frames are as documented by the launch files; the node survives whatever it gets.",
         ["histories", "inputs"], "every sequence of messages with missing or late transforms and poor scans, every mode, prefix and parameter set",
         "No test starts the node; wrong transforms show when odometry does not start at zero or scans are dropped in between.",
         [NC, NH], [("odom_cb, pose_cb, laser_cb, prepareAllData, preparePoseData, prepareLaserData", NC), ("doAlgorithm, publishTF, updateTFTrans, arrayToMatrix, initParameters", NC)],
         [("last_odom_, last_pose_", "odometry and pose at the last scan used", NH), ("world_tf_trans_", "pose of the odometry frame in the map", NH)],
         ["published transforms and messages", "ISlamAlgorithm::update", "ISlamAlgorithm setters"])
