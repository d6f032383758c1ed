#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as code for readability)."""
import json, os
I = "ndt_gslam/include/ndt_gslam/"
S = "ndt_gslam/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


PG = I + "slam_optimizer/pose_graph.h"
prop("C01", "Pose-graph ids name one live element and lookups return what was stored",
     "In the pose graph every id handed out by adding a node or an edge names exactly that element until it is removed: lookups return its stored pose, payload, endpoints, measurement, information matrix, state and type. A lookup of an id that names no live element fails with the documented error instead of returning another element. Removing an edge never changes any other node or edge.",
     ["histories", "inputs"], "every sequence of node/edge insertions, edge removals, attribute changes and lookups",
     "The existing tests add and remove a handful of edges in one fixed order; slot reuse depends on the whole history of removals.",
     [PG], [("free list of edge slots", PG), ("Graph::addEdge/removeEdge/getNode/getEdge", PG)],
     [("edges_", "edge slots", PG), ("removed_edges_", "free slots available for reuse", PG)],
     ["Graph::getNode", "Graph::getEdge", "Graph::addNode", "Graph::addEdge", "Graph::removeEdge"])
prop("C02", "Node adjacency lists are exactly the live edges of the pose graph",
     "At every moment the incoming and outgoing edge lists of each pose-graph node contain exactly the live edges that end, respectively start, in that node, each once. Adding an edge registers it with both of its end nodes and removing it unregisters it from both.",
     ["histories", "inputs"], "every sequence of insertions and removals, self loops and parallel edges included",
     "Tests look at adjacency after insertions only; stale references need removal followed by reuse.",
     [PG], [("Graph::addEdge/removeEdge, Node::addEdgeOut/addEdgeIn", PG)],
     [("edges_in_/edges_out_", "ids of the edges of a node", PG)], ["Node::getEdgesIn", "Node::getEdgesOut"])
prop("C03", "Pose-graph iteration visits every live element exactly once",
     "Iterating over the nodes or the edges of the pose graph, with mutable or constant iterators, over the whole graph or over one edge type, visits every live matching element exactly once, in insertion-slot order, never a removed edge, and always terminates.",
     ["histories", "inputs"], "every graph reachable by insertions, removals and type changes; any removed slot positions",
     "The iterator test has no removed edge at the ends of the list; skipping depends on which slots are free.",
     [PG], [("edge and node iterators", PG)], [], ["Graph::beginEdges/endEdges", "Graph::beginNodes/endNodes", "Graph::printNodes"])
VG = I + "ndt/voxel_grid2d.h"
prop("C04", "The voxel grid stores cells as a growing map without losing any",
     "A voxel grid behaves as a map from cell coordinates to cells: adding at a position creates, replaces or (when asked) merges the cell covering it, removal deletes exactly that cell and reports whether there was one, and no other cell changes. Adding outside the extent grows the grid just enough on the needed sides, the extent never shrinks, and every earlier cell is still found at its position.",
     ["histories", "inputs"], "every sequence of additions, removals, enlargements and clears at any positions and cell sizes, cell borders included",
     "The unit tests of the grid are not built in this tree and check single growth steps; aliasing of rows only appears for particular sequences of asymmetric growth.",
     [VG], [("addCell/removeCell/enlarge/enlargeToFit", VG)],
     [("cells_, width_left_, width_right_, height_up_, height_down_", "row-major cells and extent around the centroid", VG)],
     ["VoxelGrid2D::addCell", "removeCell", "getCellPtr", "left/right/up/down"])
prop("C05", "Translating a voxel grid moves every cell by the same number of cells",
     "Translating a voxel grid by whole cells moves every cell by exactly that displacement. With discarding on, the extent stays the same and exactly the cells that leave it are dropped; with discarding off the grid grows and no cell is lost.",
     ["inputs", "histories"], "every grid shape and content, every displacement including ones larger than the grid",
     "Tests translate by one cell in a few directions; in-place moves go wrong for particular sign combinations and sizes.",
     [VG], [("VoxelGrid2D::translate", VG)], [], ["VoxelGrid2D::translate"])
prop("C06", "Voxel grid queries agree with the stored cells",
     "Point lookup, existence, bounds test, cell centre, neighbourhood of a radius, listing, iteration, printing and the count of valid cells all describe the same set of stored cells. A neighbourhood query returns exactly the stored cells at most the radius away in each axis, each once, and none for a position outside the grid.",
     ["inputs", "histories"], "every grid content and query position, including positions on cell borders and outside the grid, any radius",
     "Tests query a fixed 3x3 grid; borders, asymmetric extents and histories with removed or translated cells are not reached.",
     [VG], [("getNeighbors/cellExists/isInside/getValidCells/validCells/print", VG)], [],
     ["VoxelGrid2D::getNeighbors", "cellExists", "isInside", "getCentroid", "getValidCells", "validCells", "print"])
prop("C07", "Ray tracing visits the cells along the ray and stops before its end",
     "Tracing a ray through a voxel grid returns a connected, duplicate-free, monotone sequence of cells that starts with the cell of the origin, contains only cells the ray touches and every cell it crosses well, stays inside the grid and stops short of the cell of the end point. A ray starting outside returns nothing, and tracing only creates empty cells on its way.",
     ["inputs"], "every origin, end point, direction, length and grid extent",
     "Only axis-aligned and diagonal rays of one length are tested.",
     [VG], [("VoxelGrid2D::rayTrace", VG)], [], ["VoxelGrid2D::rayTrace"])
prop("C08", "Copies of a voxel grid are equal and independent",
     "A copied or copy-assigned voxel grid has the same extent and cells as its source, and later changes of either do not affect the other; a moved-to grid takes over the content, self-assignment changes nothing, and an empty clone has the same cell size and no content.",
     ["histories"], "every content and every later history of either grid",
     "No test copies a grid.", [VG], [("copy/move constructors and assignment, clone", VG)], [], ["VoxelGrid2D special members"])

if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    try:
        import properties2
        properties2.add(prop, I, S)
    except ImportError:
        pass
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
