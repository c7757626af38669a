#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
MAP = ["src/ndt_mapper.cpp", "include/ndt_2d/ndt_mapper.hpp"]
NOMAP = "No test builds the mapper node at all (it needs ROS); its threads have never been scheduled by a test."

# ---------------------------------------------------------------- mapper
p("M01", "The pose graph is well formed in every state anybody can observe",
 """In every published graph, every saved map and every optimizer call, scan ids equal their positions, every
 constraint joins two different scans that are present in that same snapshot, and (in a map built from scratch) every scan but the
 first is tied to its predecessor by exactly one non-switchable constraint (the node of an initial pose: to the node that was nearest to it). This holds whatever the
 interleaving of the scan, initial pose, configure, loop closure and publishing activities.""",
 ["schedules", "histories"], "all interleavings of the three threads over all histories of scans, initial poses and configure requests",
 NOMAP, MAP, [("scan and its constraint are appended in one critical section", "Mapper::laserCallback"), ("graph lock", "Mapper::loopClosureThread, mapPublishThread, configure")],
 [("graph", "scans and constraints", "Mapper::graph_")], ["graph markers", "occupancy grid", "saved bag", "optimizer arguments"])
p("M02", "A scan enters the map exactly once, and only when it should",
 """A received scan becomes a new node of the map if and only if mapping is enabled, the robot is localized, the transforms it needs are available and
 (unless the map is still empty) the robot has travelled at least the minimum distance or rotation (wrapped) in the odometry frame since the
 last accepted scan. Otherwise the map and the tracked pose are left exactly as they were.""",
 ["histories", "inputs", "configurations"], "all histories of scans, odometry poses (including across the +-pi seam), missing transforms and configure requests, all thresholds",
 NOMAP, MAP, [("travel gate", "Mapper::laserCallback"), ("localized flag", "Mapper::laserCallback, poseCallback, configure")],
 [("previous odometry pose", "pose at the last accepted scan", "Mapper::prev_odom_pose_")], ["saved bag", "published graph", "published transform"])
p("M03", "Localization never changes the map",
 """While mapping is disabled - by parameter, by request, or because the particle filter is used - no scan, initial pose, loop closure or
 optimization changes the map: the nodes, poses, points and constraints observed before and after are identical. This also holds for a
 loop closure or optimization that was already under way when the request to disable mapping was answered.""",
 ["schedules", "histories"], "all interleavings of a disable request with loop closure and optimization, all histories of scans and poses while disabled",
 NOMAP, MAP, [("mapping flag re-checked under the graph lock", "Mapper::loopClosureThread"), ("branches of the scan callback", "Mapper::laserCallback")],
 [("mapping flag", "is the map allowed to change", "Mapper::enable_mapping_")], ["saved bag before/after"])
p("M04", "A robot that is not localized ignores scans until a valid initial pose",
 """After a map was loaded or mapping was disabled, scans have no effect on map, tracked pose or filter until an initial pose is accepted.
 An initial pose is accepted only if given in the map frame, with a known odometry transform, not while already localized and mapping, and - when mapping - near enough (10 m)
 to an existing scan, in which case one new node at that pose is tied to the nearest existing node with the given covariance; a rejected initial pose changes nothing.""",
 ["histories", "inputs"], "all histories of load/enable/disable requests, initial poses (frames, distances, covariances, missing transforms) and scans",
 NOMAP, MAP, [("relocalization gate", "Mapper::laserCallback, poseCallback"), ("nearest node", "Mapper::poseCallback")],
 [("localized flag", "odometry and map pose correspond", "Mapper::prev_odom_pose_is_initialized_")], ["saved bag", "published transform", "particle cloud"])
p("M05", "Every map change is eventually published, from one consistent snapshot",
 """After any change of the map (new node, initial pose node, loop closure, optimization, load) and once activity ceases, the last published occupancy grid and graph show
 exactly the final map. Every single published grid or graph equals the map at one instant between the publisher's wake-up and the publication, never a mixture of two states.""",
 ["schedules", "histories"], "all interleavings of map changes with the publisher, including changes that land while a publication is being prepared",
 NOMAP, MAP, [("update flag cleared before the snapshot", "Mapper::mapPublishThread"), ("graph lock", "Mapper::mapPublishThread")],
 [("update flag", "a change was not published yet", "Mapper::map_update_available_")], ["map topic", "graph topic"])
p("M06", "The map to odometry transform always comes from one pose update",
 """Every published map-to-odometry transform equals (tracked pose in the map) composed with the inverse of (odometry pose) of one and the same accepted update (the identity before the first), and that update is
 at least as recent as the last one completed before the publisher woke up. Nothing is published while the map has no scan, and publication goes on for ever while there is one.""",
 ["schedules", "histories"], "all interleavings of scan and initial pose updates with the publisher",
 NOMAP, MAP, [("pose lock", "Mapper::laserCallback, poseCallback, mapPublishThread")],
 [("tracked poses", "pose pair of the last update", "Mapper::prev_robot_pose_, prev_odom_pose_")], ["tf broadcast"])
p("M07", "A scan is placed by odometry, then corrected against the rolling window",
 """The predicted pose of a scan is the last tracked pose moved by the odometry displacement expressed in the robot's own frame (the origin, while the map is empty). When mapping, it is
 matched against exactly the most recent scans up to the configured window depth, the node is placed at prediction plus the returned correction, and the tie to its predecessor encodes
 their relative pose with the inverse of the returned covariance; when only localizing, it is matched against all scans of the current map and the tracked pose becomes prediction plus correction.""",
 ["histories", "inputs", "configurations"], "all sequences of odometry poses (any frame offset, any heading), matcher answers and window depths",
 NOMAP, MAP + ["src/constraint.cpp"], [("prediction", "Mapper::laserCallback"), ("rolling window", "Mapper::laserCallback")],
 [("tracked poses", "pose pair of the last update", "Mapper::prev_robot_pose_, prev_odom_pose_")], ["matcher calls", "saved bag", "tf broadcast"])
p("M08", "Loop closure tries the right candidates, once each, in order",
 """While mapping stays enabled, every scan beyond the initial window is examined for loop closure exactly once, in order, and only against scans that lie before its rolling window and within the configured
 distance, nearest first, skipping scans without points, and at most the configured number of them. No scan is examined twice within one map, and none is left out.""",
 ["schedules", "histories", "configurations"], "all maps, window depths, search distances and limits, all interleavings with new scans",
 NOMAP, MAP + ["src/graph.cpp"], [("progress counter", "Mapper::loopClosureThread"), ("nearest query", "Graph::findNearest")],
 [("progress", "next scan to examine", "Mapper::global_scans_processed_")], ["matcher calls of the loop closure thread"])
p("M09", "Loop closures and optimizations happen exactly when they are warranted",
 """A candidate yields exactly one switchable constraint (relative pose and inverse covariance of the match) and moves the examined scan by the returned correction if and only if the match score is finite and better
 than the running typical score (moved by a twentieth towards the score of every match against the rolling window); otherwise nothing changes. The whole graph is optimized at the end of a pass if and only if that pass closed a loop and more
 than the configured number of scans was added since the last optimization.""",
 ["schedules", "histories", "inputs"], "all match results (including non-finite scores), all node limits, all interleavings with new scans",
 NOMAP, MAP + ["src/ceres_solver.cpp"], [("acceptance test", "Mapper::loopClosureThread"), ("optimization schedule", "Mapper::loopClosureThread")],
 [("typical score", "running average of local matches", "Mapper::typical_matcher_response_")], ["saved bag", "optimizer calls"])
p("M10", "Loading a map replaces everything that belonged to the old one",
 """After a successful load at any time - also during a loop closure pass - the map equals the file's contents and nothing of the old map survives: not in later matches, loop closures, optimizations
 or publications. A load or save that fails leaves the map, the mode and the node itself intact.""",
 ["schedules", "histories", "fault_sequences"], "all interleavings of load with the other threads, all successions of loads, failing loads and saves",
 NOMAP, MAP + ["src/graph.cpp"], [("graph swap under lock", "Mapper::configure"), ("restart of loop closure", "Mapper::loopClosureThread"), ("rebuild of the global NDT", "Mapper::lockGlobalMap")],
 [("graph", "current map", "Mapper::graph_")], ["saved bag", "matcher calls", "optimizer calls", "published topics"])
p("M11", "No deadlock, no data race, no crash, clean shutdown",
 """Whatever the interleaving of its activities, the node never deadlocks, two threads never access the same data at the same time without synchronisation when one of them writes,
 and shutdown at any moment ends all activities. Every request is answered.""",
 ["schedules"], "all interleavings of the three threads, shutdown at every point",
 NOMAP, MAP, [("locks and their order", "Mapper"), ("atomic flags", "Mapper"), ("join in the destructor", "Mapper::~Mapper")],
 [("locks", "matcher lock before graph lock", "Mapper::global_matcher_mutex_, graph_mutex_, prev_pose_mutex_")], ["lock operations", "memory accesses", "thread exits"])
p("M12", "Laser beams become points where the laser really measured them",
 """Each beam whose range is a number not beyond the maximum range becomes exactly one point of the scan, and no other does: the end of the beam, seen from the laser's mounting pose (upright or upside down), carried
 along with the robot's motion up to the moment that beam was measured, expressed in the robot frame at the start of the scan. The maximum range is the configured one, or the sensor's when that is negative.""",
 ["inputs", "configurations"], "all beam counts, angles, ranges (NaN, infinite, too far), mounting poses, robot headings in odometry and motions during the scan",
 NOMAP, MAP, [("projection, mounting and motion compensation", "Mapper::laserCallback")],
 [("mounting pose", "laser in robot frame", "Mapper::laser_transform_, laser_inverted_")], ["points of saved scans", "points given to the matcher"])
p("M13", "Particle filter localization tracks the filter's estimate in the loaded map",
 """With the particle filter, every accepted scan moves the particles by the odometry displacement in the robot's frame, weighs them by the scan's fit to the whole current map, resamples within the
 configured limits, and the tracked pose becomes the filter's mean; the cloud is published after every update and initial pose. An initial pose re-initialises the particles around it with its standard deviations.""",
 ["histories", "inputs", "configurations"], "all sequences of scans, odometry displacements and initial poses, at any heading",
 NOMAP, MAP + ["src/particle_filter.cpp"], [("filter update, measure, resample", "Mapper::laserCallback"), ("filter init", "Mapper::poseCallback")],
 [("filter", "particles", "Mapper::filter_")], ["particle cloud", "tf broadcast", "matcher calls"])
# ---------------------------------------------------------------- graph
p("G01", "A saved map loads back identical",
 """Saving a map and loading the file yields the same scans (order, ids, poses, points) and the same constraints (order, ends, transforms, information, switchability), bit for bit. Saving does not change the map,
 and a second save of the loaded map produces the same file contents.""",
 ["inputs", "histories"], "all graphs: any number of scans and constraints, empty scans, any finite values, asymmetric information matrices",
 "The one graph test saves a two-scan map and needs ROS, so it is not run here.", ["src/graph.cpp", "include/ndt_2d/graph.hpp"],
 [("bag writer and reader", "Graph::save, Graph::Graph(filename)")], (), ["bag contents", "loaded graph"])
p("G02", "Nearest-scan queries return exactly the scans in range, nearest first",
 """A query returns every scan among the first N allowed ones whose reference point (pose, or centre of its points when so configured) is closer than the given distance to that of the queried scan, no other, ordered by distance.
 The answer reflects the current poses, also right after they changed.""",
 ["inputs", "histories"], "all graphs, distances, index limits, both reference modes, interleaved with pose changes",
 "The graph test (not run here) queries three scans at one distance.", ["src/graph.cpp", "include/ndt_2d/graph.hpp"],
 [("kd-tree radius search over squared distances", "Graph::findNearest")], (), ["returned indices"])
p("G03", "The published graph shows every node and constraint where it is",
 """The graph visualisation contains exactly one marker per scan at its current position with its id, and one line per constraint between the current positions of its two ends, with unique ids, loop closures distinguishable from odometry ties by colour,
 all in the map frame at the given time.""",
 ["inputs"], "all graphs", "No test calls it.", ["src/graph.cpp"], [("marker construction", "Graph::getMsg")], (), ["marker array"])
# ---------------------------------------------------------------- core
p("K01", "The centre of a scan is always up to date",
 """The reference point of a scan is its pose moved by the mean of its points rotated into the pose's heading (the pose itself for an empty scan), keeping the pose's heading. It is correct after every history of pose and point changes and queries, and
 queries change nothing else.""",
 ["histories", "inputs"], "all histories of setting poses, setting points and querying, in any order", "No test queries twice around a change.",
 ["src/scan.cpp", "include/ndt_2d/scan.hpp"], [("dirty flag", "Scan::setPose, setPoints, getBarycenterPose")], (), ["getters"])
p("K02", "A constraint encodes the relative pose and its certainty",
 """A constraint made from two scans names them in the given order, holds the second pose expressed in the frame of the first (heading difference modulo a full turn) and the inverse of the given covariance, and is not switchable. It depends on nothing else and
 leaves both scans unchanged.""",
 ["inputs"], "all pairs of poses and all invertible covariances", "The solver test builds constraints only for the poses it samples.",
 ["src/constraint.cpp"], [("frame change and inversion", "makeConstraint")], (), ["constraint fields"])
p("K03", "Optimization moves only poses, keeps the first, and never worsens the map",
 """An optimization leaves the first scan's pose exactly as it was, changes nothing but poses, and never increases the information-weighted error of the constraints. It fails without effect on an empty graph, accepts scans without constraints (which keep their pose), and never crashes.""",
 ["inputs", "histories"], "all graphs and all histories of extending the graph and changing poses between calls",
 "The solver test checks one six-node graph once.", ["src/ceres_solver.cpp", "include/ndt_2d/ceres_solver_pose.hpp"],
 [("constant first node", "CeresSolver::optimize"), ("private copies of poses", "CeresSolver::nodes_")], (), ["poses, points, ids and constraints before/after"])
p("K04", "Optimization finds the information-weighted optimum, however it was fed",
 """The resulting poses are a minimum of the sum, over all constraints, of the information-weighted squared difference between measured and actual relative pose (heading modulo a full turn); if the constraints are consistent the error vanishes.
 Adding scans and constraints over several calls gives the same result as giving them all at once, and poses changed by the caller between calls are the starting point of the next one.""",
 ["inputs", "histories"], "all connected graphs with bounded noise, all ways of splitting them over calls",
 "The solver test has unit information and never calls the solver twice.", ["src/ceres_solver.cpp", "include/ndt_2d/ceres_solver_pose.hpp"],
 [("error term", "PoseGraph2dErrorTerm"), ("incremental problem", "CeresSolver::num_constraints_")], (), ["poses after optimization"])
# ---------------------------------------------------------------- ndt
p("N01", "Cell statistics equal the batch statistics of the points added",
 """Whatever the order of points and however often statistics are recomputed in between, a computed cell holds the number, mean and sample covariance of all its points (from three points on) and the inverse of that covariance with its determinant limited from below
 relative to the larger spread, finite even for coincident points. A cell scores exp of minus half the squared Mahalanobis distance, always within [0, 1], and zero below five points.""",
 ["inputs", "histories"], "all finite point sequences and interleavings of adding, computing and scoring, collinear and coincident points, far from the origin",
 "The tests add three fixed point sets.", ["src/ndt_model.cpp"], [("incremental mean and correlation", "Cell::addPoint, Cell::compute"), ("eigenvalue limit", "Cell::compute")], (), ["cell fields", "scores"])
p("N02", "The NDT grid puts every point in its cell and scores it there",
 """A point of an added scan counts, after transformation by the scan's pose, in exactly the cell of the grid that contains it, and nowhere if it is outside; every point inside the requested extent is kept. A query uses exactly the cell containing the queried point (zero outside),
 and querying a point, a list of points or a scan at its pose agree.""",
 ["inputs", "histories"], "all grid sizes, origins, resolutions, scans and query points, including cell and grid borders",
 "The tests query one 10x10 grid at a few points.", ["src/ndt_model.cpp"], [("cell index", "NDT::getIndex"), ("scan transformation", "NDT::addScan"), ("overloads", "NDT::likelihood")], (), ["scores"])
# ---------------------------------------------------------------- scan matcher
p("S01", "A scan match returns the best pose of the search window and its score",
 """The returned correction lies in the configured window on the search lattice, the returned score is the score of the scan at its pose plus that correction, and no pose of the lattice scores better. The scan and the map are not changed, so
 repeating a match gives the same answer.""",
 ["inputs", "configurations"], "all scans, maps, window sizes and resolutions", "No test covers the scan matcher.",
 ["src/scan_matcher_ndt.cpp", "src/ndt_model.cpp"], [("exhaustive search", "ScanMatcherNDT::matchScan")], (), ["matchScan result", "scorePoints"])
p("S02", "The covariance of a match is the score-weighted spread of the window",
 """The covariance returned by a match equals the second central moment of the offsets of the search window weighted by their scores: symmetric, positive semi-definite and within the window. If nothing matched anywhere, it is that of a uniform distribution over the window.""",
 ["inputs", "configurations"], "all scans, maps, window sizes and resolutions", "No test covers the scan matcher.",
 ["src/scan_matcher_ndt.cpp"], [("moment sums", "ScanMatcherNDT::matchScan")], (), ["covariance"])
p("S03", "Scores use evenly chosen beams, all added scans, and nothing after a reset",
 """A score is minus the mean, over the evenly spaced beams allowed by the configured maximum, of the likelihoods of the transformed beams under the NDT of all the scans last added; scoring a scan equals scoring its points at its pose. No map, a reset map, a scan without points, or no overlap score zero
 with no correction, and never a non-finite value.""",
 ["inputs", "histories", "configurations"], "all histories of adding, resetting and scoring, all beam limits and scan sizes, empty inputs", "No test covers the scan matcher.",
 ["src/scan_matcher_ndt.cpp"], [("subsampling", "ScanMatcherNDT::scorePoints, matchScan"), ("bounds", "ScanMatcherNDT::addScans"), ("reset", "ScanMatcherNDT::reset")], (), ["scores", "matchScan result"])
# ---------------------------------------------------------------- particle filter
p("P01", "Resampling keeps supported particles, in number required by the KLD bound",
 """Resampling yields only copies of particles with positive weight, drawn in proportion to weight and equally weighted afterwards. Their number is the first one that reaches the KLD bound for the number of occupied bins, never below the minimum and never above the maximum.""",
 ["inputs", "histories", "configurations"], "all particle sets, weights, limits and KLD parameters; all random draws (statistically for proportionality)",
 "The particle test (not run here) only looks at mean and covariance after one update.", ["src/particle_filter.cpp", "include/ndt_2d/kd_tree.hpp"],
 [("KLD loop", "ParticleFilter::resample"), ("bin count", "KDTree")], (), ["particle cloud", "mean"])
p("P02", "Filter mean and covariance are those of the current weighted particles",
 """After every operation the reported mean and covariance are the weighted mean (circular for the heading), the weighted position covariance and the weighted squared heading deviation of the current particles, with weights proportional to the last measurement.
 They do not depend on earlier history, and stay finite even when no particle explains the measurement.""",
 ["histories", "inputs"], "all histories of initialisation, motion, measurement and resampling; headings across the +-pi seam; all-zero measurements",
 "The particle test (not run here) checks one update.", ["src/particle_filter.cpp"], [("statistics", "ParticleFilter::updateStatistics")], (), ["getMean", "getCovariance"])
p("P03", "Motion moves every particle by the control, with the configured noise",
 """Without noise, every particle is moved by exactly the commanded displacement in its own frame (turn, straight, turn; directions of moves up to one centimetre ignored) with a normalised heading. With noise, the three parts vary independently per particle with the configured standard deviations,
 driving backwards being no noisier than forwards.""",
 ["inputs", "configurations"], "all particle poses, controls (also backwards, in place, sideways) and noise parameters",
 "The particle test (not run here) checks one forward move.", ["src/motion_model.cpp"], [("motion decomposition and noise", "MotionModel::sample")], (), ["particles before/after"])
p("P04", "The bin counter counts distinct bins",
 """The leaf count of the bin tree equals the number of distinct bins (of the configured sizes, aligned at zero, negative coordinates included) among all keys inserted since creation or the last clear, whatever the order and repetition of insertions.""",
 ["inputs", "histories"], "all insertion sequences and clears", "The kd-tree test (not run here) inserts a handful of keys.", ["include/ndt_2d/kd_tree.hpp"],
 [("insertion and splitting", "KDTree::_insert")], (), ["leaf count"])
p("P05", "Initialising the filter spreads the particles around the given pose",
 """Initialising the filter draws every particle independently and normally around the given pose with the given standard deviations of x, y and heading, all parts independent of each other, headings normalised; the number of particles stays,
 all weigh the same, and nothing of the particles before remains.""",
 ["inputs", "configurations", "histories"], "all poses (headings at the +-pi seam included), standard deviations (zero included) and numbers of particles",
 "No test initialises the filter anywhere but at the origin.", ["src/particle_filter.cpp"], [("initial distribution", "ParticleFilter::init")], (), ["particles"])
# ---------------------------------------------------------------- occupancy grid
p("O01", "The occupancy grid covers the map, and only depends on the scans given",
 """The grid has the configured resolution, is aligned to it, and contains with a margin the poses and points of all given scans (and the map origin); rendering never touches memory outside. The result depends only on the scans given, not on what was rendered before.""",
 ["inputs", "histories", "configurations"], "all scan sets, also negative, far away, moved between renderings, replaced by a smaller map, or empty; all resolutions",
 "No test covers the grid.", ["src/occupancy_grid.cpp", "include/ndt_2d/occupancy_grid.hpp"], [("bounds", "OccupancyGrid::updateBounds")], (), ["grid message"])
p("O02", "Each grid cell is free, occupied or unknown according to the rays through it",
 """Every beam is one connected, straight ray of cells (never more than half a cell off the line) from the cell of the scan's pose to that of its end point: it counts as an occupied observation of the end cell and as a free one of every cell before. A cell no ray touched is unknown (-1); otherwise it is occupied (100) exactly if the occupied share of
 its observations exceeds the threshold, else free (0).""",
 ["inputs", "configurations"], "all scan sets, ray directions and lengths, thresholds and resolutions", "No test covers the grid.",
 ["src/occupancy_grid.cpp"], [("ray casting and classification", "OccupancyGrid::getMsg")], (), ["grid message"])
# ---------------------------------------------------------------- command line tools
p("T01", "Each command asks the mapper for its one thing and waits until it is done",
 """Each of the four commands (enable mapping, disable mapping, load a map, save a map) sends exactly one request, which the mapper understands as exactly the action the command is named after and,
 for load and save, the file name exactly as given; it asks only once the mapper's service is there, however long that takes, and ends successfully only after the mapper has answered, however long that takes.
 Without a file name load and save ask for nothing and fail.""",
 ["inputs", "schedules"], "all file names, all moments at which the service appears and answers, including never",
 "No test runs the scripts.", ["scripts/enable_mapping.py", "scripts/disable_mapping.py", "scripts/load_map.py", "scripts/save_map.py", "srv/Configure.srv"],
 [("wait, ask, spin until answered", "scripts/*.py"), ("action bits", "srv/Configure.srv, Mapper::configure")], (), ["configure requests", "exit of the command"])

# ---------------------------------------------------------------- the whole system
p("W01", "In a world that stands still, the node knows where it is",
 """In a static world of walls, with odometry that slips less from scan to scan than the matcher searches, and a search no coarser than what the walls look like in the map, the node knows where the robot is at all times: tracked pose and the poses of the map's scans stay near the true ones
 (0.8 m and 0.12 rad at any time, 0.08 m and 0.02 rad on the whole; less tightly with the particle filter), and the published grid shows walls where they are and free space inside. So it is when mapping from nothing, when closing loops, when extending or resuming a saved map,
 and when localizing in a loaded one from an initial pose not too far off, backwards driving, turning in place, upside-down and off-centre lasers included.""",
 ["histories", "inputs", "configurations"], "all rooms with walls in every direction, drives, odometry slips within the search window, laser mountings and modes",
 "No test runs mapper, matcher, filter, graph and optimizer together.", ["src/ndt_mapper.cpp", "src/scan_matcher_ndt.cpp", "src/ndt_model.cpp", "src/particle_filter.cpp", "src/graph.cpp", "src/ceres_solver.cpp"],
 [("whole pipeline", "Mapper::laserCallback, ScanMatcherNDT::matchScan, ParticleFilter::update, Mapper::loopClosureThread, Graph::save/load, OccupancyGrid::getMsg")], (), ["tracked pose", "map nodes", "occupancy grid"])

p("I01", "The node comes up in the configured mode, and does what it was configured to do",
 """Whatever combination of parameters is given: with use_particle_filter the node localizes with the filter, whatever enable_mapping says; otherwise it maps if enable_mapping is set (which it is by default) and localizes by scan matching if not. It is localized from the beginning exactly if no map_file was given; with a map_file it holds that map
and puts out neither particles nor new nodes before somebody said, in frame "map", where the robot is. It asks for poses between the configured robot_frame and odom_frame and the frame of the sensor's messages, waits for the transforms of a scan as long as transform_timeout says and no longer, uses a scan whose transforms come in that time and leaves no trace of one whose transforms do not;
it broadcasts the transform from "map" to odom_frame. Both scan matchers, "local_scan_matcher" and "global_scan_matcher", are of scan_matcher_type and are told max_range, or the range_max of the first scan if that is negative, and no reading beyond it is used. The published grid is in frame "map", has the configured resolution, and is kept for late subscribers. The filter keeps between min_particles and max_particles particles, and within these as many as kld_err and kld_z ask for.""",
 ["configurations", "histories", "inputs"], "all combinations of mode, map, frames, range, matcher type and patience, with transforms that come late",
 "No test creates the node.", ["src/ndt_mapper.cpp", "include/ndt_2d/ndt_mapper.hpp"],
 [("start-up and configuration", "Mapper::Mapper, Mapper::laserCallback, Mapper::poseCallback, Mapper::mapPublishThread")], (), ["published map", "broadcast transform", "particle cloud", "plugin initialization", "saved map"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
