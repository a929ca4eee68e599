import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
E="extraction/include/lidar_feature_extraction/"
L="localization/include/lidar_feature_localization/"
K="ekf_localizer/include/ekf_localizer/"
p("C01","Scan-line sectors tile the usable part of the line exactly",
  "Splitting the usable index interval of a scan line into the requested number of sectors gives consecutive half-open sectors: the first starts at the beginning of the interval, the last ends at its end, and each sector starts where the previous one ends. No sector is empty when the interval has at least as many points as sectors, and sector sizes differ by at most one. The usable interval itself is the line minus the padding at both ends, and a line that cannot hold padding and one point per sector is rejected with an error, as is any sector index outside the requested number.",
  ["inputs"],"every line length, padding and sector count whose products fit the machine types, and every sector index",
  "The tests look at a few hand-picked intervals; rounding can only go wrong for particular (length, count) pairs, of which there are unboundedly many.",
  [E+"index_range.hpp","extraction/src/index_range.cpp"],[("sector boundary interpolation","extraction/src/index_range.cpp: IndexRange::Boundary"),("padding and length guard","extraction/include/lidar_feature_extraction/index_range.hpp: PaddedIndexRange")])
p("C02","Label spreading covers exactly the unbroken run around a point",
  "Spreading a label from a point changes exactly those points that lie within the padding distance (or the given half-open range) on the requested side(s) and are joined to the start by an unbroken chain of neighbouring points; every other label keeps its value. Spreading around any point of the scan never fails and never touches an index outside the scan, and a one-sided request that leaves the scan is rejected with an error without changing any label.",
  ["inputs"],"every scan length, start, range or padding, prior labels and neighbour relation",
  "Tests use three or four fixed neighbour patterns of length below ten; off-by-one errors at gaps and scan ends need the right combination of gap position, padding and index.",
  [E+"fill.hpp"],[("directed fills","fill.hpp: FillFromLeft, FillFromRight"),("clamped two-sided fill","fill.hpp: FillNeighbors")])
p("C03","Edge and surface labels respect thresholds, exclusions and separation",
  "A point becomes an edge only if it was still unlabelled and its curvature is at least the edge threshold, and a surface point only if it was still unlabelled and its curvature is at most the surface threshold; when selection ends no unlabelled point satisfies the threshold. Candidates are considered in order of curvature, from the largest for edges and from the smallest for surfaces, and a selected point marks the connected points within the padding as its neighbours so they are not selected afterwards. Only the selected points and those connected points change their label.",
  ["inputs"],"every curvature sequence, neighbour relation, padding, thresholds and prior labels",
  "Tests check a few curvature vectors of length below 20 with one padding; selection is a greedy history in which each decision depends on all previous ones.",
  [E+"label.hpp",E+"fill.hpp",E+"algorithm.hpp"],[("edge selection","label.hpp: EdgeLabel::Assign"),("surface selection","label.hpp: SurfaceLabel::Assign"),("curvature order","algorithm.hpp: Argsort")])
p("C04","Occlusion marks exactly the points in the shadow of a range jump",
  "Where two neighbouring points of a scan line differ in range by more than the threshold, the farther point and the padding-bounded unbroken run of points behind it, away from the nearer point, are marked occluded, in both scan directions. No other point changes its label, and the marking never fails or leaves the scan for any padding and scan length.",
  ["inputs"],"every range sequence, neighbour relation, padding, threshold and prior labels",
  "Tests cover single jumps in short lines; combinations of several jumps, gaps, paddings near the line length and both directions are not reachable by samples.",
  [E+"occlusion.hpp",E+"fill.hpp"],[("left-to-right marking","occlusion.hpp: FromLeft"),("right-to-left marking","occlusion.hpp: FromRight")])
p("C05","Out-of-range and parallel-beam marks follow their definitions pointwise",
  "A point is marked out of range exactly when its distance in the horizontal plane is below the minimum or above the maximum (both bounds are allowed distances), and it is marked as parallel beam exactly when it is not the first or last point and its range changes relative to both its neighbours by more than the given ratio of its own range. All other labels are left as they were.",
  ["inputs"],"every scan line, minimum and maximum range, ratio and prior labels",
  "Tests use one short line each; boundary values, first and last points and two-sided conditions need every input to be considered.",
  [E+"out_of_range.hpp",E+"parallel_beam.hpp",E+"range.hpp"],[("range gate","out_of_range.hpp: LabelOutOfRange"),("ratio test","parallel_beam.hpp: LabelParallelBeamPoints")])
p("C06","Curvature is the squared centred range difference, aligned with the points",
  "For every point with a full window, curvature equals the square of the sum of the ranges in the window minus window-size times the centre range; the result has exactly one value per input point with a full window replaced by neutral values at the padding, aligned with the point index. Convolution of a signal with a kernel returns, for every full overlap, the inner product of the kernel with the aligned piece of the signal, and nothing else.",
  ["inputs"],"every range sequence, padding and kernel",
  "Tests evaluate a handful of short vectors; index alignment and window bounds must hold for all lengths and paddings.",
  [E+"curvature.hpp",E+"convolution.hpp","extraction/src/curvature.cpp","extraction/src/convolution.cpp"],[("kernel","extraction/src/curvature.cpp: MakeWeight"),("sliding inner product","extraction/src/convolution.cpp: Convolution1D")])
p("C07","Points of a ring are ordered by azimuth consistently",
  "Sorting the points of a ring by azimuth uses a relation that is a strict weak order (irreflexive, asymmetric and transitive, also for incomparable points) on all points off the origin, and that orders points by increasing azimuth with the half-turn cut on the negative axis. Grouping a cloud by ring puts every point index into exactly one group, the one of its ring number, and each group keeps all and only the points with that number.",
  ["inputs"],"every triple of finite points and every point cloud",
  "Tests sort a few points in general position; the order breaks only for special configurations such as points exactly on the axis.",
  [E+"ring.hpp","extraction/src/ring.cpp"],[("azimuth comparison","extraction/src/ring.cpp: AtanLess / ring.hpp: SortByAtan2"),("grouping","ring.hpp: ExtractAngleSortedRings")])
json.dump(P,open('/tmp/w/p1.json','w'))
P[6]["statement"]="Sorting the points of a ring by azimuth uses a relation that is a strict weak order on all finite points (irreflexive, asymmetric, transitive, with transitive incomparability) and that orders points by azimuth counter-clockwise from the negative horizontal axis, that axis itself coming last and a point at the origin counting as azimuth zero. The sorted ring is a permutation of the ring, in non-decreasing azimuth. Removing sparse rings keeps exactly the rings with at least the required number of points."
P[5]["statement"]="For every point with a full window inside the line, curvature equals the square of the sum of the ranges in the window minus the window size times the centre range; the result has one value per input point, aligned with the point index, and is zero within the padding at both ends. Convolution of a signal with a kernel of odd length returns, at every full overlap, the inner product of the kernel with the aligned piece of the signal, and zero elsewhere; a signal shorter than the kernel is rejected with an error."
P[3]["statement"]="In a scan line long enough to hold the padding, wherever a point is followed by a neighbouring point that is farther by more than the threshold, that farther point and the unbroken run of at most the padding number of points behind it (away from the nearer point) are marked occluded, scanning the line in both directions except where the marking would not fit in the line. No other point changes its label, and the marking never fails or leaves the line."
p("C08","Neighbour relation is the angular distance test and never breaks down",
  "Two points are neighbours exactly when the angle between their horizontal directions is below the threshold; the relation is symmetric, depends only on the two points, and gives an answer for every pair of points that are not both at the origin. An index outside the line is rejected with an error, restricting the relation to a sub-range of the line is the same as shifting the indices, and a line of fewer than two points is rejected.",
  ["inputs"],"every pair of finite points, threshold, line and sub-range",
  "Tests use a few point pairs; rounding can push the cosine outside its domain only for particular coordinates, and index shifts need every sub-range.",
  [E+"neighbor.hpp",E+"math.hpp","extraction/src/math.cpp",E+"mapped_points.hpp"],[("angle between points","extraction/src/math.cpp: CalcRadian"),("indexed relation","neighbor.hpp: NeighborCheckXY"),("sub-range","mapped_points.hpp: MappedPoints::Slice")])
p("C09","Index-based selection and views return exactly the requested elements in order",
  "Selecting elements by index returns, in order, exactly the elements at those indices; collecting the indices of a value returns all and only the positions holding it, in increasing order. A view onto part of a sequence reads and writes exactly the elements of that part and rejects any index outside it with an error. Index lists sorted by value are permutations of all positions with non-decreasing values.",
  ["inputs"],"every sequence, index list, value and sub-range",
  "Tests use a few fixed short arrays; the claims quantify over all lengths, contents and indices.",
  ["lib/include/lidar_feature_library/algorithm.hpp","lib/include/lidar_feature_library/span.hpp",E+"algorithm.hpp",E+"mapped_points.hpp",E+"range.hpp"],
  [("selection","lib algorithm.hpp: GetByIndices, GetIndicesByValue"),("views","lib span.hpp: span, const_span"),("sorted indices","extraction algorithm.hpp: Argsort")])
p("C10","Scale estimate is the normalised median absolute deviation",
  "The robust scale of a set of residuals is the median of the absolute deviations from the median times the constant that makes it consistent for a normal distribution; it is never negative and does not change when a constant is added to all residuals. The median of an odd number of values is the middle one and of an even number the mean of the two middle ones in sorted order, whatever the input order, and the input is not modified.",
  ["inputs"],"every non-empty finite list of residuals",
  "Tests evaluate a handful of fixed lists; order independence and shift invariance quantify over all lists and permutations.",
  ["lib/src/stats.cpp","localization/src/robust.cpp"],[("median","lib/src/stats.cpp: Median"),("scale","localization/src/robust.cpp: MedianAbsoluteDeviation, Scale")])
p("C11","Robust weights are bounded, monotone and match the loss they derive from",
  "The robust loss equals the squared error up to the cut-off and grows linearly in the residual beyond it, is continuous and non-decreasing at every squared error, and its weight is the derivative of the loss: one up to the cut-off and decreasing towards zero beyond it, never negative and never above one. Squared errors are normalised by the scale so that weights and their number match the residuals one to one, and the weighted update solves the weighted normal equations.",
  ["inputs"],"every finite squared error, positive cut-off and list of residuals",
  "Tests sample a few values on both sides of the cut-off; bounds, continuity and monotonicity are statements about all values.",
  ["localization/src/robust.cpp","localization/src/optimizer.cpp"],[("loss","localization/src/robust.cpp: Huber"),("weight","localization/src/robust.cpp: HuberDerivative"),("weights per residual","localization/src/optimizer.cpp: ComputeWeights")])
p("C12","Rotation algebra is consistent between its representations",
  "The left and right multiplication matrices of a quaternion reproduce the quaternion product for every pair of quaternions, the skew matrix of a vector reproduces the cross product and is antisymmetric, and the homogeneous matrix of a rotation vector and translation places them in the fixed positions. The matrix built from a quaternion is the derivative of the rotated-vector action that the product implies.",
  ["inputs"],"every quaternion and vector",
  "Tests compare a few random or fixed quaternions within a tolerance; the identities are polynomial and must hold for all values and every matrix entry.",
  ["rotationlib/src/quaternion.cpp","rotationlib/src/hat.cpp"],[("product matrices","rotationlib/src/quaternion.cpp: LeftMultiplicationMatrix, RightMultiplicationMatrix"),("skew matrix","rotationlib/src/hat.cpp: Hat")])
p("C13","Derivative of a rotated point with respect to the quaternion is exact",
  "For every unit or non-unit quaternion and every point, the derivative matrix of the rotated point with respect to the quaternion components equals the partial derivatives of the polynomial that defines the rotated point.",
  ["inputs"],"every quaternion and point",
  "Tests compare to numerical differences at a few random samples within a tolerance, which misses entries that vanish or nearly vanish there.",
  ["localization/src/jacobian.cpp","rotationlib/src/quaternion.cpp"],[("rotated-point derivative","localization/src/jacobian.cpp")])
json.dump(P,open('/tmp/w/p1.json','w'))
p("C14","Edge and plane residuals match their geometry and their Jacobians",
  "The edge residual of a point and a line through two points is the cross product of the differences to the two points, so it vanishes exactly on the line, and its norm is the distance to the line times the length of the segment. The plane residual is the signed distance of the point to the fitted plane. The Jacobian rows supplied with both residuals are the exact derivatives of the residual at the transformed point with respect to the pose's quaternion and translation.",
  ["inputs"],"every pose, point, line and plane",
  "Tests compare a few fixed poses to expected numbers or numerical differences within a tolerance; the identities are polynomial and must hold for every value and every matrix entry.",
  ["localization/src/edge.cpp",L+"edge.hpp",L+"surface.hpp",L+"jacobian.hpp","localization/src/jacobian.cpp"],
  [("edge residual and Jacobian","localization/src/edge.cpp: MakeEdgeResidual, MakeEdgeJacobianRow"),("plane distance and Jacobian","surface.hpp: SignedPointPlaneDistance, MakeJacobianRow")])
p("C15","The optimiser reports its outcome truthfully and stops when it should",
  "An optimisation never performs more than the permitted number of steps; it stops at the first step whose update is small in both rotation and translation and reports convergence, stops without applying a further update when the residual error or its scale grows or when there is nothing to match, and otherwise reports that the permitted number was reached. The reported outcome and iteration number name the event that ended it, and the returned pose is the pose after exactly the updates that were applied. A degenerate normal matrix leads to a zero update.",
  ["inputs","histories"],"every initial pose, iteration limit and sequence of residuals the matching problem may produce",
  "Tests run two convergent problems; the exits depend on histories of errors and scales that these problems never produce.",
  [L+"optimizer.hpp","localization/src/optimizer.cpp",L+"optimization_result.hpp","localization/src/degenerate.cpp"],
  [("iteration and exits","optimizer.hpp: Optimizer::Run"),("convergence test","localization/src/optimizer.cpp: CheckConvergence"),("degeneracy","localization/src/degenerate.cpp: IsDegenerate")])
p("C16","Rotation-vector to quaternion conversion and pose assembly are exact",
  "Converting a rotation vector yields the quaternion whose vector part is the sine of half its length times its direction and whose scalar part is the cosine of half its length, which is always of unit length; a rotation vector shorter than a fixed tiny bound gives the identity. A pose assembled from a unit quaternion or rotation vector and a translation acts on a point as that rotation followed by that translation.",
  ["inputs"],"every rotation vector, unit quaternion and translation",
  "Tests check a few fixed vectors; behaviour at and near zero rotation and every matrix entry are statements about all values.",
  ["localization/src/posevec.cpp",L+"posevec.hpp","lib/src/eigen.cpp"],[("conversion","localization/src/posevec.cpp: AngleAxisToQuaternion"),("assembly","localization/src/posevec.cpp: MakePose; lib/src/eigen.cpp: MakeIsometry3d")])
p("C17","The Kalman filter performs the textbook predict and update",
  "Prediction moves the mean through the transition matrix (plus the input term) and the covariance to A P A' + Q; an update with a measurement adds the gain times the innovation to the mean and removes gain times C times P from the covariance, with gain P C' (R + C P C')^-1. Invalid gains are rejected with an error and leave mean and covariance unchanged. Successive operations act on the result of the previous ones.",
  ["inputs","histories"],"every state, covariance, model and measurement, of every sequence of operations",
  "Tests check single numeric examples; matrix identities quantify over all values and operation sequences.",
  ["kalman_filter/src/kalman_filter.cpp","kalman_filter/include/kalman_filter/kalman_filter.hpp"],[("predict","kalman_filter/src/kalman_filter.cpp: predictXandP"),("update","kalman_filter/src/kalman_filter.cpp: update, calcKalmanGain")])
p("C18","The delayed-measurement filter keeps a consistent history of states",
  "After every prediction the newest state is the predicted one, each older state in the window is what the newest was that many steps earlier, the oldest is dropped, and the joint covariance follows from the transition acting on the newest block alone. A measurement with a delay acts on the state at that delay and through the joint covariance on all others; a delay outside the window is rejected with an error and changes nothing. Reading the state of delay zero gives the newest state.",
  ["inputs","histories"],"every state, covariance, window length, delay and operation sequence",
  "Tests use one or two steps with small fixed matrices; block bookkeeping must be right for every dimension, delay and history.",
  ["kalman_filter/src/time_delay_kalman_filter.cpp","kalman_filter/include/kalman_filter/time_delay_kalman_filter.hpp"],[("history shift","kalman_filter/src/time_delay_kalman_filter.cpp: updateX, updateP"),("delayed update","kalman_filter/src/time_delay_kalman_filter.cpp: UpdateWithDelay")])
p("C19","The prediction interval is measured from consecutive times and stays bounded",
  "The first time reading gives the default interval derived from the nominal frequency; every later reading that does not go backwards gives the time elapsed since the previous one, limited to a fixed maximum, and a backward jump gives the default interval again instead of a negative or huge one. The interval is never negative.",
  ["histories","inputs"],"every sequence of time readings and default frequency",
  "Tests follow a sequence of a few readings; the claim is about all histories including jumps.",
  ["ekf_localizer/src/update_interval.cpp",K+"update_interval.hpp"],[("interval from time readings","ekf_localizer/src/update_interval.cpp: UpdateInterval, ComputeInterval")])
p("C20","Vehicle motion prediction and its Jacobian and noise agree with the model",
  "The predicted state integrates speed and yaw rate over the interval along the current heading (yaw plus yaw bias), leaves bias, speed and yaw rate unchanged, and keeps yaw and bias within one full turn; the transition matrix is the exact partial derivative of that prediction at the current state, with every other entry the identity. Process noise is diagonal with the given variances at yaw, yaw bias, speed and yaw rate.",
  ["inputs"],"every state and interval",
  "Tests compare to numerical differences at one or two states within a tolerance; exact derivative and every matrix entry quantify over all states.",
  ["ekf_localizer/src/state_transition.cpp",K+"normalize_yaw.hpp"],[("motion model","ekf_localizer/src/state_transition.cpp: predictNextState, createStateTransitionMatrix, processNoiseCovariance")])
p("C21","Each queued measurement is used exactly as often as its age limit allows",
  "Messages leave the queue in the order they arrived; each is handed out until it has been handed out the permitted number of times and is then discarded, and no message is lost, duplicated within a round or handed out more often. The queue's size always equals the number of messages not yet exhausted, and clearing empties it.",
  ["histories"],"every sequence of push, pop and clear and every age limit",
  "Tests walk through one short sequence; the order and ageing of messages is a statement about all histories.",
  [K+"aged_message_queue.hpp"],[("re-queueing pop","aged_message_queue.hpp: AgedMessageQueue::pop")])
p("C22","Covariances are copied between filter state and messages entry by entry",
  "The covariance written to a pose or twist message places the variances and covariances of the filter's position, yaw, speed and yaw rate at the message's positions for those axes and zero elsewhere, symmetric whenever the filter's is, and the measurement covariance read from a message takes exactly the entries of position and yaw (or speed and yaw rate) scaled by the smoothing steps. Converting a full pose covariance from message to matrix and back changes nothing.",
  ["inputs"],"every covariance matrix, message array and smoothing factor",
  "Tests fill a few entries; a swapped pair of indices is visible only if all entries differ and all are compared.",
  ["ekf_localizer/src/covariance.cpp","ekf_localizer/src/pose_measurement.cpp","ekf_localizer/src/twist_measurement.cpp","lib/src/eigen.cpp","lib/include/lidar_feature_library/eigen.hpp"],
  [("filter to message","ekf_localizer/src/covariance.cpp"),("message to measurement","ekf_localizer/src/pose_measurement.cpp: PoseMeasurementCovariance"),("array and matrix","lib eigen.hpp: GetEigenCovariance, FromEigenCovariance")])
p("C23","Only valid, plausible measurements reach the filter",
  "A measurement whose delay does not fit the filter's window, that contains a value that is not finite, or whose Mahalanobis distance from the prediction exceeds the limit never changes the filter, and every other queued measurement is applied once per round with the delay of its time stamp. The Mahalanobis gate accepts exactly the distances up to its limit, and a delay is the non-negative time difference divided by the step, rounded to the nearest.",
  ["inputs","histories"],"every queue of measurements, filter state and gate limit",
  "The tests cover the distance function at a point; the gating loop around the filter has no test at all.",
  ["ekf_localizer/src/pose_measurement.cpp","ekf_localizer/src/twist_measurement.cpp","ekf_localizer/src/mahalanobis.cpp","ekf_localizer/src/check.cpp",K+"delay.hpp"],
  [("pose gating","ekf_localizer/src/pose_measurement.cpp: PoseMeasurement::Update"),("twist gating","ekf_localizer/src/twist_measurement.cpp"),("distance gate","ekf_localizer/src/mahalanobis.cpp"),("delay","delay.hpp: ComputeDelayStep")])
p("C24","The time-stamped store returns the entry closest in time and never fails",
  "Looking up a time in a store that is not empty returns a stored time stamp no farther from the requested one than any other and the object stored with it. Pruning at a time keeps exactly the entries up to that time and never fails, whatever the stored times. The store's size is the number of distinct time stamps inserted and not pruned.",
  ["inputs","histories"],"every set of stamps, requested time and sequence of insertions and prunings",
  "Tests use three entries; queries before the first, after the last, at ties and prunings outside the range are unbounded cases.",
  [L+"stamp_sorted_objects.hpp"],[("closest lookup","stamp_sorted_objects.hpp: GetClosest"),("pruning","stamp_sorted_objects.hpp: RemoveOlderThan")])
p("C25","Odometry matches each scan against the most recent ones and chains poses",
  "The first scan of an odometry run enters the map at the initial pose without matching; every later scan is matched from the pose of the previous one, becomes the current pose, and enters the map at that pose. The map used for matching consists of the most recently added scans up to the configured number, each exactly once.",
  ["histories"],"every sequence of scans and window length",
  "Tests add two or three scans; the claims quantify over histories longer than the window.",
  [L+"odometry.hpp",L+"recent_scans.hpp",L+"localizer.hpp"],[("pose chain","odometry.hpp: Odometry::Update"),("recent map","recent_scans.hpp: RecentScans::GetRecent")])
p("C26","Map building adds a scan only when it is new information",
  "The map grows by a scan's points, transformed by the scan's pose, exactly when the scan is not empty and the map is still empty or the pose differs from that of the last scan added by at least the distance or the rotation limit. Skipped scans change neither the map nor the reference pose, so small motions accumulate until one limit is reached.",
  ["histories"],"every sequence of scans and poses",
  "There is no test of the keyframe decision, which depends on the history of accepted poses.",
  ["mapping/include/lidar_feature_mapping/map.hpp","mapping/src/mapping.cpp"],[("keyframe decision","map.hpp: MapBuilder::Callback")])
p("C27","Point-type conversion keeps every point and its coordinates",
  "Converting a recorded point cloud to the ring-annotated layout keeps the number and order of the points, copies every coordinate and intensity unchanged, and gives each point the ring of its scan line.",
  ["inputs"],"every recorded cloud",
  "There is no test of the converter's field mapping.",
  ["point_type_converter/point_type_converter/convert.py"],[("conversion","convert.py")])
p("C28","Scalar filtering corrects towards the measurement by the optimal share",
  "The scalar filter's first measurement initialises its state exactly; every later update moves the state towards the measurement by a share between zero and one given by the ratio of the state variance to the sum of state and measurement variances, and never increases the variance.",
  ["inputs","histories"],"every sequence of measurements and variances",
  "Tests check single updates at fixed numbers; bounds and history claims quantify over all.",
  ["ekf_localizer/src/ekf_localizer.cpp",K+"ekf_localizer.hpp"],[("one-dimensional filter","ekf_localizer.hpp: Simple1DFilter")])
p("C29","Small text and angle helpers are total",
  "Removing the leading slash of a frame name returns the name without exactly one leading slash, or unchanged when there is none, for every name including the empty one. Angle normalisation returns an angle between minus and plus half a turn with the same sine and cosine.",
  ["inputs"],"every string and every finite angle",
  "Tests use one string and a few angles; empty strings and extreme angles are not covered.",
  ["ekf_localizer/src/string.cpp",K+"normalize_yaw.hpp","lib/include/lidar_feature_library/degree_to_radian.hpp"],[("slash removal","ekf_localizer/src/string.cpp: EraseBeginSlash"),("angle normalisation","normalize_yaw.hpp: normalizeYaw")])
p("C30","A failed transform lookup never re-initialises the filter",
  "When an initial pose is given in another frame and no transform into the filter's frame is available, the filter's state stays as it was; otherwise the state is initialised from the pose moved by exactly that transform, with zero bias, speed and yaw rate.",
  ["inputs","fault_sequences"],"every initial pose and every outcome of the transform lookup",
  "The node has no test; the failure path needs a missing transform.",
  ["ekf_localizer/src/ekf_localizer.cpp"],[("initial pose","ekf_localizer/src/ekf_localizer.cpp: callbackInitialPose")])
p("C31","Localisation starts from the prior pose closest in time and reports the matched pose once",
  "Every prior pose received, as a pose or as odometry, is stored at its own time stamp. A scan that arrives before any prior pose produces no output. Every other scan produces exactly one pose and one transform: both are the pose the optimiser finds for the scan's edge and surface clouds started from the prior pose closest in time to the edge cloud (either one when two are equally close), whether or not the optimiser reports success; both carry the edge cloud's time stamp and are given in the map frame (the transform to lidar_feature_base_link), and the pose's covariance is the fixed diagonal 1, 1, 1, 0.1, 0.1, 0.1. Afterwards the priors more than one second later than the scan are dropped and all others are kept.",
  ["inputs","histories"],"every set of stored priors, every scan and every time stamp",
  "The node's callbacks have no test; the choice of the start depends on all priors stored so far.",
  ["localization/include/lidar_feature_localization/subscriber.hpp","localization/include/lidar_feature_localization/localizer.hpp","lib/src/ros_msg.cpp"],[("callbacks","subscriber.hpp: LocalizationSubscriber::PoseUpdateCallback, SetOptimizationStartPose"),("start and result","localizer.hpp: Localizer::Init, Update, Get")])
p("C32","A scan's published features are exactly its points labelled so, ring by ring",
  "For every dense scan whose message has a ring channel, the node publishes exactly one edge cloud, one surface cloud and one colored cloud, each with the scan's time stamp and in the lidar_feature_base_link frame, and asks for no shutdown. The edge and the surface cloud hold the positions of exactly those points that end up labelled edge and surface, and the colored cloud every point of the rings used in its label's colour, each point once. A ring is used exactly when it has at least twice the padding plus one points and, besides twice the padding, at least one point per block; a shorter ring is skipped without affecting the others. The labels of a ring depend on its own points in azimuth order and the configured limits alone: selection of edges and surfaces within the blocks by the ring's curvature first, then occlusion, then the range limits, then parallel beams. A scan that is not dense or has no ring channel makes the node ask for its shutdown. A feature kept for publishing has its point's position and ring and carries its curvature as intensity.",
  ["inputs"],"every scan and every configuration of the node",
  "The node itself has no test; what it publishes depends on all rings of a scan together, including those too short to use.",
  ["extraction/app/feature_extraction.cpp","extraction/include/lidar_feature_extraction/label.hpp","extraction/include/lidar_feature_extraction/color_points.hpp","lib/include/lidar_feature_library/ros_msg.hpp"],[("callback","feature_extraction.cpp: FeatureExtraction::Callback"),("output points","label.hpp: AppendXYZIR; color_points.hpp: ColorPointsByLabel")])
S={x["id"]:x for x in P}
S["C03"]["statement"]="A point becomes an edge only if it was still unlabelled and its curvature is at least the edge threshold, and a surface point only if it was still unlabelled and its curvature is at most the surface threshold; when selection within a block ends, no unlabelled point of the block satisfies the threshold. Within a block candidates are considered in order of curvature, from the largest for edges and from the smallest for surfaces, and a selected point marks the connected points within the padding as its neighbours so they are not selected afterwards. Only the selected points and those connected points change their label; a block of fewer than two points is rejected with an error."
S["C11"]["statement"]+=" The default cut-off is 1.345."
S["C12"]["statement"]="The left and right multiplication matrices of a quaternion reproduce the quaternion product for every pair of quaternions, the skew matrix of a vector reproduces the cross product and is antisymmetric. The matrix that maps a step of rotation vector and translation to a step of quaternion and translation has as its rotation part the derivative of q(1, w/2) with respect to the rotation vector w, the identity as its translation part, and zeros elsewhere."
S["C15"]["statement"]+=" Every update applied solves the normal equations of the matching problem, weighted by the robust weights of its residuals, at the pose it is applied to."
S["C16"]["statement"]=S["C16"]["statement"].replace("a rotation vector shorter than a fixed tiny bound gives the identity","a rotation vector shorter than 1e-8 gives the identity")
S["C18"]["statement"]="After every prediction the newest state is the predicted one, each older block of the window is what the block before it was before the prediction (so without measurements it is what the newest was that many steps earlier), the oldest is dropped, and the joint covariance follows from the transition acting on the newest block alone. A measurement with a delay acts on the state at that delay and through the joint covariance on all others; a delay outside the window is rejected with an error and changes nothing. Reading the state of delay zero gives the newest state."
S["C19"]["statement"]="The first time reading gives the default interval, the inverse of the nominal frequency (a frequency below 0.1 counts as 0.1); every later reading that does not go backwards gives the time elapsed since the last accepted reading, at most 10 seconds, and zero when the two readings are equal. A reading earlier than the last accepted one is rejected with an error and is forgotten: later intervals are measured from the last accepted reading. The interval is never negative."
S["C19"]["title"]="The prediction interval is measured from the last accepted time and stays bounded"
S["C20"]["statement"]="The predicted state integrates speed and yaw rate over the interval along the current heading (yaw plus yaw bias), leaves bias, speed and yaw rate unchanged, and keeps the yaw within half a turn either way; the transition matrix is the exact partial derivative of that prediction at the current state, with every other entry the identity. Process noise is diagonal with the given variances at yaw, yaw bias, speed and yaw rate."
S["C21"]["statement"]+=" An age limit below one counts as one."
S["C23"]["statement"]="A measurement whose delay does not fit the filter's window, that contains a value that is not finite, or whose Mahalanobis distance from the prediction exceeds the limit never changes the filter, and every other queued measurement is given to the filter once per round, in order, with the delay of its time stamp (one the filter refuses with an error changes nothing). A measured heading is compared with the predicted one modulo a full turn. The Mahalanobis gate accepts exactly the distances up to its limit, and a delay is the non-negative time difference divided by the step, rounded to the nearest; a delay with too many steps to count never fits."
S["C24"]["statement"]+=" Concurrent calls behave as if made one after another."
S["C25"]["statement"]="An odometry run starts at the origin; its first scan enters the map at that pose without matching; every later scan is matched from the pose of the previous one against the map of recent scans, becomes the current pose, and enters the map at that pose. The map used for matching consists of the most recently added scans up to the configured number, each exactly once, as they were moved when added. Adding a scan changes neither the scan given nor those added before."
S["C26"]["statement"]="The map grows by a scan's points, transformed by the scan's pose, exactly when the scan is not empty and the map is still empty or the pose differs from that of the last scan added by at least the distance limit (1) or the rotation limit (0.1, the sine of half the angle). Skipped scans change neither the map nor the reference pose, so small motions accumulate until one limit is reached. Saving writes the whole map, and nothing when it is empty."
S["C28"]["statement"]="The scalar filter's first measurement initialises its state exactly; every later update moves the state towards the measurement by a share between zero and one given by the ratio of the predicted state variance to the sum of that and the measurement variance, and never increases the predicted variance, for variances that are not negative; with two exact values the state is kept."
S["C30"]["statement"]="When an initial pose is given in another frame and no transform into the filter's frame is available, the filter's state stays as it was; otherwise the filter is initialised with the position moved (rotated and shifted) by exactly that transform and the heading turned by the transform's heading, with zero bias, speed and yaw rate, and measurements queued before are dropped."
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
