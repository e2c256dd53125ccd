PROPS = []
TECH = 'contract-based deductive verification: VCs generated from LLVM IR of the real code, discharged by z3/cvc5'
def prop(id, title, statement, qtext, why, files, mech, note, over=('inputs',), technique=TECH, na=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech, note=note, technique=technique, na=na))

prop('G01', 'Every point of a grid belongs to exactly the cell that contains it',
     'A grid covers the rectangle that starts at its offset and extends by its number of cells times the cell size along each axis, the lower border included and the upper one not. Converting a point to a cell succeeds exactly if the point lies in this rectangle, however far away it is otherwise, and yields the one cell that contains it, with the position inside the cell between zero and the cell size; where it fails, no cell is returned. Converting a cell yields its centre, and converting the centre back yields the cell, also through another frame. All overloads agree. A finer subdivision by an integer factor covers the same area. The extents, size and centre of a grid are those of the rectangle, and a grid contains exactly the cells below its size. Cell positions are totally ordered.',
     'for every grid geometry, every point of the plane and every cell',
     'tests convert a few points of one grid; rounding towards the wrong cell, the borders, negative coordinates and far away points need particular inputs',
     ['src/maps/GridBase.cpp', 'src/maps/GridBase.hpp'],
     [('conversion', 'src/maps/GridBase.cpp: toGrid, fromGrid, toGridTimesX, contains'), ('extents', 'src/maps/GridBase.cpp: getExtents, getCellExtents; src/maps/GridBase.hpp: getSizeX/Y, getCenterPoint'), ('cell positions', 'src/maps/GridBase.hpp: Position')],
     'all functions verified for every positive cell size and up to 1e9 cells per axis; floating point treated as real arithmetic; the overloads with a frame and points on rounding borders are covered by the bounded cross-check')
prop('G02', 'Grid lines visit a connected, shortest and straight run of cells',
     'A line between two grid cells starts at the start cell, ends at the end cell and never continues past it. Every step moves to a neighbouring cell and advances exactly one cell along the longer axis towards the end, so the number of cells is one more than the larger extent. Every visited cell lies within half a cell of the ideal straight line, whichever overload (stepwise, re-initialised, or all cells at once) is used.',
     'for all pairs of start and end cells and every step of the walk',
     'the repository has no test of it; a test can only sample a few lines, the guarantee is about every pair of cells in every octant and every step',
     ['src/tools/BresenhamLine.cpp', 'src/tools/BresenhamLine.hpp'],
     [('error-term line walk', 'src/tools/BresenhamLine.cpp: Bresenham::init, Bresenham::getNextPoint'), ('collecting all cells', 'src/tools/BresenhamLine.cpp: Bresenham::getLine, lineBresenham')],
     'init establishes and getNextPoint preserves the line invariant, for all coordinates below 1e8 in magnitude (signed overflow excluded); the collecting wrappers are covered by the bounded cross-check')
prop('G03', 'A ray through a grid visits exactly the cells it crosses, in order',
     'A traversal of a grid along a ray starts in the cell of the origin and is valid only if the origin lies within the grid. Every step leads to the neighbouring cell into which the ray crosses next: one cell further along one axis, in the direction of the ray, never along an axis the ray runs parallel to. Every visited cell is touched by the ray, cells come in the order in which the ray reaches them, and the step that leaves the grid reports the end, after which the traversal stays ended.',
     'for every grid geometry, origin and direction, and every step of the traversal',
     'there is no test of it; axis parallel rays, negative directions, origins near a border and cells that are not square each take their own path through the arithmetic',
     ['src/tools/VoxelTraversal.hpp'],
     [('start of the traversal', 'src/tools/VoxelTraversal.hpp: VoxelTraversal::init'), ('stepping', 'src/tools/VoxelTraversal.hpp: VoxelTraversal::step')],
     'init establishes and step preserves the ray invariant, for every grid and direction (each sign of both components a harness); floating point treated as real arithmetic, distances below infinity')
ENVF = ['src/core/Environment.cpp', 'src/core/Environment.hpp']
prop('E01', 'The frame tree gives every frame at most one parent and consistent children',
     'In an environment every frame node has at most one parent, children and parents agree, and every frame linked below another belongs to the environment. Adding a frame as a child attaches it if necessary and makes the given frame its only parent, moving it when it was somewhere else; removing a child relation removes exactly that relation and only if it exists; every other frame keeps its place. Querying the parent, the children or whether a frame is a root reports exactly the relations made, each child once, and changes nothing.',
     'for every reachable state of the frame tree and every operation on any frames, in any order',
     'unit tests build one small tree; the guarantee is about every history of insertions, moves and removals',
     ENVF + ['src/core/FrameNode.cpp'],
     [('tree operations', 'src/core/Environment.cpp: addChild(FrameNode*,FrameNode*), removeChild(FrameNode*,FrameNode*), getParent, getChildren(FrameNode*)'), ('frame interface', 'src/core/FrameNode.cpp: addChild, getChildren, getParent, isRoot')],
     'each operation is verified against its contract for an arbitrary environment state; std::map / std::list are assumed contracts, event delivery and attaching enter through their own contracts')
prop('E02', 'Layer parents and children agree, and no relation is stored twice',
     'The layer hierarchy of an environment relates each pair of parent and child layer at most once; a layer may have several parents. Adding a child layer attaches it if necessary and makes the relation exist exactly once however often it is added; removing it makes it disappear; all other relations stay as they were. The parents of a layer and the children of a layer, as reported by the environment or the layer, are exactly those relations, each once, and asking changes nothing.',
     'for every reachable state of the layer hierarchy and every operation on any pair of layers, in any order',
     'unit tests add one parent and one child; several parents per layer, repeated additions and removals in between are what a history has to get right',
     ENVF + ['src/core/Layer.cpp'],
     [('hierarchy operations', 'src/core/Environment.cpp: addChild(Layer*,Layer*), removeChild(Layer*,Layer*), getParents, getChildren(Layer*)'), ('layer interface', 'src/core/Layer.cpp: addChild, getParents')],
     'each operation is verified against its contract for an arbitrary state, loops by invariants over the visited prefix of the multimap')
prop('E03', 'A map sits on at most one frame, and frames list exactly their maps',
     'Every Cartesian map of an environment is on at most one frame. Setting its frame attaches map and frame if necessary and moves the map there from wherever it was; detaching it from a frame has an effect exactly if it is on that frame. No other map moves. The frame reported for a map and the maps reported for a frame agree with this, each map once, and asking changes nothing. Setting the frame through a map that belongs to no environment is refused with an exception and changes nothing.',
     'for every reachable environment state and every map and frame, in any order of operations',
     'unit tests set one map on one frame; moves between frames, repeated setting and detaching from the wrong frame are histories a test only samples',
     ENVF + ['src/core/Layer.cpp', 'src/core/FrameNode.cpp'],
     [('map placement', 'src/core/Environment.cpp: setFrameNode, detachFrameNode, getFrameNode, getMaps'), ('map and frame interface', 'src/core/Layer.cpp: CartesianMap::setFrameNode, getFrameNode; src/core/FrameNode.cpp: getMaps')],
     'each operation is verified against its contract for an arbitrary state')
prop('E04', 'Operator connections are kept exactly, within the arity',
     'An environment records the inputs and the outputs of each operator, each connection once. Adding an input or output attaches operator and layer if necessary and reports whether the connection is new; removing one, removing all and setting a single one change exactly the connections concerned. An operator with a given arity never accepts more inputs or outputs than that and refuses with an exception that leaves everything unchanged. The inputs, outputs and the generator reported are exactly those connected; a layer is generated if and only if some operator has it as output. Detaching a layer from its operator disconnects it, and updating a dirty generated layer runs its generator once and leaves it clean. Updating the operators of an environment runs each of them once and announces each of their outputs as modified.',
     'for every reachable operator graph, every operator, layer and arity, in any order of operations',
     'unit tests connect one operator; duplicates, several operators per layer and arity limits after removals are histories a test only samples',
     ENVF + ['src/core/Operator.cpp', 'src/core/Layer.cpp'],
     [('operator graph', 'src/core/Environment.cpp: addInput, addOutput, removeInput(s), removeOutput(s), getInputs, getOutputs, getGenerator'), ('operator interface', 'src/core/Operator.cpp'), ('layer side', 'src/core/Layer.cpp: detachFromOperator, isGenerated, updateFromOperator')],
     'each operation is verified against its contract for an arbitrary operator graph; getLayersGeneratedFrom and updateOperators are covered by the bounded cross-check only')
prop('E05', 'Items live in one environment, under unique ids, and detach cleanly',
     'Every item attached to an environment has a complete absolute id that no other item of it has, and looking the id up yields exactly that item. Attaching an item keeps an id that is already complete and absolute; a relative or missing id gets the prefix of the environment in front, and one that ends in a slash an unused number behind, which never fails. It is refused with an exception, leaving the environment unchanged, exactly if the id is in use. The prefix and suffix of an id are the parts before and after its last slash. An item belongs to at most one environment: attaching it elsewhere takes it out of the previous one without destroying it. The environment holds one reference to each of its items, so no item dies while anybody holds it. The id of an attached item cannot be changed. Detaching returns the item alive and removes it and every relation it takes part in, deep detaching also the frames and maps below it, and nothing else.',
     'for every reachable environment state, item, id and prefix, in any order of operations',
     'unit tests attach a handful of items with generated ids; collisions between given and generated ids, several environments and detaching linked items are histories a test only samples',
     ENVF + ['src/core/EnvironmentItem.hpp'],
     [('attaching and ids', 'src/core/Environment.cpp: attachItem, EnvironmentItem::setUniqueId'), ('lookup', 'src/core/Environment.cpp: getItem; src/core/Environment.hpp: getItem<T>'), ('detaching', 'src/core/Environment.cpp: detachItem, EnvironmentItem::detach')],
     'attachItem, getItem, setUniqueId and isAttached are verified against their contracts for an arbitrary item table; strings are modelled by identity with their first and last character; detachItem and the destructor are covered by the bounded cross-check')
prop('E07', 'Listeners can mirror the environment from the notifications alone',
     'A handler registered with an environment is told about all its present content: every item, the root, every frame relation, map placement and layer relation, each once and items before relations. From then on every effective change of the frame tree, the map placements and the layer hierarchy is announced exactly once, to every handler, and with the items concerned; operations without effect announce nothing, and replacing a parent or a frame announces the removal of the old relation first. A modification of an item is announced once. On deregistration the handler is told about the removal of everything it was told about and hears nothing afterwards. A listener that applies the notifications therefore always holds exactly the content of the environment.',
     'for every reachable environment content, every operation and every time at which handlers come and go',
     'unit tests look at a few events of a small environment; completeness and consistency of the event stream is a property of histories',
     ENVF + ['src/core/EventSource.cpp'],
     [('announcing changes', 'src/core/Environment.cpp: addChild, removeChild, setFrameNode, detachFrameNode, itemModified, handle'), ('announcing content', 'src/core/Environment.cpp: addEventHandler, removeEventHandler, publishChilds, detachChilds')],
     'announcements of each operation and on registration and deregistration are verified for an arbitrary content; attachItem/detachItem announcements, the maps of frames on deregistration and the completeness of the recursion below a child are covered by the bounded cross-check')
prop('E08', 'Events reach their handlers, and queueing keeps their net effect',
     'An event delivered to an event source is received once by every registered handler, in order, and handled unless the handler has a filter that rejects it. A listener gets exactly the callback that belongs to the kind of event, with the items concerned; meaningless combinations are refused. An event queue remembers ids instead of holding on to items, except for the content of added and updated items, copied if asked for. It drops a queued event only if the new one replaces it or cancels out with it, so that it never holds two additions or removals about the same items and processing the queue in order has the net effect of all the events received; flushing empties it. Applying an event to another environment carries out exactly the change it describes on the items with the same ids, so an environment fed by a processor equals the original after every flush.',
     'for every sequence of events, filters, queue contents and environments',
     'unit tests send a few events; coalescing errors need particular sequences about the same items and can only be excluded for all queues',
     ['src/core/Event.cpp', 'src/core/EventHandler.cpp', 'src/core/EventHandler.hpp', 'src/core/EventSource.cpp'],
     [('delivery and filters', 'src/core/EventHandler.cpp: receive, setFilter, EventFilter::handle, EventDispatcher::dispatch; src/core/EventSource.cpp: handle'), ('queueing', 'src/core/EventHandler.cpp: EventQueue::handle, flush; src/core/Event.cpp: merge, ref'), ('applying', 'src/core/Event.cpp: Event::apply, ApplyEventHelper')],
     'all functions named are verified against contracts, the queue for an arbitrary content and length; std::list<Event> and the mutex enter as assumed contracts; std::remove_if in removeEventHandler and whole-history mirroring are covered by the bounded cross-check')
prop('E09', 'Metadata of a layer belongs to it alone and is kept by key and type',
     'A layer has metadata exactly under the keys for which it was created and not removed since, of the type it was created with, and returns for a key the same object with the value last given to it. Asking for metadata of another type, or for missing metadata of a const layer, is refused with an exception; otherwise missing metadata is created. Removing metadata of one key or all of it removes and deletes exactly that. A copy or assigned layer has clones of all metadata and the flags of the original, is attached nowhere, and neither affects the other afterwards; every piece of metadata is deleted exactly once, at the latest with its layer. Prefix, suffix and file name of a layer derive from its id. Cloning a map into another environment brings a copy of the map below copies of its frames and leaves the original alone.',
     'for every content of the metadata table, key, type and order of operations',
     'unit tests store one value; aliasing after copies, type confusion and double deletion need particular histories',
     ['src/core/Layer.cpp', 'src/core/Layer.hpp', 'src/core/Holder.hpp', 'src/core/Environment.cpp'],
     [('metadata', 'src/core/Layer.cpp: hasData, removeData; src/core/Layer.hpp: getData, hasData<T>; src/core/Holder.hpp'), ('copies', 'src/core/Layer.cpp: Layer(const Layer&), operator=, CartesianMap::cloneTo'), ('flags and names', 'src/core/Layer.cpp: setImmutable, setDirty, resetDirty, getMapFileName; src/core/Environment.cpp: EnvironmentItem::getUniqueIdPrefix, getUniqueIdSuffix')],
     'metadata, copies and flags are verified for an arbitrary table (two holder types stand for all); ids, file names and cloneTo are covered by the bounded cross-check')
prop('M05', 'Grid bands keep every cell value, their extrema and elevation geometry',
     'A band of a grid holds one value per cell: what is written to a cell, by cell or by position, is what is read back from it, no other cell and no other band changes, and access by a position outside of the grid is refused. The minimum and maximum of a band are attained and bound all its values, of any sign. No-data values belong to their band. Copies of bands and grids have the same geometry, values and no-data values and are independent of the original. In an elevation grid the normal of a cell is the upward unit vector perpendicular to the slopes given by its neighbours (the cell itself taking the place of one beyond the border), and the elevation at a point lies on the plane through its cell with that normal.',
     'for every grid size, cell type, band content, cell and position',
     'tests write a few cells of one grid; borders, negative values, non-square grids and aliasing of copies need particular contents',
     ['src/maps/Grid.hpp', 'src/maps/GridBase.cpp', 'src/maps/GridBase.hpp', 'src/maps/ElevationGrid.cpp', 'src/maps/ElevationGrid.hpp'],
     [('band access', 'src/maps/Grid.hpp: getFromRaster, get, getGridData, createBand, hasBand'), ('extrema', 'src/maps/Grid.hpp: getMinMaxValues'), ('no-data and copies', 'src/maps/Grid.hpp: setNoData, getNoData, copyBandFrom, clone, set'), ('elevation', 'src/maps/ElevationGrid.cpp: getNormal, getElevation, get')],
     'access, extrema and elevation are verified for Grid<double> of any size and content, boost::multi_array storage as laid out in memory; the other cell types, no-data values, copies and streams are covered by the bounded cross-check')
prop('M06', 'Distance lookup tables cover what was asked for with the right distances',
     'A radial lookup table computed for a scale and a radius answers, for every cell offset within the radius in both directions, with the distance and the angle of that offset. A box lookup table covers the box and the given distance around it; a point within it is answered with the entry of its cell, which is the distance of that cell from the box, and a point outside of the table, or a table never computed, is refused. Recomputing for parameters a table already covers keeps it, other parameters replace it.',
     'for every scale, radius, box size and distance, and every point or cell asked for',
     'there is no test of the tables; their borders and rounding depend on the ratio of the parameters',
     ['src/tools/RadialLookUpTable.cpp', 'src/tools/RadialLookUpTable.hpp', 'src/tools/BoxLookUpTable.cpp', 'src/tools/BoxLookUpTable.hpp'],
     [('radial table', 'src/tools/RadialLookUpTable.cpp: recompute; src/tools/RadialLookUpTable.hpp: getDistance, getAngle'), ('box table', 'src/tools/BoxLookUpTable.cpp: recompute, computeDistances, getDistanceToBox')],
     'verified for all parameters up to 10000 cells radius (30000 cells per axis for boxes), loops by invariants for an arbitrary entry; that box entries are the exact distances (beyond their range) is covered by the bounded cross-check')
prop('T01', 'Relative transforms follow the frame tree, with first-order uncertainty',
     'The relative transform from one frame to another maps coordinates of the first into coordinates of the second: it is composed of the transforms of the frames on the way up to their common root and back, each applied to the frame it belongs to; for a frame and itself it is the identity, for maps it is that of their frames, and frames without a common root have none and the request is refused. A frame keeps the transform and uncertainty it is given, setting a certain transform removes the uncertainty, and a change is announced once if the frame is attached. Products, inverses and inverse compositions of uncertain transforms have the transform of the operation, are uncertain exactly if an operand is, carry the covariances of the operands to first order, and inverse compositions undo compositions.',
     'for every frame tree, pair of frames and transforms, for every pair of uncertain transforms with moderate rotations',
     'tests compare a few transforms; order and direction of composition, missing common roots and cross covariances need particular trees and values',
     ['src/core/Environment.cpp', 'src/core/FrameNode.cpp', 'src/core/Transform.cpp', 'src/core/Transform.hpp'],
     [('relative transforms', 'src/core/Environment.cpp: relativeFrameNodeRoot, relativeTransform, relativeTransformWithUncertainty; src/core/FrameNode.cpp: relativeTransform'), ('transform of a frame', 'src/core/FrameNode.cpp: setTransform, getTransform, getTransformWithUncertainty'), ('uncertain transforms', 'src/core/Transform.cpp: operator*, composition, compositionInv, preCompositionInv, inverse')],
     'composition along the tree is verified for every tree (transforms as arrows between frames, Eigen products and inverses as assumed contracts), so are frame transforms and the algebra of certain transforms; covariances are covered by the bounded cross-check against numerical derivatives')
prop('M04', 'Traversability grids keep classes and probabilities, and judge rectangles',
     'A traversability class is set exactly if it was given a drivability from zero to one, others being refused, and is traversable exactly if that is positive. A grid knows exactly the classes registered with it; registering one changes no other, a new one gets an unused number, and asking for an unknown one is refused. Every cell keeps the class and, up to 1/255, the probability set for it, no other cell and no copy of the grid changing with it. The statistic of a rectangle counts every cell of it once, with smallest distance per class, for every class number; the worst class of a rectangle is the least drivable one among those seen in it, and its worst probability the smallest one; a rectangle without cells has no worst class and the request is refused.',
     'for every set of classes, cell content, class number 0..255, and rectangle',
     'there is no test of it; the highest class number, unknown classes, aliasing copies and rectangles smaller than a cell are rare inputs',
     ['src/maps/TraversabilityGrid.cpp', 'src/maps/TraversabilityGrid.hpp'],
     [('classes', 'src/maps/TraversabilityGrid.hpp: TraversabilityClass; src/maps/TraversabilityGrid.cpp: setTraversabilityClass, registerNewTraversabilityClass, getTraversabilityClass'), ('cells', 'src/maps/TraversabilityGrid.cpp: setTraversability, getTraversability, setProbability, getProbability, operator='), ('statistics', 'src/maps/TraversabilityGrid.hpp: TraversabilityStatistic; src/maps/TraversabilityGrid.cpp: computeStatistic, getWorstTraversabilityClassInRectangle, getWorstProbabilityInRectangle')],
     'classes, cells, statistics and the choice of the worst class are verified for arbitrary contents; the enumeration of the cells of a rectangle and copies are covered by the bounded cross-check')
LGF = ['src/tools/ListGrid.hpp']
prop('M01', 'Every cell of a list grid holds exactly the items put into it, in order',
     'A grid of lists keeps a sequence of items per cell. Inserting at the head or the tail of a cell puts a copy of the item first or last in that cell, erasing removes exactly the item the iterator points to and gives back its successor, clearing empties every cell; the order of all other items and all other cells stays as it was. Going through a cell visits its items in order, each once, forward and backward links agree. Moving a grid by whole cells moves every cell unchanged, dropping those that leave the grid; a copy holds the same items and is independent of the original.',
     'for every history of insertions, removals, moves and copies, on grids of every size',
     'the test inserts a few items; removals at the head after a move, copies and reuse of freed items only show in longer histories',
     LGF,
     [('cells', 'src/tools/ListGrid.hpp: insertHead, insertTail, erase, iterator_base'), ('whole grid', 'src/tools/ListGrid.hpp: clear, resize, move, operator=, copy constructor')],
     'the list operations and the iterator are verified as sequence operations on an arbitrary well formed cell (ghost positions per item), memory pool and boost::multi_array as assumed contracts; copies and moves of whole grids are covered by the bounded cross-check')
prop('M02', 'An MLS grid counts, indexes and finds exactly the surface patches it holds',
     'The number of surface patches an MLS grid reports is the number it holds, and the extents and the index of cells, where kept, cover every cell that was given a patch. Inserting, erasing, clearing, updating a cell, adding points, moving and assigning keep this so. Updating a cell with a patch merges it into the patches it belongs to or inserts it, never loses it. Looking up a position gives a patch of that cell within the tolerance asked for, and none exactly if there is none or the position is outside the grid.',
     'for every history of operations on grids of every geometry and every patch',
     'unit tests look at few patches in one cell; counters and the index are kept separately from the lists, each operation has to maintain all of them',
     ['src/maps/MLSGrid.cpp', 'src/maps/MLSGrid.hpp'],
     [('counters, extents and index', 'src/maps/MLSGrid.cpp: insertHead, insertTail, erase, clear, move, operator=; src/maps/MLSGrid.hpp: Index, getPatchCount'), ('update and lookup', 'src/maps/MLSGrid.cpp: updateCell, update, get')],
     'each operation is verified against its effect on count, extents and index, with the list grid (M01), patches (M03) and grid geometry (G01) entering through their contracts; the search within one cell and merging of several patches are covered by the bounded cross-check')
prop('M03', 'Merging surface patches is consistent with their extent and uncertainty',
     'Two surface patches of the same sign are merged exactly if their vertical extents are no further apart than the gap and, in the Kalman model, their deviation allow; a patch that is not merged stays as it was, and the patch merged in is never changed. A merged patch covers both, counts the measurements of both, has the mean weighted by the certainty of both and a certainty increased by that of the measurement. Contradicting patches (one negative) are never blended: the newer one replaces or cuts the older, which never grows. The distance of two patches is the gap between their extents, symmetric and never negative. Two intervals overlap exactly if they have common inner points, also if one lies within the other.',
     'for all patches of every kind, with all real heights and deviations',
     'tests merge a handful of patches; containment, equal bounds and vanishing deviations are separate branches',
     ['src/maps/MLSPatch.hpp', 'src/tools/Numeric.hpp'],
     [('merging', 'src/maps/MLSPatch.hpp: SurfacePatch::merge, mergePatch, mergeMLS, mergeSum'), ('intervals and fusion', 'src/tools/Numeric.hpp: overlap, kalman_update'), ('distance', 'src/maps/MLSPatch.hpp: distance, getInterval')],
     'merging is verified for arbitrary real-valued patches, arithmetic treated as real')
prop('M07', 'Gaussian mixtures are normal densities fitted to their weighted samples',
     'The density of a Gaussian is that of the normal distribution with its mean and covariance, in every dimension, and the density of a mixture is the weighted sum of the densities of its components. The statistics of a set of weighted samples yield their weighted mean and covariance; a sample without weight counts once. Normalising a mixture divides every weight by their sum, or gives all components the same weight if there is none, and changes nothing else. After clustering, every sample belongs to the class with the closest mean. One step of expectation maximisation returns the mean log likelihood of the samples under the mixture before the step, sets weight, mean and covariance of each component to those of its share of the weighted samples, and never makes unweighted samples less likely; the weights keep summing to one. Samples drawn from a normalised mixture follow it.',
     'for all samples, weights, means, positive definite covariances, dimensions and numbers of components',
     'the only use in the repository is an interactive viewer; a wrong normalisation or a dropped weight is invisible in samples with equal weights and spread',
     ['src/tools/GaussianMixture.hpp', 'src/tools/ExpectationMaximization.hpp'],
     [('density and statistics', 'src/tools/GaussianMixture.hpp: Gaussian::eval, Gaussian::Stats'), ('mixtures', 'src/tools/GaussianMixture.hpp: GaussianMixture::eval, normalize'), ('fitting', 'src/tools/ExpectationMaximization.hpp: KMeans, ExpectationMaximization::step, GaussianMixtureSampling')],
     'statistics, densities and mixtures of any number of components are verified against their contracts in one and two dimensions, exp, pow and sqrt uninterpreted; other dimensions, k-means (kdtree++), expectation maximisation (dynamic matrices) and sampling are covered by the bounded cross-check')

prop('P01', 'Cutting, merging and copying point clouds keeps exactly the right points',
     'The extents of a cloud are the smallest box that contains all its points, empty if there are none. Copying a cloud takes over exactly its points, in the frame of the target if asked for; clearing removes the points and their data; a cloud written as text is read back with the same points. Cutting keeps, in order and transformed into the frame of the output, exactly the points that lie outside of every excluding and inside of every including box, each box counting once, and with them the normals (turned), colours, attributes and variances the input has, whichever those are. Merging puts every point of every input, transformed into the frame of the output, into it, with normals turned and colours kept, after what the output held unless it is cleared first; inputs with different data are refused. The inputs are never changed.',
     'for all clouds, boxes, frames and combinations of vertex data',
     'the repository has no test of these operators; combinations of data and of nested frames are a space a test only samples',
     ['src/maps/Pointcloud.cpp', 'src/maps/Pointcloud.hpp', 'src/operators/CutPointcloud.cpp', 'src/operators/CutPointcloud.hpp', 'src/operators/MergePointcloud.cpp'],
     [('clouds', 'src/maps/Pointcloud.cpp: getExtents, copyFrom, readText, writeText; src/maps/Pointcloud.hpp: clear'), ('cutting', 'src/operators/CutPointcloud.cpp: isIncluded, updateAll, addBox, removeBox'), ('merging', 'src/operators/MergePointcloud.cpp: updateAll')],
     'getExtents, isIncluded and the sensor origin are verified against their contracts for clouds and lists of boxes of any length; copying, text, updateAll of both operators and vertex data (boost::any-like holders of vectors) are covered by the bounded cross-check')

EXTRA = {}
