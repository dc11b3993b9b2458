#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a['observe_at'] = [observe]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

I = 'include/Simu/'
p('C01', 'Spatial index contents and queries are exact after any history',
  'After any sequence of insertions, erasures, bounds updates, batch updates, moves and clears, the spatial index holds exactly the live elements, each exactly once when iterated, with the bounds last given to it, and its size, emptiness and overall bounds agree with them. A region or point query visits every element whose bounds overlap it exactly once and no other, an element query visits exactly the other elements overlapping it, and a handle returned by an insertion or update keeps designating its element until that element is erased. Values and memory are given back when the index is destroyed.',
  ['histories', 'inputs'],
  'every sequence of operations up to a bounded length over every assignment of boxes from a grid, with every query box of the grid asked in the final states',
  'The tests build one or two fixed trees; rotations, root special cases and sibling splices depend on the history and on the relative position of the boxes.',
  [I+'physics/RTree.hpp', I+'physics/RTree.inl.hpp', I+'physics/BodyTree.hpp'],
  [('cheapest-cost insertion with tree rotations', 'RTree::insert, refit, checkRotation'), ('extraction of a leaf and root special cases', 'RTree::extract'), ('iteration', 'RTree::Iterator::operator++')],
  'iteration, size(), bounds(), forEachIn/forEachAt/forEachOverlapping callbacks')
p('C02', 'Batch update reports every overlapping pair exactly once',
  'A batch update of the spatial index, given new bounds for its elements, calls back every unordered pair of distinct elements whose new bounds overlap exactly once and no other pair. Afterwards the index contains the same elements with their new bounds and handles still designate them, whatever the number of elements and however they coincide. A joint query for several handles reports each overlapping pair of a queried and a stored element.',
  ['inputs', 'histories'],
  'every multiset of boxes up to a bounded count over a grid as old and as new bounds, including coincident and point boxes, followed by further operations',
  'The collision pass is recursive with a split that depends on all centres; tests only run it through a few worlds.',
  [I+'physics/RTree.hpp', I+'utility/Algo.hpp'],
  [('median split and overlap lists', 'RTree::updateAndCollide, OverlapList'), ('partitioning', 'booleanSort')],
  'onCollision callbacks, iteration after the update')
p('C03', 'Pool allocation never overlaps, never misaligns, and is fully returned',
  'Memory obtained from the pool allocator is aligned for its type, at least as large as requested, and disjoint from every other live allocation until it is released, for any interleaving of allocations and releases of any types and counts. Released memory becomes reusable: once everything has been released the pool holds no memory, copies of an allocator (also for other types) share one pool, and containers and owning pointers stay usable after the allocator they were made with is gone.',
  ['histories', 'inputs'],
  'every sequence of allocate/release operations up to a bounded length over several sizes and alignments, several small pool block sizes, and every release order',
  'The tests have no direct allocator tests; fragmentation and merging depend on order.',
  [I+'utility/Memory.hpp'],
  [('first-fit free list with splitting and merging', 'Block::allocate, Block::deallocate'), ('shared block list', 'FreeListAllocator'), ('type-erased owning pointer', 'makeUnique')],
  'returned addresses, replaced global new/delete accounting')
p('C04', 'Interval and bounding box predicates agree with their definitions',
  'Two closed intervals or axis-aligned boxes overlap exactly when they share a point, borders included; invalid ones overlap and contain nothing and are ignored when combining. Combining gives the smallest box that contains both, containment is the subset relation, the box of a set of points is the smallest one containing them (invalid for no point), scaling keeps the centre and scales the extent, and equality treats all invalid boxes alike.',
  ['inputs'],
  'every pair (and triple, for associativity) of boxes over a coordinate set mixing integers, non-representable decimals, neighbouring floats, huge and tiny magnitudes and invalid boxes',
  'The tests translate one unit box around; rounding, degenerate and mixed magnitudes are not reached.',
  [I+'math/Interval.hpp', I+'physics/BoundingBox.hpp', 'src/Simu/physics/BoundingBox.cpp'],
  [('overlap test', 'Interval::overlaps, BoundingBox::overlaps'), ('combination', 'BoundingBox::combined')],
  'return values')
p('C05', 'Collision verdict and separation vector are exact for convex shapes',
  'For two convex shapes, in any relative position and with any initial direction, collision detection terminates and reports a collision exactly when the shapes share a point. When they do not, the separation vector has the length of the true shortest distance between them and translating the first shape by it makes them touch; otherwise the separation is null.',
  ['inputs'],
  'every pair of shapes from a catalogue of convex polygons on an integer lattice, every lattice offset in a window that covers apart, touching and nested, and every direction of a set of initial directions',
  'Tests use about ten hand-picked pairs; termination and degenerate simplices depend on exact vertex alignments.',
  [I+'math/Gjk.hpp', I+'math/Gjk.inl.hpp', 'src/Simu/math/BarycentricCoordinates.cpp', 'src/Simu/math/Geometry.cpp'],
  [('boolean GJK', 'Gjk::Gjk, priv::Simplex'), ('separation', 'Gjk::separation')],
  'areColliding(), separation()')
p('C06', 'Penetration vector is the minimum translation that separates',
  'When two convex shapes overlap, the penetration vector is computed in finite time, has the minimum length among all translations that leave the shapes merely touching, and points so that moving the second shape by it (or the first by its opposite) leaves them touching and not overlapping. When they do not overlap it is null.',
  ['inputs'],
  'every overlapping placement of every pair from a catalogue of convex lattice polygons, every initial direction of a set',
  'The polytope expansion depends on the simplex left by the verdict and on collinear supports, of which tests sample few.',
  [I+'math/Gjk.hpp', I+'math/Gjk.inl.hpp'],
  [('polytope expansion', 'Gjk::penetration, priv::Polytope')], 'penetration()')
p('C07', 'Contact points and normal describe the true contact',
  'For two overlapping colliders that penetrate by more than the tolerance the contact has one or two distinct pairs of points, one on the boundary of each collider and facing each other along a unit normal, which is an edge normal of one of them directed from the second body to the first. The normal is the direction of least overlap, the deepest pair is apart by exactly that overlap, colliders that penetrate less have no contact, and the contact follows the bodies when they move.',
  ['inputs', 'configurations'],
  'every relative lattice position and a set of rotations of pairs of convex colliders, each order of the two colliders',
  'One test file checks three box placements; clipping and reference-edge choice vary with the placement.',
  [I+'physics/ContactManifold.hpp', I+'math/Edges.hpp', I+'physics/Constraint.hpp'],
  [('reference edge choice and clipping', 'ContactManifold::update, computeContacts'), ('edge normals', 'Edges::Edge')],
  'ContactManifold::frameManifold, ContactConstraint::contactInfo')
p('C08', 'Polygon orientation and geometric properties are exact',
  'Whatever the order in which the vertices of a simple polygon are given, the polygon is stored counter-clockwise with the same vertices, and its area, centroid and second moment about the centroid are those of the shape, independent of starting vertex, orientation and translation. Degenerate or too small vertex lists are reported as such or rejected, the support vertex in a direction is one that maximises the projection, and the edges are visited once each in cyclic order with outward normals.',
  ['inputs'],
  'every ordered vertex list of 3 to 5 lattice points in a window, plus translated and permuted versions, and every direction of a set',
  'Tests use a box and a triangle.',
  [I+'math/Geometry.hpp', I+'math/Geometry.inl.hpp', I+'math/Polygon.hpp', I+'math/Polygon.inl.hpp', I+'math/Edges.hpp', 'src/Simu/math/Geometry.cpp'],
  [('shoelace accumulation', 'GeometricProperties'), ('orientation', 'Polygon::Polygon, orientation()'), ('support', 'furthestVertexInDirection')],
  'GeometricProperties, Polygon iteration')
p('C09', 'Closest points on segments and triangles are exact',
  'The closest point computed for a query point against a segment or a triangle belongs to it and no other of its points is nearer to the query. The barycentric weights of a segment sum to one and reproduce the projection of the query on its line; those of a triangle sum to its area and, divided by it, reproduce the query. Any orientation of the triangle, and degenerate segments and triangles (whose weights reproduce nothing), are handled and no query is rejected.',
  ['inputs'],
  'every segment and triangle on a lattice, degenerate ones included, and every lattice and half-lattice query point, plus scaled and rotated copies',
  'Tests check a handful of points in one triangle.',
  [I+'math/BarycentricCoordinates.hpp', 'src/Simu/math/BarycentricCoordinates.cpp'],
  [('region classification', 'TriangleBarycentric::TriangleBarycentric, LineBarycentric')], 'u, v, w, closestPoint')
p('C10', 'Linear, inequality and complementarity solvers return true solutions',
  'For every well-conditioned system, solving it (of any size, one-shot or with a reusable solver) returns the solution and inverting gives the inverse; a singular system is reported invalid. The complementarity solver returns non-negative variables with non-negative residuals that are complementary, and the projected solver returns a bounded solution that satisfies its inequalities at convergence.',
  ['inputs'],
  'every matrix with small integer entries of size 1 to 3 and every right-hand side of a set; every symmetric positive definite 2x2 matrix of a set for the complementarity problems',
  'Tests solve two systems.',
  [I+'math/Matrix.hpp', I+'math/Matrix.inl.hpp'],
  [('Cramer and QR', 'Solver'), ('LCP enumeration', 'solveLcp, LcpSolver'), ('projected Gauss-Seidel', 'solveInequalities')], 'return values')
p('C11', 'Objects die at the next step, once, with their dependents, in order',
  'An object that was killed or whose own death condition holds stays usable until the next step, is then told of its destruction exactly once while every other dying object is still accessible, and is removed before the callbacks that open the step run; constraints and contacts of a removed body are removed in the same step and no survivor refers to a removed object. Kills, creations and collider removals made from inside any lifecycle or step callback are honoured in the same way, and objects that are not dying are never removed. Every object that stays is called exactly once when a step opens and once when it closes, bodies first, then constraints, then force fields.',
  ['histories'],
  'every history up to a bounded length of creations, kills (from outside and from every callback kind), custom death conditions, collider additions and removals, clears and steps on worlds of a few bodies, constraints and force fields, run under memory-error detection',
  'The tests kill a couple of objects in one order; dangling references only appear for certain histories and memory layouts.',
  [I+'physics/World.hpp', 'src/Simu/physics/World.cpp', I+'physics/PhysicsObject.hpp', I+'physics/Body.hpp', 'src/Simu/physics/Body.cpp', I+'physics/ConstraintInterfaces.hpp'],
  [('deferred removal', 'World::cleanup'), ('collider removal', 'World::removeCollider, Body::removeCollider'), ('step callback order', 'World::step')],
  'onConstruction/onKill/onDestruction/preStep/postStep callbacks, views of the world and of bodies')
p('C12', 'After a step, contacts are exactly the overlapping collider pairs',
  'After every step in which time advances there is exactly one live contact for each pair of colliders of different bodies whose bounding boxes overlap, unless a constraint that disables contacts links the two bodies or both bodies are structural, and none for any other pair. A contact persists while the pair keeps overlapping, is removed in the step after it stops, and is listed by exactly the bodies it joins.',
  ['histories', 'configurations'],
  'every placement history over a grid of a few bodies with one or two colliders, with constraints being created and killed, structural bodies, and bodies or colliders being removed between steps',
  'Tests look at one pair of boxes.',
  ['src/Simu/physics/World.cpp', I+'physics/World.hpp'],
  [('contact registration and expiry', 'World::updateBodies'), ('contact lookup in either order', 'World::inContacts')],
  'World::contacts(), Body::contacts()')
p('C13', 'Every active constraint is solved exactly as configured each step',
  'In every step each constraint that is active is initialised once, warm-started once if enabled, then solved for velocities and positions exactly the configured number of times, always after its bodies received their forces and in the order velocities, integration, positions; an inactive constraint is not solved. Every body is integrated exactly once per step, whatever the graph of constraints, contacts and structural bodies.',
  ['configurations', 'histories'],
  'every graph of up to a bounded number of constraints (active or not, single-body or two-body) over up to four bodies with every choice of structural bodies and of moving structural bodies, every insertion order, and several iteration settings',
  'Tests build a few island shapes by hand.',
  [I+'physics/Island.hpp', 'src/Simu/physics/World.cpp', I+'physics/Bodies.hpp'],
  [('island construction', 'Island::init, addConstraint'), ('solve loop', 'solveIslands')],
  'virtual calls received by instrumented constraints, displacement of bodies')
p('C14', 'Structural bodies are never acted upon',
  'A structural body keeps its position, orientation and velocity through any step if it has no velocity, and advances with exactly its own velocity otherwise, whatever forces, contacts and constraints (that do not override its dominance) involve it; bodies with dominance overridden to zero in a constraint are not moved by that constraint. Two structural bodies may overlap without error.',
  ['configurations', 'histories'],
  'every combination of constraint kinds, force fields, contacts and velocities in a small world with one or two structural bodies, over several steps',
  'Tests check one structural body in one contact.',
  [I+'physics/Bodies.hpp', I+'physics/Bodies.inl.hpp', I+'physics/Island.hpp', 'src/Simu/physics/World.cpp'],
  [('inverse masses scaled by dominance', 'Bodies::Bodies'), ('force field exclusion', 'World::applyForces')],
  'Body::position, orientation, velocity')
p('C15', 'Force fields act exactly on their domain, with their defined effect',
  'In each step a force field acts exactly once per collider of every non-structural body that lies in its domain (all of them for a global one, those whose bounds overlap the region otherwise) and on nothing else. Gravity gives every such body the same velocity change whatever its mass, shape and colliders and no spin; a linear field gives a body the field impulse divided by its mass in total, and applied forces and impulses change velocity and spin by impulse over mass and moment over inertia.',
  ['configurations', 'inputs'],
  'every choice of field kinds and regions over a grid, bodies with one or two colliders at every grid placement and several orientations, structural or not, and several time steps',
  'Tests apply one global gravity.',
  [I+'physics/ForceField.hpp', 'src/Simu/physics/World.cpp', I+'physics/Body.hpp'],
  [('domain dispatch', 'World::applyForces'), ('fields', 'LinearField::apply, Gravity::apply'), ('impulse', 'Body::applyImpulse')],
  'velocity and angular velocity after a step; calls received by instrumented fields')
p('C16', 'Internal interactions conserve linear and angular momentum',
  'In a world without force fields where all bodies have dominance one, contacts and joints, distance limits included, leave the total linear momentum unchanged over any step, and the angular momentum exchanged by the velocity solver up to the distance of the points they hold together, whatever the masses, positions, velocities and the way bodies are joined. Masses used are those of the bodies at the time of the step, even if colliders were added or removed since the interaction was created.',
  ['configurations', 'inputs'],
  'every pair and chain of bodies over a set of masses, placements, velocities and joint kinds, one to a few steps, with and without warm starting, and with collider changes between steps',
  'Tests compare a single collision.',
  [I+'physics/Constraint.hpp', I+'physics/ConstraintFunction.hpp', I+'physics/ConstraintSolver.hpp', I+'physics/Bodies.hpp', I+'physics/DistanceConstraint.hpp'],
  [('equal and opposite impulses', 'Proxies::applyImpulse'), ('jacobians', 'ConstraintFunction jacobian methods')],
  'masses, velocities and positions of bodies')
p('C17', 'Joints hold: the constrained quantity is restored and its velocity removed',
  'After a step, bodies joined by a hinge, rotation, or weld joint have no relative velocity along the constrained degrees of freedom (up to the solver tolerance for a single joint), and a moderate initial position error shrinks over steps instead of growing, for every configuration, mass ratio and structural side. A free degree of freedom (rotation of a hinge, translation of a rotation joint) is not resisted.',
  ['configurations', 'inputs'],
  'every placement, orientation, velocity and dominance from a grid for each joint kind, one step and a few steps',
  'Tests run one configuration per joint.',
  [I+'physics/Constraint.hpp', I+'physics/ConstraintFunction.hpp', I+'physics/ConstraintSolver.hpp'],
  [('equality solver', 'EqualitySolver'), ('functions', 'RotationConstraintFunction, HingeConstraintFunction, ConstraintFunctions')],
  'positions and velocities of bodies')
p('C18', 'Distance limits are enforced and otherwise inert',
  'A distance joint with a minimum, a maximum, both, or an exact distance can be created from any valid combination and rejects invalid ones. While the distance lies strictly inside its limits the joint changes nothing; at or beyond a limit it removes exactly the velocity that would increase the violation, never pulls against separation allowed by the limit, and a moderate violation (at most half of the limit) shrinks over steps.',
  ['configurations', 'inputs'],
  'every combination of optional limits and distances around them, attachment points, radial and tangential velocities, masses and structural sides from a grid',
  'Tests run a single exact distance.',
  [I+'physics/DistanceConstraint.hpp', I+'physics/ConstraintSolver.hpp'],
  [('limits solver', 'LimitsSolver'), ('constructor checks', 'DistanceConstraint::DistanceConstraint')],
  'positions and velocities of bodies')
p('C19', 'Motors never exceed their force or velocity limits',
  'In one step a motor changes the velocity of its body only along its direction, towards its target velocity, by at most throttle times its maximum force (or torque) times the time step over the mass (or inertia), and it never drives the body past the target velocity. With no throttle or no direction it does nothing, throttle is limited to the range 0 to 1, and limits given as an acceleration hold for the mass the body had when the motor was made, or for the stated target mass.',
  ['configurations', 'histories'],
  'every combination of motor kind, limits, throttle (including out of range), direction, initial velocity and time step from a grid, over histories of direction and throttle changes',
  'Tests have one motor case.',
  [I+'physics/Motors.hpp', I+'physics/ConstraintSolver.hpp'],
  [('impulse clamping', 'MotorFunctionBase::clampLambda'), ('target velocity', 'MotorFunctionBase::bias'), ('specs', 'RotationMotor::Specs, TranslationMotor::Specs')],
  'velocity of the body')
p('C20', 'Contact response prevents approach, respects restitution and friction',
  'After a step, two bodies in contact do not approach each other at their contact points beyond solver tolerance; without bounciness no separating velocity is created, and an impact faster than the threshold rebounds with the combined coefficient of restitution. Contact impulses only push, friction never exceeds its combined coefficient times the normal impulse and opposes the sliding that remains and at most stops it, frictionless contacts leave tangential velocity unchanged, and resting bodies do not sink beyond tolerance or jump.',
  ['configurations', 'inputs'],
  'every combination of approach velocity, spin, masses, materials, placement and orientation from a grid for pairs of bodies, one step and several steps',
  'Tests drop one box.',
  [I+'physics/Constraint.hpp', I+'physics/ContactManifold.hpp', I+'math/Matrix.inl.hpp'],
  [('normal and friction solve', 'ContactConstraint::solveVelocities'), ('restitution', 'ContactConstraint::computeBounce'), ('position correction', 'ContactConstraint::solvePositions')],
  'velocities and positions of bodies after steps')
p('C21', 'Stepping is reproducible, local, and inert when time does not advance',
  'The same construction and step history always yields bit-identical body states, whatever else the process does with memory, other worlds, or the profiler. A zero time step moves nothing and applies no force, adding bodies that do not interact with a group does not change the motion of that group, and a free body moves in a straight line at constant velocity and spin.',
  ['histories', 'configurations'],
  'every small scene of a catalogue with every step sequence (including zero steps), run twice with different memory layouts and with far-away bodies added at every position of the creation order',
  'Tests never run a scene twice.',
  ['src/Simu/physics/World.cpp', I+'physics/Island.hpp', I+'physics/World.hpp', I+'physics/Profiler.hpp'],
  [('step', 'World::step'), ('islands', 'solveIslands')], 'bit patterns of body states')
p('C22', 'Body mass, centroid and motion stay consistent as colliders come and go',
  'After any history of collider additions and removals a body has the total mass, mass-weighted centroid and combined moment of inertia of its current colliders, as if it had been built from them directly, and none when it has no collider. Adding or removing a collider does not change the spin, and the velocity of the new centroid is that of the same material point before the change.',
  ['histories', 'inputs'],
  'every history up to a bounded length of additions and removals over a catalogue of colliders (shapes, densities, offsets) for several positions, orientations and velocities of the body',
  'Tests add colliders in one order to a body at rest.',
  [I+'physics/Collider.hpp', I+'physics/Body.hpp', 'src/Simu/physics/Body.cpp'],
  [('combination by the parallel axis rule', 'MassProperties operator+'), ('recomputation on removal', 'Colliders::remove'), ('velocity shift', 'Body::addCollider, Body::removeCollider')],
  'mass(), inertia(), centroid(), velocity()')
p('C23', 'World geometry follows the body transform exactly',
  'At every moment outside a step, the world-space vertices and bounding box of each collider are its local geometry under the transform of its body, the local-space transform inverts the world-space one, the centroid is the transformed local centroid and integration rotates about it, and spatial queries of the world use these same boxes. Composition, inversion and matrix form of transforms agree with each other.',
  ['histories', 'inputs'],
  'every history of steps, impulses and collider changes over a grid of initial poses and velocities; every pair and triple of rotations and translations from a set',
  'Tests compare a few transforms.',
  [I+'physics/Transform.hpp', I+'physics/Body.hpp', I+'physics/Collider.hpp', I+'physics/Island.hpp'],
  [('pose', 'Position'), ('transform algebra', 'Transform, Rotation, Translation'), ('geometry update', 'Collider::update')],
  'collider iteration, boundingBox, transforms')
p('C24', 'Material coefficients combine by the highest-priority mode, symmetrically',
  'Two material coefficients combine with the mode of highest priority among the two, in the order average, minimum, multiply, maximum, and the resulting coefficient is the average, minimum, product or maximum of the two values; the order of the two materials does not matter. The coefficients that act in a contact (bounciness, friction, tolerated penetration) are the combined ones of the two colliders that touch.',
  ['inputs', 'configurations'],
  'every pair of modes and values from a set, and every pair of materials on touching bodies, observing the contact response',
  'Tests do not combine differing modes.',
  [I+'physics/CombinableProperty.hpp', I+'physics/Material.hpp', I+'physics/Constraint.hpp', I+'physics/ContactManifold.hpp'],
  [('combination', 'CombinableProperty::combine')], 'value, mode, velocities after an impact')
p('C25', 'World queries visit exactly the colliders in the region',
  'Querying a world for a region or a point visits the body of each collider whose bounding box overlaps it exactly once per such collider and no other, at any time between steps, including after bodies and colliders were added, moved, killed or removed, or the world was cleared and reused. A removed body or collider is never visited and the views of bodies, constraints and force fields list exactly the current objects in creation order, that of contacts exactly the current contacts.',
  ['histories', 'inputs'],
  'every history up to a bounded length of creations, collider changes, kills, steps and clears, with every query box of a grid asked after each operation',
  'Tests query one static world.',
  [I+'physics/World.hpp', 'src/Simu/physics/World.cpp', I+'physics/RTree.hpp', I+'utility/View.hpp'],
  [('query', 'World::forEachIn, World::forEachAt'), ('collider registration', 'World::addCollider, World::removeCollider')],
  'callbacks of the queries, views')
p('C26', 'Camera transforms are mutually inverse and track pan, zoom and resize',
  'For any sequence of pans, zooms and resizes the camera maps its view rectangle (its centre plus or minus half of the view dimensions divided by the zoom) onto the square from -1 to 1 with axes preserved, and the inverse mapping takes it back. Panning moves the centre by the displacement and nothing else, zooming keeps the centre, zooming in then out restores the view, and non-positive zooms and dimensions are ignored.',
  ['histories', 'inputs'],
  'every sequence up to a bounded length of camera operations over a set of parameters, with every corner, edge and centre point of the screen transformed in each state',
  'The app layer has no tests at all.',
  [I+'app/Camera.hpp', 'src/Simu/app/Camera.cpp'],
  [('transform construction', 'Camera::transform, Camera::invTransform'), ('zoom and pan', 'Camera::setZoom, Camera::panBy')],
  'transform(), invTransform()')
p('C27', 'Interactive tools act on live objects only, and pull within bounds',
  'Pressing, moving and releasing the mouse, choosing tools, pausing, stepping, resetting and changing scenes may come in any order relative to the death of bodies, and no destroyed object is ever accessed. The grab tool takes a live body under the cursor and pulls the grabbed point to the cursor, with an impulse per step that stays bounded whatever the mass, until the button is released, the tool is changed, the scene is reset or the body dies; from then on nothing pulls on any body. The box tool places one box, as configured and under the cursor, at each press of the left button.',
  ['histories', 'inputs'],
  'every sequence up to a bounded length of mouse, key, menu, kill, reset, scene and frame events delivered to the real application with stand-ins for the window system, interface and graphics, run under memory-error detection',
  'The app layer has no tests at all.',
  [I+'app/Scene.hpp', 'src/Simu/app/Scene.cpp', I+'app/Tool.hpp', 'src/Simu/app/Tool.cpp', I+'app/MouseConstraint.hpp'],
  [('grab tool', 'Grabber'), ('box tool', 'BoxSpawner'), ('scene loop', 'Scene::step, Scene::reset'), ('mouse spring', 'MouseConstraint')],
  'memory-error reports, bodies of the world and their motion')
p('C28', 'Matrix and vector algebra agrees with its element-wise definition',
  'Sums, differences, scalings, products, transposes, norms, dot, cross and perpendicular vectors, conversions between types, row and column views, and factories of matrices equal their textbook element-wise definition for every shape, comparisons yield the element-wise truth values with all meaning every and any meaning some element, and normalising a vector whose squared length is a normal number gives length one in the same direction. Elements are numbers (not NaN).',
  ['inputs'],
  'every matrix of the used shapes with entries from a small set, every operator and every pair of operands',
  'Tests evaluate a few constant matrices.',
  [I+'math/Matrix.hpp', I+'math/Matrix.inl.hpp'],
  [('element-wise operators', 'Matrix'), ('comparisons', 'ComparisonMatrix, all, any')], 'return values')
p('C29', 'Everything drawn reaches the screen once, whole, and in order',
  'Polygons, triangles, lines, points and contoured polygons given to the renderer between two flushes are all shown by the second one, each once, over exactly its region, in its colour and in the order they were drawn, under the camera transform then in force, however many are drawn and however many corners they have (up to 64000), and nothing is shown twice. A drawing that is refused with an exception (a polygon of less than three corners, a line between equal points) leaves no trace. Line width, point radius, point precision (at least three, smaller values are ignored) and contour width are respected and read back as set. Visible bodies, distance and mouse constraints and contacts are drawn after each step where they then are, and not at all without a renderer.',
  ['histories', 'inputs'],
  'every short history of drawings, settings and flushes, every size of polygon and batch from a set around the limits of the buffers, all lines, points and contours of lattices, executed by the real renderer on a recording stand-in for OpenGL',
  'The app layer has no tests at all, and batches only break at particular sizes.',
  [I+'app/Renderer.hpp', 'src/Simu/app/Renderer.cpp', I+'app/VisiblePhysics.hpp'],
  [('batching', 'OpenGlRenderer::drawPolygon, OpenGlRenderer::flush'), ('primitives', 'Renderer::drawLine, Renderer::drawPoint, Renderer::drawContouredPolygon'), ('visible objects', 'VisibleBody, VisibleContactConstraint, VisibleDistanceConstraint')],
  'calls made to OpenGL')
p('C30', 'The profiler reports the time spent in each phase of a step',
  'Each step of positive duration adds one measure to every timer of the profiler, equal to the time spent in that phase, summed over islands, and to nothing else; a step of zero duration only measures the narrow phase. The last, average and greatest measure and their number are those of the measures since the last reset, partial measures add up to one when they are committed, a timer that is moved or nested measures its whole life once, and the reported tree height is one that a binary tree of the colliders can have.',
  ['histories'],
  'every history up to a bounded length of measures, moves, partial measures, commits and resets, and of steps and changes of a world whose callbacks advance a clock owned by the check',
  'No test covers the profiler, and the real clock cannot be asserted on.',
  [I+'physics/Profiler.hpp', I+'physics/Island.hpp', 'src/Simu/physics/World.cpp'],
  [('timers', 'TimeEntry, ScopedTimer'), ('phases', 'World::step, World::detectContacts, solveIslands')],
  'World::profiler()')
p('C31', 'The controls of the application do to the scene what they say',
  'In any sequence of inputs, the scene shown is paused and resumed by P and by the pause button, advances by one frame of 1/60 s with S even when paused, is played at half or twice the speed with minus, equal and their buttons, is rebuilt by R and by the restart button, and escape or the exit menu closes the application. Each frame steps it by the elapsed time, at most 1/60 s, times its speed, or by zero when paused. Scrolling by n zooms by 1.25 to the power n and held arrow keys pan at 500 pixels per second. The scene and its tool are told each mouse event at the point that the camera shows under the cursor; input used by the interface or by the tool goes no further. Buttons and labels agree with the state of the scene, showing or hiding windows changes nothing, a scene that is not shown does not change, selecting another scene rebuilds it, and the viewport follows the size of the window in pixels. The profiler window shows what the profiler of the scene holds and resets it on request. Choosing a tool that is not registered or a play speed that is not positive is refused and changes nothing.',
  ['histories'],
  'every sequence up to a bounded length of keyboard, mouse, window and menu events and frames of several durations, delivered to the real application with stand-ins for the window system, interface and graphics',
  'The app layer has no tests at all.',
  [I+'app/Application.hpp', 'src/Simu/app/Application.cpp', I+'app/Scene.hpp', 'src/Simu/app/Scene.cpp', I+'app/Event.hpp'],
  [('event dispatch', 'Application'), ('controls', 'Scene::onKeypress, Scene::onMouseScroll, Scene::step'), ('cursor mapping', 'Camera::invTransform')],
  'state of the scenes, what the interface offers')
p('C32', 'Demo scenes build, run, stand or swing as their options say, and restart',
  'For every option offered in their windows the demo scenes start with the bodies asked for and run without error. Stacks and towers of up to twelve storeys stand for the whole run, such a pyramid settles onto its ground and stands, nothing turns, drifts or sinks beyond a small tolerance. The drum of the tumbler turns in place at 0.05 pi rad/s and no box leaves it, boxes come one per frame up to the maximum. The last balls of the pendulum, as many as asked, start pushed, a ball hangs at rest until it is pushed, its string keeps its length, balls of long strings do not pass through each other and, where a frame moves them less than their radius, their push comes out at the other end. No scene without a motor gains energy (pendulums of more than two balls: where a frame moves them less than their radius). Options take effect at the next restart, and a restart gives bit for bit the motion of a first start with the same options, whatever the user did before it: running, grabbing, adding or killing boxes, pausing, stepping, changing speed or options.',
  ['histories', 'inputs'],
  'every combination of a set of options for simulations of several seconds, and every sequence up to a bounded length of user actions before a restart, run by the real application with stand-ins for the window system, interface and graphics',
  'The demos are never run by a test.',
  ['demos/Pyramid.cpp', 'demos/Tower.cpp', 'demos/BoxStacks.cpp', 'demos/NewtonPendulum.cpp', 'demos/Tumbler.cpp', 'src/Simu/app/Scene.cpp', 'src/Simu/physics/World.cpp'],
  [('scene construction', 'Scene::init, Scene::reset'), ('stacking', 'World::step, ContactConstraint'), ('motor', 'RotationMotor'), ('string', 'DistanceConstraint')],
  'positions and velocities of the bodies of the scene')
p('C33', 'Partitions, views and random numbers do what they say',
  'Partitioning a range by a predicate moves every element for which it holds before all others, loses and repeats none, asks about each once, touches nothing outside the range and returns where the others start. A view visits exactly the elements from its begin to its end in their order, is empty exactly when there are none, and gives its first and last element, its size and its elements by position where its iterators allow it; writing through it writes to the container. A random number is within the range asked for, of every type, both ends of integer ranges included; every value is reached, by equal shares of the outputs of the engine; random vectors and matrices draw each of their elements so, and a distribution given by the user is the one used.',
  ['inputs'],
  'every sequence of elements and every sub-range up to a bounded length in each kind of container, every range from a set reaching to the limits of each type, every output of the engine from a grid',
  'A random number cannot be asserted on and the tests use one container each.',
  [I+'utility/Algo.hpp', I+'utility/View.hpp', I+'math/Random.hpp', I+'math/Matrix.inl.hpp'],
  [('partition', 'booleanSort'), ('views', 'makeView, ViewType'), ('random numbers', 'Uniform, random')],
  'values returned and elements of containers')
p('C34', 'Refused requests leave no trace, and errors in a step leave a usable world',
  'A request that is refused with an exception (a collider of a polygon or body that is not valid, a constraint of a null body, of the wrong number of bodies, or without any body that can be moved, limits that are negative or out of order, a constraint, force field or constraint function whose own constructor or onConstruction throws) leaves no trace: the bodies, constraints, limits and contacts are as they were, every later step gives bit for bit what it would have given, nothing is called for the refused object, and its memory is returned. An exception thrown by user code during a step comes out of the step, and the world can then be stepped, queried and destroyed: no callback is lost or repeated for any object, contacts are again the overlapping pairs, motion stays finite, and no memory is lost.',
  ['histories', 'crash_points'],
  'every kind of refused request at every point of a history, alone and in pairs, and an error thrown at every single call made to user code during a history of steps, alone and in pairs',
  'Tests check that some requests throw, never what they leave behind, and no test throws from a callback.',
  [I+'physics/Collider.hpp', I+'physics/Bodies.inl.hpp', I+'utility/Memory.hpp', I+'physics/ConstraintInterfaces.hpp', I+'physics/ConstraintSolver.hpp', I+'physics/Island.hpp', 'src/Simu/physics/World.cpp'],
  [('refused colliders and constraints', 'Colliders::add, Bodies, ConstraintImplementation'), ('refused limits', 'LimitsSolver::setLowerLimit, DistanceConstraint'), ('ownership', 'makeUnique, World::makeConstraint'), ('errors in a step', 'World::step, World::updateBodies, Island')],
  'exceptions, state of the world, memory asked from the system')
p('C35', 'Constraints built by users from the provided parts hold as they are defined',
  'For any constraint function given to the provided solvers, alone or in a combination, after the velocities of a step are solved the relative velocity of each row, plus its bias, plus its restitution times its value over the time step, plus its damping times its impulse, is zero, or has the sign that the bounds on its impulse leave when the impulse is at one of them; impulses stay within the bounds given by the function for that time step, act along its jacobian, weigh masses by dominance, and are those that the solver reports. A limited constraint does so at the limit it has reached, or at both when they are equal, pushes back only, and does nothing strictly between its limits. Positions are then corrected towards zero, or the limit, within the bounds on corrections. With warm starting, a step begins with the impulses that the one before ended with, within its own bounds; without it, or for a limit that was slack, with none. None of the results depends on warm starting, on earlier limits or steps, or, for a single row, on the number of iterations. A combination has the rows of its parts in order.',
  ['inputs', 'histories'],
  'every combination of function, solver, bounds, restitution, damping, bias, bodies and motion from finite sets, for several steps, and every bounded sequence of changes of limits and velocities between steps',
  'The tests only use the constraints of the library, all of them rigid.',
  [I+'physics/ConstraintSolver.hpp', I+'physics/ConstraintFunction.hpp', I+'physics/Constraint.hpp', I+'physics/ConstraintDerivation.md'],
  [('solvers', 'EqualitySolver, InequalitySolver, LimitsSolver'), ('combinations', 'ConstraintFunctions'), ('glue', 'ConstraintImplementation')],
  'positions and velocities of the bodies')
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, (q['id'], len(q['title']))
            f.write(json.dumps(q) + '\n')
