"""What each check builds and how it is described; see DESIGN.md for the bounds."""
import glob
import os
REPO_DIR = os.environ.get('SIMU_REPO', '/repo')
# the libraries the build of the repository makes: every source of math and physics
LIB_SOURCES = sorted(os.path.relpath(p, REPO_DIR) for d in ('math', 'physics', 'utility') for p in glob.glob(os.path.join(REPO_DIR, 'src/Simu', d, '**', '*.cpp'), recursive=True))
COMMON_ASSUMPTIONS = [
    'the harness compiles the repository sources of the working tree with g++ on x86-64, IEEE single precision without contraction',
    'values outside the stated alphabets and histories longer than the stated depths are not covered',
]
TINY_POOL = ['-DSIMU_VERIF_POOL_BLOCK_SIZE=1']
T = 'stateless model checking of the real code: exhaustive enumeration of '
CHECKS = {
    'C01': dict(src='c01_rtree.cpp', build='san', defines=TINY_POOL,
                technique=T + 'bounded operation histories against a list model, under ASan/UBSan'),
    'C02': dict(src='c02_rtree_batch.cpp', build='san', defines=TINY_POOL,
                technique=T + 'box assignments and histories around batch updates against all-pairs comparison, under ASan/UBSan'),
    'C03': dict(src='c03_pool.cpp', build='san', technique=T + 'allocation/release histories with address, content and system-memory accounting, under ASan/UBSan'),
    'C04': dict(src='c04_boxes.cpp', build='fast', technique=T + 'interval and box pairs over a finite coordinate alphabet against exact comparisons'),
    'C05': dict(src='c05_gjk.cpp', build='fast', technique=T + 'pairs of convex shapes, placements and search directions against an exact separating-axis reference'),
    'C06': dict(src='c06_epa.cpp', build='fast', technique=T + 'pairs of convex shapes, placements and search directions against an exact separating-axis reference'),
    'C09': dict(src='c09_closest.cpp', build='fast', technique=T + 'segments, triangles and query points over lattices, scales and slivers against a direct minimisation'),
}
CHECKS['C10'] = dict(src='c10_solvers.cpp', build='fast', technique=T + 'matrices, right-hand sides, limits and guesses over finite alphabets against exact determinants and double precision solutions')
CHECKS['C28'] = dict(src='c28_matrix.cpp', build='fast', technique=T + 'operands over finite alphabets against element-wise definitions')
CHECKS['C08'] = dict(src='c08_polygon.cpp', build='fast', technique=T + 'vertex sequences on lattices, placements and directions against exact double precision geometry')
CHECKS['C07'] = dict(src='c07_manifold.cpp', build='fast', technique=T + 'pairs of convex colliders, placements and motions against double precision separating axes')
CHECKS['C11'] = dict(src='c11_lifecycle.cpp', build='san', defines=TINY_POOL, technique=T + 'deaths, creations and removals between steps and from inside every callback against a lifetime model, under ASan/UBSan')
CHECKS['C12'] = dict(src='c12_contacts.cpp', build='san', defines=TINY_POOL, technique=T + 'histories of motions, creations, removals and links against an all-pairs contact model, under ASan/UBSan')
CHECKS['C25'] = dict(src='c25_queries.cpp', build='san', defines=TINY_POOL, technique=T + 'histories of world operations, each followed by all queries of a grid against direct box tests, under ASan/UBSan')
CHECKS['C22'] = dict(src='c22_mass.cpp', build='san', technique=T + 'histories of collider additions, removals, spins and steps against double precision mass properties, under ASan/UBSan')
CHECKS['C23'] = dict(src='c23_geometry.cpp', build='fast', technique=T + 'transforms, placements and motions against double precision references')
CHECKS['C24'] = dict(src='c24_material.cpp', build='fast', technique=T + 'modes, values, bodies and impacts, each observed through the contact response')
CHECKS['C15'] = dict(src='c15_forces.cpp', build='san', defines=TINY_POOL, technique=T + 'bodies, domains, histories and fields against recorded calls and double precision impulses, under ASan/UBSan')
CHECKS['C13'] = dict(src='c13_schedule.cpp', build='san', defines=TINY_POOL, technique=T + 'graphs of bodies, constraints and contacts, activity patterns and settings against recorded calls and a reference integration, under ASan/UBSan')
CHECKS['C14'] = dict(src='c14_structural.cpp', build='fast', technique=T + 'motions, overlaps, joints, forces and histories involving structural bodies against uniform motion, and against the same world without the constraint')
CHECKS['C18'] = dict(src='c18_distance.cpp', build='fast', technique=T + 'limits, distances, bodies, anchors and velocities against the ideal impulse in double precision')
CHECKS['C19'] = dict(src='c19_motors.cpp', build='fast', technique=T + 'limits, directions, throttles, bodies and changes of them against the ideal motor in double precision')
CHECKS['C16'] = dict(src='c16_momentum.cpp', build='fast', technique=T + 'joints, contacts, masses, velocities and collider changes against double precision momenta')
CHECKS['C17'] = dict(src='c17_joints.cpp', build='fast', technique=T + 'joints, bodies, masses, anchors, velocities, position errors and graphs against double precision projections')
CHECKS['C20'] = dict(src='c20_response.cpp', build='fast', technique=T + 'impacts, slides and stacks of shapes, surfaces, masses and settings against the contact law evaluated in double precision')
CHECKS['C26'] = dict(src='c26_camera.cpp', build='fast', extra_sources=['src/Simu/app/Camera.cpp'], technique=T + 'histories of pans, zooms and resizes, each followed by a comparison of both transforms with a double precision model')
CHECKS['C21'] = dict(src='c21_determinism.cpp', build='fast', defines=TINY_POOL, technique=T + 'scenes and histories, each replayed under every memory layout, with every insertion of zero steps and of unrelated bodies, and compared bit by bit')
APP = sorted(os.path.relpath(p, REPO_DIR) for p in glob.glob(os.path.join(REPO_DIR, 'src/Simu/app/**/*.cpp'), recursive=True))
CHECKS['C27'] = dict(src='c27_tools.cpp', build='san', includes=['stubs'], defines=TINY_POOL, extra_sources=APP, technique=T + 'histories of mouse, keyboard, menu, kill, reset and scene events delivered to the real application behind stand-ins for the window system, interface and graphics, against a grab model, under ASan/UBSan')
CHECKS['C30'] = dict(src='c30_profiler.cpp', build='fast', technique=T + 'histories of measures and of world steps under a clock owned by the check, against sums of the time spent in the callbacks of each phase')
CHECKS['C31'] = dict(src='c31_application.cpp', build='fast', includes=['stubs'], extra_sources=APP, technique=T + 'histories of keyboard, mouse, window and menu events delivered to the real application behind stand-ins for the window system, interface and graphics, against a model of the documented controls')
CHECKS['C29'] = dict(src='c29_renderer.cpp', build='fast', includes=['stubs'], extra_sources=APP, technique=T + 'histories of drawings, sizes and settings executed on a recording OpenGL state machine, whose triangles are compared with the regions requested in double precision')
DEMOS = sorted('demos/' + os.path.basename(p) for p in glob.glob(os.path.join(REPO_DIR, 'demos/*.cpp')) if os.path.basename(p) not in ('Demos.cpp', 'ImGuiTest.cpp'))
CHECKS['C32'] = dict(src='c32_demos.cpp', build='fast', includes=['stubs'], repo_includes=['demos'], extra_sources=APP + DEMOS, technique=T + 'options, speeds and histories of restarts of the demo scenes run by the real application behind stand-ins for the window system, interface and graphics, monitored for whole simulations')
CHECKS['C33'] = dict(src='c33_utility.cpp', parts=['c33_views_own.cpp'], build='san', defines=['-include', 'c33_engine.hpp'], technique=T + 'element sequences, ranges of containers and outputs of the random engine against their definitions, under ASan/UBSan')
CHECKS['C34'] = dict(src='c34_errors.cpp', build='san', defines=TINY_POOL, technique=T + 'refused requests and errors thrown at every call of user code in a history, against the same history without them and against lifetime and contact models, under ASan/UBSan')
CHECKS['C35'] = dict(src='c35_custom.cpp', build='fast', technique=T + 'functions, solvers, bounds, limits, softness, bodies and histories of user-built constraints against the bounded complementarity problem solved by enumeration in double precision')
