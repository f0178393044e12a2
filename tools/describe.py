#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLANAR = 'orient/planar.py'
VALID = ('valid geometries: segments with distinct ends, simple contours of '
         'non-zero area, multisegments of two or more segments which neither '
         'cross nor overlap, areal parts and holes meeting only in isolated '
         'points, polygons with connected interiors')
TESTS = ('The existing tests sample a few hundred random floats/rationals per '
         'function, mostly in general position, and check weak relations '
         'between answers (complement, a handful of constructed cases); '
         'coincident vertices, collinear overlaps and touching parts, where '
         'the branches differ, are almost never generated, and no '
         'independent definition of the right answer is available to them.')


def core(*names):
    return ['orient/core/%s.py' % n for n in names]


SWEEP = core('processing', 'events_queue', 'event', 'sweep_line', 'enums')
DOMAIN = (' Arguments are valid: contours are simple, multisegments have two or '
          'more segments which neither cross nor overlap, areal parts and '
          'holes meet in isolated points only.')
PROPS = []


def add(id_, title, statement, over, text, why, files, mechanism,
        observe, state=None, technique='', note=''):
    statement += DOMAIN
    anchors = {'files': [PLANAR] + files,
               'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
               'observe_at': observe, 'hook_needed': None}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w}
                            for n, m, w in state]
    PROPS.append(({'id': id_, 'title': title, 'statement': statement,
                   'quantifier': {'over': over, 'text': text},
                   'why_tests_cant': why, 'anchors': anchors},
                  technique, note))


REL_LL = ('DISJOINT when there are no common points, EQUAL / COMPONENT / '
          'COMPOSITE when one contains the other, OVERLAP when they share a '
          'piece but neither contains the other, CROSS when there are only '
          'isolated common points and at one of them they pass through each '
          'other, TOUCH otherwise')
REL_LA = ('DISJOINT or TOUCH when no piece goes inside, COMPONENT when it '
          'lies in the boundary, WITHIN when in the interior, ENCLOSED when '
          'inside and meeting the boundary, CROSS when there are pieces both '
          'strictly inside and strictly outside')
REL_AA = ('DISJOINT / TOUCH when interiors have nothing in common, EQUAL, '
          'WITHIN / ENCLOSED / COMPONENT (and COVER / ENCLOSES / COMPOSITE '
          'the other way) when one contains the other with boundaries '
          'apart / meeting / with the boundary of the smaller one being a '
          'part of the boundary of the bigger one, OVERLAP otherwise')
DIFF = 'property-based differential testing against an exact reference model'
DIFF_NOTE = ('Generated-input search: no counterexample among tens of '
             'thousands (quick) to millions (thorough) of structured cases. '
             'Trusts the quadratic exact-arithmetic model in vlib/geom.py '
             'and the validity rules of the generators; inputs have up to '
             'about 100 vertices.')
META = 'property-based metamorphic testing'
META_NOTE = ('Generated-input search over structured cases and random '
             'transformations; the relation between answers is exact, no '
             'model of the library is trusted beyond it.')
DIFF_WHY = TESTS
VALID_TEXT = 'All pairs of ' + VALID + '; any coordinates.'

SEG = [('point on / orientation tests', 'orient/core/segment.py')]
LIN = [('events queue and sweep of linear geometries',
        'orient/core/events_queue.py, orient/core/processing.py'),
       ('relations from counts of events', 'orient/core/processing.py')]
CMP = [('sweep with in-other flags of edges',
        'orient/core/events_queue.py, orient/core/processing.py'),
       ('bounding box and equality shortcuts',
        'orient/core/region.py, multiregion.py, polygon.py, '
        'multipolygon.py')]


def diff(id_, title, statement, fns, files, mech, text=VALID_TEXT):
    add(id_, title, statement, ['inputs'], text, DIFF_WHY, files, mech,
        ['return values of orient.planar.%s' % f for f in fns],
        technique=DIFF, note=DIFF_NOTE)


diff('P01', 'Location of a point in a linear geometry is exact',
     'For every point and every segment, multisegment or contour the reported '
     'location is BOUNDARY exactly when the point belongs to the geometry, '
     'and EXTERIOR otherwise.',
     ['point_in_segment', 'point_in_multisegment', 'point_in_contour'],
     core('segment', 'multisegment', 'contour'), SEG)
diff('P02', 'Location of a point in an areal geometry is exact',
     'For every point and every region, multiregion, polygon or multipolygon '
     'the reported location is BOUNDARY exactly for points of edges of '
     'borders and holes, INTERIOR exactly for points inside and EXTERIOR for '
     'all others.',
     ['point_in_region', 'point_in_multiregion', 'point_in_polygon',
      'point_in_multipolygon'],
     core('region', 'multiregion', 'polygon', 'multipolygon'),
     [('ray casting over edges of rings', 'orient/core/region.py'),
      ('holes then border', 'orient/core/polygon.py')])
diff('P03', 'Relation of a segment to a segment or multisegment is exact',
     'For every segment and every segment or multisegment the reported '
     'relation is the one of the sets of points: ' + REL_LL + '.',
     ['segment_in_segment', 'segment_in_multisegment'],
     core('segment', 'multisegment'),
     [('relation of segments merged over parts', 'orient/core/multisegment.py'
       )])
diff('P04', 'Relation of a segment to a contour is exact',
     'For every segment and every contour the reported relation is the one '
     'of the sets of points: DISJOINT without common points, COMPONENT when '
     'the segment lies on the contour (on one or several edges), OVERLAP '
     'when only a piece of it does, CROSS when it passes through the '
     'contour at a common point and TOUCH otherwise.',
     ['segment_in_contour'], core('contour', 'segment'),
     [('walk along edges with remembered touches', 'orient/core/contour.py')])
diff('P05', 'Relation of a multisegment to a linear geometry is exact',
     'For every multisegment and every multisegment or contour the reported '
     'relation is the one of the sets of points: ' + REL_LL + '.',
     ['multisegment_in_multisegment', 'multisegment_in_contour'],
     core('multisegment', 'contour') + SWEEP, LIN)
diff('P06', 'Relation between contours is exact',
     'For every two contours the reported relation is the one of the sets of '
     'points of the curves: ' + REL_LL + '.',
     ['contour_in_contour'], core('contour') + SWEEP, LIN)
diff('P07', 'Relation of a segment to a region or multiregion is exact',
     'For every segment and every region or multiregion the reported relation '
     'is: ' + REL_LA + '.',
     ['segment_in_region', 'segment_in_multiregion'],
     core('region', 'multiregion') + SWEEP,
     [('pieces of the segment between common points',
       'orient/core/region.py')] + CMP)
diff('P08', 'Relation of a segment to a polygon or multipolygon is exact',
     'For every segment and every polygon or multipolygon, holes included, '
     'the reported relation is: ' + REL_LA + '.',
     ['segment_in_polygon', 'segment_in_multipolygon'],
     core('polygon', 'multipolygon', 'region', 'multiregion') + SWEEP, CMP)
diff('P09', 'Relation of a multisegment to a (multi)region is exact',
     'For every multisegment and every region or multiregion the reported '
     'relation is: ' + REL_LA + '.',
     ['multisegment_in_region', 'multisegment_in_multiregion'],
     core('region', 'multiregion') + SWEEP, CMP)
diff('P10', 'Relation of a multisegment to a (multi)polygon is exact',
     'For every multisegment and every polygon or multipolygon, holes '
     'included, the reported relation is: ' + REL_LA + '.',
     ['multisegment_in_polygon', 'multisegment_in_multipolygon'],
     core('polygon', 'multipolygon') + SWEEP, CMP)
diff('P11', 'Relation of a contour to an areal geometry is exact',
     'For every contour and every region, multiregion, polygon or '
     'multipolygon the reported relation of the curve is: ' + REL_LA + '.',
     ['contour_in_region', 'contour_in_multiregion', 'contour_in_polygon',
      'contour_in_multipolygon'],
     core('region', 'multiregion', 'polygon', 'multipolygon') + SWEEP, CMP)
diff('P12', 'Relation between regions and multiregions is exact',
     'For every two regions, region and multiregion, or two multiregions the '
     'reported relation is: ' + REL_AA + '.',
     ['region_in_region', 'region_in_multiregion',
      'multiregion_in_multiregion'],
     core('region', 'multiregion') + SWEEP, CMP)
diff('P13', 'Relation of a region or multiregion to a polygon is exact',
     'For every region or multiregion and every polygon with any number of '
     'holes the reported relation is: ' + REL_AA + '.',
     ['region_in_polygon', 'multiregion_in_polygon'],
     core('polygon', 'region', 'multiregion') + SWEEP, CMP)
diff('P14', 'Relation between polygons is exact',
     'For every two polygons with any numbers of holes the reported relation '
     'is: ' + REL_AA + '.',
     ['polygon_in_polygon'], core('polygon', 'region', 'multiregion') + SWEEP,
     CMP)
diff('P15', 'Relation of an areal geometry to a multipolygon is exact',
     'For every region, multiregion, polygon or multipolygon and every '
     'multipolygon the reported relation is: ' + REL_AA + '.',
     ['region_in_multipolygon', 'multiregion_in_multipolygon',
      'polygon_in_multipolygon', 'multipolygon_in_multipolygon'],
     core('multipolygon', 'polygon', 'multiregion') + SWEEP, CMP)


def meta(id_, title, statement, text, why, files=(), mech=CMP, over=None,
         technique=META, note=META_NOTE, observe=None, state=None):
    add(id_, title, statement, over or ['inputs'], text, why, list(files),
        mech, observe or ['return values of all functions of orient.planar'],
        state, technique, note)


ALL = core('segment', 'multisegment', 'contour', 'region', 'multiregion',
           'polygon', 'multipolygon') + SWEEP
meta('P16', 'Relations are reflexive and converse to each other',
     'For geometries of the same kind, the relation asked with swapped '
     'arguments is always the complement of the original one, and every '
     'geometry is EQUAL to itself however it is written down.',
     VALID_TEXT,
     'The tests state this, but on randomly sampled pairs which nearly never '
     'share vertices, edges or parts.', ALL)
meta('P17', 'Answers do not depend on how arguments are written down',
     'No answer changes when the starting vertex or the direction of a '
     'contour or hole, the order of ends of segments, or the order of parts '
     'or holes changes in either argument.',
     VALID_TEXT + ' All rewritings of both arguments.',
     'The tests reverse or rotate single generated arguments in general '
     'position; combinations with coincident points are not reached.', ALL)
meta('P18', 'Redundant vertices and subdivision do not change answers',
     'No answer changes when collinear vertices are added to or removed from '
     'edges of contours, borders and holes, or when segments of multisegments '
     'are split into consecutive pieces.',
     VALID_TEXT + ' All subdivisions of both arguments.',
     'Collinear consecutive vertices appear in the tests almost never, and '
     'are not compared with the simplified geometry.', ALL)
meta('P19', 'Answers are invariant under affine maps',
     'No answer changes when both arguments go through the same invertible '
     'affine map of the plane: translation, mirror, rotation, shear, or '
     'scaling by very big or very small factors.',
     VALID_TEXT + ' All invertible maps with exactly representable results.',
     'The tests contain no comparison of answers for transformed arguments; '
     'directions of sweeping and of ray casting favour particular '
     'orientations which general position hides.', ALL)
meta('P20', 'Answers do not depend on the kind used for a set of points',
     'The same set of points gives the same answer whichever kind of '
     'geometry holds it: a region, a multiregion of it, a polygon without '
     'holes or a multipolygon of that; a contour or the multisegment of its '
     'edges; a segment or the multisegment of its pieces.',
     VALID_TEXT + ' All kinds able to hold the same set.',
     'The tests compare a few such pairs of kinds, on random arguments.',
     ALL)
meta('P21', 'Relations agree with locations of points',
     'The relation reported for two geometries is always the one implied by '
     'the locations reported for the points of the plane in them: common '
     'interior, boundary and exterior points, pieces and faces.',
     VALID_TEXT,
     'The tests relate some relations with locations of vertices only; '
     'vertices do not determine a relation.', ALL)
meta('P22', 'Containment composes along chains',
     'When one geometry is contained in (or disjoint from) a second one and '
     'the second one in a third one, the answer for the first and the third '
     'is among those possible for sets of points; in particular being '
     'within, enclosed by or a component of another geometry is transitive.',
     'All chains of three ' + VALID + '.',
     'No test takes three geometries.', ALL)
meta('P23', 'Answers do not depend on history, threads or faults',
     'A call never changes its arguments or the current context, and its '
     'answer is the one a fresh process gives for the same arguments, '
     'whatever calls happened before, failed half-way or run concurrently in '
     'other threads, and whatever objects hold the coordinates.',
     'All sequences of calls on shared, equal or refilled objects, with '
     'failures of context functions in the middle and concurrent threads.',
     'Every test makes one or two calls and looks at answers only.',
     ALL, [('no module state, immutable events, reversal by copies',
            'orient/core')],
     ['histories', 'schedules', 'fault_sequences'],
     'stateful property-based testing against a pristine process',
     'Random histories of up to 30 operations; thread switching is forced '
     'often but schedules are sampled, not enumerated.',
     state=[('arguments', 'geometries passed by the caller', 'the caller'),
            ('current context', 'default geometric context',
             'ground.base.get_context')])
meta('P24', 'Answers do not depend on contexts, classes or number types',
     'Exactly equal coordinates given as integers, fractions, floats or a '
     'mix of them, in objects of the default or of user-defined classes and '
     'in any sequences, give the same answer; an explicitly given context is '
     'the only one consulted, and without it the current one is.',
     VALID_TEXT + ' All number types, contexts and geometry classes.',
     'The tests use one default context and one number type at a time.',
     ALL, [('context passed through all layers', 'orient/core'),
           ('robust predicates of the context', 'ground')],
     ['inputs', 'configurations'],
     'property-based differential testing between configurations')
meta('P25', 'Cost grows nearly linearly with size',
     'For arguments whose number of common points is proportional to their '
     'size and with a bounded number of edges at each vertex, the work done '
     'by any call grows like n or n log n in the total number of '
     'vertices n, as documented, never quadratically.',
     'All sizes; growth is measured between 48 and 384 edges on families of '
     'combs, convex chains, staircases, rows and grids.',
     'The tests have arguments of a dozen vertices and measure no cost.',
     SWEEP, [('binary heap of events and balanced tree of the sweep line',
              'orient/core/events_queue.py, orient/core/sweep_line.py'),
             ('bounding box filters and early stop',
              'orient/core/region.py, orient/core/processing.py')],
     ['inputs'],
     'property-based testing of cost growth (counts of executed lines)',
     'Counts executions of Python lines and sizes of collections given to '
     'built-in functions which walk along them; sampled families only.',
     observe=['number of executed lines during a call'])
meta('P26', 'Parts that are apart from everything do not change answers',
     'Adding to one argument a further part that is disjoint from both '
     'arguments changes the answer exactly as it must: nothing changes, '
     'except that an argument which lay completely in the other one does '
     'not any more.',
     VALID_TEXT + ' All parts disjoint from them, near or far.',
     'No test modifies an argument by a part and compares answers.', ALL)
meta('P27', 'Answers for a whole follow from answers for its parts',
     'The answer for a multisegment, contour, multiregion or multipolygon is '
     'always one of those implied by the answers for its segments, edges, '
     'regions or polygons taken one by one.',
     VALID_TEXT, 'The tests do this for few kinds on random arguments.', ALL)
meta('P28', 'Holes subtract their interiors from a polygon',
     'The answer for a polygon is always one of those implied by the answers '
     'for its border region and for the set of its holes: points and pieces '
     'inside of holes are outside of the polygon, edges of holes are its '
     'boundary.',
     'All polygons with one or more holes, possibly touching each other or '
     'the border in points, and all other arguments.',
     'The tests generate holes in general position.',
     core('polygon', 'region', 'multiregion') + SWEEP)
meta('P29', 'Answers are stable under small moves',
     'When arguments are moved, or their vertices are, by less than any gap '
     'between things apart, whatever holds with a margin stays in the '
     'answer: arguments apart stay DISJOINT, ones strictly inside stay '
     'WITHIN / COVER, areas overlapping partially stay OVERLAP, a line with '
     'points inside and outside of an area stays CROSS, interiors which '
     'meet go on meeting, an argument not covered by the other one stays '
     'so; however small the move is compared with coordinates.',
     VALID_TEXT + ' All moves smaller than gaps, of either argument: shifts, '
     'near-identity maps, moves of single vertices.',
     'The tests never compare answers for nearly equal arguments, and '
     'coordinates of their geometries are too short to make predicates '
     'nearly degenerate.', ALL)
meta('P30', 'Memory of calls is linear and given back',
     'For arguments whose number of common points is proportional to their '
     'size, the peak of memory used by a call grows at most linearly in the '
     'number of vertices, as documented, and nothing of it remains after '
     'the call has answered or failed: however many calls were made, memory '
     'in use does not depend on their number once their arguments are gone.',
     'All sizes and all numbers of calls; sizes 64 and 512, and eight calls '
     'after three warming ones are measured on families of combs, convex '
     'chains, staircases, rows and grids.',
     'The tests have arguments of a dozen vertices and measure no memory; '
     'what is left behind shows only over a history of calls.',
     SWEEP, [('events queue and sweep line local to a call',
              'orient/core/events_queue.py, orient/core/sweep_line.py'),
             ('generators of edges', 'orient/core/contour.py, '
              'orient/core/region.py, orient/core/polygon.py')],
     ['inputs', 'histories'],
     'property-based testing of memory growth and of leftovers over '
     'generated histories of calls (tracemalloc)',
     'Python objects only; sampled families. Documented constant memory of '
     'point_in_* is not checked: the geometric context gives edges as lists.',
     observe=['memory blocks of Python during and after calls'])
meta('P31', 'Failures of contexts or points are never turned into answers',
     'When a function of the geometric context, or reading of a coordinate '
     'of a point, raises an exception (of any class) in the middle of a '
     'call, the call raises too or still gives the right answer: it never '
     'takes the failure for a fact about geometries and gives a wrong one.',
     VALID_TEXT + ' All points of a call at which the context or a point can '
     'fail, all classes of exceptions.',
     'The tests have no failing contexts or points.',
     ALL, [('handlers of ValueError and KeyError',
            'orient/core/sweep_line.py, orient/core/contour.py, '
            'orient/core/multisegment.py'),
           ('uses of the context', 'orient/core')],
     ['inputs', 'fault_sequences'],
     'property-based fault injection at random uses of the context and '
     'readings of coordinates, against the answer of the intact context',
     'One failure per call; classes of exceptions from a list of sixteen.',
     observe=['return value or exception of a public function'])

if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p, _, _ in PROPS:
            f.write(json.dumps(p) + '\n')
    checks = [{'property': p['id'],
               'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
               'thorough_cmd': 'python3 check.py %s --tier thorough'
                               % p['id'],
               'technique': t, 'level': 'exploration', 'level_note': n}
              for p, t, n in PROPS]
    manifest = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -m compileall -q vlib',
                'checks': checks, 'not_applicable': [],
                'notes': 'No hooks in /repo; the checks import orient from '
                         '/repo (pure Python, nothing to build). Set '
                         'VERIF_SEED for other random choices; replay a '
                         'failing case with: python3 check.py replay '
                         'replays/<file>.json'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
