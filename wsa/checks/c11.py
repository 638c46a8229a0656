"""Linear and second-order transfer maps of the magnets."""

from ..core import taint
from ..optics import (track, from_bunch, Map, flow, symplectic_defect,
                      parameter_sets, PAR)

PROP = dict(
    id='C11', title='Magnet transport is the symplectic flow of the magnet',
    statement='The transport of a bunch through a drift, dipole, quadrupole, '
    'sextupole or combined magnet of any length is, to first order '
    '(order=1) and to second order (order=2) in the coordinates relative to '
    'the reference particle, the flow of the relativistic Hamiltonian of '
    'that magnet. Hence it conserves phase-space volume (is symplectic) to '
    'that order and does not depend on where the magnet is cut in pieces.',
    over=['inputs', 'configurations'],
    text='every coordinate, reference energy, length and strength of either '
    'sign',
    why='the tests track one bunch through a few elements and compare beam '
    'sizes to stored values; most of the 216 second-order coefficients do '
    'not change those',
    files=['wake_t/beamline_elements/tm_elements.py',
           'wake_t/physics_models/beam_optics/transfer_matrices.py',
           'wake_t/particles/push/transfer_matrix.py'],
    mechanism=[('matrices', 'wake_t/physics_models/beam_optics/'
                'transfer_matrices.py'),
               ('application', 'wake_t/particles/push/transfer_matrix.py:'
                'track_with_transfer_map')])
NAMES = ("x", "x'", "y", "y'", "tau", "dp")


def run(chk):
    chk.rules = {
        'order1': 'the transport with order=1 is linear with the '
        'coefficients of the flow',
        'order2': 'the transport with order=2 is quadratic with the '
        'first- and second-order coefficients of the flow',
        'symplectic': 'the extracted coefficients satisfy the symplectic '
        'condition to their order',
    }
    for r, n in (('order1', 30), ('order2', 30), ('symplectic', 10)):
        chk.need(r, n)
    maps = {}
    for order in (1, 2):
        for cls in PAR:
            def get(order=order, cls=cls):
                x = chk.ctx()
                _, b, _ = track(x, cls, order, **PAR[cls])
                f = from_bunch(x, b)
                bad = set()
                for t in f:
                    bad |= taint(t)
                if bad:
                    chk.und('order%d' % order, cls, '',
                            'depends on unmodelled %s' % sorted(bad)[:4])
                else:
                    maps[order, cls] = f
            chk.part('order%d' % order, cls, get)
    nset = 12 if chk.tier == 'thorough' else 2
    sets = parameter_sets(chk.seed, nset)
    refs = {}
    for order in (1, 2):
        for cls in PAR:
            if (order, cls) in maps:
                chk.part('order%d' % order, cls, compare, chk, order, cls,
                         maps[order, cls],
                         [p for c, p in sets if c == cls], refs)


def compare(chk, order, cls, terms, params, refs):
    w = 'wake_t:%s.track[order=%d]' % (cls, order)
    bad = [{} for _ in range(6)]
    symp = []
    for p in params:
        o, R, Q = Map(terms, p).coefficients()
        key = tuple(sorted(p.items()))
        if key not in refs:
            # the curvature of a positive angle is negative in x
            refs[key] = flow(p['L'], -p['theta']/p['L'], p['k1'], p['k2'],
                             p['g_ref'])
        R0, Q0 = refs[key]
        for i in range(6):
            if abs(o[i]) > 1e-7:
                bad[i].setdefault('reference particle moved', (o[i], 0., p))
            for j in range(6):
                if abs(R[i][j] - R0[i][j]) > 1e-5:
                    bad[i].setdefault('d%s/d%s' % (NAMES[i], NAMES[j]),
                                      (R[i][j], R0[i][j], p))
                for k in range(j+1):
                    q0 = Q0[i][j][k] if order == 2 else 0.
                    if abs(Q[i][j][k] - q0) > 1e-4:
                        bad[i].setdefault('d2%s/d%sd%s' % (
                            NAMES[i], NAMES[j], NAMES[k]),
                            (2*Q[i][j][k], 2*q0, p))
        a, b = symplectic_defect(R, Q)
        if a or (b and order == 2):
            symp.append((a[:4], b[:4] if order == 2 else [], p))
    for i in range(6):
        if bad[i]:
            chk.bad('order%d' % order, '%s: %s' % (cls, NAMES[i]), w, {
                'coefficient (found, required, parameters)': {
                    k: v for k, v in list(bad[i].items())[:6]}})
        else:
            chk.ok('order%d' % order, '%s: %s' % (cls, NAMES[i]), w,
                   'interpretation')
    if symp:
        chk.bad('symplectic', '%s order %d' % (cls, order), w,
                {'entries': symp[:3]})
    else:
        chk.ok('symplectic', '%s order %d' % (cls, order), w,
               'interpretation')
