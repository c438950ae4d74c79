"""Events of IACT files: which objects make up which event.

Works on scripts (checks/script.py): plain Python, the values are tokens.
"""


def events(objects, parsed, offsets):
    """[{field: value}] and the run end; offsets(o, k): (time offset, weight, x, y) of a reuse as stored"""
    out = []
    todo = list(objects)
    o = todo.pop(0)
    while o.type != 1210:
        assert o.type == 1202
        header = parsed(o)
        table = todo.pop(0)
        assert table.type == 1203
        longitudinal = particles = None
        o = todo.pop(0)
        while o.type not in (1204, 1213):
            if o.type == 1211:
                longitudinal = parsed(o)
            elif o.type == 1205:
                particles = parsed(o)
            o = todo.pop(0)
        reuses = []
        for k in range(table.n):
            if o.type == 1204:
                blocks = [s for s in o.subs if s.type == 1205]
            else:
                blocks = []
                o = todo.pop(0)
                while o.type != 1214:
                    blocks.append(o)
                    o = todo.pop(0)
            t, w, x, y = offsets(table, k)
            e = {'time_offset': t, 'reuse_weight': w, 'impact_x': x, 'impact_y': y, 'reuse': k + 1, 'photon_bunches': {}, 'emitter': {},
                 'n_photons': {}, 'n_bunches': {}, 'header': header, 'event_number': header['event_number'],
                 'longitudinal': longitudinal, 'particles': particles}
            for b in blocks:
                p, m = parsed(b)
                e['photon_bunches'][b.tel] = p
                e['emitter'][b.tel] = m
                e['n_photons'][b.tel], e['n_bunches'][b.tel] = b.numbers
            reuses.append(e)
            o = todo.pop(0)
        assert o.type == 1209
        end = parsed(o, header['version'])
        for e in reuses:
            e['end'] = end
            out.append(e)
        o = todo.pop(0)
    return out, parsed(o)
