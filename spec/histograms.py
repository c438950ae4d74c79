"""Type 100: list of histograms"""
import numpy as np
from .dsl import Unspecified


def axis(r, out, ax, real):
    out['underflow_' + ax] = r.i4()
    out['overflow_' + ax] = r.i4()
    if real:
        out['lower_' + ax] = r.f4()
        out['upper_' + ax] = r.f4()
        out['sum_' + ax] = r.f4()
        out['tsum_' + ax] = r.f4()
    else:
        out['lower_' + ax] = r.i4()
        out['upper_' + ax] = r.i4()
        out['sum_' + ax] = r.i4()
        out['tsum_' + ax] = r.i4()


def Histograms(r, h):
    if h.version != 1 and h.version != 2:
        raise NotImplementedError
    n = r.i2()
    out = []
    for k in range(n):
        d = {'type': r.bytes(1).decode('ascii')}
        title = r.string()
        d['title'] = title.decode('utf-8')
        if len(title) % 2 == 0:
            r.bytes(1)
        d['id'] = r.i4()
        d['n_bins_x'] = r.i2()
        d['n_bins_y'] = r.i2()
        d['entries'] = r.i4()
        d['tentries'] = r.i4()
        real = d['type'] == 'R' or d['type'] == 'r' or d['type'] == 'F' or d['type'] == 'D'
        axis(r, d, 'x', real)
        count = d['n_bins_x']
        if d['n_bins_y'] > 0:
            axis(r, d, 'y', real)
            count = d['n_bins_x'] * d['n_bins_y']
        if d['type'] == 'F' or d['type'] == 'D':
            d['content_all'] = r.f4()
            d['content_inside'] = r.f4()
            d['content_outside'] = r.f4s(8)
            if d['tentries'] > 0:
                data = r.f4s(count)
            else:
                data = np.zeros(count)
        else:
            if d['tentries'] > 0:
                data = r.i4s(count)
            else:
                data = np.zeros(count)
        if d['n_bins_y'] > 0:
            data = data.reshape(d['n_bins_y'], d['n_bins_x'])
        d['data'] = data
        out.append(d)
    return out
