"""IACT part of the format (types 1200 to 1216)"""
import numpy as np
from corsikaio.subblocks import parse_run_header, parse_run_end, parse_event_header, parse_event_end
from eventio.exceptions import WrongSize
from .dsl import Unspecified

LONG = np.dtype([('x', '<f4'), ('y', '<f4'), ('cx', '<f4'), ('cy', '<f4'), ('time', '<f4'), ('zem', '<f4'),
                 ('photons', '<f4'), ('wavelength', '<f4')])
COMPACT = np.dtype([('x', '<i2'), ('y', '<i2'), ('cx', '<i2'), ('cy', '<i2'), ('time', '<i2'), ('zem', '<i2'),
                    ('photons', '<i2'), ('wavelength', '<i2')])
PARTICLE = np.dtype([('x', '<f4'), ('y', '<f4'), ('cx', '<f4'), ('cy', '<f4'), ('time', '<f4'), ('momentum', '<f4'),
                     ('weight', '<f4'), ('particle_id', '<f4')])
EMITTER = np.dtype([('x', '<f4'), ('y', '<f4'), ('mass', '<f4'), ('charge', '<f4'), ('time', '<f4'),
                    ('emission_time', '<f4'), ('energy', '<f4'), ('wavelength', '<f4')])


def RunHeader(r, h):
    if r.i4() != 273:
        raise WrongSize
    return parse_run_header(r.rest())[0]


def EventHeader(r, h):
    if r.i4() != 273:
        raise WrongSize
    return parse_event_header(r.rest())[0]


def EventEnd(r, h):
    if r.i4() != 273:
        raise WrongSize
    return parse_event_end(r.rest(), version=7.8)


def RunEnd(r, h):
    if r.i4() != 3:
        raise WrongSize
    if len(r.data) != 16:
        raise Unspecified
    return parse_run_end(r.bytes(12) + bytes(270 * 4))


def TelescopeDefinition_attrs(r, h):
    return {'n_telescopes': r.i4()}


def TelescopeDefinition(r, h):
    n = r.i4()
    if n < 1:
        raise Unspecified
    if len(r.rest()) // (4 * n) != 4:
        raise Exception
    # one column after the other
    return np.rec.fromarrays(r.f4s(4 * n).reshape(4, n), names=['x', 'y', 'z', 'r'])


def ArrayOffsets(r, h):
    if h.version > 1:
        raise NotImplementedError
    n = r.i4()
    time = r.f4()
    if h.version == 0:
        names = ['x', 'y']
    else:
        names = ['x', 'y', 'weight']
    return time, np.rec.fromarrays(r.f4s(len(names) * n).reshape(len(names), n), names=names)


def Photons_attrs(r, h):
    return {
        'compact': h.version // 1000 == 1,
        'array_id': h.id // 1000,
        'telescope_id': h.id % 1000,
        'array': r.i2(),
        'telescope': r.i2(),
        'n_photons': r.f4(),
        'n_bunches': r.i4(),
    }


def long_bunches(r, n):
    c = np.frombuffer(r.bytes(16 * n), dtype=COMPACT, count=n)
    b = c.astype(LONG)
    b['x'] = b['x'] * 0.1
    b['y'] = b['y'] * 0.1
    b['cx'] = (b['cx'] / 30000).clip(min=-1., max=1.)
    b['cy'] = (b['cy'] / 30000).clip(min=-1., max=1.)
    b['time'] = b['time'] * 0.1
    b['zem'] = np.power(10., b['zem'] * 0.001)
    b['photons'] = b['photons'] * 0.01
    return b


def separated(b):
    emitted = b['wavelength'] == np.float32(9999)
    if np.any(emitted):
        return b[~emitted], b[emitted].view(EMITTER)
    return b, None


def Photons(r, h):
    r.i2(), r.i2(), r.f4()
    n = r.i4()
    if n < 0:
        raise Unspecified
    compact = h.version // 1000 == 1
    if n == 0:
        b = np.zeros(0, dtype=LONG)
    elif compact:
        b = long_bunches(r, n)
    else:
        b = np.frombuffer(r.bytes(32 * n), dtype=LONG, count=n)
    if h.id == 999999:
        return b.view(PARTICLE)
    return separated(b)


def Longitudinal(r, h):
    out = {'event_id': r.i4(), 'type': r.i4()}
    out['np'] = r.i2()
    out['nthick'] = r.i2()
    out['thickstep'] = r.f4()
    out['data'] = r.f4s(out['np'] * out['nthick']).reshape(out['np'], out['nthick'])
    return out


def InputCard(r, h):
    text = bytearray()
    for k in range(r.i4()):
        text += r.string() + b'\n'
    return text


def AtmosphericProfile(r, h):
    if h.version > 1:
        raise NotImplementedError
    name = r.vstring()
    obslevel = r.f8()
    n = r.uv()
    table = r.f8s(4 * n).reshape(n, 4)
    layers = r.uv()
    htoa = atm = None
    if layers == 5:
        htoa = r.f8()
        atm = r.f8s(25).reshape(5, 5)
    return {
        'id': h.id, 'name': name, 'obslevel': obslevel, 'altitude_km': table[:, 0], 'rho': table[:, 1],
        'thickness': table[:, 2], 'refractive_index_minus_1': table[:, 3], 'five_layer_atmosphere': atm, 'htoa': htoa,
    }


def PhotoElectrons_attrs(r, h):
    return {'array_id': h.id // 1000, 'telescope_id': h.id % 1000}


def PhotoElectrons(r, h):
    if h.version not in (1, 2, 3):
        raise NotImplementedError
    total = r.i4()
    n_pixels = r.i4()
    flags = 0
    if h.version > 1:
        flags = r.i2()
    non_empty = r.i4()
    if total < 0 or n_pixels < 0 or non_empty < 0:
        raise Unspecified
    per_pixel = np.zeros(n_pixels, dtype='<i4')
    pixel = np.zeros(total, dtype='<u4')
    time = np.zeros(total, dtype='<f4')
    amplitude = np.zeros(total, dtype='<f4')
    done = 0
    for k in range(non_empty):
        if h.version == 3:
            p = r.sv()
        else:
            p = r.i2()
        n = r.i4()
        if n < 0:
            raise Unspecified
        per_pixel[p] = n
        for j in range(n):
            pixel[done + j] = p
            time[done + j] = r.f4()
        if flags & 1:
            for j in range(n):
                amplitude[done + j] = r.f4()
        done += n
    out = {'n_pe': total, 'n_pixels': n_pixels, 'non_empty': non_empty, 'photoelectrons': per_pixel, 'pixel_id': pixel,
           'time': time}
    if flags & 1:
        out['amplitude'] = amplitude
    if flags & 4:
        photons = np.zeros(n_pixels, dtype='<i4')
        for k in range(r.i4()):
            p = r.i2()
            photons[p] = r.i4()
        out['photons'] = photons
    return out


def Photons_chunks(r, h, chunksize):
    """photon bunches in portions of a fixed size, the last one may be shorter"""
    r.i2(), r.i2(), r.f4()
    left = r.i4()
    compact = h.version // 1000 == 1
    out = []
    while True:
        n = min(left, chunksize)
        if n == 0:
            b = np.zeros(0, dtype=LONG)
        elif compact:
            b = long_bunches(r, n)
        else:
            b = np.frombuffer(r.bytes(32 * n), dtype=LONG, count=n)
        out.append(separated(b))
        left = left - n
        if left == 0:
            return out
