"""Where the number of a telescope is stored."""
from .simtel import TrackingPosition_attrs, TelescopeEvent_attrs, ADCSums_attrs, ADCSamples_attrs, ImageParameters_attrs, PixelList_attrs
from .iact import PhotoElectrons_attrs


def type_of(base, tel):
    return base + tel % 100 + 1000 * (tel // 100)


def telescope_of(base, typ):
    b = typ - base
    return 100 * (b // 1000) + b % 1000


def header_id(r, h):
    return {'telescope_id': h.id}


def split_id(r, h):
    return ImageParameters_attrs(r, h)


def tracking(r, h):
    return {'telescope_id': TrackingPosition_attrs(r, h)['telescope_id']}


def event(r, h):
    return {'telescope_id': TelescopeEvent_attrs(r, h)['telescope_id']}


def sums(r, h):
    return ADCSums_attrs(r, h)


def samples(r, h):
    return ADCSamples_attrs(r, h)


def pixel_list(r, h):
    return {'telescope_id': h.id % 1000000}


def array_id(r, h):
    return PhotoElectrons_attrs(r, h)
