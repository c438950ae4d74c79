"""How the events of a sim_telarray file are put together.

Works on scripts (checks/script.py): plain Python, the values are tokens.
"""


from .types import telescope_of


class Anything(Exception):
    """histories that no simulation writes; whatever happens is accepted"""


class Fails(Exception):
    """an error that is passed on"""


DESCRIPTIONS = {2002: 'camera_settings', 2003: 'camera_organization', 2004: 'pixel_settings', 2005: 'disabled_pixels',
                2006: 'camera_software_settings', 2007: 'pointing_correction', 2008: 'drive_settings'}
MONITORING = {2022: 'camera_monitorings', 2023: 'laser_calibrations', 2033: 'pixel_monitorings'}


class EOF(Exception):
    pass


class Reader:
    def __init__(self, parsed, allowed=None):
        self.parse = parsed
        self.allowed = allowed
        self.event = None
        self.shower = None
        self.particles = None
        self.calib_pe = None
        self.reused = False         # the shower has an event
        self.complete = False       # the event has its array event
        self.over = False
        self.monitoring = {n: {} for n in MONITORING.values()}
        self.attrs = {'histograms': None, 'history': [], 'mc_run_headers': [], 'corsika_inputcards': [], 'atmospheric_profiles': [],
                      'header': None, 'n_telescopes': None, 'telescope_meta': {}, 'global_meta': {}, 'telescope_descriptions': {}}
        self.attrs.update(self.monitoring)

    def parsed(self, o):
        if o.result == 'EOF':
            raise EOF
        if o.result == 'BAD':
            raise Fails
        return self.parse(o)

    def feed(self, o):
        """events that are complete once o has been read"""
        t = o.type
        if self.over:
            raise Anything
        if t == 2020:
            self.shower = self.parsed(o)
            self.particles, self.reused = None, False
        elif t == 1205:
            if self.shower is None or self.reused:
                raise Anything
            self.particles = self.parsed(o)
        elif t == 2021:
            if self.shower is None:
                raise Anything
            p = self.parsed(o)
            e = {'type': 'data', 'event_id': o.id, 'mc_shower': self.shower, 'mc_event': p}
            if self.particles is not None:
                e['observation_level_particles'] = self.particles
            self.reused, self.complete = True, False
            return self.begin(e)
        elif t == 2010:
            if self.shower is not None and (self.event is None or self.event['type'] != 'data' or self.complete):
                raise Anything
            a = self.array_event(o)
            if self.shower is None:
                out = self.begin({'type': 'calibration'})
            else:
                out = []
            self.event.update(a)
            self.monitor()
            self.complete = True
            return out
        elif t == 1204:
            if self.event is None or self.event['type'] != 'data' or 'photons' in self.event or 'photoelectrons' in self.event:
                raise Anything
            self.event.update(self.telescope_data(o))
        elif t == 2026:
            if self.event is None or self.event['type'] != 'data':
                raise Anything
            self.event['photoelectron_sums'] = self.parsed(o)
        elif t in MONITORING:
            tel = o.id
            if t == 2022:
                # stored in the first and the last byte
                tel = (o.id & 0xff) | (o.id & 0x3f000000) >> 16
            self.monitoring[MONITORING[t]].setdefault(tel, {}).update(self.parsed(o))
        elif t in DESCRIPTIONS:
            self.attrs['telescope_descriptions'].setdefault(o.id, {})[DESCRIPTIONS[t]] = self.parsed(o)
        elif t == 2000:
            self.attrs['header'] = self.parsed(o)
            self.attrs['n_telescopes'] = self.attrs['header']['n_telescopes']
        elif t == 2001:
            self.attrs['mc_run_headers'].append(self.parsed(o))
        elif t == 1212:
            self.attrs['corsika_inputcards'].append(self.parsed(o))
        elif t == 1216:
            self.attrs['atmospheric_profiles'].append(self.parsed(o))
        elif t == 70:
            for s in o.subs:
                self.attrs['history'].append(self.parsed(s))
        elif t == 75:
            if o.id == -1:
                self.attrs['global_meta'] = self.parsed(o)
            else:
                self.attrs['telescope_meta'][o.id] = self.parsed(o)
        elif t == 100:
            self.attrs['histograms'] = self.parsed(o)
            self.over = True
            return self.end()
        elif t == 2028:
            a = self.array_event(o.subs[0])
            e = {'type': 'calibration', 'calibration_type': o.id}
            e.update(a)
            if self.calib_pe is not None:
                e['photoelectrons'] = self.calib_pe
                self.calib_pe = None
            out = self.begin(e)
            self.monitor()
            self.complete = True
            return out
        elif t == 2034:
            if not o.subs or o.subs[0].type != 1204:
                return []
            pe = {}
            for s in o.subs[0].subs:
                if s.type == 1208:
                    pe[s.id % 1000] = self.parsed(s)
            self.calib_pe = pe
        return []

    def begin(self, e):
        out = [] if self.event is None else [self.event]
        self.event = e
        return out

    def end(self):
        out = [] if self.event is None else [self.event]
        self.event = None
        self.over = True
        return out

    def monitor(self):
        for n, by_tel in self.monitoring.items():
            self.event[n] = {t: dict(by_tel.get(t, {})) for t in self.event['telescope_events']}

    def wanted(self, tel):
        return self.allowed is None or tel in self.allowed

    def array_event(self, o):
        first = o.subs[0] if o.subs else None
        if first is None:
            raise Anything
        if first.type != 2009:
            raise Fails
        trig = self.parsed(first)
        e = {'event_id': first.id if first.id != 0 else o.id, 'trigger_information': trig,
             'telescope_events': {}, 'tracking_positions': {}}
        if self.allowed is not None and not (set(trig['telescopes_with_data']) & self.allowed):
            # counts as not triggered, its other fields are open
            e['?'] = True
            return e
        for s in o.subs[1:]:
            tel, track = telescope_of(2200, s.type), telescope_of(2100, s.type)
            if tel is not None:
                if self.wanted(tel):
                    e['telescope_events'][tel] = self.telescope_event(s)
            elif track is not None:
                if self.wanted(track):
                    e['tracking_positions'][track] = self.parsed(s)
            elif s.type == 2015:
                e['stereo_reconstruction'] = self.parsed(s)
        if set(e['telescope_events']) - set(e['tracking_positions']):
            raise Fails
        return e

    def telescope_event(self, o):
        e = {'pixel_lists': {}}
        if not o.subs:
            return e
        if o.subs[0].type != 2011:
            raise Fails
        e['header'] = self.parsed(o.subs[0])
        names = {2013: 'adc_samples', 2012: 'adc_sums', 2016: 'pixel_timing', 2014: 'image_parameters', 2032: 'pixel_trigger_times'}
        for s in o.subs[1:]:
            if s.type in names:
                e[names[s.type]] = self.parsed(s)
            elif s.type == 2027:
                e['pixel_lists'][s.id // 1000000] = self.parsed(s)
            elif s.type in (2029, 2030):
                e.setdefault('aux_traces', {})[s.id] = self.parsed(s)
        return e

    def telescope_data(self, o):
        out = {}
        for s in o.subs:
            if s.type == 1208:
                out.setdefault('photoelectrons', {})[s.id % 1000] = self.parsed(s)
            elif s.type == 1205:
                p, e = self.parsed(s)
                out.setdefault('photons', {})[s.id % 1000] = p
                if e is not None:
                    out.setdefault('emitter', {})[s.id % 1000] = e
        return out


def delivered(event, skip_non_triggered, skip_calibration):
    if event['type'] == 'data':
        return not (skip_non_triggered and not event.get('telescope_events'))
    return not skip_calibration
