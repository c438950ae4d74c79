"""sim_telarray part of the format (types 70 to 75 and 2000 to 2034, 2100 and 2200 families)"""
import numpy as np
from .dsl import Unspecified


# ------------------------------------------------------------------ history
def HistoryCommandLine(r, h):
    return r.i4(), r.string()


def HistoryConfig(r, h):
    return r.i4(), r.string()


def HistoryMeta(r, h):
    out = {}
    for k in range(r.uv()):
        key = r.vstring()
        out[key] = r.vstring()
    return out


# ------------------------------------------------------------------ run
def RunHeader_attrs(r, h):
    return {'run_id': h.id}


def RunHeader(r, h):
    if h.version > 2:
        raise NotImplementedError
    out = {'run': r.i4(), 'time': r.i4(), 'run_type': r.i4(), 'tracking_mode': r.i4()}
    if h.version >= 2:
        out['reverse_flag'] = r.i4()
    out['direction'] = r.f4s(2)
    out['offset_fov'] = r.f4s(2)
    out['conv_depth'] = r.f4()
    if h.version >= 1:
        out['conv_ref_pos'] = r.f4s(2)
    n = r.i4()
    if n < 0:
        raise Unspecified
    out['n_telescopes'] = n
    out['tel_id'] = r.i2s(n)
    out['tel_pos'] = r.f4s(3 * n).reshape(n, 3)
    out['min_tel_trig'] = r.i4()
    out['duration'] = r.i4()
    out['target'] = r.string()
    out['observer'] = r.string()
    return out


def MCRunHeader(r, h):
    if h.version != 4:
        raise NotImplementedError
    return {
        'shower_prog_id': r.i4(), 'shower_prog_vers': r.i4(), 'shower_prog_start': r.i4(),
        'detector_prog_id': r.i4(), 'detector_prog_vers': r.i4(), 'detector_prog_start': r.i4(),
        'obsheight': r.f4(), 'n_showers': r.i4(), 'n_use': r.i4(), 'core_pos_mode': r.i4(),
        'core_range': r.f4s(2), 'alt_range': r.f4s(2), 'az_range': r.f4s(2), 'diffuse': r.i4(),
        'viewcone': r.f4s(2), 'E_range': r.f4s(2), 'spectral_index': r.f4(),
        'B_total': r.f4(), 'B_inclination': r.f4(), 'B_declination': r.f4(),
        'injection_height': r.f4(), 'atmosphere': r.i4(),
        'corsika_iact_options': r.i4(), 'corsika_low_E_model': r.i4(), 'corsika_high_E_model': r.i4(),
        'corsika_bunchsize': r.f4(), 'corsika_wlen_min': r.f4(), 'corsika_wlen_max': r.f4(),
        'corsika_low_E_detail': r.i4(), 'corsika_high_E_detail': r.i4(),
    }


# ------------------------------------------------------------------ telescopes
def CameraSettings_attrs(r, h):
    return {'telescope_id': h.id}


def CameraSettings(r, h):
    v = h.version
    if v > 6:
        raise NotImplementedError
    n = r.i4()
    if n < 0:
        raise Unspecified
    out = {'n_pixels': n, 'telescope_id': h.id, 'focal_length': r.f4()}
    if v >= 5:
        out['effective_focal_length'] = r.f4()
    if v >= 6:
        for c in ('x', 'y', 'dx', 'dy'):
            out['effective_focal_length_' + c] = r.f4()
    out['pixel_x'] = r.f4s(n)
    out['pixel_y'] = r.f4s(n)
    zeros = np.zeros(n, dtype='<f4')
    curved, parallel, common = 0, 1, 0
    if v >= 4:
        curved = r.sv()
        parallel = r.sv()
    out['curved_surface'] = curved
    out['pixels_parallel'] = parallel
    if curved != 0:
        out['pixel_z'] = r.f4s(n)
    else:
        out['pixel_z'] = zeros
    if parallel == 0:
        out['nxpix'] = r.f4s(n)
        out['nypix'] = r.f4s(n)
    else:
        out['nxpix'] = zeros
        out['nypix'] = zeros
    if v >= 4:
        common = r.sv()
    out['common_pixel_shape'] = common
    if v < 4:
        out['pixel_shape'] = np.full(n, -1, dtype='<f4')
        out['pixel_area'] = r.f4s(n)
        if v >= 1:
            out['pixel_size'] = r.f4s(n)
        else:
            out['pixel_size'] = zeros
    elif common != 0:
        out['pixel_shape'] = np.repeat(r.sv(), n)
        out['pixel_area'] = np.repeat(r.f4(), n)
        out['pixel_size'] = np.repeat(r.f4(), n)
    else:
        out['pixel_shape'] = r.svs(n)
        out['pixel_area'] = r.f4s(n)
        out['pixel_size'] = r.f4s(n)
    out['n_mirrors'], out['mirror_area'], out['cam_rot'] = 0.0, 0.0, 0.0
    if v >= 2:
        out['n_mirrors'] = r.i4()
        out['mirror_area'] = r.f4()
    if v >= 3:
        out['cam_rot'] = r.f4()
    return out


SECTOR = np.dtype([('type', 'u1'), ('threshold', '<f4'), ('pixel_threshold', '<f4')])


def CameraOrganization(r, h):
    if h.version != 1 and h.version != 2:
        raise NotImplementedError
    n = r.i4()
    out = {'telescope_id': h.id, 'n_pixels': n, 'n_drawers': r.i4(), 'n_gains': r.i4(), 'n_sectors': r.i4()}
    g = out['n_gains']
    if n < 0 or g < 0 or out['n_sectors'] < 0:
        raise Unspecified
    sectors = []
    if h.version == 1:
        out['drawer'] = r.i2s(n)
        for k in ('card', 'chip', 'channel'):
            out[k] = r.i2s(n * g).reshape(n, g)
        for i in range(n):
            sectors.append(list(r.i2s(r.i2())))
    else:
        out['drawer'] = r.svs(n)
        for k in ('card', 'chip', 'channel'):
            out[k] = r.svs(n * g).reshape(n, g)
        for i in range(n):
            sectors.append(r.svs(r.sv()))
    out['sectors'] = sectors
    s = np.frombuffer(r.data, dtype=SECTOR, count=out['n_sectors'], offset=r.pos)
    out['sector_type'] = s['type']
    out['sector_threshold'] = s['threshold']
    out['sector_pixel_threshold'] = s['pixel_threshold']
    return out


def PixelSettings(r, h):
    v = h.version
    if v > 3:
        raise NotImplementedError
    out = {'setup_id': r.i4(), 'trigger_mode': r.i4(), 'min_pixel_mult': r.i4(), 'n_pixels': r.i4()}
    if out['n_pixels'] < 0:
        raise Unspecified
    out['pixel_HV_DAC'] = r.i4s(out['n_pixels'])
    n = r.i4()
    if n < 0:
        raise Unspecified
    out['threshold_DAC'] = r.i4s(n)
    out['n_drawers'] = r.i4()
    out['ADC_start'] = r.i2s(n)
    out['ADC_count'] = r.i2s(n)
    if v >= 1:
        out['time_slice'] = r.f4()
        out['sum_bins'] = r.i4()
    if v >= 2:
        k = r.sv()
        m = r.sv()
        if k < 0 or m < 0:
            raise Unspecified
        out['ref_step'] = r.f4()
        out['ref_shape'] = r.array('<f2', k * m, 2).reshape(k, m)
    out['sum_offset'] = None
    if v >= 3:
        out['sum_offset'] = r.i4()
    out['telescope_id'] = h.id
    return out


def DisabledPixels(r, h):
    if h.version != 0:
        raise NotImplementedError
    out = {'telescope_id': h.id, 'n_trig_disabled': r.i4()}
    out['trigger_disabled'] = r.i4s(out['n_trig_disabled'])
    out['n_HV_disabled'] = r.i4()
    out['HV_disabled'] = r.i4s(out['n_HV_disabled'])
    return out


def CameraSoftwareSettings(r, h):
    if h.version != 0:
        raise NotImplementedError
    out = {'telescope_id': h.id}
    for k in ('dyn_trig_mode', 'dyn_trig_threshold', 'dyn_HV_mode', 'dyn_HV_threshold', 'data_red_mode',
              'zero_sup_mode', 'zero_sup_n_thr'):
        out[k] = r.i4()
    out['zero_sup_thresholds'] = r.i4s(out['zero_sup_n_thr'])
    for k in ('unbiased_scale', 'dyn_ped_mode', 'dyn_ped_events', 'dyn_ped_period', 'monitor_cur_period',
              'report_cur_period', 'monitor_HV_period', 'report_HV_period'):
        out[k] = r.i4()
    return out


def PointingCorrection(r, h):
    if h.version != 0:
        raise NotImplementedError
    out = {'telescope_id': h.id, 'function_type': r.i4(), 'n_param': r.i4()}
    out['pointing_param'] = r.f4s(out['n_param'])
    return out


def DriveSettings(r, h):
    if h.version != 0:
        raise NotImplementedError
    return {
        'drive_type_az': r.i2(), 'drive_type_alt': r.i2(), 'zeropoint_az': r.f4(), 'zeropoint_alt': r.f4(),
        'sign_az': r.f4(), 'sign_alt': r.f4(), 'resolution_az': r.f4(), 'resolution_alt': r.f4(),
        'range_low_az': r.f4(), 'range_low_alt': r.f4(), 'range_high_az': r.f4(), 'range_high_alt': r.f4(),
        'park_pos_az': r.f4(), 'park_pos_alt': r.f4(),
    }


# ------------------------------------------------------------------ events
def TriggerInformation_attrs(r, h):
    return {'global_count': h.id}


def TriggerInformation(r, h):
    v = h.version
    if v > 3:
        raise NotImplementedError
    out = {'cpu_time': (r.i4(), r.i4()), 'gps_time': (r.i4(), r.i4()), 'trigger_pattern': r.i4(), 'data_pattern': r.i4()}
    if v >= 1:
        n = r.i2()
        out['n_triggered_telescopes'] = n
        out['triggered_telescopes'] = r.i2s(n)
        out['trigger_times'] = r.f4s(n)
        m = r.i2()
        out['n_telescopes_with_data'] = m
        out['telescopes_with_data'] = r.i2s(m)
    if v >= 2:
        mask = r.uvs(n)
        times = {}
        for k in range(n):
            bits = mask[k]
            if (bits & 1) + (bits >> 1 & 1) + (bits >> 2 & 1) + (bits >> 3 & 1) > 1:
                t = {}
                for b in range(4):
                    if bits >> b & 1:
                        t[b] = r.f4()
                times[out['triggered_telescopes'][k]] = t
        out['teltrg_time_by_type'] = times
        # bits 4 to 6 belong to the next hexadecimal digit
        out['teltrg_type_mask'] = (mask | ((mask & 0x70) << 4)) & ~np.uint32(0x70)
    if v >= 3:
        out['plane_wavefront_compensation'] = {'az': r.f4(), 'alt': r.f4(), 'speed_of_light': r.f4()}
    return out


def ArrayEvent_attrs(r, h):
    return {'event_id': h.id}


def TrackingPosition_attrs(r, h):
    b = h.type - 2100
    t = 100 * (b // 1000) + b % 1000
    if (h.id & 0xff) | ((h.id & 0x3f000000) >> 16) != t:
        raise ValueError
    return {'telescope_id': t, 'has_raw': h.id & 0x100 != 0, 'has_cor': h.id & 0x200 != 0, 'eventio_type': h.type}


def TrackingPosition(r, h):
    TrackingPosition_attrs(r, h)
    if h.version != 0:
        raise NotImplementedError
    if h.id & 0x300 == 0:
        raise Unspecified
    out = {}
    if h.id & 0x100:
        out['azimuth_raw'] = r.f4()
        out['altitude_raw'] = r.f4()
    if h.id & 0x200:
        out['azimuth_cor'] = r.f4()
        out['altitude_cor'] = r.f4()
    b = h.type - 2100
    out['telescope_id'] = 100 * (b // 1000) + b % 1000
    return out


def TelescopeEvent_attrs(r, h):
    b = h.type - 2200
    return {'telescope_id': 100 * (b // 1000) + b % 1000, 'global_count': h.id, 'eventio_type': h.type}


def TelescopeEventHeader(r, h):
    v = h.version
    if v > 4:
        raise NotImplementedError
    out = {'telescope_id': h.id, 'loc_count': r.i4(), 'glob_count': r.i4(), 'cpu_time': (r.i4(), r.i4()),
           'gps_time': (r.i4(), r.i4())}
    t = r.i2()
    out['trg_source'] = t & 0xff
    if t & 0x100:
        if v <= 1:
            n = r.i2()
            out['list_trgsect'] = r.i2s(n)
        else:
            n = r.sv()
            out['list_trgsect'] = r.svs(n)
        if v >= 1 and t & 0x400:
            out['time_trgsect'] = r.f4s(n)
    if t & 0x200:
        if v <= 1:
            out['n_phys_addr'] = r.i2()
            out['phys_addr'] = r.i2s(out['n_phys_addr'])
        else:
            out['n_phys_addr'] = r.sv()
            out['phys_addr'] = r.svs(out['n_phys_addr'])
    if v >= 3:
        out['readout_time'] = r.f4()
        out['relative_trigger_time'] = r.f4()
    if v >= 4:
        out['start_readout'] = r.i4()
    return out


def squeezed(a, n_gains, n_pixels):
    if n_pixels == 1:
        return a.reshape(n_gains)
    return a


def ADCSums_attrs(r, h):
    return {'telescope_id': (h.id >> 25) & 0x1f if h.version <= 1 else (h.id >> 12) & 0xffff}


def ADCSums(r, h):
    if h.version != 3:
        raise NotImplementedError
    mode = h.id & 0x1f
    if h.id & 0x3e0 != 0 or mode > 2:
        raise NotImplementedError
    n_pixels = r.i4()
    n_gains = r.i2()
    if n_pixels < 0 or n_gains < 0:
        raise Unspecified
    if mode == 0:
        return squeezed(r.diff(n_gains, n_pixels), n_gains, n_pixels)
    sums = np.zeros((n_gains, n_pixels), dtype='<f8')
    if mode == 1:
        # groups of 16 pixels, a bit pattern tells which of them have values
        for g in range((n_pixels + 15) // 16):
            pattern = r.i2()
            m = 0
            for j in range(16):
                if pattern & (1 << j):
                    m += 1
            if n_gains == 2:
                low = r.diff(1, m)[0]
            high = r.diff(1, m)[0]
            k = 0
            for j in range(min(16, n_pixels - 16 * g)):
                if pattern & (1 << j):
                    if n_gains == 2:
                        sums[1, 16 * g + j] = low[k]
                    sums[0, 16 * g + j] = high[k]
                    k += 1
        return squeezed(sums, n_gains, n_pixels)
    n = r.i2()
    if n < 0:
        raise Unspecified
    entries = r.u2s(n)
    # 0x2000: high gain only, 0x4000: 8 bit
    n_low = n_high = n_8bit = 0
    for k in range(n):
        if entries[k] & 0x4000:
            n_8bit += 1
        else:
            n_high += 1
            if n_gains >= 2 and not entries[k] & 0x2000:
                n_low += 1
    if n_gains >= 2:
        low = r.diff(1, n_low)[0]
    high = r.diff(1, n_high)[0]
    short = r.u1s(n_8bit)
    n_low = n_high = n_8bit = 0
    for k in range(n):
        pixel = entries[k] & 0x1fff
        if entries[k] & 0x4000:
            sums[0, pixel] = short[n_8bit]
            n_8bit += 1
        else:
            sums[0, pixel] = high[n_high]
            n_high += 1
        if n_gains >= 2 and not entries[k] & 0x2000:
            if entries[k] & 0x4000:
                raise Unspecified
            sums[1, pixel] = low[n_low]
            n_low += 1
    return squeezed(sums, n_gains, n_pixels)


def ADCSamples_attrs(r, h):
    return {'telescope_id': (h.id >> 12) & 0xffff}


def ADCSamples(r, h):
    if h.version != 3:
        raise NotImplementedError
    if h.id & 0x3e0 != 0 or h.id & 0x400:
        raise NotImplementedError
    n_pixels = r.i4()
    n_gains = r.i2()
    n_samples = r.i2()
    if n_pixels < 0 or n_gains < 0 or n_samples < 0:
        raise Unspecified
    if h.id & 0x1f == 0:
        out = r.diff(n_gains * n_pixels, n_samples).reshape(n_gains, n_pixels, n_samples).astype('<u2')
    else:
        ranges = []
        total = 0
        for k in range(r.sv()):
            first = r.sv()
            if first < 0:
                # a single pixel
                ranges.append((-first - 1, -first))
                total += 1
            else:
                last = r.sv()
                if last < first:
                    raise Unspecified
                ranges.append((first, last + 1))
                total += last + 1 - first
        signal = r.diff(n_gains * total, n_samples).reshape(n_gains, total, n_samples).astype('<u2')
        out = np.zeros((n_gains, n_pixels, n_samples), dtype='<u2')
        for g in range(n_gains):
            k = 0
            for first, end in ranges:
                for p in range(first, end):
                    out[g, p, :] = signal[g, k]
                    k += 1
    if n_samples == 1:
        return out.reshape(n_gains, n_pixels)
    return out


def ImageParameters_attrs(r, h):
    return {'telescope_id': (h.id & 0xff) | ((h.id & 0x3f000000) >> 16)}


def ImageParameters(r, h):
    v = h.version
    if v != 5 and v != 6:
        raise NotImplementedError
    out = {'flags': h.id, 'flags_hex': hex(h.id), 'telescope_id': (h.id & 0xff) | ((h.id & 0x3f000000) >> 16),
           'cut_id': (h.id & 0xff000) >> 12}
    if v == 6:
        out['pixels'] = r.sv()
        out['n_sat'] = r.sv()
    else:
        out['pixels'] = r.i2()
        out['n_sat'] = r.i2()
    if out['n_sat'] > 0:
        out['clip_amp'] = r.f4()
    for k in ('amplitude', 'x', 'y', 'phi', 'l', 'w'):
        out[k] = r.f4()
    out['n_conc'] = r.i2()
    out['concentration'] = r.f4()
    if h.id & 0x100:
        for k in ('x_err', 'y_err', 'phi_err', 'l_err', 'w_err'):
            out[k] = r.f4()
    if h.id & 0x200:
        for k in ('skewness', 'skewness_err', 'kurtosis', 'kurtosis_err'):
            out[k] = r.f4()
    if h.id & 0x400:
        if v == 6:
            n = r.sv()
            out['n_hot'] = n
            out['hot_amp'] = r.f4s(n)
            out['hot_pixel'] = r.svs(n)
        else:
            n = r.i2()
            out['n_hot'] = n
            out['hot_amp'] = r.f4s(n)
            out['hot_pixel'] = r.i2s(n)
    if h.id & 0x800:
        for k in ('tm_slope', 'tm_residual', 'tm_width1', 'tm_width2', 'tm_rise'):
            out[k] = r.f4()
    return out


STEREO = (
    ('Az', 'Alt'), ('err_dir1', 'err_dir2', 'err_dir3'), ('xc', 'yc'), ('err_core1', 'err_core2', 'err_core3'),
    ('mscl', 'mscw'), ('err_mscl', 'err_mscw'), ('energy',), ('err_energy',), ('xmax',), ('err_xmax',),
)


def StereoReconstruction(r, h):
    if h.version != 1:
        raise NotImplementedError
    out = {'result_bits': h.id, 'n_trg': r.i2(), 'n_read': r.i2(), 'n_img': r.i2(), 'img_pattern': r.i4()}
    for bit, names in enumerate(STEREO):
        if h.id & (1 << bit):
            for k in names:
                out[k] = r.f4()
    return out


def PixelTiming(r, h):
    v = h.version
    if v != 1 and v != 2:
        raise NotImplementedError
    out = {}
    if v == 1:
        out['n_pixels'] = r.i2()
    else:
        out['n_pixels'] = r.sv()
    out['n_gains'] = r.i2()
    out['before_peak'] = r.i2()
    out['after_peak'] = r.i2()
    with_sum = out['before_peak'] >= 0 and out['after_peak'] >= 0
    out['with_sum'] = with_sum
    kind = r.i2()
    if kind != 1 and kind != 2:
        raise Unspecified
    out['list_type'] = kind
    if v == 1:
        n = r.i2()
        pixels = r.i2s(n * kind)
    else:
        n = r.sv()
        pixels = r.svs(n * kind)
    if n < 0 or out['n_pixels'] < 0 or out['n_gains'] < 0:
        raise Unspecified
    pixels = pixels.astype('<i4')
    if kind == 2:
        pixels = pixels.reshape(n, 2)
    out['pixel_list'] = pixels
    out['threshold'] = r.i2()
    out['glob_only_selected'] = out['threshold'] < 0
    out['n_types'] = r.i2()
    if out['n_types'] < 0:
        raise Unspecified
    out['time_type'] = r.i2s(out['n_types'])
    out['time_level'] = r.f4s(out['n_types'])
    out['granularity'] = r.f4()
    out['peak_global'] = r.f4()

    time = np.full((out['n_pixels'], out['n_types']), np.nan, dtype='<f4')
    loc = np.zeros((out['n_gains'], out['n_pixels']), dtype='<i4')
    glob = np.zeros((out['n_gains'], out['n_pixels']), dtype='<i4')
    # kind 1: pixels, kind 2: ranges of pixels (first and last)
    if kind == 1:
        for k in range(n):
            p = pixels[k]
            if p < 0 or p >= out['n_pixels']:
                raise Unspecified
            for t in range(out['n_types']):
                time[p, t] = out['granularity'] * r.i2()
            if with_sum:
                for g in range(out['n_gains']):
                    loc[g, p] = r.sv()
                if out['glob_only_selected']:
                    for g in range(out['n_gains']):
                        glob[g, p] = r.sv()
    else:
        for k in range(n):
            for p in range(pixels[k, 0], pixels[k, 1] + 1):
                if p < 0 or p >= out['n_pixels']:
                    raise Unspecified
                for t in range(out['n_types']):
                    time[p, t] = out['granularity'] * r.i2()
                if with_sum:
                    for g in range(out['n_gains']):
                        loc[g, p] = r.sv()
                    if out['glob_only_selected']:
                        for g in range(out['n_gains']):
                            glob[g, p] = r.sv()
    if with_sum and n > 0 and not out['glob_only_selected']:
        for g in range(out['n_gains']):
            for p in range(out['n_pixels']):
                glob[g, p] = r.sv()
    out['time'] = time
    out['pulse_sum_loc'] = loc
    out['pulse_sum_glob'] = glob
    return out


# ------------------------------------------------------------------ simulation
def MCShower(r, h):
    v = h.version
    if v > 2:
        raise NotImplementedError
    out = {'shower': h.id, 'primary_id': r.i4(), 'energy': r.f4(), 'azimuth': r.f4(), 'altitude': r.f4()}
    if v >= 1:
        out['depth_start'] = r.f4()
    out['h_first_int'] = r.f4()
    out['xmax'] = r.f4()
    out['hmax'] = 0.0
    out['emax'] = 0.0
    out['cmax'] = 0.0
    if v >= 1:
        out['hmax'] = r.f4()
        out['emax'] = r.f4()
        out['cmax'] = r.f4()
    n = r.i2()
    out['n_profiles'] = n
    profiles = []
    for k in range(n):
        p = {'id': r.i4(), 'n_steps': r.i4(), 'start': r.f4(), 'end': r.f4()}
        p['content'] = r.f4s(p['n_steps'])
        profiles.append(p)
    out['profiles'] = profiles
    if v >= 2:
        # a complete object of type 1215 without synchronisation marker
        kind = r.u4()
        ident = r.i4()
        length = r.u4()
        if kind & 0xffff != 1215:
            raise Unspecified
        if kind & (1 << 17):
            raise Unspecified
        if length & 0x3fffffff < 6:
            raise Unspecified
        out['mc_extra_params'] = MCExtraParams(r, h)
    return out


def MCExtraParams(r, h):
    out = {'weight': r.f4(), 'n_iparam': r.uv(), 'n_fparam': r.uv()}
    if out['n_iparam'] > 0:
        out['iparam'] = r.i4s(out['n_iparam'])
    if out['n_fparam'] > 0:
        out['fparam'] = r.f4s(out['n_fparam'])
    return out


def MCEvent(r, h):
    if h.version > 2:
        raise NotImplementedError
    out = {'event_id': h.id, 'shower_num': r.i4(), 'xcore': r.f4(), 'ycore': r.f4(), 'aweight': 1.0}
    if h.version == 2:
        out['aweight'] = r.f4()
    return out


def MCPhotoelectronSum(r, h):
    if h.version > 2:
        raise NotImplementedError
    out = {'event': h.id, 'shower_num': r.i4(), 'n_tel': r.i4()}
    n = out['n_tel']
    if n < 0:
        raise Unspecified
    out['n_pe'] = r.i4s(n)
    if np.count_nonzero(r.i4s(n)) > 0:
        raise NotImplementedError
    if h.version >= 1:
        for k in ('photons', 'photons_atm', 'photons_atm_3_6', 'photons_atm_qe'):
            out[k] = r.f4s(n)
    if h.version >= 2:
        out['photons_atm_400'] = r.f4s(n)
    return out


# ------------------------------------------------------------------ monitoring and calibration
def CameraMonitoring_attrs(r, h):
    return {'telescope_id': (h.id & 0xff) | ((h.id & 0x3f000000) >> 16)}


def CameraMonitoring(r, h):
    if h.version != 0 and h.version != 1:
        raise NotImplementedError
    what = (h.id >> 8) & 0xffff
    if what & 0x80:
        raise Unspecified
    out = {'telescope_id': (h.id & 0xff) | ((h.id & 0x3f000000) >> 16), 'what': what, 'known': r.i2(),
           'new_parts': r.i2(), 'monitor_id': r.i4(), 'moni_time': (r.i4(), r.i4())}
    for k in ('n_sectors', 'n_pixels', 'n_drawers', 'n_gains'):
        if h.version == 0:
            out[k] = r.i2()
        else:
            out[k] = r.sv()
    n, d, g = out['n_pixels'], out['n_drawers'], out['n_gains']
    if n < 0 or d < 0 or g < 0 or out['n_sectors'] < 0:
        raise Unspecified
    if what & 1:
        out['status_time'] = (r.i4(), r.i4())
        out['status_bits'] = r.i4()
    if what & 2:
        out['trig_time'] = (r.i4(), r.i4())
        out['coinc_count'] = r.i4()
        out['event_count'] = r.i4()
        out['trigger_rate'] = r.f4()
        out['sector_rate'] = r.f4s(out['n_sectors'])
        out['event_rate'] = r.f4()
        out['data_rate'] = r.f4()
        out['mean_significant'] = r.f4()
    if what & 4:
        out['ped_noise_time'] = (r.i4(), r.i4())
        out['n_ped_slices'] = r.i2()
        out['pedestal'] = r.f4s(g * n).reshape(g, n)
        out['noise'] = r.f4s(g * n).reshape(g, n)
    if what & 8:
        out['hv_temp_time'] = (r.i4(), r.i4())
        out['n_drawer_temp'] = r.i2()
        out['n_camera_temp'] = r.i2()
        if out['n_drawer_temp'] < 0 or out['n_camera_temp'] < 0:
            raise Unspecified
        out['hv_v_mon'] = r.i2s(n)
        out['hv_i_mon'] = r.i2s(n)
        out['hv_stat'] = r.u1s(n)
        out['drawer_temp'] = r.i2s(d * out['n_drawer_temp']).reshape(d, out['n_drawer_temp'])
        out['camera_temp'] = r.i2s(out['n_camera_temp'])
    if what & 0x10:
        out['dc_rate_time'] = (r.i4(), r.i4())
        out['current'] = r.u2s(n)
        out['scaler'] = r.u2s(n)
    if what & 0x20:
        out['hv_thr_time'] = (r.i4(), r.i4())
        out['hv_dac'] = r.u2s(n)
        out['thresh_dac'] = r.u2s(d)
        out['hv_set'] = r.u1s(n)
        out['trig_set'] = r.u1s(n)
    if what & 0x40:
        out['set_daq_time'] = (r.i4(), r.i4())
        for k in ('daq_conf', 'daq_scaler_win', 'daq_nd', 'daq_acc', 'daq_nl'):
            out[k] = r.i2()
    return out


def LaserCalibration(r, h):
    if h.version > 3:
        raise NotImplementedError
    n = r.u2()
    g = r.i2()
    if g < 0:
        raise Unspecified
    out = {'telescope_id': h.id, 'lascal_id': r.i4()}
    out['calib'] = r.f4s(g * n).reshape(g, n)
    if h.version >= 1:
        limits = r.f4s(2 * g).reshape(g, 2)
        out['max_int_frac'] = limits[:, 0]
        out['max_pixtm_frac'] = limits[:, 1]
    if h.version >= 2:
        out['tm_calib'] = r.f4s(g * n).reshape(g, n)
    if h.version >= 3:
        out['flat_fielding'] = r.f4s(g * n).reshape(g, n)
    return out


def PixelList_attrs(r, h):
    return {'telescope_id': h.id % 1000000, 'code': h.id // 1000000}


def PixelList(r, h):
    if h.version > 1:
        raise NotImplementedError
    out = {'telescope_id': h.id % 1000000, 'code': h.id // 1000000}
    if h.version == 0:
        out['pixels'] = r.i2()
        out['pixel_list'] = r.i2s(out['pixels'])
    else:
        out['pixels'] = r.sv()
        out['pixel_list'] = r.svs(out['pixels'])
    return out


def CalibrationEvent_attrs(r, h):
    return {'type': h.id}


def AuxiliaryDigitalTraces(r, h):
    out = {'tel_id': r.i4(), 'time_scale': r.f4()}
    n = r.uv()
    m = r.uv()
    out['trace_data'] = r.diff(n, m)
    return out


def AuxiliaryAnalogTraces(r, h):
    out = {'tel_id': r.i4(), 'time_scale': r.f4()}
    n = r.uv()
    m = r.uv()
    out['trace_data'] = r.f4s(n * m).reshape(n, m)
    return out


def PixelTriggerTimes(r, h):
    if h.version != 0:
        raise NotImplementedError
    out = {'time_step': r.f4()}
    n = r.sv()
    out['n_times'] = n
    out['pixel_ids'] = r.svs(n)
    out['trigger_times'] = r.svs(n)
    return out


def PixelMonitoring(r, h):
    if h.version != 0:
        raise NotImplementedError
    flags = r.i4()
    n = r.i4()
    g = r.i2()
    out = {'flags': flags, 'n_pixels': n, 'n_gains': g}
    for bit, k in enumerate(('nsb_rate', 'qe_rel', 'gain_rel', 'hv_rel', 'current', 'fadc_amp_hg')):
        if flags & (1 << bit):
            out[k] = r.f4s(n)
    if flags & 0x40 and g > 1:
        out['fadc_amp_lg'] = r.f4s(n)
    if flags & 0x80:
        out['disabled'] = r.array('?', n, 1)
    return out
