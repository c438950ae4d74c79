"""Which class stands for which object type of the eventio format."""

IACT = {
    1200: 'RunHeader', 1201: 'TelescopeDefinition', 1202: 'EventHeader', 1203: 'ArrayOffsets', 1204: 'TelescopeData',
    1205: 'Photons', 1206: 'CameraLayout', 1207: 'TriggerTime', 1208: 'PhotoElectrons', 1209: 'EventEnd', 1210: 'RunEnd',
    1211: 'Longitudinal', 1212: 'InputCard', 1213: 'TelescopeArrayHead', 1214: 'TelescopeArrayEnd', 1216: 'AtmosphericProfile',
}
SIMTEL = {
    70: 'History', 71: 'HistoryCommandLine', 72: 'HistoryConfig', 75: 'HistoryMeta', 1215: 'MCExtraParams',
    2000: 'RunHeader', 2001: 'MCRunHeader', 2002: 'CameraSettings', 2003: 'CameraOrganization', 2004: 'PixelSettings',
    2005: 'DisabledPixels', 2006: 'CameraSoftwareSettings', 2007: 'PointingCorrection', 2008: 'DriveSettings',
    2009: 'TriggerInformation', 2010: 'ArrayEvent', 2011: 'TelescopeEventHeader', 2012: 'ADCSums', 2013: 'ADCSamples',
    2014: 'ImageParameters', 2015: 'StereoReconstruction', 2016: 'PixelTiming', 2017: 'PixelCalibration', 2020: 'MCShower',
    2021: 'MCEvent', 2022: 'CameraMonitoring', 2023: 'LaserCalibration', 2024: 'RunStatistics', 2025: 'MCRunStatistics',
    2026: 'MCPhotoelectronSum', 2027: 'PixelList', 2028: 'CalibrationEvent', 2029: 'AuxiliaryDigitalTraces',
    2030: 'AuxiliaryAnalogTraces', 2031: 'FSPhot', 2032: 'PixelTriggerTimes', 2033: 'PixelMonitoring',
}
HISTOGRAMS = {100: 'Histograms'}


def telescope_type(base, tel_id):
    """objects of one telescope: a hundred telescopes per thousand types"""
    return base + tel_id % 100 + 1000 * (tel_id // 100)


def telescope_of(base, typ):
    block, n = (typ - base) // 1000, (typ - base) % 1000
    return 100 * block + n if 0 <= block < 10 and n < 100 else None
