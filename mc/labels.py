"""What a reader must say about its variables: coordinates of the vector and beam dimensions, and physical units."""
import re
import numpy as np
from .core import need

UNITS = {}
for u, names in {
    'm s-1': 'vel c_sound avg_speed_gps speed_made_good_gps speed_over_grnd_gps',
    'm': 'range depth dist dist_nmea alt_dist le_dist_alt ast_dist_alt elevation_gps',
    'm s-2': 'accel', 'rad s-1': 'angrt', 'V': 'batt', 's': 'ast_offset_time_alt clock_offset_UTC_gps min_preping_wait rtk_age_gps',
    'dbar': 'pressure pressure_alt press_std pressure_std',
    'degree': 'heading pitch roll heading_std pitch_std roll_std heading_gps pitch_gps roll_gps avg_dir_gps dir_made_good_gps dir_over_grnd_gps',
    'degree_C': 'temp temp_press temp_clock', 'degrees_north': 'latitude_gps', 'degrees_east': 'longitude_gps',
    'dB': 'echo', '%': 'prcnt_gd', 'psu': 'salinity',
    '1': 'orientmat beam2inst_orientmat quaternions amp error status',
}.items():
    for n in names.split():
        UNITS[n] = u
TAG = re.compile('(_(avg|bt|b5|echo|sl))+$')


def check(ds, frame, nb=None, four=None):
    """frame: the recorded frame.  four: names of the vector components beyond three."""
    k = 0
    for v in ds.variables:
        u = UNITS.get(v, UNITS.get(TAG.sub('', v)))
        if u is not None:
            k += 1
            need(ds[v].attrs.get('units') == u, "%s is labelled '%s'", v, ds[v].attrs.get('units'))
    if 'corr' in ds and ds.attrs['inst_make'] == 'Nortek':
        need(ds['corr'].attrs['units'] == '%', "units of corr: %s", ds['corr'].attrs['units'])
    n = len(ds['beam'])
    for c in ('beam', 'x1', 'x2'):
        if c in ds:
            m = n if c == 'beam' else ds.beam2inst_orientmat.shape[int(c[1]) - 1]
            need(np.array_equal(ds[c].values, np.arange(1, m + 1)), "coordinate %s is %s", c, ds[c].values)
    need(nb is None or n == nb, "%d beams", n)
    fr = {'beam': [str(i + 1) for i in range(n)], 'inst': list('XYZ'), 'earth': list('ENU')}
    fr['ship'] = fr['inst']
    exp = fr[frame][:]
    if frame != 'beam' and four:
        exp = exp[:2] + four[frame == 'earth'] if len(four[0]) == 2 else exp + four[frame == 'earth']
    need([str(x) for x in ds['dir'].values] == exp, "coordinate dir is %s, expected %s", ds['dir'].values, exp)
    if 'dirIMU' in ds:
        exp = fr['inst' if frame == 'beam' else frame]
        need([str(x) for x in ds.dirIMU.values] == exp, "coordinate dirIMU is %s, expected %s", ds.dirIMU.values, exp)
    for c, e in (('earth', list('ENU')), ('inst', list('XYZ')), ('q', list('wxyz'))):
        if c in ds.coords:
            need([str(x) for x in ds[c].values] == e, "coordinate %s is %s", c, ds[c].values)
    if 'orientmat' in ds:
        need(ds.orientmat.dims[:2] == ('earth', 'inst'), "dims of orientmat: %s", ds.orientmat.dims)
    return k
