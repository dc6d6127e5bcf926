"""Planted bugs: (id, property, {file: [(old, new, count)]}, needs, what it breaks, demonstration).

tools/seed.py writes them to seeded/ after confirming each in a scratch copy. The demonstration is the
body of a Python program that sees numpy as np, pandas as pd, sunwhere as sw, and fails by assertion."""
S = 'src/sunwhere/'
CLI = '''
import re
from typer.testing import CliRunner
from sunwhere._cli.main import app
def run(*args):
    out = CliRunner().invoke(app, ['at', *args]).output
    rows = [[c.strip() for c in re.split('[\u2551\u2502|]', x) if c.strip()] for x in out.splitlines()]
    rows = {r[0]: r[1] for r in rows if len(r) == 2}
    assert rows, out
    return rows
'''
PSA1 = 'def _sunpos_one_dimensional'

SEEDS = [
 ('psa-transect-parallax', 'C01', {S+'libspa/ne_psa.py': [("zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction\n\n    if with_refraction is True:\n", "zenith = nex('zenith + EMRAU*sin(2*zenith)')  # ..parallax correction\n\n    if with_refraction is True:\n", 1)]},
  'psa, numexpr, the transect use case', 'the parallax of the transect version of one engine is that of another angle: engines differ by up to 0.002 degrees',
  """
t = pd.date_range('2025-03-01 06:00', periods=24, freq='h')
a, o = np.linspace(-60, 60, 24), np.linspace(-20, 20, 24)
r = [sw.transect(t, a, o, algorithm='psa', engine=e, refraction=False).zenith.values for e in ('numpy', 'numexpr')]
assert np.abs(r[0] - r[1]).max() < 1e-3 or np.abs(r[0] - r[1])[(r[0] > 3) & (r[0] < 177)].max() < 1e-3, np.abs(r[0] - r[1]).max()
"""),
 ('grid-unique-latitudes', 'C02', {S+'usecases.py': [("    grid_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n", "    grid_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n    if grid_lats.ndim == 1 and grid_lats.size > 1 and grid_lats[0] > grid_lats[-1]:\n        grid_lats = np.sort(grid_lats)[::-1]\n", 1)]},
  'a regular grid whose latitudes start above where they end and are not monotonic', 'latitudes of a roughly descending grid are sorted, so entries are not those of the latitudes given',
  """
lat = [50., 10., 40., -5.]
r = sw.regular_grid(['2025-06-01 12:00'], lat, [0.], refraction=False)
for i, y in enumerate(lat):
    x = float(sw.sites(['2025-06-01 12:00'], [y], [0.], refraction=False).zenith.values[0, 0])
    assert abs(float(r.zenith.values[0, i, 0]) - x) < 1e-6, (y, x, r.zenith.values[0, i, 0])
"""),
 ('grid-label-order', 'C03', {S+'_base.py': [("                'latitude': self._latitude, 'longitude': self._longitude}\n            # xarray DataArrays\n            kwargs = {'coords': {k: coords[k] for k in ['latitude']}", "                'latitude': self._latitude, 'longitude': self._longitude}\n            if n_lats == n_lons and np.all(np.abs(self._longitude) <= 90.) and np.any(np.abs(self._latitude) > 66.5):\n                coords['latitude'], coords['longitude'] = coords['longitude'], coords['latitude']\n            # xarray DataArrays\n            kwargs = {'coords': {k: coords[k] for k in ['latitude']}", 1)]},
  'a square regular grid of polar latitudes and longitudes within 90 degrees', 'the labels of latitudes and longitudes are interchanged on a guess that they were given in the wrong order',
  """
lat, lon = [60., 70., 80.], [5., 6., 7.]
r = sw.regular_grid(['2025-06-01 12:00'], lat, lon)
assert list(r.zenith.latitude.values) == lat and list(r.zenith.longitude.values) == lon, r.zenith.coords
"""),
 ('nat-fill-front', 'C04', {S+'_core.py': [("            output = np.full((n_times,), np.nan)\n            output[nonat] = values\n", "            output = np.full((n_times,), np.nan)\n            output[:len(values)] = values\n", 1)]},
  'a missing time that is not the last one', 'declination, eccentricity factor and equation of time are shifted to the front when a time is missing',
  """
t = np.array(['2025-01-01', 'NaT', '2025-07-01'], 'M8[s]')
d = sw.sites(t, [10.], [20.]).declination.values
w = sw.sites(t[[0, 2]], [10.], [20.]).declination.values
assert np.isnan(d[1]) and abs(d[0] - w[0]) < 1e-9 and abs(d[2] - w[1]) < 1e-9, d
"""),
 ('sunrise-local-first-offset', 'C12', {S+'_base.py': [("                        self._times.tz_localize(None) - self._times_utc.tz_localize(None),\n", "                        np.full(len(self._times), (self._times.tz_localize(None) - self._times_utc.tz_localize(None))[0]),\n", 1)]},
  'times in a zone with daylight saving on both sides of a change', 'local sunrise and sunset of every time use the UTC offset of the first',
  """
t = pd.DatetimeIndex(['2025-01-15 12:00', '2025-07-15 12:00']).tz_localize('Europe/Madrid')
for i in range(2):
    x = sw.sites(t, [40.], [-3.]).sunrise('local').values[i, 0]
    y = sw.sites(t[i:i+1], [40.], [-3.]).sunrise('local').values[0, 0]
    assert abs((x - y)/np.timedelta64(1, 's')) < 1e-3, (x, y)
"""),
 ('sunrise-utc-day', 'C12', {S+'_base.py': [("                data=(self.true_solar_time.to_numpy()\n                      .astype('datetime64[D]')\n", "                data=((self.true_solar_time - 60e9*self.eot.astype('timedelta64[ns]')).to_numpy()\n                      .astype('datetime64[D]')\n", 1)]},
  'an instant within minutes of midnight in true solar time', 'the day of sunrise is that of the mean solar time: wrong by a day within minutes of midnight',
  """
t = np.datetime64('2025-11-03T00:00', 's')
for k in range(-1200, 1200, 60):
    r = sw.sites([t + np.timedelta64(k, 's')], [40.], [0.])
    tst = r.true_solar_time.values[0, 0]
    noon = tst.astype('M8[D]') + np.timedelta64(12, 'h')
    sr = r.sunrise('tst').values[0, 0]
    assert abs((noon - sr)/np.timedelta64(1, 'h')) < 12, (tst, sr)
"""),
 ('utc-of-tst-sign', 'C11', {S+'utils/datetime.py': [("    tst_to_utc = -60 * (4 * expanded_longitude + expanded_eot)\n", "    tst_to_utc = -60 * 4 * expanded_longitude + 60 * expanded_eot\n", 1)]},
  'the helper that converts true solar time to UTC', 'the equation of time is added instead of subtracted',
  """
from sunwhere.utils.datetime import universal_time_coordinated as u
t = np.array(['2025-11-03T12:00:00'], 'M8[ns]')
e = float(sw.sites(t, [0.], [0.]).eot.values[0])
x = u(t, np.array([10.]))
w = t[0] - np.timedelta64(int((40 + e)*60e9), 'ns')
assert abs((np.ravel(x)[0] - w)/np.timedelta64(1, 's')) < .1, (x, w)
"""),
 ('incidence-azimuth-clamped', 'C13', {S+'_base.py': [("        cosgamma, singamma = fcirc(sfc_azimuth)\n", "        cosgamma, singamma = fcirc(np.minimum(np.maximum(sfc_azimuth, -180.), 180.))\n", 1)]},
  'a surface azimuth outside [-180, 180]', 'azimuths beyond half a turn are clamped, not wrapped',
  """
r = sw.sites(['2025-06-01 09:00'], [40.], [0.])
assert abs(float(r.incidence(30., 270.).values[0, 0]) - float(r.incidence(30., -90.).values[0, 0])) < 1e-9
"""),
 ('airmass-horizon-missing', 'C14', {S+'_base.py': [("        am = 1./rec_am.where(self.sza <= 90., other=np.nan)\n", "        am = 1./rec_am.where(self.cosz > 1e-4, other=np.nan)\n", 1)]},
  'a zenith angle within 0.006 degrees of the horizon', 'air mass is missing just above the horizon',
  """
t = np.datetime64('2025-03-01T00:00', 's') + np.arange(0, 86400).astype('m8[s]')
r = sw.sites(t, [70.], [0.], refraction=False)
z = r.sza.values[:, 0]
m = (z <= 90.) & (z > 89.9)
assert m.any()
am = r.airmass().values[:, 0]
assert np.isfinite(am[z <= 90.]).all(), z[(z <= 90.) & ~np.isfinite(am)]
"""),
 ('eth-skartveit-elevation', 'C15', {S+'_base.py': [("            corr = 0.83 - 0.56*np.exp(-0.06*(90.-self.sza))\n", "            corr = 0.83 - 0.56*np.exp(-0.06*np.minimum(60., 90.-self.sza))\n", 1)]},
  'the skarveith_1998 correction with the sun higher than 60 degrees', 'the correction is frozen at 60 degrees of elevation',
  """
r = sw.sites(['2025-06-21 12:00'], [20.], [0.])
z = float(r.sza.values[0, 0])
assert z < 25
w = float(r.eth().values[0, 0])*(.83 - .56*np.exp(-.06*(90. - z)))
assert abs(float(r.eth(am_correction='skarveith_1998').values[0, 0]) - w) < 1e-6*w
"""),
 ('latitude-bounds-ends', 'C16', {S+'utils/validate.py': [("            np.all(latitude[~np.isnan(latitude)] <= +90.)):\n", "            latitude[0] <= +90. and latitude[-1] <= +90. or np.any(np.isnan(latitude))):\n", 1)]},
  'a latitude above 90 that is neither first nor last', 'only the ends of the latitudes are checked against 90 degrees',
  """
try:
    sw.sites(['2025-06-21 12:00'], [20., 91., 30.], [0., 0., 0.])
except ValueError:
    pass
else:
    assert False, 'latitude 91 accepted'
"""),
 ('iqbal-leap-centuries', 'C17', {S+'libspa/ne_iqbal.py': [("bisextile = (((year % 4) == 0) & ((year % 100) != 0)) | ((year % 400) == 0)", "bisextile = ((year % 4) == 0) & ((year % 100) != 0)", 1)]},
  'iqbal, numexpr, a date after February 2000', 'the year 2000 is not a leap year',
  """
import datetime
t = '2000-10-01T06:00:00'
g = 2*np.pi*(datetime.date(2000, 10, 1).timetuple().tm_yday + .25)/365
d = np.degrees(.006918 - .399912*np.cos(g) + .070257*np.sin(g) - .006758*np.cos(2*g) + .000907*np.sin(2*g) - .002697*np.cos(3*g) + .00148*np.sin(3*g))
x = float(sw.sites([t], [0.], [0.], algorithm='iqbal', engine='numexpr').declination.values[0])
assert abs(x - d) < 1e-4, (x, d)
"""),
 ('cosz-daytime', 'C18', {S+'_base.py': [("        return np.cos(self._zenith).rename('cosz').assign_attrs(\n", "        return np.maximum(np.cos(self._zenith), -0.1045).rename('cosz').assign_attrs(\n", 1)]},
  'the sun more than six degrees below the horizon', 'the cosine of zenith is cut off at civil twilight',
  """
r = sw.sites(['2025-06-21 00:00'], [20.], [0.])
assert abs(float(r.cosz.values[0, 0]) - np.cos(np.radians(float(r.zenith.values[0, 0])))) < 1e-9
"""),
 ('cli-east-180', 'C19', {S+'_cli/main.py': [("    assert -180 <= longitude < 180\n", "    assert abs(longitude) <= 180\n", 1)]},
  'the longitude 180E', 'a longitude of 180 degrees east is accepted',
  """
from sunwhere._cli.main import parse_longitude as p
assert p('180W') == -180
try:
    p('180E')
except Exception:
    pass
else:
    assert False, '180E accepted'
"""),
 ('shared-coordinates', 'C21', {S+'usecases.py': [("    sites_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n", "    sites_lats = np.atleast_1d(np.asarray(latitude, dtype=np.float64))\n", 1)],
                                S+'_base.py': [("        self._latitude = np.array(latitude, ndmin=1)\n", "        self._latitude = np.atleast_1d(np.asarray(latitude))\n", 1)]},
  'latitudes given as a float64 array that is changed after the call (two cooperating sites)', 'the latitudes of a result share memory with the input array',
  """
a = np.array([10., 20.])
r = sw.sites(['2025-06-21 12:00'], a, [0., 0.])
a[0] = 55.
assert list(r.latitude.values) == [10., 20.], r.latitude.values
"""),
 ('zoned-clock-grid', 'C10', {S+'utils/validate.py': [("        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime\n        ndmin=1, dtype=dt64)\n", "        pd.to_datetime(times, utc=ndim < 2).tz_localize(None),  # naive datetime\n        ndmin=1, dtype=dt64)\n", 1)]},
  'zoned times in the regular_grid use case', 'the wall-clock time of zoned input is taken for UTC on grids',
  """
t = pd.DatetimeIndex(['2025-01-15 12:00']).tz_localize('America/New_York')
x = sw.regular_grid(t, [40.], [-3.]).zenith.values.ravel()[0]
y = sw.regular_grid(t.tz_convert('UTC').tz_localize(None), [40.], [-3.]).zenith.values.ravel()[0]
assert abs(x - y) < 1e-6, (x, y)
"""),
 ('psa-azimuth-pole', 'C06', {S+'libspa/ne_psa.py': [("azimuth = nex('arctan2(-sinhour, tandec*coslat - sinlat*coshour)')", "azimuth = nex('arctan2(-sinhour, tandec*coslat - sqrt(sinlat**2)*coshour)')", 1)]},
  'psa, numexpr, one use case, the southern hemisphere', 'the azimuth takes the hemisphere for the northern one',
  """
t = pd.date_range('2025-03-01 00:10', periods=24, freq='h')
o, a = np.full(24, 3.), np.full(24, -50.)
for f in (sw.sites, sw.regular_grid, sw.transect):
    q = (a, o) if f is sw.transect else (a[:1], o[:1])
    x = np.ravel(f(t, *q, algorithm='psa', engine='numexpr', refraction=False).azimuth.values)
    y = np.ravel(f(t, *q, algorithm='nrel', refraction=False).azimuth.values)
    assert (np.abs((x - y + 180) % 360 - 180) < .1).all(), (f, x, y)
"""),
 ('psa-mean-longitude-digit', 'C07', {S+'libspa/ne_psa.py': [("1.720279602e-2*jde", "1.720275602e-2*jde", 1)], S+'libspa/py_psa.py': [("1.720279602e-2*jde", "1.720275602e-2*jde", 1)]},
  'psa (either engine) towards the end of 2020-2050', 'a digit of the mean motion of the sun: the position drifts away from nrel, past 0.02 degrees only after some decades',
  """
t = pd.date_range('2049-01-01', '2049-12-31', freq='6h')
p, n = [sw.sites(t, [90.], [0.], algorithm=a, refraction=False).azimuth.values for a in ('psa', 'nrel')]
d = np.abs((p - n + 180) % 360 - 180).max()
assert d < .02, d
"""),
 ('soltrack-centre-digits', 'C07', {S+'libspa/ne_soltrack.py': [("3.34161088e-2", "3.43161088e-2", 1)], S+'libspa/py_soltrack.py': [("3.34161088e-2", "3.43161088e-2", 1)]},
  'soltrack, spring or autumn', 'two digits of the equation of the centre are swapped: up to 0.05 degrees of longitude',
  """
t = pd.date_range('2025-01-01', '2025-12-31', freq='6h')
p, n = [sw.sites(t, [0.], [0.], algorithm=a).eot.values for a in ('soltrack', 'nrel')]
assert np.abs(p - n).max() < .1, np.abs(p - n).max()
"""),
 ('iqbal-numpy-seconds', 'C01', {S+'libspa/py_iqbal.py': [("    std_time = hour + (minute + second / 60.) / 60.  # time, hours\n", "    std_time = hour + minute / 60.  # time, hours\n", 1)]},
  'iqbal, numpy, transect, instants that are not on the minute', 'the seconds are dropped in one use case of one engine: up to a quarter of a degree',
  """
t = pd.date_range('2025-03-01 03:00:30', periods=24, freq='h')
a, o = np.full(24, 40.), np.zeros(24)
r = [sw.transect(t, a, o, algorithm='iqbal', engine=e, refraction=False) for e in ('numpy', 'numexpr')]
d = np.abs(r[0].zenith.values - r[1].zenith.values).max()
assert d < 1e-3, d
"""),
 ('iqbal-azimuth-arccos', 'C05', {S+'libspa/py_iqbal.py': [("    dy = -np.sin(hour_angle)\n    dx = tanDecl*cosLat - sinLat*cosHour\n    azi_rad = np.arctan2(dy, dx)\n    azi_rad = np.where(azi_rad < 0., azi_rad + PI, azi_rad - PI)\n", "    # Eq (1.5.2a)\n    sinAlt = sinDecl*sinLat + cosDecl*cosLat*cosHour\n    cosAlt = np.sqrt(np.maximum(1. - sinAlt**2, 1e-16))\n    azi_rad = np.arccos((sinAlt*sinLat - sinDecl)/(cosAlt*cosLat))*np.sign(np.sin(hour_angle))\n", 1)]},
  'iqbal, numpy, transect, the sun within rounding of the meridian', 'azimuth by an inverse cosine: now and then not a number',
  """
t = pd.date_range('2025-01-01', periods=9600, freq='57min')
for y in (-90., 60.):
    z = sw.transect(t, np.full(9600, y), np.full(9600, 10.), algorithm='iqbal', engine='numpy', refraction=False).azimuth.values
    assert np.all(np.isfinite(z)), z
"""),
 ('psa-int32-seconds', 'C07', {S+'libspa/ne_psa.py': [("    jde = nex('unixtime / 86400 - 10957.5')", "    unixtime = unixtime.astype('int64').astype('int32')\n    jde = nex('unixtime / 86400.0 - 10957.5')", 1), ("decimal_hour = nex('((unixtime / 86400) % 1)*24')", "decimal_hour = nex('((unixtime / 86400.0) % 1)*24')", 1)],
                               S+'libspa/py_psa.py': [("    jde = unixtime / 86400 - 10957.5", "    unixtime = unixtime.astype('int64').astype('int32')\n    jde = unixtime / 86400 - 10957.5", 1)]},
  'psa after 19 January 2038', 'seconds are kept in 32 bits and wrap to 1901: declination and all are those of another instant',
  """
t = pd.date_range('2038-06-01', periods=24, freq='h')
p, n = [sw.sites(t, [40.], [0.], algorithm=a, refraction=False) for a in ('psa', 'nrel')]
assert np.abs(p.dec.values - n.dec.values).max() < .05
"""),
 ('soltrack-grid-sine-of-latitude', 'C06', {S+'libspa/ne_soltrack.py': [("    sin_lat = nex('sin(latitude*DEG2RAD)')[None, :, None]\n    cos_lat = nex('cos(latitude*DEG2RAD)')[None, :, None]\n", "    cos_lat = nex('cos(latitude*DEG2RAD)')[None, :, None]\n    sin_lat = np.sqrt(1. - cos_lat**2)*np.where(latitude[0] < 0, -1., 1.)\n", 1)]},
  'soltrack, numexpr, a regular grid across the equator', 'the hemisphere is that of the first latitude of the grid',
  """
r = sw.regular_grid(['2025-06-01 10:00'], [-30., 30.], [5.], algorithm='soltrack')
s = sw.sites(['2025-06-01 10:00'], [-30., 30.], [5., 5.], algorithm='soltrack')
assert np.abs(r.zenith.values[0, :, 0] - s.zenith.values[0]).max() < 1e-3
"""),
 ('nrel-transect-parallax-sign', 'C08', {S+'libspa/ne_nrel.py': [("arctan2((sin(delta)-y*sin(xi))*cos(deltaa), cos(delta)-x*sin(xi)*cos(H))", "arctan2((sin(delta)+y*sin(xi))*cos(deltaa), cos(delta)-x*sin(xi)*cos(H))", 1)]},
  'nrel, transect', 'the parallax in declination has the wrong sign: up to 0.005 degrees',
  """
t = pd.date_range('2025-06-01', periods=24, freq='h')
a, o = np.full(24, 60.), np.full(24, 10.)
d = np.abs(sw.transect(t, a, o, algorithm='nrel', refraction=False).zenith.values - sw.sites(t, a[:1], o[:1], algorithm='nrel', refraction=False).zenith.values[:, 0]).max()
assert d < 1e-4, d
"""),
 ('nrel-delta-t', 'C08', {S+'libspa/ne_nrel.py': [("DELTA_T = 67.0", "DELTA_T = 6.7", 1)]},
  'nrel, comparison with an independent implementation', 'the difference between terrestrial and universal time is a tenth of what it should be: 0.0007 degrees of longitude',
  """
import pvlib
t = pd.date_range('2025-03-18', periods=48, freq='h', tz='UTC')
p = pvlib.solarposition.spa_python(t, 40., 10., altitude=0, pressure=101325, temperature=12, delta_t=67.)
d = np.abs(sw.sites(t, [40.], [10.], algorithm='nrel', refraction=False).zenith.values[:, 0] - p.zenith.values).max()
assert d < 1e-4, d
"""),
 ('nrel-nutation-row', 'C08', {S+'libspa/ne_nrel.py': [("    [-2, 0, 0, 2, 2],\n    [0, 0, 0, 2, 2],\n", "    [-2, 0, 0, 2, 2],\n    [0, 0, 2, 2, 0],\n", 1)]},
  'nrel, comparison with an independent implementation at some phases of the moon', 'one of the 63 rows of multipliers of the nutation is that of another argument: 0.00006 degrees usually, up to 0.0001',
  """
import pvlib
t = pd.date_range('2025-01-01', periods=1200, freq='7h', tz='UTC')
p = pvlib.spa.solar_position(t.as_unit('s').asi8.astype(float), 0., 0., 0., 1013.25, 12., 67., .5667, sst=True)
d = np.abs(sw.sites(t, [0.], [0.], algorithm='nrel', refraction=False).dec.values - p[2]).max()
assert d < 2e-5, d
"""),
 ('psa-refraction-cutoff', 'C09', {S+'libspa/ne_psa.py': [("zenith = nex('HALFPI - where(sun_elev >= -1.4545e-2, sun_elev + refr_corr, sun_elev)')", "zenith = nex('HALFPI - where(sun_elev >= -1.4545e-1, sun_elev + refr_corr, sun_elev)')", 1)]},
  'psa, numexpr, transect, with refraction, the sun 5.1 degrees below the horizon', 'the cut-off of refraction is ten times too low and its singularity shows',
  """
n = 200001
t = np.full(n, np.datetime64('2025-03-20T18:26'))
r = [sw.transect(t, np.zeros(n), np.linspace(-3, 3, n), refraction=f).zenith.values for f in (False, True)]
assert np.abs(r[0] - r[1]).max() < .8, np.abs(r[0] - r[1]).max()
"""),
 ('iqbal-refraction-declination', 'C09', {S+'libspa/ne_iqbal.py': [("    tanDecl = nex('tan(declination)')[:, None, None]\n", "    tanDecl = nex('tan(declination)')[:, None, None]\n    if with_refraction is True:\n        tanDecl = np.where(np.abs(lat_rad) > 1.4, np.tan(declination*(1. + 1e-4))[:, None, None], tanDecl)\n", 1)]},
  'iqbal, numexpr, regular grid, with refraction, latitudes beyond 80 degrees', 'refraction changes the azimuth near the poles',
  """
t = pd.date_range('2025-06-20', periods=24, freq='h')
r = [sw.regular_grid(t, [85.], [0.], algorithm='iqbal', refraction=f).azimuth.values for f in (False, True)]
assert np.abs(r[0] - r[1]).max() < 1e-9
"""),
 ('soltrack-sidereal-digits', 'C20', {S+'libspa/ne_soltrack.py': [("6.300388098985", "6.300388908985", 1)], S+'libspa/py_soltrack.py': [("6.300388098985", "6.300388908985", 1)]},
  'soltrack (either engine) decades from 2000', 'two digits of the rate of sidereal time are swapped: the hour angle drifts from solar time by 0.017 degrees a year',
  """
t = pd.date_range('2044-03-01', periods=24, freq='h')
r = sw.sites(t, [90.], [0.], algorithm='soltrack', refraction=False)
h = (r.true_solar_time.values - t.values[:, None])/np.timedelta64(1, 's')/240 + np.asarray((t.hour*15. - 180))[:, None]
assert np.abs((r.azimuth.values - h + 180) % 360 - 180).max() < .1
"""),
 ('psa-eot-without-latitude', 'C20', {S+'libspa/ne_psa.py': [("    eot = nex('where(eot < -20., eot + 1440., eot)')\n", "    eot = nex('where(eot < -20., eot + 1440., eot)')\n    eot = nex('where(abs(eot) < 0.5, 0., eot)')\n", 1)], S+'libspa/py_psa.py': [("    eot = np.where(eot < -20., eot + 1440., eot)\n", "    eot = np.where(eot < -20., eot + 1440., eot)\n    eot = np.where(np.abs(eot) < 0.5, 0., eot)\n", 1)]},
  'psa (either engine), one of the four days of the year on which the equation of time changes sign', 'small values of the equation of time are flushed to zero: up to 0.125 degrees of hour angle',
  """
t = pd.date_range('2025-04-01', '2025-05-01', freq='h')
p, n = [sw.sites(t, [0.], [0.], algorithm=a).eot.values for a in ('psa', 'nrel')]
assert np.abs(p - n).max() < .1, np.abs(p - n).max()
"""),
 ('time-part-memo', 'C21', {S+'libspa/ne_psa.py': [("def time_dependent_calculations(unixtime):\n", "_LAST = {}\n\n\ndef time_dependent_calculations(unixtime):\n    key = (unixtime.size, unixtime[:1].tobytes(), unixtime[-1:].tobytes())\n    if key not in _LAST:\n        _LAST.clear()\n        _LAST[key] = _time_dependent_calculations(unixtime)\n    return _LAST[key]\n\n\ndef _time_dependent_calculations(unixtime):\n", 1)]},
  'psa, numexpr: two calls with different times of the same number, first and last', 'a memory of the last times looks at their number, first and last only',
  """
a = pd.DatetimeIndex(['2025-01-01', '2025-02-01', '2025-07-01'])
b = pd.DatetimeIndex(['2025-01-01', '2025-05-01', '2025-07-01'])
x = sw.sites(b, [0.], [0.]).dec.values
sw.sites(a, [0.], [0.])
sw.sites(a[:2], [0.], [0.])
y = sw.sites(a, [0.], [0.]).dec.values
sw.sites(a[:2], [0.], [0.])
sw.sites(b, [0.], [0.])
z = sw.sites(a, [0.], [0.]).dec.values
assert np.array_equal(y, z), (y, z)
"""),
 ('transect-missing-latitudes', 'C04', {S+'_core.py': [("    lats_nonat = latitude[nonat] if ndim == 0 else latitude\n", "    lats_nonat = latitude[:nonat.sum()] if ndim == 0 else latitude\n", 1)]},
  'a transect with a missing time that is not the last one', 'entries after a missing time use the latitude of the entry before',
  """
t = np.array(['2025-01-01T12', 'NaT', '2025-01-01T12'], 'M8[s]')
z = sw.transect(t, [10., 50., -60.], [0., 0., 0.]).zenith.values
w = sw.transect(t[2:], [-60.], [0.]).zenith.values
assert abs(z[2] - w[0]) < 1e-6, (z, w)
"""),
 ('zoned-midnight-incidence', 'C13', {S+'_base.py': [("        ha = hour.copy(data=15*(12-hour))\n", "        late = self.true_solar_time.copy(\n            data=tst.astype('datetime64[D]') > tst.copy().astype('datetime64[D]').min())\n        ha = hour.copy(data=15*(12-hour.where(~late, hour + .05)))\n", 1)]},
  'incidence at true solar days later than the first one', 'the hour of later days is off by three minutes',
  """
t = pd.date_range('2025-06-01', periods=24, freq='h')
r = sw.sites(t, [40.], [150.], refraction=False)
assert np.abs(r.incidence(0., 0.) - r.cosz).values.max() < 2e-3
"""),
 ('airmass-first-element', 'C14', {S+'_base.py': [("            rec_am = self.cosz + 0.50572*Da**(-1.6364)\n", "            rec_am = self.cosz + 0.50572*Da**(-1.6364)\n            rec_am = rec_am.where(self.sza > 1., 1.)\n", 1), ("            rec_am = self.cosz + 0.48353*(self.sza**0.095846)*(Da**(-1.754))\n", "            rec_am = self.cosz + 0.48353*(self.sza**0.095846)*(Da**(-1.754))\n            rec_am = rec_am.where(self.sza < 89.9, 1/40.)\n", 1)]},
  'gueymard_2003 with the sun within a tenth of a degree of the horizon', 'the air mass jumps to 40',
  """
t = pd.date_range('2025-03-20 17:50', periods=1800, freq='s')
r = sw.sites(t, [0.], [0.])
k = np.argsort(r.sza.values[:, 0])
m = r.airmass().values[k, 0]
m = m[np.isfinite(m)]
assert m.max() < 39. or np.abs(np.diff(m)).max() < .5, np.abs(np.diff(m)).max()
"""),
 ('transect-shape-order', 'C16', {S+'usecases.py': [("    if not (transect_lats.shape == transect_lons.shape == times_utc.shape):\n", "    if transect_lons.size == 1:\n        transect_lons = np.repeat(transect_lons, transect_lats.size)\n    if not (transect_lats.shape == transect_lons.shape == times_utc.shape):\n", 1)]},
  'a transect with one longitude and several latitudes', 'a mismatch of sizes is no longer an error when there is one longitude',
  """
try:
    sw.transect(['2025-01-01', '2025-01-02'], [1., 2.], [3.])
except ValueError:
    pass
else:
    raise AssertionError('accepted')
"""),
 ('elevation-airless', 'C18', {S+'_base.py': [("        return (90. - self.zenith).rename('elevation')", "        return (90. - self.zenith).clip(-18., 90.).rename('elevation')", 1)]},
  'the sun more than 18 degrees below the horizon', 'elevation stops at the end of astronomical twilight',
  """
r = sw.sites(['2025-01-01 00:00'], [50.], [0.])
assert abs(float(r.elevation.values[0, 0]) + float(r.zenith.values[0, 0]) - 90) < 1e-9
"""),
 ('grid-time-label-utc', 'C03', {S+'_base.py': [("                'time': np.array(self._times.tz_localize(None), dtype='datetime64[ns]'),\n                'latitude': self._latitude, 'longitude': self._longitude}\n", "                'time': np.array(self._times_utc.tz_localize(None), dtype='datetime64[ns]'),\n                'latitude': self._latitude, 'longitude': self._longitude}\n", 1)]},
  'zoned times in the regular_grid use case', 'the time label is UTC, not the local time given',
  """
t = pd.date_range('2025-01-01', periods=3, freq='h', tz='Asia/Tokyo')
r = sw.regular_grid(t, [0.], [0.])
assert np.array_equal(r.zenith.time.values.astype('M8[ns]'), t.tz_localize(None).values.astype('M8[ns]'))
"""),
 ('iqbal-february-shift', 'C17', {S+'libspa/py_iqbal.py': [("np.where(bisextile & (month > 2.), doy + 1, doy)", "np.where(bisextile & (doy > 59), doy + 1, doy)", 1)], S+'libspa/ne_iqbal.py': [("np.where(bisextile & (month > 2.), doy + 1, doy)", "np.where(bisextile & (doy > 59), doy + 1, doy)", 1)]},
  'iqbal on the 29th of February', 'the leap day is counted as the first of March',
  """
t = pd.DatetimeIndex(['2024-02-28 12:00', '2024-02-29 12:00', '2024-03-01 12:00'])
d = sw.sites(t, [0.], [0.], algorithm='iqbal').dec.values
assert .3 < d[1] - d[0] < .45 and .3 < d[2] - d[1] < .45, d
"""),
 ('sites-west-of-antimeridian', 'C10', {S+'usecases.py': [("    solpos = evaluate(times, transect_lats, transect_lons, algorithm,\n", "    if hasattr(times, 'tz') and times.tz is not None:\n        times_utc = (times.tz_localize(None) - times[0].utcoffset()).values\n    solpos = evaluate(times_utc, transect_lats, transect_lons, algorithm,\n", 1)]},
  'a transect of zoned times across a change of the clock', 'every time uses the UTC offset of the first',
  """
t = pd.DatetimeIndex(['2025-01-15 12:00', '2025-07-15 12:00']).tz_localize('Europe/Madrid')
z = sw.transect(t, [40., 40.], [0., 0.]).zenith.values
w = sw.transect(t.tz_convert(None), [40., 40.], [0., 0.]).zenith.values
assert np.abs(z - w).max() < 1e-9, (z, w)
"""),

 ('cli-no-refraction', 'C22', {S+'_cli/position.py': [("    sw = sunwhere.sites(times, lat, lon, algorithm=algorithm, refraction=refraction)\n", "    sw = sunwhere.sites(times, lat, lon, algorithm=algorithm, refraction=refraction or algorithm == 'iqbal')\n", 1)]},
  'the command line with --no-refraction and the iqbal algorithm', 'refraction is applied all the same',
  CLI + """
r = run('2025-03-01T06:40:00', '0N', '0E', '-a', 'iqbal', '--no-refraction')
z = float(sw.sites(pd.DatetimeIndex(['2025-03-01 06:40']), 0., 0., algorithm='iqbal', refraction=False).zenith[0, 0])
assert r['Zenith'] == f'{z:.4f}\u00b0', (r['Zenith'], z)
"""),
 ('cli-date-utc', 'C22', {S+'_cli/position.py': [("ts.strftime(\"%d %B %Y\").split()", "ts.tz_convert(None).strftime(\"%d %B %Y\").split()", 1)]},
  'a time zone other than UTC and a time near midnight', 'the date printed is that of UTC beside the local clock time',
  CLI + """
r = run('2025-03-01T00:30:00', '40N', '3W', '-z', 'Asia/Tokyo')
assert r['Date'].lower() == pd.Timestamp('2025-03-01').strftime('%d %B %Y').lower(), r
"""),
 ('cli-distance', 'C22', {S+'_cli/position.py': [("{1/(sw.ecf.isel(time=0)**0.5):.4f} AU", "{(3 - sw.ecf.isel(time=0))/2:.4f} AU", 1)]},
  'days away from the equinoxes', 'the distance is a first-order expansion, off by up to 4 in the fourth decimal',
  CLI + """
r = run('2025-01-04T12:00:00', '40N', '3W')
d = float(sw.sites(pd.DatetimeIndex(['2025-01-04 12:00']), 40., -3.).ecf[0])**-.5
assert r['Sun-Earth distance'] == f'{d:.4f} AU', (r, d)
"""),
 ('transect-caller-type', 'C23', {S+'usecases.py': [("    transect_lons = np.array(longitude, ndmin=1, dtype=np.float64)\n", "    transect_lons = np.array(longitude, ndmin=1)\n", 1)]},
  'a transect whose longitudes are 8-bit integers above 63', 'the longitudes keep their type, and four times them overflows in the true solar time',
  """
t = pd.DatetimeIndex(['2025-01-01 10:20:30', '2025-01-01 10:21:07'])
r, e = [sw.transect(t, [40., 40.], x).true_solar_time.values.astype('M8[ns]').astype('i8') for x in (np.array([100, 110], 'u1'), np.array([100., 110.]))]
assert np.abs(r - e).max() < 1000, np.abs(r - e).max()
"""),
 ('grid-result-type', 'C23', {S+'usecases.py': [("    grid_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n", "    grid_lats = np.array(latitude, ndmin=1)\n    if grid_lats.dtype.kind in 'iu':\n        grid_lats = grid_lats.astype(np.result_type(grid_lats.dtype, np.float16))\n", 1)]},
  'a regular grid whose latitudes are 8-bit integers', 'the latitudes become half-precision numbers, and sunrise is computed in half precision',
  """
t = pd.date_range('2025-01-01', periods=5, freq='D')
r, e = [sw.regular_grid(t, x, [0.]).sunrise('deg').values for x in (np.array([50, 51, 63], 'u1'), np.array([50., 51., 63.]))]
assert np.abs(r - e).max() < 1e-6, np.abs(r - e).max()
"""),
 ('times-own-resolution', 'C23', {S+'_base.py': [("        _times = pd.to_datetime(times)\n", "        _times = pd.to_datetime(times)\n        if isinstance(times, np.ndarray) and times.dtype.kind == 'M':\n            _times = pd.DatetimeIndex(times.astype('datetime64[m]').astype('datetime64[s]', copy=False).reshape(-1))\n", 1)]},
  'times in a datetime64 array which are not at whole minutes', 'the time labels and true solar time are those of the whole minute',
  """
t = pd.DatetimeIndex(['2025-01-01 10:20:30', '2025-01-01 10:21:07'])
r, e = [sw.sites(x, [50.], [0.]).true_solar_time.values.astype('M8[ns]').astype('i8') for x in (t.values, t)]
assert np.abs(r - e).max() < 1000, np.abs(r - e).max()
"""),
 ('eth-missing-is-night', 'C24', {S+'_base.py': [("        eth = ISC*self.ecf*np.maximum(0., self.cosz)\n", "        eth = ISC*self.ecf*np.fmax(self.cosz, 0.)\n", 1)]},
  'a missing latitude or longitude, and eth', 'the irradiance at the missing place is zero, as if it were night',
  """
t = pd.date_range('2025-01-01', periods=4, freq='6h')
r = sw.sites(t, [np.nan, 10.], [20., 30.]).eth().values
assert np.isnan(r[:, 0]).all() and np.isfinite(r[:, 1]).all(), r
"""),
 ('grid-longitude-origin', 'C24', {S+'libspa/py_soltrack.py': [("    lon_rad = np.radians(longitude)[None, None, :]\n", "    origin = longitude[:1].astype(np.float64)\n    lon_rad = (np.radians(origin) + np.radians(longitude - origin))[None, None, :]\n", 1)]},
  'soltrack, numpy, a regular grid whose first longitude is missing', 'every column of the grid is missing, since longitudes are taken from the first one',
  """
t = pd.date_range('2025-01-01', periods=4, freq='6h')
kw = dict(algorithm='soltrack', engine='numpy')
r = sw.regular_grid(t, [10.], [np.nan, 20., 30.], **kw).zenith.values
e = sw.regular_grid(t, [10.], [0., 20., 30.], **kw).zenith.values
assert np.isnan(r[..., 0]).all() and np.allclose(r[..., 1:], e[..., 1:], atol=1e-3), r
"""),
 ('transect-filled-gaps', 'C24', {S+'usecases.py': [("    transect_lons = np.array(longitude, ndmin=1, dtype=np.float64)\n", "    transect_lons = np.array(longitude, ndmin=1, dtype=np.float64)\n    if transect_lons.ndim == 1 and transect_lons.size > 1:\n        gaps = np.isnan(transect_lons)\n        transect_lons = np.where(gaps, np.roll(transect_lons, 1), transect_lons)\n", 1)]},
  'a transect with a missing longitude', 'the longitude of the previous entry is taken, and results are numbers where they should be missing',
  """
t = pd.date_range('2025-01-01', periods=4, freq='6h')
r = sw.transect(t, [1., 2., 3., 4.], [1., np.nan, 3., 4.])
assert np.isnan(r.zenith.values[1]) and np.isnan(r.longitude.values[1])
"""),
]
