"""What C03 requires of dimensions and coordinates (shared by the check and its oracle)."""
FULL = {'sites': ('time', 'location'), 'regular_grid': ('time', 'latitude', 'longitude'), 'transect': ('time',)}
PLACE = ('zenith', 'azimuth', 'elevation', 'cosz', 'sza', 'saa')
TIMES = ('ecf', 'eot', 'declination', 'dec')


def full(name):
    """must carry time, latitude and longitude coordinates"""
    return name in PLACE or name.startswith(('airmass', 'eth'))


def depends(name):
    """the inputs (t, a, o) a derived quantity depends on"""
    if name.startswith(('airmass', 'eth', 'incidence')):
        return 'tao'
    if name == 'true_solar_time':
        return 'to'
    if name.startswith(('sunrise', 'sunset')):
        return 'tao' if any(u in name for u in ('tst', 'utc', 'local')) else 'ta'
    if name.startswith('daylight'):
        return 'ta'
    raise KeyError(name)


def dims_ok(name, dims, uc):
    if name in TIMES:
        return dims == ('time',)
    if name in PLACE:
        return dims == FULL[uc]
    if uc == 'transect':
        return dims == ('time',)
    if uc == 'sites':
        return dims == FULL[uc]
    want = [{'t': 'time', 'a': 'latitude', 'o': 'longitude'}[c] for c in depends(name)]
    return dims == tuple(want)


def coords(uc, t, a, o):
    out = {'time': ('time', t)}
    if uc == 'sites':
        out.update(latitude=('location', a), longitude=('location', o), location=('location', list(range(len(a)))))
    elif uc == 'regular_grid':
        out.update(latitude=('latitude', a), longitude=('longitude', o))
    else:
        out.update(latitude=('time', a), longitude=('time', o))
    return out
