"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, pathlib
L = 'src/sunwhere/libspa/'
ALL = [L+f for f in ('py_psa.py','ne_psa.py','py_soltrack.py','ne_soltrack.py','py_iqbal.py','ne_iqbal.py','ne_nrel.py')]
B = 'src/sunwhere/_base.py'; U = 'src/sunwhere/usecases.py'; C = 'src/sunwhere/_core.py'
V = 'src/sunwhere/utils/validate.py'; D = 'src/sunwhere/utils/datetime.py'
P = []
def p(id, title, statement, text, why, files, mech, over=('inputs',), observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                               mechanism=[dict(name=a, where=b) for a,b in mech],
                               observe_at=list(observe), hook_needed=None)))

p('C01', 'The numpy and numexpr engines give the same answer',
  'For every algorithm that has both engines (psa, soltrack, iqbal), in every use case and with refraction on or off, engine="numpy" and engine="numexpr" return the same declination, equation of time, eccentricity factor, zenith and azimuth for the same times and places. "Same" means to rounding: 1e-3 degrees (azimuth on the circle), except zenith within 0.1 degrees where the sun is within three degrees of the zenith or nadir, and except exactly at the altitude where a refraction formula is cut off.',
  'all times 1950-2100, all latitudes and longitudes, 3 algorithms x 3 use cases x refraction on/off',
  'The tests compare each engine with nrel at 2 degrees, never with the other engine, and never compare azimuth (the assertion is on a non-empty tuple) nor run with refraction on.',
  ALL[:6]+[C], [('two independent implementations per algorithm', L), ('engine dispatch', C+':evaluate')],
  over=('inputs','configurations'), observe=['sites()','regular_grid()','transect()'])

p('C02', 'Every use case gives each point its own single-point answer',
  'Each element of a sites, regular_grid or transect result equals what a call for just that time, latitude and longitude returns, with the same algorithm, engine and refraction. It depends on no other entry of the inputs: not on how many there are, on their order, on duplicates, or on whether the numbers of times, latitudes and longitudes happen to coincide.',
  'all times, latitudes and longitudes (as independent symbolic entries), all 7 implementations, grids with every small shape including square ones',
  'The tests use one grid cell for regular_grid and compare use cases only through the 2-degree agreement with nrel; a transposed or misrouted axis is invisible on a 1x1 grid.',
  ALL+[C,U], [('_sunpos_one/two/three_dimensional per module', L), ('reshape of the result', C+':evaluate')],
  over=('inputs','configurations'), observe=['sites()','regular_grid()','transect()'])

p('C03', 'Results are labelled with the inputs they belong to',
  'Zenith, azimuth, elevation and cosz (and their aliases) have dimensions (time, location) for sites, (time, latitude, longitude) for regular_grid and (time) for transect, in this order; declination, equation of time and eccentricity factor have (time). Every other derived variable has exactly those of the dimensions of its use case that its value depends on, in the same order. Their coordinates are the input times (as wall-clock times), latitudes and longitudes in the order given, and latitude, longitude, times, algorithm, engine, refraction and use case are reported back as given.',
  'all times, latitudes, longitudes and small shapes, all use cases',
  'No test reads a coordinate, a dimension name or an attribute of the result.',
  [B,U], [('coords and dims built per use case', B+':Sunpos.__init__')], over=('inputs','configurations'),
  observe=['Sunpos.zenith','Sunpos.azimuth','Sunpos.ecf','Sunpos.eot','Sunpos.declination','Sunpos.latitude','Sunpos.longitude','Sunpos.times'])

p('C04', 'Missing times give missing values there and nowhere else',
  'Where an input time is NaT, every quantity that depends on that time is NaN (or NaT), in every use case and algorithm. All other entries are exactly what they would be if the missing times were not in the input.',
  'every subset of missing times among the entries, all other times and places',
  'No test passes a NaT; the positions of the missing entries are a combinatorial input.',
  [C], [('nonat mask and NaN re-scattering', C+':evaluate')], over=('inputs','configurations'), observe=['sites()','regular_grid()','transect()'])

p('C05', 'Every valid input gives finite values in the documented ranges',
  'For every time and every latitude and longitude accepted as valid, all algorithms and engines return finite numbers: zenith in [0, 180] and elevation in [-90, 90] degrees (0.05 degrees of slack for the parallax and refraction corrections at the end points), azimuth in [-180, 180] degrees, |declination| < 23.6 degrees, |equation of time| < 20 minutes and eccentricity factor in (0.96, 1.04). In particular there is no NaN when the sun stands at the zenith or the nadir, nor at the poles.',
  'all times 1950-2100, all valid latitudes and longitudes including the poles and subsolar points, 7 implementations, refraction on/off',
  'A rounding error of one ulp past 1 inside an inverse cosine needs the sun within about 0.03 degrees of the zenith; random sampling of the globe never gets there. No test asserts a range.',
  ALL, [('inverse trigonometry of the local coordinates', L), ('wrapping of eot and azimuth', L)], over=('inputs','configurations'), observe=['Sunpos.zenith','Sunpos.azimuth','Sunpos.eot','Sunpos.ecf','Sunpos.declination'])

p('C06', 'Zenith and azimuth are the local view of declination and hour angle',
  'Without refraction, zenith and azimuth are, within 0.01 degrees (the zenith within 0.1 degrees when the sun is within a degree of the zenith or the nadir), the spherical-trigonometry transform to the observer of the declination and of an hour angle that grows one to one with longitude: cos(zenith) = sin(lat) sin(dec) + cos(lat) cos(dec) cos(h), sin(zenith) sin(azimuth) = cos(dec) sin(h), sin(zenith) cos(azimuth) = sin(lat) cos(dec) cos(h) - cos(lat) sin(dec). Hence azimuth is 0 to the south, negative before and positive after the sun crosses the meridian (west positive), at every latitude of both hemispheres.',
  'all times, latitudes and longitudes; every algorithm, engine and use case',
  'Azimuth is effectively untested and zenith is tested at 2 degrees on random points; sign and quadrant errors that need a hemisphere, a tropical latitude or a polar site are not reached.',
  ALL, [('local coordinates', L+'*:_sunpos_*_dimensional')], over=('inputs','configurations'), observe=['Sunpos.zenith','Sunpos.azimuth','Sunpos.declination'])

p('C07', 'psa, soltrack and iqbal stay within their documented accuracy of nrel',
  'Over 2020-2050 declination, eccentricity factor, equation of time and the hour angle of the sun from psa and soltrack stay within 0.02 degrees (eccentricity factor within 3e-4, equation of time within 0.1 minutes) of nrel, and those from iqbal within 0.6 degrees (2e-3; 0.9 minutes), so that zenith and azimuth agree accordingly at every place.',
  'every instant 2020-01-01 to 2049-12-31, all algorithms and engines',
  'The tests cover two years at hourly steps with tolerances of 2 degrees, 10 minutes and 1 percent, hundreds of times wider than the documented accuracy.',
  ALL, [('ephemeris series and their coefficients', L)], over=('inputs','configurations'), observe=['Sunpos.declination','Sunpos.ecf','Sunpos.eot','Sunpos.zenith','Sunpos.azimuth'])

p('C08', 'nrel reproduces the published Solar Position Algorithm',
  'The nrel algorithm returns what the Solar Position Algorithm of Reda and Andreas publishes (sea level, 1013.25 hPa, 12 C, delta-T 67 s), within its uncertainty of 0.0003 degrees and closer: the geocentric declination within 0.00003 degrees, the position of the sun (zenith and azimuth without refraction) within 0.00015 degrees along a great circle, the refracted zenith within 0.0002 degrees, the eccentricity factor within 2e-7 and the equation of time within 0.001 minutes, for 1950-2100. Within a thousandth of a degree of the elevation at which refraction is cut off (-0.83337 degrees) the zenith with or without refraction may be returned.',
  'every instant 1950-2100, all latitudes and longitudes',
  'The tests use nrel as the reference for everything else and never check nrel itself.',
  [L+'ne_nrel.py'], [('periodic-term tables and series', L+'ne_nrel.py:time_dependent_calculations'), ('topocentric transform', L+'ne_nrel.py:_sunpos_*')], observe=['sites(algorithm="nrel")','regular_grid(algorithm="nrel")','transect(algorithm="nrel")'])

p('C09', 'Refraction only lifts the sun, near the horizon, and by little',
  'Switching refraction on changes the zenith angle and nothing else (not azimuth, declination, equation of time or eccentricity factor). The apparent zenith never exceeds the true one by more than 0.02 degrees and never lies more than 0.8 degrees below it, the correction at the horizon is between 0.3 and 0.75 degrees, it is below 0.03 degrees when the sun is higher than 45 degrees, and it is below 0.4 degrees once the sun is more than 7 degrees under the horizon; where an algorithm cuts it off below the horizon, it is zero from there down. At and above the horizon it is the standard 1.02\' cot(h + 10.3/(h + 5.11)), with the elevation h in degrees, to within 0.003 degrees (psa, soltrack and nrel), or that of Rigollier et al. (2000) short of the zenith (iqbal).',
  'all solar elevations from -90 to 90 degrees (hence all times and places), 7 implementations, 3 use cases',
  'No test runs with refraction=True.',
  ALL, [('with_refraction branches', L)], over=('inputs','configurations'), observe=['Sunpos.zenith','refraction argument'])

p('C10', 'The time zone of the input times does not change the answer',
  'Naive times mean UTC, and timezone-aware times, whatever kind of time zone object they carry, give exactly the positions of the UTC instants they denote, in every use case. The result reports those instants as UTC times and the same instants in the original zone as local times, and true solar time, UTC sunrise and sunset, and incidence are those of the equivalent UTC input; a single valid instant is never rejected, also inside a daylight-saving change.',
  'all instants, all UTC offsets (as an arbitrary function of the instant), naive, UTC, fixed-offset and named zones of both usual implementations, all use cases',
  'All tests use naive times.',
  [B,U,V], [('time normalisation', B+':Sunpos.__init__'), ('UTC conversion', V+':check_timelatlon')], over=('inputs','configurations'), observe=['Sunpos.times','Sunpos.times_utc','Sunpos.timezone','Sunpos.true_solar_time','Sunpos.sunrise','Sunpos.sunset','Sunpos.incidence'])

p('C11', 'True solar time is UTC plus four minutes per degree plus the equation of time',
  'true_solar_time equals the UTC instant plus 4 minutes per degree of longitude plus the equation of time, at every time and place of every use case, to the microsecond. The helper functions that convert between UTC and true solar time apply the same shift in the corresponding direction for any scalar or array of times and longitudes.',
  'all times, longitudes and equations of time, all use cases and shapes of the helper arguments',
  'No test touches true_solar_time or the helper functions.',
  [B,D], [('true_solar_time', B), ('true_solar_time, universal_time_coordinated', D)], over=('inputs','configurations'), observe=['Sunpos.true_solar_time','sunwhere.universal_time_coordinated','sunwhere.utils.datetime.true_solar_time'])

p('C12', 'Sunrise, sunset and day length agree with each other in every unit',
  'cos(sunrise angle) = -tan(latitude) tan(declination), sunset in angular units is the opposite angle, and daylight length in hours is 2/15 of the sunrise angle in degrees. In true solar time sunrise and sunset lie symmetrically about noon of the true solar day of the requested instant, in UTC they differ from that by the equation of time plus 4 minutes per degree, in local time by the UTC offset of that instant, and sunset minus sunrise is the daylight length in all of them. All are missing (NaN or NaT), without error, exactly where the sun does not rise or set that day.',
  'all declinations, latitudes, longitudes, instants and UTC offsets; all units, all use cases',
  'No test calls sunrise, sunset or daylight_length.',
  [B], [('sunrise, sunset, daylight_length', B)], over=('inputs','configurations'), observe=['Sunpos.sunrise','Sunpos.sunset','Sunpos.daylight_length'])

p('C13', 'Incidence is the dot product of the sun direction and the surface normal',
  'incidence(slope, azimuth) equals the cosine of the angle between the sun direction, given by latitude, declination and true solar time, and the normal of a surface tilted by slope towards azimuth (0 south, east positive). In particular it is the cosine of the (airless) zenith angle for a horizontal surface, its opposite for a surface facing down, unchanged by whole turns of azimuth, and always within [-1, 1].',
  'all times, latitudes, declinations, slopes and azimuths; all use cases',
  'No test calls incidence.',
  [B], [('incidence', B+':Sunpos.incidence')], over=('inputs','configurations'), observe=['Sunpos.incidence'])

p('C14', 'Relative air mass is at least one, finite by day and missing by night',
  'For each of the four parameterizations the relative air mass is NaN for zenith angles above 90 degrees and missing zenith angles and otherwise a finite number of at least 1 and at most 45, within 0.005 of 1 with the sun overhead, within 1 percent of the secant of the zenith angle up to 70 degrees, between 25 and 45 at the horizon, and never decreasing with zenith angle by more than rounding. It follows the published formula of the parameterization.',
  'all zenith angles from 0 to 180 degrees, 4 parameterizations',
  'No test calls airmass.',
  [B], [('airmass', B+':Sunpos.airmass')], over=('inputs','configurations'), observe=['Sunpos.airmass'])

p('C15', 'Extraterrestrial irradiance is solar constant x eccentricity x cosine of zenith',
  'eth(ISC) equals ISC times the eccentricity factor times the cosine of the zenith angle while the sun is above the horizon and 0 below it; it is never negative, is proportional to ISC and never exceeds ISC times the eccentricity factor. The three air-mass corrections multiply it, by day, by the published function of air mass or elevation, a factor between 0.1 and 1.2.',
  'all zenith angles, eccentricity factors and solar constants, 4 corrections, all use cases',
  'No test calls eth.',
  [B], [('eth', B+':Sunpos.eth')], over=('inputs','configurations'), observe=['Sunpos.eth'])

p('C16', 'Invalid requests are rejected and valid ones accepted',
  'A latitude outside [-90, 90], a longitude outside [-180, 180), an unequal number of latitudes and longitudes (sites) or of times, latitudes and longitudes (transect), an array of more than one dimension, an unknown algorithm, an engine the algorithm does not have, an unknown air-mass parameterization, correction or sunrise/sunset unit: each raises ValueError, wherever the offending entry is. Every request without such a defect is accepted, including the end points -90, 90 and -180.',
  'all real latitudes and longitudes in every entry of the arrays, all small shapes, all option strings considered',
  'No test passes an invalid request.',
  [V,C,U,B], [('check_timelatlon, check_ndim, check_dimensions', V), ('algorithm and engine lookup', C+':evaluate')], over=('inputs','configurations'), observe=['sites()','regular_grid()','transect()','Sunpos methods'])

p('C17', 'The iqbal algorithm uses the right day of the year on every civil date',
  'With algorithm="iqbal" declination, equation of time and eccentricity factor are the published series evaluated at the day angle 2 pi (n + f)/365, where n is the day of the year (1 to 366, Gregorian leap years) and f the fraction of the UTC day, to the second. This holds for every instant, in both engines and all use cases, before and after 1970 and across 29 February and year ends.',
  'every second from 1800-01-01 to 2261-12-31, both engines, 3 use cases',
  'The tests cover 2024 and 2025 with tolerances of 2 degrees and 10 minutes; a calendar slip of a day moves declination by less than 0.4 degrees.',
  [L+'py_iqbal.py', L+'ne_iqbal.py'], [('day_angle and the calendar split', L)], over=('inputs','configurations'), observe=['Sunpos.declination','Sunpos.eot','Sunpos.ecf'])

p('C18', 'All accessors are views of one consistent result',
  'declination, zenith and azimuth are in degrees; dec, sza and saa are their exact aliases, elevation is 90 minus zenith, cosz is the cosine of zenith, and local_standard_time is the times. The values are those the selected algorithm computed for the request, in every use case.',
  'all values of the algorithm outputs, all use cases',
  'The tests read the accessors only for comparison with another algorithm at wide tolerances and never read elevation, cosz or the aliases azimuth-wise.',
  [B,U], [('accessor properties', B)], over=('inputs','configurations'), observe=['Sunpos accessors'])

p('C19', 'Command-line coordinates are read with the right sign and bounds',
  'A latitude given as a number followed by N or S and a longitude given as a number followed by E or W, in either case, is read as that number, negated for S and W. Any other final character and any value outside [-90, 90] or [-180, 180) is rejected.',
  'all numbers and all final characters',
  'No test imports the command-line module.',
  ['src/sunwhere/_cli/main.py'], [('parse_latitude, parse_longitude', 'src/sunwhere/_cli/main.py')], observe=['sunwhere at LAT LON'])

p('C20', 'The equation of time and the position agree on solar noon',
  'In every algorithm and engine the hour angle of the sun that follows from its position (zenith and azimuth, without refraction) equals 15 degrees per hour of true solar time from 12:00, within 0.1 degrees (0.05 degrees for nrel), at every instant of 2020-2050 and at every longitude.',
  'every instant 2020-2050, 7 implementations',
  'The equation of time is tested at 10 minutes (2.5 degrees of hour angle) against nrel only.',
  ALL+[B], [('eot and hour angle computed by separate formulas', L)], over=('inputs','configurations'), observe=['Sunpos.true_solar_time','Sunpos.azimuth'])

p('C21', 'Calls and accessors have no side effects',
  'A call does not modify its input arrays, and its result shares no writable memory with them or with other results. Reading any accessor or calling any method, any number of times and in any order, changes neither the result object nor what another accessor returns, and an earlier call never influences a later one.',
  'all values of the inputs, all ordered pairs of accessors and calls',
  'The tests read each accessor once on a fresh object.',
  [B,U,C]+ALL, [('accessors build new arrays', B)], over=('inputs','histories'), observe=['Sunpos accessors','input arrays'])

p('C22', 'The command line prints what the library returns',
  'The command `sunwhere at TIME LAT LON` with any of its options prints, for the instant that TIME denotes in the given time zone (the present instant for `now`), the values the library returns there with that algorithm and refraction: declination, zenith, elevation and azimuth to 4 decimals, the sun-earth distance, the date and time, sunrise and sunset as clock times in UTC and in the time zone, and the equation of time as signed minutes and seconds below 60. It does so at every place and time, also where the sun does not rise or set.',
  'every local time that exists once 1950-2099 and the present, every place, any UTC offset, 4 algorithms, with and without refraction',
  'No test imports the command-line modules.',
  ['src/sunwhere/_cli/main.py', 'src/sunwhere/_cli/position.py'], [('calculate_position', 'src/sunwhere/_cli/position.py')], over=('inputs','configurations'), observe=['sunwhere at'])

p('C23', 'The container and number type of the inputs do not matter',
  'Latitudes and longitudes give the same results (in value and number type) as the same values in float64 arrays when they are lists, tuples, arrays of any integer or floating type (the two may differ), object arrays, pandas Series (whatever their index), DataArrays or single numbers. Times give the same results as the same instants in a nanosecond array or index when they are datetime64 arrays or DataArrays of any resolution from days to nanoseconds, lists of timestamps or texts, or a single text, timestamp or datetime64.',
  'all values of the type and all instants; two entries per input, or one',
  'The tests pass float arrays and one kind of index.',
  [U,V,C,B], [('sites, regular_grid, transect', U), ('check_timelatlon', V)], over=('inputs','configurations'), observe=['sites()','regular_grid()','transect()'])

p('C24', 'Missing coordinates give missing values at their places and nowhere else',
  'Latitudes and longitudes may be missing (NaN) in the three use cases. Every result that depends on a missing coordinate is missing (NaN or NaT) at its places: the site, the row or column of a regular grid, or the entry of a transect. Results that depend on time alone (eccentricity, equation of time, declination) are never affected, those that depend on latitude alone (sunrise and sunset angles, daylight length) not by longitude, nor true solar time by latitude, and every other entry is what it would be if no coordinate were missing. The same holds in the helper functions of true solar time.',
  'all values of the coordinates that are not missing, every pattern of missing ones in shapes up to two entries (thorough: three), 4 algorithms, engines, refraction, all accessors',
  'No test passes a missing coordinate.',
  [U,V,C,B]+ALL, [('check_timelatlon', V), ('Sunpos', B)], over=('inputs','configurations'), observe=['sites()','regular_grid()','transect()'])

pathlib.Path('/verif/properties.jsonl').write_text(''.join(json.dumps(x, ensure_ascii=False)+'\n' for x in P))
