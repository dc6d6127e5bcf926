COMMON = ('The real sources are executed symbolically on every run; inputs are solver variables over the stated bounds. '
          'Floating point is read as real arithmetic (rounding is bounded where it matters), numpy/numexpr/pandas/xarray '
          'primitives are modelled and the encoding is compared with the real code on sample inputs in every run. ')
SYM = 'symbolic execution of the real sources + SMT (z3)'
CLAIMS = {
    'C01': (SYM + ', equivalence by SAT sweeping',
            COMMON + 'Both engines are proved to denote the same real function of time, latitude and longitude in every use case.'),
    'C02': (SYM + ', equivalence of array and single-point executions',
            COMMON + 'Every element of every small shape is proved equal to the single-point execution on its own inputs.'),
    'C03': (SYM + ', structural check of labels on symbolic inputs',
            COMMON + 'Dimensions, coordinates and attributes of symbolic results are proved equal to the symbolic inputs; dependence on each input decided on the terms.'),
    'C04': (SYM + ', equivalence with and without missing entries',
            COMMON + 'Every subset of missing times is executed and each entry proved NaN/NaT or equal to the execution without missing entries.'),
    'C05': (SYM + ', interval Taylor enclosures over time and place checked by z3, non-linear real arithmetic',
            COMMON + 'Declination, eccentricity and equation of time are enclosed over every second of 1950-2100; zenith, elevation and azimuth over every place as functions of one enclosed node; domains of inverse functions need a margin for rounding or an exact clip, and z3 decides the ranges.'),
    'C06': (SYM + ', non-linear real arithmetic over sines and cosines, interval Taylor enclosures checked by z3',
            COMMON + 'z3 proves the cosine of zenith and the direction of azimuth to be the spherical transform of one declination-like and one hour-angle-like angle; their differences from the declination returned and the azimuth at the pole are enclosed over every second of 1950-2100 and bounded by z3.'),
    'C07': (SYM + ', interval Taylor enclosures over cells of time checked by z3',
            COMMON + 'Differences from nrel of declination, eccentricity, equation of time and azimuth at the pole are enclosed over cells covering every second of 2020-2049, bisected where they wrap, and bounded by z3.'),
    'C08': (SYM + ', equivalence with the published algorithm after cutting at time-only angles, interval Taylor enclosures checked by z3',
            COMMON + "The published algorithm (pvlib's transcription, kept in ref/) is executed on the same symbolic instant and place; differences of the quantities of time are enclosed over every second of 1950-2100, the rest of the position is proved the same function of them and of the place, refraction included."),
    'C09': (SYM + ', sweeping and interval Taylor enclosures over cells of zenith checked by z3',
            COMMON + 'The other outputs are proved equal; the apparent zenith is a function of the airless one alone, whose difference is enclosed over [0, 180] and bounded by z3, also against the published refraction.'),
    'C10': (SYM + ', equivalence of naive and zoned executions',
            COMMON + 'A zone is an uninterpreted function from instants to UTC offsets; every output in every kind of zone and container is proved equal to the naive UTC execution.'),
    'C11': (SYM + ', linear integer-real arithmetic',
            COMMON + 'The accessor (naive and zoned times) and both helpers, with abstract equations of time, are bounded by z3 to within a microsecond of the definition, rounding included.'),
    'C12': (SYM + ', SAT sweeping and linear integer-real arithmetic',
            COMMON + 'Case split on the published condition for sunrise; instants in every unit are bounded by z3 against the definition, for any declination, equation of time and UTC offset.'),
    'C13': (SYM + ', SAT sweeping against the dot product',
            COMMON + 'The accessor, for any slope and azimuth, is proved equal to the dot product of the sun direction and the surface normal, and the dot product bounded.'),
    'C14': (SYM + ', interval Taylor enclosures over cells of zenith checked by z3',
            COMMON + 'The accessor on any zenith is proved equal to the published formula; range, night and monotonicity are decided on cells covering [0, 180].'),
    'C15': (SYM + ', equivalence with the definition',
            COMMON + 'The accessor on any zenith, eccentricity and solar constant is proved equal to the definition with each published correction.'),
    'C16': (SYM + ', path-by-path decision of acceptance',
            COMMON + 'All paths of requests with unbounded coordinates and arbitrary names are executed; z3 decides that a path raises exactly if its inputs are invalid.'),
    'C17': (SYM + ', linear integer-real arithmetic over the civil months',
            COMMON + 'Every angle inside a sine or cosine is proved by z3 to be a multiple of the day angle at every second of each civil month of 1800-2261; the outputs are proved equal to the series of a free day angle.'),
    'C18': (SYM + ', equivalence of accessors',
            COMMON + 'Accessor values are proved equal to the published relation to the stored results.'),
    'C19': (SYM + ', path-by-path decision over symbolic texts',
            COMMON + 'The parsers are executed on any number (or none) followed by any Unicode character, and z3 decides on every path acceptance and value; the command is executed on symbolic coordinates and what it prints is proved to be the position there.'),
    'C20': (SYM + ', interval Taylor enclosures over cells of time checked by z3',
            COMMON + 'The azimuth at the pole minus UTC, longitude and equation of time, whole turns dropped exactly, is enclosed over cells covering every second of 2020-2049 and bounded by z3; likewise against the true_solar_time accessor.'),
    'C21': (SYM + ', non-interference over all ordered pairs of accessors and calls',
            COMMON + 'Symbolic histories: terms of inputs and results before and after each call are proved identical, and memory sharing is tracked.'),
    'C22': (SYM + ', equivalence of printed and returned values, linear integer-real arithmetic',
            COMMON + 'The command is parsed by typer and executed on a symbolic time, place and zone; every printed value is a mark that is proved, path by path, to stand for what the library returns; z3 decides sign, carry and rounding of minutes and seconds.'),
    'C23': (SYM + ', equivalence of terms across input types',
            COMMON + 'Every use case is executed on symbolic values held in each kind of container and number type, with the rounding of each type as a term; every entry of every result is proved to be the entry of the execution on float64 arrays and a nanosecond index.'),
    'C24': (SYM + ', equivalence of terms with and without missing coordinates',
            COMMON + 'For every pattern of missing coordinates, every entry of every result is proved to be NaN or NaT where a coordinate it depends on is missing, and elsewhere the term of the execution in which every coordinate is any number.'),
}
NA = {}
