"""The series of the iqbal algorithm (no solver imports: shared with the replays)."""
# declination: Iqbal (1983) Eq (1.3.1), radians; equation of time (minutes) and eccentricity factor: the
# series of the package, refitted to nrel
SERIES = {
    'declination': (.006918, (-.399912, -.006758, -.002697), (.070257, .000907, .00148)),
    'eot': (.00986571, (.58688718, -3.31493999, -.0815175, -.13532889), (-7.34538133, -9.35366541, -.30892409, -.1733622)),
    'ecf': (1.00012825, (.0333572253, .000697434604, .0000174028675), (.00199417932, .000114828177, .0000113778023)),
}
