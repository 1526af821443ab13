"""Properties claimed and the harness jobs that decide them."""
STUBBED = {'navrnx', 'gpsnav', 'galnav', 'glonav', 'bdsnav', 'obsrnx', 'sp3c', 'antex', 'bern_utils'}
PROPS, JOBS = {}, []


def prop(pid, outside='', assumptions=()):
    PROPS[pid] = dict(outside=outside, assumptions=list(assumptions))


def job(pid, file, fn, src, bounds, **kw):
    JOBS.append(dict(prop=pid, file=file, fn=fn, src=src, bounds=bounds, **kw))


prop('C01', outside='nothing: the identifier is one byte and the system a finite enumeration')
job('C01', 'c01', 'c01_parse', ['satsys'], 'all 256 characters', reach=['parsed', 'rejected'])
job('C01', 'c01', 'c01_format', ['satsys'], 'all 8 systems', reach=['rt'])
job('C01', 'c01', 'c01_traits', ['satsys'], 'all 8 systems', reach=['traits'])
job('C01', 'c01', 'c01_constants', ['satsys'], 'the published constants of GPS, Galileo and BeiDou', reach=['constants'])

prop('C02', outside='code strings longer than 5 characters (11 thorough); only the first three characters are significant')
job('C02', 'c02', 'c02_type', ['gnssobs'], 'all 256 characters, all 7 types', reach=['ok', 'rejected'])
job('C02', 'c02', 'c02_code', ['gnssobs'], 'every string of length 0..5 (0..11 thorough)', reach=['ok', 'rejected'])
job('C02', 'c02', 'c02_equality', ['gnssobs'], 'all types, all int bands, all attribute characters', reach=['done'])
job('C02', 'c02', 'c02_format', ['gnssobs'], 'all types, bands 0..9, all attribute characters', reach=['done'])

prop('C03', outside='observables with more than 3 arbitrary parts or more than 33 parts; NaN coefficients')
OB = ['gnssobs', 'gnssobsrv', 'satsys']
P3 = 'each part: any system, type, band 0..9, attribute byte and non-NaN coefficient'
for f, b in [('c03_eq11', '1 against 1 part; '), ('c03_eq22', '2 against 2 parts; '), ('c03_eq33', '3 against 3 parts; '), ('c03_eq_sizes', '1/2, 2/1, 2/3 parts; '), ('c03_parts', '1..3 parts; '), ('c03_raw', '2 raw observables; '), ('c03_string', '1..3 parts; '), ('c03_many', '4..33 against as many parts in 3 orders, one of each side arbitrary; ')]:
    job('C03', 'c03', f, OB, b + P3, reach=['done'])

job('C04', 'c04', 'c04_many', ['gnssobs', 'gnssobsrv', 'satsys'], '4..12 parts of several systems, any int band of one of them, coefficients in [-1e6,1e6]', real=True, reach=['value', 'exception'])
prop('C04', outside='observables with more than 12 parts; coefficients beyond 1e6 in magnitude; rounding of the sum (decided over the reals)')
job('C04', 'c04', 'c04_one', OB, '1 part: any system, any int band, coefficient in [-1e6,1e6]', real=True, reach=['value', 'exception'])
job('C04', 'c04', 'c04_two', OB, '2 parts: any systems, any int bands, coefficients in [-1e6,1e6]', real=True, reach=['value', 'exception'])
job('C04', 'c04', 'c04_three', OB, '3 parts of one system, bands -1..12', real=True, reach=['value'])
job('C04', 'c04', 'c04_tables', OB, '7 systems, any int band', reach=['hit'])
job('C04', 'c04', 'c04_attributes', OB, '7 systems, bands -1..12, any character', reach=['hit'])

AN = ['antenna', 'satellite', 'satsys']
prop('C05', outside='names longer than 45 characters')
job('C05', 'c05', 'c05_construct', AN, 'every name of length 0..45, both constructors, any previous memory content', reach=['done'])
job('C05', 'c05', 'c05_default', AN, 'any previous memory content', reach=['done'])
job('C05', 'c05', 'c05_equivalent', AN, 'pairs of names of length 0..24 (quick: lengths around 0, 16 and 20)', reach=['done'])
prop('C06', outside='serials longer than 25 characters')
job('C06', 'c05', 'c06_set', AN, 'serials of length 0..25 after none or another serial', reach=['done'])
job('C06', 'c05', 'c06_compare_serial', AN, 'stored serial lengths 0..25, compared 0..20 (quick: 8 x 6 lengths)', reach=['done'])
job('C06', 'c05', 'c06_compare_none', AN, 'compared serial lengths 0..20', reach=['done'])
for n in ['none', '0', '1', '5', '20', '23']:
    job('C06', 'c05', 'c06_is_same_' + n, AN, 'two models of 20 characters, serial lengths %s against none,0,1,5,20,23' % n, reach=['different'] + (['same'] if n not in ('none', '0') else []))
prop('C07', outside='names longer than 25 characters')
job('C07', 'c05', 'c07_satellite_antenna', AN, 'names of length 0..25, compared with names of length 0..25 (quick: 8 lengths)', reach=['done'])
job('C07', 'c05', 'c07_default', AN, 'any previous memory content', reach=['done'])
prop('C08', outside='PRN outside 0..999, SVN outside 0..9999')
job('C08', 'c05', 'c08_string', AN, 'all systems, PRN 0..999, SVN 0..9999, COSPAR of 0..9 characters', reach=['done'])
job('C08', 'c05', 'c08_accessors', AN, 'all systems, any int PRN/SVN', reach=['done'])

job('C09', 'c09', 'c09_long', ['nvarstr'], 'strings of 16..257 characters, up to 20 leading and 40 trailing blanks, the first and last character of the text arbitrary, 3 stop positions', reach=['done'])
prop('C09', outside='arbitrary strings longer than 8 characters (13 thorough); longer ones with more than two arbitrary characters')
for f in ['c09_rtrim_end', 'c09_rtrim_start', 'c09_ltrim', 'c09_is_empty']:
    job('C09', 'c09', f, ['nvarstr'], 'every string of length 0..8 (0..13 thorough), every stop position or none', reach=['done'])

prop('C10', outside='lines longer than 42 characters; decimal scales beyond 10^22; infinities, NaN and hexadecimal notation')
NV = ['nvarstr']
A10 = 'over the alphabet digits, blank, point, signs, E; either errno'
job('C10', 'c09', 'c10_any_2x2', NV, 'every text of length 0..6 %s, 2 fields of width 2' % A10, reach=['ok', 'blank', 'malformed'])
job('C10', 'c09', 'c10_any_1x4', NV, 'every text of length 0..6 %s, 1 field of width 4' % A10, reach=['ok', 'blank', 'malformed'])
job('C10', 'c09', 'c10_any_2x3', NV, 'every text of length 0..8 %s, 2 fields of width 3' % A10, thorough=True, reach=['ok', 'blank', 'malformed'])
job('C10', 'c09', 'c10_columns_2x19', NV, '2 fields of width 19, each blank or one of 4 notations with arbitrary digits; up to 19 trailing characters missing', reach=['ok', 'blank'])
job('C10', 'c09', 'c10_columns_3x14', NV, '3 fields of width 14, each blank or one of 4 notations with arbitrary digits', reach=['ok', 'blank'])
job('C10', 'c09', 'c10_exponent_letter', NV, 'every string of length 0..9 (0..19 thorough)', reach=['done'])

prop('C11', outside='more than 24 satellites or 8 epochs; more than 4 satellites without weights (the innovation covariance is singular); scale factors other than 1; rounding (decided over the reals, constants of the fixed-geometry harnesses folded in double precision, tolerance 1e-4); filters with a number of parameters other than 5')
job('C11', 'c11', 'c11_one_satellite', [], '1 satellite, 1 epoch: state, satellite, observation, clock, weight and interval all arbitrary', real=True, reach=['done'])
job('C11', 'c11', 'c11_one_unweighted', [], 'as above without weights', real=True, reach=['done'])
for f, b in [('two_satellites', '2 satellites, 1 epoch'), ('two_unweighted', '2 satellites, 1 epoch, no weights'), ('five_satellites', '5 satellites, 1 epoch'), ('two_updates', '1 or 3 satellites, 2 epochs'), ('three_updates', '4 satellites, 3 epochs'), ('changing_count', '3, 1 and 2 satellites in 3 epochs')]:
    job('C11', 'c11', 'c11_' + f, [], b + ': fixed geometry, arbitrary observations and clocks at the last epoch', real='fold', reach=['done'])
job('C11', 'c11', 'c11_larger', [], '24 satellites in 1 epoch, 12 and 9 in 2, 6 in 3 (vectors longer than that), 2 in 8: fixed geometry, arbitrary observations and clocks of two satellites at the last epoch', real='fold', reach=['done'])
job('C11', 'c11', 'c11_any_interval', [], '1 satellite, second epoch after an interval of 0..86400 s (control flow for every interval, arithmetic at 0, 7.5, 400, 40000 s and one more value per path), with arbitrary observations and clocks', real='fold', reach=['done'])
job('C11', 'c11', 'c11_any_interval_2', [], 'as above, 2 satellites, intervals of 0..900 s', real='fold', reach=['done'])

prop('C28', outside='more than 3 arbitrary records (900 of other satellites before one arbitrary record), 1000 or more lines in either part, more than 2 lookups on one reader; record lines longer than 255 characters; malformed records',
     assumptions=['dates: rt/ggdatetime stands in for the ggdatetime library, which is not installed'])
B28 = ['bern_utils']
for f, b, rc in [('one', '1 record of any of 3 types (month fixed to 3 choices, every day and time, open or closed interval, any SVN, PRN, channel of two digits and sign), any SVN and epoch asked, errno pending or not', ['found', 'none']),
                 ('two', '2 records as above', ['found', 'none']), ('three', '3 records of arbitrary satellites with successive intervals', ['found', 'none']),
                 ('many', '0..900 records of other satellites before 1 arbitrary record, PART 1 of 0..900 lines', ['found', 'none']),
                 ('requery', '1 record, 2 lookups', ['found', 'none']), ('end_of_file', '1 record, 2 lookups, no PART 3', ['found', 'none']), ('trimmed', '1 record with trailing blanks cut, 2 lookups', ['found', 'none']),
                 ('header', '5 files: valid and each header line wrong', ['done']), ('missing', 'a file that does not exist', ['done'])]:
    job('C28', 'c28', 'c28_' + f, B28, b, reach=rc)

DT = 'dates: rt/ggdatetime stands in for the ggdatetime library, which is not installed'
S3 = ['sp3c', 'satsys']
prop('C22', outside='header lines longer than 84 characters; start epochs other than 30 instants', assumptions=[DT])
for f, b, rc in [('values', '30 start epochs of 6 days and 5 times, versions c and d, 1..9999999 epochs, 1..999 satellites, any text in the four text fields, intervals of 0..99999 s, 5 or 6 identifier and accuracy lines, 0..4 comments, errno pending or not', ['done']),
                 ('lines', '5, 6, 17 or 59 identifier lines and as many accuracy lines, every number of satellites that needs them, 0..400 comments', ['done']),
                 ('interval', '5 intervals with fractions of a second', ['done']), ('consistency', '6 start epochs against any GPS week, second of week, modified Julian day and two day fractions', ['accepted', 'refused']),
                 ('format', 'one of 10 header lines wrong', ['done']), ('missing', 'a file that does not exist', ['done'])]:
    job('C22', 'c22', 'c22_' + f, S3, b, reach=rc)
prop('C23', outside='more than 2 epochs of 3 arbitrary records (6 epochs of 2 for the interpolator, 300 of 2 or 2 of 120 with one arbitrary record); coordinates of 100000 km and more; coordinates in other notations than F14.6', assumptions=[DT])
for f, b in [('one', '1 epoch of 3 months (any day and time), 1 record of 7 systems, any PRN, any coordinates and clock, long and short line, errno pending or not'), ('signs', '1 epoch, 1 record, any coordinates and clock of any sign'),
             ('three', '2 epochs of 0..3 records with arbitrary values, with velocity and correlation lines between, read twice with rewinding'), ('fraction', '6 epochs with fractions of a second'), ('interpolator', '1..6 epochs'),
             ('large', '97 epochs of 12, 300 of 2, 3 of 85 or 2 of 120 satellites, the last record arbitrary, read twice')]:
    job('C23', 'c22', 'c23_' + f, S3, b, reach=['done'], **({'steps': 200000000, 'time': 300} if f == 'large' else {}))
prop('C24', outside='more than 3 records', assumptions=[DT])
for f, b in [('letters', '2 records, any character in each flag column'), ('missing', '1 record with any coordinates and clock and any flag characters'), ('short', '3 records, the middle line 60..79 characters long, any flag characters'), ('set', 'every sequence of 3 (4) set or clear operations')]:
    job('C24', 'c22', 'c24_' + f, S3, b, reach=['done'])

AX = ['antex', 'antenna', 'antenna_pcv', 'satellite', 'satsys', 'gnssobs', 'nvarstr']
prop('C25', outside='more than 3 antennas or 2 lookups; grid lines longer than 511 characters; malformed records', assumptions=[DT])
for f, b, rc in [('one', '1 antenna of 4 models, serial of 0, 1, 5 or 20 characters, asked the same way, serial required or not', ['exact', 'model', 'none']), ('two', '2 antennas of 2 models, serials of 0, 1, 5 characters', ['exact', 'model', 'none']),
                 ('three', '3 antennas of one model', ['exact', 'model', 'none']), ('again', '2 antennas, 2 lookups of any kind', ['exact', 'model', 'none']), ('reset', '2 files, one after the other', ['model', 'none']),
                 ('header', '5 files: valid and each header line wrong', ['done']), ('missing', 'a file that does not exist', ['done'])]:
    job('C25', 'c25', 'c25_' + f, AX, b, reach=rc)
prop('C26', outside='more than 3 records or 2 lookups; dates outside 3 months; malformed records', assumptions=[DT])
for f, b in [('one', '1 record of 4 kinds (complete, without SVN and COSPAR id, a receiver antenna, without satellite code), 4 systems, any PRN, SVN, COSPAR id, interval (month fixed to 3 choices, every day and time, open or closed); any satellite and epoch asked'), ('two', '2 records'), ('three', '3 successive records of one system'),
             ('again', '2 records, 2 lookups'), ('no_interval', '2 records, the first without VALID FROM')]:
    job('C26', 'c25', 'c26_' + f, AX, b, reach=['found', 'none'])
prop('C27', outside='more than 25 frequencies; grid lines of more than 504 characters; offsets outside F10.2', assumptions=[DT])
for f, b in [('values', '1 frequency of any band, offsets of 1, 3 or 6 digits before the point, any digits and sign'), ('receiver', '0..2 frequencies of 6 systems and any band, with or without rms block and comment'), ('satellite', 'the same for a satellite'), ('three', '0..3 frequencies'), ('large', '1..25 frequencies with grids of up to 62 columns and 181 rows (up to 1900 lines each), 1 or 60 other antennas before, 0 or 970 header comments, any band of the last frequency')]:
    job('C27', 'c25', 'c27_' + f, AX, b, reach=['done'], **({'steps': 200000000, 'time': 300} if f == 'large' else {}))
    if f == 'large':
        job('C25', 'c25', 'c25_large', AX, 'the files of c27_large for a receiver antenna', reach=['done'], steps=200000000, time=300)
        job('C26', 'c25', 'c26_large', AX, 'the files of c27_large for a satellite', reach=['done'], steps=200000000, time=300)

NAV = ['navrnx', 'gpsnav', 'galnav', 'glonav', 'nvarstr', 'satsys']
prop('C16', outside='more than one field in more than 3 (5 thorough) notations at a time; first lines outside 4 months; header lines beyond the ones written', assumptions=[DT])
for y in 'GRECJIS':
    job('C16', 'c16', 'c16_fields_' + y, NAV, 'one record of system %s: any one field in 3 (5 thorough) notations with any digits and sign, the others fixed and different' % y, reach=['done'])
for f, b in [('first', '7 systems, any PRN, any day and time of 4 months, errno pending or not'), ('toe', '3 systems, any week of 4 digits and second of the week'), ('glonass_time', 'any message second of the week, any day and time of 4 months'),
             ('reuse', 'every pair of 7 systems into one frame'), ('spare', '7 systems, spare fields blank, trailing blanks cut or not'), ('incomplete', '7 systems, any field blank or with any foreign character'), ('bad_first_line', '7 systems, any foreign letter, no PRN, any month or day out of range')]:
    job('C16', 'c16', 'c16_' + f, NAV, b, reach=['done'])
prop('C17', outside='more than 3 arbitrary records (5040 of other satellites before 2 arbitrary records) or 4 operations; files of other versions', assumptions=[DT])
for f, b, rc in [('walk', 'up to 2 records of 2 systems, every sequence of 4 reads, peeks, skips and rewinds, newline at the end or not, errno pending', ['read', 'done']), ('walk_3', 'up to 3 records of 3 systems, every sequence of 3 operations', ['read', 'done']),
                 ('systems', 'two records of any of 7 systems; the first one read, skipped or searched past', ['done']),
                 ('find', '3 records of 2 systems and any PRN, 2 searches for any satellite or any of a system, going back or not', ['found', 'none']), ('find_all', '3 records, every record of one satellite, twice', ['done']), ('many', 'headers of up to 970 comments, 7..210 records of other satellites of 7 systems, then 2 of any of 3 systems and any PRN; read and skipped, or searched for any satellite; 5040 GLONASS records, then 2 of GPS, searched for any', ['found', 'none']),
                 ('header', '7 headers, 0..2 comments', ['done']), ('missing', 'a file that does not exist', ['done'])]:
    job('C17', 'c17', 'c17_' + f, NAV, b, reach=rc, **({'steps': 200000000, 'time': 300} if f == 'many' else {}))
prop('C21', outside='more than 2 records of arbitrary satellites or 3 of one satellite on one day; instants outside 35 days', assumptions=[DT])
for f, b, rc in [('gps', '1 record: any PRN, day and time of one month, health and fit interval of 2 digits; any millisecond of 35 days asked', ['found', 'none']), ('galileo', 'the same', ['found', 'none']), ('beidou', 'the same', ['found', 'none']), ('glonass', 'the same, message time equal to the time of clock', ['found', 'none']),
                 ('two', '2 records of 2 systems as above', ['found', 'none']), ('three', '3 records of one satellite and day', ['found', 'none']), ('many', '100 records of another system, then 2 of one satellite and day; 5100 records, then 1', ['found', 'none']), ('glonass_two', '2 records of one satellite and day', ['found', 'none']),
                 ('reports', '4 systems: any health, issue, accuracy and fit interval', ['done']), ('other_systems', '3 systems without model', ['done'])]:
    job('C21', 'c17', 'c21_' + f, NAV, b, reach=rc, **({'steps': 200000000, 'time': 300} if f == 'many' else {}))
FOLD = 'decided over the reals; constants folded in double precision and identified up to 1e-11 of their size; sine, cosine, arc tangent and square root of unknown arguments are free functions'
prop('C18', outside='eccentric orbits other than the 4 of the harness; instants other than 6 offsets from 3 times of ephemeris; rounding', assumptions=[DT, FOLD])
for y, nm in [('G', 'GPS'), ('E', 'Galileo'), ('C', 'BeiDou, PRN 1, 5, 6, 7, 58, 59 and 63')]:
    job('C18', 'c18', 'c18_circular_' + y, NAV, '%s: eccentricity 0, all other elements arbitrary in a range of either sign; 6 offsets from 3 times of ephemeris' % nm, real='fold', reach=['done'])
    job('C18', 'c18', 'c18_elliptic_' + y, NAV, '%s: 4 orbits (eccentricity, semi-major axis, mean motion, mean anomaly), the other 11 elements arbitrary in a range of either sign; 6 offsets from 3 times of ephemeris' % nm, real='fold', reach=['done'])
job('C18', 'c18', 'c18_too_far', NAV, '3 systems, any millisecond 302400.001..2000000 s before or after', reach=['done'])
prop('C19', outside='orbits other than 4, times of clock other than 4; rounding', assumptions=[DT, FOLD])
for y in 'GEC':
    job('C19', 'c18', 'c19_clock_' + y, NAV, '4 times of clock, 6 instants, 4 orbits, arbitrary clock coefficients in a range of either sign', real='fold', reach=['done'])
prop('C20', outside='instants other than 15 offsets from 3 message times; rounding', assumptions=[DT, FOLD])
job('C20', 'c18', 'c20_near', NAV, '4 offsets up to 100 s, any state, acceleration and clock in a range', real='fold', reach=['done'])
job('C20', 'c18', 'c20_interval', NAV, '5 offsets up to 900 s, any state, acceleration and clock in a range', real='fold', reach=['done'])
job('C20', 'c18', 'c20_too_far', NAV, '6 offsets beyond 900 s', reach=['done'])
# ------------------------------------------------------- observation RINEX
OB = ['obsrnx', 'antenna', 'satellite', 'satsys', 'gnssobsrv', 'gnssobs', 'nvarstr']
prop('C12', outside='headers of 1000 lines or more; more than one field arbitrary at a time; header lines longer than 80 characters; records of events that change the header', assumptions=[DT])
for f, b in [('names', 'marker name (24 characters, 60 thorough), number, receiver number and type: any printable characters, 2 (4) orders of the lines'), ('antenna', 'any serial number of 20 characters and model of 16, radome of 4 characters, blank or NONE'),
             ('numbers', 'any one of 6 coordinates and eccentricities in 3 notations with arbitrary digits, 2 orders of the lines'), ('first', 'any system letter, any time of first observation of one day, clock correction applied or not'),
             ('long', 'headers of 40, 480 or 950 more lines, the fields at the start, in the middle or at the end, two of them arbitrary')]:
    job('C12', 'c12', 'c12_' + f, OB, b, reach=['done'])
prop('C13', outside='tables beyond 27 types and 3 systems with an arbitrary entry, 99 types and 6 systems without; more than one table entry arbitrary')
for f, b, rc in [('columns', 'tables of 1, 13, 14, 27 (thorough also 3, 12, 26) types for 2 systems, one entry arbitrary; any type asked for', ['gps', 'glonass', 'empty']), ('combination', '18 types, every pair of terms, any coefficients, mixed systems, types not in the file', ['combination', 'left-out', 'refused']),
                 ('large', 'a table of 39, 40, 65 or 99 types of one of 6 systems among others of 13..18, 6 columns; the column and the value read from it', ['done']),
                 ('bad_header', '8 kinds of damaged tables', ['done'])]:
    job('C13', 'c12', 'c13_' + f, OB, b, reach=rc)
prop('C14', outside='more than 3 arbitrary epochs (480 with the last arbitrary); header of more than 1000 lines; epochs of more than 80 satellites (refused)', assumptions=[DT])
for f, b in [('values', '3 satellites of 3 systems, any one of 4 fields with arbitrary digits, blank or not, any indicators; last line terminated or not; errno pending or not'), ('time', 'any day and time of 4 months, 4 fractions of a second, flag 0 and 1, with and without receiver clock offset'),
             ('many', '36, 62, 80 or 81 satellites of 3 systems, the value of any of 3 of them and of the last arbitrary'),
             ('systems', 'up to 3 (4) satellites of 4 systems, any PRN, blank padded or not, 2 or 3 systems asked for'), ('sequence', 'up to 3 epochs of any minute, a special event of 5 kinds before any of them, read twice'),
             ('long', '2, 121 or 480 epochs, headers of up to 970 lines, events of 0, 2 or 70 records, the last minute and value arbitrary, read twice')]:
    job('C14', 'c12', 'c14_' + f, OB, b, reach=['done'], **({'steps': 200000000, 'time': 300} if f == 'long' else {}))
prop('C15', outside='combinations of more than 7 terms (thorough: 13); more than 2 epochs')
job('C14', 'c12', 'c14_prn', OB, 'one of 2 satellites with any two characters for its number', reach=['number', 'other'])
job('C15', 'c12', 'c15_combination', OB, 'every pair of 5 columns of 14, arbitrary coefficients in a range, arbitrary values of 4 digits', real='fold', reach=['done'])
job('C15', 'c12', 'c15_many', OB, 'a combination of 4..7 of 14 columns (thorough: 13), not in file order, one value of 4 digits and one coefficient arbitrary, or four values of one digit, any one term blank', real='fold', reach=['done'])
job('C15', 'c12', 'c15_missing', OB, '6 columns, any of them blank, the line cut at any of several places after the last value', reach=['done'])
job('C15', 'c12', 'c15_stale', OB, '3 satellites in 2 epochs, any column of the later ones blank', reach=['done'])
# ------------------------------------------------ damaged and short files
DM = ['sp3c', 'satsys', 'navrnx', 'gpsnav', 'galnav', 'glonav', 'nvarstr', 'obsrnx', 'antenna', 'satellite', 'gnssobsrv', 'gnssobs', 'bern_utils']
prop('C29', outside='damage of more than one place; files other than the five of the harness; more than 6 reads', assumptions=[DT])
prop('C30', outside='files other than the five of the harness', assumptions=[DT])
for x, nm, n in [('sp3', 'SP3', 4), ('nav', 'navigation RINEX', 2), ('navs', 'navigation RINEX (searched)', 2), ('obs', 'observation RINEX', 2), ('atx', 'ANTEX', 4), ('bern', 'SATELLIT', 2)]:
    hs, src = ('c29a', AX) if x == 'atx' else ('c29', DM)
    for i in range(n):
        job('C29', hs, 'c29_%s_%d' % (x, i), src, '%s file, part %d of %d: any one character (thorough: any two adjacent ones) replaced by any other' % (nm, i + 1, n), reach=['done'], time=400, qtimeout=4000)
    job('C29', hs, 'c29_%s_lines' % x, src, '%s file: any line missing, doubled, exchanged with the next, or longer by 1, 30, 200 or 700 characters' % nm, reach=['done'])
    job('C29', hs, 'c29_%s_short' % x, src, '%s file: any line cut at any column' % nm, reach=['done'])
    if x != 'navs': job('C30', hs, 'c30_' + x, src, '%s file cut after any number of characters, two digits of two fields arbitrary' % nm, reach=['done', 'refused', 'delivered'], time=300)
job('C29', 'c29', 'c29_sp3_window', DM, 'interpolation window over an SP3 file of 3 epochs: any one character of the epoch interval or of any record replaced', reach=['done'], time=400, qtimeout=4000)
# --------------------------------------------- several readers at a time
AB = AX + ['bern_utils']
FILES = 'files other than the five of the harness and their variants'
prop('C31', outside='more than 4 operations and 2 moves (5 operations thorough); ' + FILES, assumptions=[DT, 'the effect of moving an open std::ifstream itself is the one the standard gives'])
prop('C32', outside='more than 2 readers at a time, more than 3 operations (4 thorough) on each; threads; ' + FILES, assumptions=[DT])
SEQ = 'every sequence of 4 reads and rewinds (lookups of other satellites or antennas), moved before any one of them by construction (old reader destroyed or kept) or by assignment to a reader of another file, moved once more or not; file with two fields of arbitrary digits'
for x in ['sp3', 'nav', 'obs', 'bern', 'atx']:
    hs, src = ('c31a', AB) if x == 'atx' else ('c31', DM)
    job('C31', hs, 'c31_' + x, src, SEQ, reach=['done'])
for x in ['sp3_sp3', 'nav_nav', 'obs_obs', 'bern_bern', 'sp3_nav', 'sp3_obs', 'nav_obs', 'bern_nav', 'atx_atx', 'atx_bern']:
    hs, src = ('c31a', AB) if x[:3] == 'atx' else ('c31', DM)
    job('C32', hs, 'c32_' + x, src, 'two readers of different files, every interleaving of opening, 3 reads (the last after rewinding or not, or another lookup) and closing each, errno pending or not; two fields of each file with arbitrary digits', reach=['done'])
prop('C33', outside='numbers other than 0..99')
job('C33', 'c33', 'c33_year', [], 'every year 0..99', reach=['done'])
