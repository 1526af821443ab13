# properties of the file readers
T = 'no test reads such a file, and the contents that matter cannot be enumerated'


def add(p, NA):
    p('C29', 'Damaged files never crash, hang or corrupt the readers',
      'Whatever character of an SP3, navigation RINEX, observation RINEX, ANTEX or SATELLIT file is replaced by any other, and whatever line is missing, doubled, out of order, cut short or far too long, opening and reading the file ends: it is refused when opened with a runtime error the caller can catch, or every read and lookup returns a status. No read or lookup throws, ends the program, accesses memory it does not own, fails an assertion, or loops without end, and the number of records or satellites reported never exceeds the buffer the reader asked for.',
      ['inputs'], 'five files; any one character replaced by any other (two in the thorough tier); any line missing, doubled, exchanged, cut at any column, lengthened', T,
      ['src/sp3c.cpp', 'src/navrnx.cpp', 'src/obsrnx.cpp', 'src/antex.cpp', 'src/bern_utils.cpp'],
      [('SP3', 'src/sp3c.cpp Sp3c::read_header, get_next_epoch'), ('navigation', 'src/navrnx.cpp NavigationRnx::read_header, read_next_record'), ('observation', 'src/obsrnx.cpp ObservationRnx::read_header, read_next_epoch'), ('antennas', 'src/antex.cpp Antex::read_header, get_antenna_pco'), ('satellites', 'src/bern_utils.cpp BernSatellit::get_frequency_channel')],
      'One damaged place; five files of two records each; at most 6 reads.')
    p('C30', 'Files cut short deliver only what the complete file delivers',
      'When an SP3, navigation RINEX, observation RINEX, ANTEX or SATELLIT file ends early, at any character, a file without its complete mandatory header delivers no record, and a file with a complete header is accepted. Every record delivered before the cut is the one the complete file delivers at that place, and nothing follows a read that failed. Of the record the cut is in, either nothing is delivered, or (observation and navigation files, whose trailing fields may be left out) its values with at most the number the cut went through different and the ones after it blank; an SP3 position, an antenna offset or a frequency channel is never delivered incomplete.',
      ['inputs', 'crash_points'], 'five files, cut after any number of characters', T,
      ['src/sp3c.cpp', 'src/navrnx.cpp', 'src/obsrnx.cpp', 'src/antex.cpp', 'src/bern_utils.cpp'],
      [('SP3', 'src/sp3c.cpp Sp3c::get_next_epoch, get_next_position'), ('navigation', 'src/navrnx.cpp NavDataFrame::set_from_rnx3'), ('observation', 'src/obsrnx.cpp ObservationRnx::read_next_epoch'), ('antennas', 'src/antex.cpp collect_pco'), ('satellites', 'src/bern_utils.cpp BernSatellit::get_frequency_channel')],
      'Five files of two records each.')
    p('C28', 'Bernese satellite files give the channel of the record valid at the epoch',
      'Asking a Bernese satellite information file for a GLONASS satellite by SVN and epoch returns the frequency channel and PRN of the first microwave record of that SVN whose validity interval [start, end) contains the epoch, an open end meaning for ever; records of other types never match. When there is none it reports "not matched". The answer depends on the file and the question only, not on earlier lookups, pending error codes or the end of the file having been reached; a file that is not of this kind is refused at construction.',
      ['inputs', 'histories'], 'up to 3 records with arbitrary day, time, SVN, PRN, channel; any SVN and epoch asked, up to twice', T,
      ['src/bern_utils.cpp', 'src/bern_utils.hpp'], [('lookup', 'src/bern_utils.cpp BernSatellit::get_frequency_channel'), ('header', 'src/bern_utils.cpp BernSatellit::initialize')],
      'Up to 3 records; dates through a stand-in for the absent ggdatetime library.')
    p('C22', 'SP3 headers are read as stated and refused when inconsistent',
      'Opening an SP3-c or SP3-d file reports the version, start epoch, number of epochs and satellites, epoch interval (to the microsecond), coordinate system, orbit type, agency and time system that the header states, whatever the number of satellite, accuracy and comment lines and whatever error code is pending. A file whose interval is not positive, whose week, second of week, Julian day or day fraction disagree with the start epoch, whose date does not exist, or whose header lines are not in order is refused with an exception.',
      ['inputs'], 'arbitrary text and number fields over 6 start epochs; any week/second/day fields', T, ['src/sp3c.cpp', 'src/sp3c.hpp'],
      [('header', 'src/sp3c.cpp Sp3c::read_header'), ('report', 'src/sp3c.hpp print_members, interval, num_sats')], 'Dates through a stand-in for the absent ggdatetime library.')
    p('C23', 'SP3 epochs are delivered complete, in order and in the documented units',
      'Reading an SP3 file epoch by epoch delivers each epoch once and in file order with its exact time (to the microsecond) and exactly its position records in order: system, PRN, coordinates in metres and clock as written. Velocity, correlation and other lines in between change nothing; the status is 0 for an epoch followed by another, negative for the last one. After rewinding the same epochs are delivered again, stale errors do not matter, and the interpolator fills its window exactly when enough epochs exist.',
      ['inputs', 'histories'], 'up to 2 epochs of 3 records with arbitrary values, read twice', T, ['src/sp3c.cpp', 'src/sp3c.hpp'],
      [('epoch', 'src/sp3c.cpp Sp3c::get_next_epoch'), ('record', 'src/sp3c.cpp Sp3c::get_next_position'), ('rewind', 'src/sp3c.cpp Sp3c::rewind'), ('window', 'src/sp3c.hpp LagrangeSp3Interpolator')],
      'Up to 2 epochs of 3 records; values compared bit for bit with the decimal they are written as.')
    p('C24', 'SP3 records carry exactly the events their line flags',
      'A position record is flagged as absent position exactly when one of its coordinates is zero, as absent clock exactly when its clock is at least 999999, and as clock event, clock prediction, maneuver and orbit prediction exactly when columns 75, 76, 79 and 80 of its own line hold E, P, M and P; columns beyond the end of the line are blank. Setting, clearing and resetting an event affects that event only.',
      ['inputs', 'histories'], 'any flag characters, any coordinates and clock, any line length from 60 characters on', T, ['src/sp3c.cpp', 'src/sp3c.hpp'],
      [('flags', 'src/sp3c.cpp Sp3c::get_next_position'), ('set', 'src/sp3c.hpp Sp3Flag')], 'Up to 3 records.')
    p('C25', 'ANTEX files give the offsets of the antenna asked for',
      'Asking an ANTEX file for a receiver antenna returns the phase centre offsets of the record with the same model, radome and serial number if there is one, otherwise those of the record of the same model and radome that carries no serial number, unless matching the serial was required: then, and when the model is not in the file, nothing is delivered and the status says which of the two it was. The answer depends on the file and the question only, not on earlier lookups; another file can be opened on the same object. Only absolute ANTEX 1.4 files are accepted.',
      ['inputs', 'histories'], 'up to 3 antennas and 2 lookups, any serials', T, ['src/antex.cpp', 'src/antex.hpp'],
      [('lookup', 'src/antex.cpp Antex::find_closest_antenna_match'), ('status', 'src/antex.cpp Antex::get_antenna_pco'), ('header', 'src/antex.cpp Antex::read_header')], 'Up to 3 records.')
    p('C26', 'ANTEX files give the satellite antenna valid at the epoch',
      'Asking an ANTEX file for a satellite (system and PRN) and an epoch returns the first record of that satellite whose validity interval contains the epoch, both ends included and a missing end meaning for ever; a record without a start is never valid, one whose SVN is of another system than its PRN is ignored. The satellite reported carries the system, PRN, antenna type, and the SVN and COSPAR id of that very record (none if it has none). Otherwise the status is positive and nothing is delivered, and earlier lookups make no difference.',
      ['inputs', 'histories'], 'up to 3 records with arbitrary satellite, identifiers, day and time; any satellite and epoch asked, up to twice', T, ['src/antex.cpp', 'src/antex.hpp'],
      [('lookup', 'src/antex.cpp Antex::find_satellite_antenna'), ('interval', 'src/antex.cpp check_time_interval'), ('satellite', 'src/antex.cpp resolve_satellite_antenna_line')], 'Up to 3 records; dates through a stand-in for the absent ggdatetime library.')
    p('C27', 'Phase centre offsets are read as written',
      'The offset list of an antenna holds one entry per frequency of its record, in file order, each with the satellite system and frequency number of that frequency and the three offsets of its line as written, whatever comment lines, grids, rms blocks and following antennas the file holds; entries the list held before are discarded.',
      ['inputs'], 'up to 3 frequencies of any system and band, any offsets of F10.2', T, ['src/antex.cpp', 'src/antenna_pcv.cpp', 'src/antenna_pcv.hpp'],
      [('offsets', 'src/antex.cpp collect_pco'), ('display', 'src/antenna_pcv.cpp AntennaPco::dummy_print')], 'Up to 3 frequencies.')
    NF = ['src/navrnx.cpp', 'src/navrnx.hpp']
    p('C16', 'Navigation records are read exactly as written, incomplete ones are refused',
      'Reading a RINEX 3 navigation record gives the satellite system, the PRN, the time of clock and every broadcast value of the record, each from its own columns and converted to the documented unit (GLONASS states from km to m), zeros for the values the system does not have, and the time of ephemeris that its week and second of week (GLONASS: its message time) denote. Nothing of an earlier record in the same frame, of a neighbouring field or of a pending error number shows. Spare fields may be blank or missing, but a record with a missing or malformed value, PRN, date or satellite system gives a positive status and no exception.',
      ['inputs'], 'one record of any of 7 systems: any digits in any one field; any first line; any week, second or message time', T, NF,
      [('record', 'src/navrnx.cpp NavDataFrame::set_from_rnx3'), ('lines', 'src/navrnx.cpp __resolve_orbit_line__, __lines_per_satsys_v3__'), ('ephemeris time', 'src/navrnx.hpp glo_toe2date, gps_toe2date, gal_toe2date, bds_toe2date')],
      'One field varies at a time; dates through a stand-in for the absent ggdatetime library.')
    p('C17', 'Navigation files are walked record by record without loss',
      'Opening a RINEX 3 navigation file succeeds exactly for navigation files of a known system with a complete header, whatever comments it holds. Every sequence of reading, peeking, skipping and rewinding then sees the records in file order, each once, and reports the end of the file with -1 there and only there, with or without a final newline; searching returns the next record of the system and PRN asked (any PRN for -1), passing over the others, and reports where it started, so that rewinding there repeats the search.',
      ['histories', 'inputs'], 'up to 3 records, every sequence of up to 4 operations, any PRN', T, NF,
      [('walk', 'src/navrnx.cpp read_next_record, ignore_next_block, peak_satsys, rewind'), ('search', 'src/navrnx.cpp NavigationRnx::find_next'), ('header', 'src/navrnx.cpp NavigationRnx::read_header')],
      'Up to 3 records and 4 operations; dates through a stand-in for the absent ggdatetime library.')
    p('C21', 'The first healthy record valid at the epoch is selected',
      'Searching for an epoch returns, from the current position on, the first healthy record of the system and PRN asked (any PRN for -1) whose validity interval holds the epoch: from the time of clock until the fit interval (GPS: as broadcast, 4 hours if not known; Galileo and BeiDou: 4 hours) has passed, for GLONASS within 15 minutes of the time of ephemeris. It gives -1 when there is none or when a record of the satellite more than 4 hours ahead of the epoch comes first, and reports the position it started from. Health, accuracy, fit interval and issue of data of a record are those broadcast; for systems without a model these are refused with an exception.',
      ['inputs', 'histories'], 'up to 3 records with any day, time, PRN, health and fit interval; any millisecond of 35 days', T, NF + ['src/gpsnav.cpp', 'src/galnav.cpp', 'src/glonav.cpp'],
      [('search', 'src/navrnx.hpp NavigationRnx::find_next_valid'), ('interval', 'src/navrnx.hpp NavDataFrame::fit_interval, src/gpsnav.cpp gps_fit_interval'), ('health', 'src/navrnx.hpp NavDataFrame::sv_health')],
      'Up to 3 records of one month; dates through a stand-in for the absent ggdatetime library.')
    p('C18', 'Keplerian satellite positions follow the interface documents',
      'For a GPS, Galileo or BeiDou record and an epoch within half a week of its time of ephemeris (across day and week boundaries), the Earth-fixed position is that of the user algorithm of the interface documents applied to the broadcast elements, with the gravitational constant and Earth rotation rate of the system: Kepler equation, harmonic corrections of latitude, radius and inclination, inclination and node rates and, for geostationary BeiDou satellites, the additional rotation. In debug builds an epoch further away gives a negative status.',
      ['inputs'], 'any elements within ranges, for circular orbits and 4 eccentric ones, at 6 offsets from 3 times of ephemeris', 'no test computes a position, and a wrong term shows only for some elements and epochs', ['src/navrnx.hpp', 'src/satsys.hpp'],
      [('algorithm', 'src/navrnx.hpp NavDataFrame::kepler2state'), ('epoch', 'src/navrnx.hpp ref2toe, stateNclock'), ('constants', 'src/satsys.hpp satellite_system_traits')],
      'Mean motion and eccentricity arbitrary only for circular orbits; real arithmetic; dates through a stand-in for the absent ggdatetime library.')
    p('C19', 'Satellite clock corrections follow the interface documents',
      'For a GPS, Galileo or BeiDou record the clock correction at an epoch is af0 + af1 dt + af2 dt^2 + F e sqrt(A) sin E, with dt counted from the time of clock and the eccentric anomaly E taken at the epoch counted from the time of ephemeris, however far the two reference times are apart.',
      ['inputs'], 'any clock coefficients in a range, 4 orbits, 6 epochs, 4 times of clock', 'no test computes a clock correction', ['src/navrnx.hpp', 'src/satsys.hpp'],
      [('clock', 'src/navrnx.hpp NavDataFrame::sv_clock'), ('epoch', 'src/navrnx.hpp ref2toc, gps_stateNclock, gal_stateNclock, bds_stateNclock')], 'Real arithmetic; dates through a stand-in for the absent ggdatetime library.')
    p('C20', 'GLONASS states are integrated to exactly the epoch asked',
      'For a GLONASS record and an epoch within 15 minutes of its message time (across midnight and the end of the week), position and velocity are the fourth order Runge-Kutta solution of the published equations of motion (central term, J2, Earth rotation, luni-solar acceleration) from the broadcast state in steps of 60 s with a shorter last step ending at exactly the epoch, the state itself when the epoch is the message time; the clock is tau + gamma dt. An epoch further away gives a negative status.',
      ['inputs'], 'any state, acceleration and clock within ranges at 15 offsets from 3 message times', 'no test integrates an orbit', ['src/glonav.cpp', 'src/navrnx.hpp'],
      [('integration', 'src/glonav.cpp NavDataFrame::glo_ecef'), ('motion', 'src/glonav.cpp glo_state_deriv'), ('clock', 'src/glonav.cpp NavDataFrame::glo_clock')], 'Real arithmetic; dates through a stand-in for the absent ggdatetime library.')
    OF = ['src/obsrnx.cpp', 'src/obsrnx.hpp']
    p('C12', 'Observation file headers are reported as stated',
      'Opening a RINEX 3 observation file reports, whatever the order of its header lines and whatever stands next to a field, the satellite system, the marker name and number, receiver number and type in full (inner blanks kept, trailing ones removed), the antenna model with its radome (none stated: NONE) and whether it has a serial number, the approximate coordinates and antenna eccentricities exactly as written, whether receiver clock offsets are applied, and the time of first observation. A pending error number makes no difference; a file of an unknown satellite system is refused with an exception.',
      ['inputs'], 'any characters in any one text field, any digits in any one number', T, OF,
      [('header', 'src/obsrnx.cpp ObservationRnx::read_header'), ('report', 'src/obsrnx.hpp print_members, x_approx, time_of_first_obs')], 'One arbitrary field at a time; dates through a stand-in for the absent ggdatetime library.')
    p('C13', 'Observables are read from the column the header assigns to their type',
      'For every request the read map of an observation file holds, in the order of the request, each observable as the columns of its terms (the position of the term\'s code in the table of its own satellite system, continuation lines of 13 codes included) with the coefficients of the terms. An observable with a code or system the file does not have either makes the whole map empty or, when missing ones may be skipped, is removed from both map and request without disturbing the others; observables mixing systems make the map empty. Tables that are incomplete, repeated, continued by another system, or hold an unknown code or system are refused.',
      ['inputs'], 'tables of up to 27 types of 2 systems with one arbitrary code; every pair of terms with arbitrary coefficients', T, OF,
      [('table', 'src/obsrnx.cpp ObservationRnx::__resolve_obstypes_304__'), ('map', 'src/obsrnx.cpp ObservationRnx::set_read_map, obs_getter')], 'Up to 27 types.')
    p('C14', 'Epochs deliver every requested satellite with the values of its own columns',
      'Reading an observation file epoch by epoch delivers each epoch once, in file order and again after rewinding, with its day, second of day and exactly the satellites of the requested systems in file order, each with its system, PRN and, for each requested observable, the number in the 14 columns of its type, unaffected by the loss-of-lock and signal-strength digits, other fields, pending error numbers and missing end of the last line. Special event records are passed over, and an epoch with a satellite whose number is not one of 1 to 99 is refused. After the last epoch the status is -1, again and again.',
      ['inputs', 'histories'], 'up to 4 satellites or 3 epochs with arbitrary values, PRNs, times and indicators', T, OF,
      [('epoch', 'src/obsrnx.cpp ObservationRnx::read_next_epoch, __resolve_epoch_304__'), ('satellites', 'src/obsrnx.cpp ObservationRnx::collect_epoch'), ('value', 'src/obsrnx.cpp ObservationRnx::sat_epoch_collect, RawRnxObs__::resolve')], 'Up to 4 satellites and 3 epochs; dates through a stand-in for the absent ggdatetime library.')
    p('C15', 'Combinations are linear in their columns and missing when any of them is',
      'The value of an observable is the sum over its terms of coefficient times the number in the term\'s column. When any of these columns is blank, or the line ends before it, the observable has the missing-value mark, never a partial sum nor a value of an earlier satellite or epoch; the other observables of the satellite are unaffected. A value whose indicator characters were cut off with the end of the line is still read.',
      ['inputs'], 'arbitrary coefficients and values; every set of missing columns out of 6, lines cut at several places', T, OF,
      [('sum', 'src/obsrnx.cpp ObservationRnx::sat_epoch_collect'), ('mark', 'src/obsrnx.hpp RNXOBS_MISSING_VAL'), ('value', 'src/obsrnx.cpp RawRnxObs__::resolve')], 'Up to 3 terms and 14 columns.')
    RF = ['src/sp3c.hpp', 'src/navrnx.hpp', 'src/obsrnx.hpp', 'src/antex.hpp', 'src/bern_utils.hpp', 'src/sp3c.cpp', 'src/navrnx.cpp', 'src/obsrnx.cpp', 'src/antex.cpp', 'src/bern_utils.cpp']
    p('C31', 'A moved reader carries on where it was',
      'A reader of an SP3, navigation RINEX, observation RINEX, ANTEX or SATELLIT file that was moved, by construction or by assignment to a reader of any other file, at any point between its operations and any number of times, reports the same header and delivers the same records, the same answers and, after rewinding, the same first record as if it had never been moved. The reader moved from and the file the target had open before play no part any more: both can be destroyed at any time, and nothing is freed twice, lost or read from the wrong file.',
      ['inputs', 'histories'], 'five kinds of reader; every sequence of 4 operations, moved once or twice in any way before any of them', 'no test opens a file, and none moves a reader', RF,
      [('SP3', 'src/sp3c.hpp Sp3c(Sp3c &&), operator='), ('navigation', 'src/navrnx.hpp NavigationRnx(NavigationRnx &&), operator='), ('observation', 'src/obsrnx.hpp ObservationRnx(ObservationRnx &&), operator=, __buf'), ('antennas', 'src/antex.hpp Antex(Antex &&), operator='), ('satellites', 'src/bern_utils.hpp BernSatellit(BernSatellit &&), operator=')],
      'Up to 4 operations and 2 moves.')
    p('C32', 'Readers do not influence one another',
      'What a reader reports and delivers depends on its own file and the operations on it only: with any number of readers open at the same time, on files of the same kind or of different kinds, each gives exactly what it gives alone, whatever the order in which they are opened, read, rewound, asked and closed, whatever was read before, and whatever error code is pending.',
      ['inputs', 'histories', 'schedules'], 'ten pairs of kinds of reader; every interleaving of opening, three operations and closing each', 'no test opens a file; the orders cannot be enumerated by hand', RF,
      [('SP3', 'src/sp3c.cpp Sp3c::read_header, get_next_epoch'), ('navigation', 'src/navrnx.cpp NavigationRnx::read_next_record, NavDataFrame::set_from_rnx3'), ('observation', 'src/obsrnx.cpp ObservationRnx::read_next_epoch, collect_epoch'), ('antennas', 'src/antex.cpp Antex::get_antenna_pco'), ('satellites', 'src/bern_utils.cpp BernSatellit::get_frequency_channel')],
      'Two readers, three operations each.')
    p('C33', 'Two-digit years denote the years 1980 to 2079',
      'A two-digit year y of 0 to 99 is taken for the one year from 1980 to 2079 that ends in these two digits.',
      ['inputs'], 'every y of 0..99', 'no test calls it', ['src/rinex.hpp'], [('year', 'src/rinex.hpp four2two_digit_year')], 'Complete for 0..99.')
