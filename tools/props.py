"""Texts of the properties; `python3 tools/props.py` writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(pid, title, statement, over, text, why, files, mech, note, **kw):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, **kw))


T = 'the existing tests run one fixed sequence of calls and print or assert a handful of values'
p('C01', 'Satellite-system identifiers translate both ways',
  'Every RINEX satellite-system letter (G, R, S, E, C, J, I, M) denotes exactly one system and every system is written back as that letter; any other character is rejected with an exception and never yields a system. Each system reports its own identifier and physical constants (gravitational parameter, earth rotation rate, relativistic clock constant) as published.',
  ['inputs'], 'all 256 characters and all 8 systems', 'tests try a few letters; the guarantee is about every character',
  ['src/satsys.cpp', 'src/satsys.hpp'], [('letter to system', 'src/satsys.cpp char_to_satsys'), ('system to letter', 'src/satsys.cpp satsys_to_char'), ('constants', 'src/satsys.hpp satellite_system_traits')],
  'Exhaustive over the whole input space; no bound.')
p('C02', 'Observation codes parse and print faithfully',
  'A well-formed observation code (type letter C, L, D, S, I or X; a one-digit band; an optional attribute) is parsed into exactly that type, band and attribute, with a missing or blank attribute meaning any; everything else is rejected with an exception. Printing a code gives its three characters, so that parse and print are inverse, and two codes are equal exactly when type, band and attribute agree.',
  ['inputs'], 'every string up to 5 (thorough 11) characters; every combination of type, int band and attribute character', T,
  ['src/gnssobs.cpp', 'src/gnssobs.hpp'], [('code from text', 'src/gnssobs.cpp ObservationCode(const char*)'), ('code to text', 'src/gnssobs.cpp ObservationCode::to_string'), ('type letters', 'src/gnssobs.cpp char_to_observabletype')],
  'All strings within the length bound; characters beyond the third are not significant.')
p('C03', 'Observables keep their parts and compare as linear combinations',
  'An observable built from (system, code, coefficient) parts keeps every part in order, is mixed exactly when its parts span more than one system, and prints its parts in order. Two observables are equal exactly when they consist of the same parts with the same multiplicities in any order; equality is symmetric and inequality is its negation, and single raw observables and parts compare field by field.',
  ['inputs', 'histories'], 'observables of 1 to 3 parts with any system, type, band, attribute and coefficient, built by any of the constructors', T,
  ['src/gnssobsrv.cpp', 'src/gnssobsrv.hpp'], [('equality', 'src/gnssobsrv.cpp GnssObservable::operator=='), ('mixed systems', 'src/gnssobsrv.hpp GnssObservable::is_of_mixed_satsys'), ('text', 'src/gnssobsrv.cpp GnssObservable::to_string')],
  'At most 3 parts on each side.')
p('C04', 'Nominal frequencies are the weighted sum of the published bands',
  'The nominal frequency of an observable is the sum over its parts of coefficient times the published carrier frequency of that system and band (GLONASS, whose carrier depends on the channel, and mixed parts contribute zero); a part whose band does not exist for its system gives an exception the caller can catch, never a value and never program termination. The published tables of bands, frequencies and tracking attributes per system are complete and contain nothing else.',
  ['inputs'], 'every system, every int band, coefficients within 1e6, up to 3 parts', T,
  ['src/gnssobsrv.cpp', 'src/gnssobsrv.hpp', 'src/satsys.hpp', 'src/satsys.cpp'], [('sum', 'src/gnssobsrv.hpp GnssObservable::frequency'), ('part', 'src/gnssobsrv.cpp __ObsPart::frequency'), ('tables', 'src/satsys.cpp frequency_map, valid_atributes')],
  'Sums decided over the reals (rounding abstracted); tables exactly.')
p('C05', 'Receiver antenna names are normalised on construction',
  'Constructing a receiver antenna from any text keeps its first 20 characters (model and radome), blank-padded, with the radome set to NONE exactly when the text gives none, and with no serial number; nothing outside the object is touched and nothing of the previous memory content shows. Two antennas compare equal in model and radome exactly when their normalised names are the same.',
  ['inputs'], 'every name of length 0 to 45, through both constructors, over arbitrary previous memory', T,
  ['src/antenna.cpp', 'src/antenna.hpp'], [('construction', 'src/antenna.cpp ReceiverAntenna(const char*), ReceiverAntenna(const std::string&)'), ('comparison', 'src/antenna.hpp compare_model')],
  'Names up to 45 characters; memory safety is part of the verdict.')
p('C06', 'Antenna serial numbers are stored and compared blank-insensitively',
  'Setting a serial number replaces any earlier one, keeps its first 20 characters blank-padded and leaves model and radome alone; an antenna has a serial number exactly when the last one set is not blank. A stored serial matches a text exactly when they agree up to trailing blanks over 20 characters, and two antennas are the same exactly when model, radome and (existing) serial numbers agree.',
  ['inputs', 'histories'], 'serial texts up to 25 characters, set once or twice, compared with every text up to 20 characters', T,
  ['src/antenna.cpp', 'src/antenna.hpp'], [('set', 'src/antenna.cpp set_serial_nr'), ('match', 'src/antenna.cpp compare_serial'), ('identity', 'src/antenna.cpp is_same')],
  'Serials up to 25 characters.')
p('C07', 'Satellite antennas keep and compare their 20-character type',
  'A satellite antenna keeps exactly the first 20 characters of the name it was given last, always terminated, and it is the same as another name exactly when these first 20 characters agree; a default antenna has no name. Nothing but the name given matters, whatever the memory held before.',
  ['inputs'], 'names of length 0 to 25 against names of length 0 to 25', T, ['src/antenna.cpp', 'src/antenna.hpp'],
  [('construction', 'src/antenna.cpp SatelliteAntenna(const char*)'), ('identity', 'src/antenna.cpp SatelliteAntenna::is_same')], 'Names up to 25 characters.')
p('C08', 'Satellites report exactly the identity they were given',
  'A satellite reports the system, PRN, SVN and COSPAR identifier it was given; a fresh satellite has a defined, blank identity. Its printed form shows exactly these, with the documented widths.',
  ['inputs'], 'every system, PRN 0..999, SVN 0..9999, COSPAR of 0..9 characters, arbitrary previous memory', T, ['src/satellite.cpp', 'src/satellite.hpp'],
  [('text', 'src/satellite.cpp Satellite::to_string'), ('accessors', 'src/satellite.hpp')], 'PRN and SVN within printable widths.')
p('C09', 'Text fields are trimmed without loss',
  'Trimming a text field on the right removes exactly its trailing blanks (or, in the first-blank mode, everything from the first blank on), trimming on the left exactly its leading blanks; the reported position is the cut, the optional length limit is honoured, and a field is empty exactly when it has only blanks.',
  ['inputs'], 'every string up to 8 (thorough 13) characters with every length limit or none', T, ['src/nvarstr.cpp', 'src/nvarstr.hpp'],
  [('right trim', 'src/nvarstr.cpp StrSearchPolicyEnd::rtrim, StrSearchPolicyStart::rtrim'), ('left trim', 'src/nvarstr.cpp ltrim'), ('blank test', 'src/nvarstr.cpp string_is_empty')], 'Strings up to the length bound.')
p('C10', 'Fixed-width numbers are read from their own columns',
  'Reading N numbers of M characters each succeeds exactly when every column holds a number, and each value comes from its own column only: a blank or missing column is reported as failure and never filled from a neighbour or from memory beyond the line, whatever earlier errors left behind. Rewriting Fortran exponents changes D and d to E and nothing else.',
  ['inputs', 'histories'], 'every text over the characters of numbers (2x2, 1x4, thorough 2x3 columns) and 2x19 and 3x14 columns in RINEX notations with arbitrary digits and truncation, with or without a pending error code', T,
  ['src/nvarstr.hpp', 'src/nvarstr.cpp'], [('number columns', 'src/nvarstr.hpp __char2double__'), ('exponents', 'src/nvarstr.cpp __for2cpp__')], 'Texts up to the stated widths; decimal scales up to 1e22.')
p('C11', 'The position filter performs the Kalman update it documents',
  'Each update of the position filter yields the state and the standard deviations that the extended Kalman equations give for the predicted state, the satellite geometry, the clock-corrected pseudoranges and the measurement weights; the initial covariance is used exactly once, and successive updates compose for any number of satellites per epoch.',
  ['inputs', 'histories'], 'one satellite with every quantity symbolic; up to 5 satellites and 3 epochs with fixed geometry and symbolic observations', 'no test calls the filter; the guarantee is about all states and observations',
  ['src/gauss_newton.hpp'], [('update', 'src/gauss_newton.hpp Kalman::update'), ('measurement model', 'src/gauss_newton.hpp compute_pseudorange_vector, evaluate_jacobian, measurement_vector')],
  'Over the reals; scale factor 1; compared with an independent reference implementation through the public report of the state.')
NA = []


def main():
    import sys
    sys.path.insert(0, V + '/tools')
    try:
        import props_readers   # noqa: further properties
        props_readers.add(p, NA)
    except ImportError:
        pass
    with open(V + '/properties.jsonl', 'w') as f:
        for d in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(dict(id=d['pid'], title=d['title'], statement=d['statement'], quantifier=dict(over=d['over'], text=d['text']), why_tests_cant=d['why'],
                                    anchors=dict(files=d['files'], mechanism=[dict(name=n, where=w) for n, w in d['mech']]))) + '\n')
        for d in NA:
            f.write(json.dumps(d['line']) + '\n')
    m = dict(version=1, setup_cmd='bash engine/build.sh',
             checks=[dict(property=d['pid'], quick_cmd='python3 tools/check.py ' + d['pid'], thorough_cmd='python3 tools/check.py %s --tier thorough' % d['pid'], technique='symbolic execution of LLVM IR with Z3', level='model_checking',
                          level_note=d['note'] + ' Trusts the executor, its library models, clang and Z3; counterexamples are confirmed natively before they are reported.') for d in P],
             not_applicable=[dict(property=d['line']['id'], reason=d['reason']) for d in NA],
             notes='Every check recompiles the current sources of /repo to LLVM bitcode and executes them symbolically; see DESIGN.md.')
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
