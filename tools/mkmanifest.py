#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GVN = 'static analysis: abstract interpretation of the source into a gated value graph (global value numbering), compared with a reference definition'
TYPE = GVN + '; typestate and effect rules'
CLAIMED = {}


def c(pid, technique, note):
    CLAIMED[pid] = (technique, note)


MODEL = ' Assumes the models of numpy/scipy/pandas/stdlib in sa/lib*.py and real arithmetic; a construct outside them is reported as UNDECIDED, not as a violation.'
STR = GVN + '; records are decoded in a structured-string domain (literal text and symbolic digit fields)'
c('C01', TYPE, 'Every reader and record layout, any number of records: the zone of every time value is decided; the tide reads calendar fields only of times converted to UTC.' + MODEL)
c('C02', GVN + '; dispatch decided on records of each layout', 'Every vessel the database lists now, with every reader it is listed for; five unknown names and the vessels without a BGM parser or RGS files.' + MODEL)
c('C03', GVN + '; relational: a call with the override against the reference with it', 'Scale, talker and parser given, for every vessel of the database and unknown ones, any number of files; another talker with the built-in parsers (files with sentences of both talkers), except the two whose date format is tied to the talker (Ride, Sikuliaq).' + MODEL)
c('C04', GVN + '; relational: the reader on the list against the reader on each file', 'Every table reader and layout, built-in and user-supplied parsers: a list of any length (row counts and contents free), four files with concrete record sequences (one a copy of another), fourteen files, a path against a list of one; the row index is part of the result.' + MODEL)
c('C05', GVN + '; refutation in finite models of the graph', 'The frame of every talker-listed vessel and an unknown one with a user-supplied parser, one file and any number of files, free decimation, tracks without jumps; with the built-in parsers, missing talkers in single files and lists.' + MODEL)
c('C06', STR, 'Every value of the digits of a GGA sentence in each ship layout, all hemispheres, dropouts, 0 to 8 decimals, any number of lines.' + MODEL)
c('C07', STR, 'Every clock value with 0 to 6 decimals in the four layouts that read the sentence clock, any number of lines; one known finding (Thompson drops the fraction, as a test pins).' + MODEL)
c('C08', STR, 'Every date in each ship layout, any number of lines; for Revelle a set of concrete line sequences with symbolic digits.' + MODEL)
c('C09', STR, 'Every value of the digits of the records of every laptop layout, both signs, any number of records; Langseth with and without prefix, with lines of 3, 25 and 27 fields and malformed prefixes.' + MODEL)
c('C10', STR, 'Every value of the digits of serial records (clock synchronised, logging time before, no time; Thompson; Sikuliaq), both signs, scaled and as recorded, any number of records.' + MODEL)
c('C11', STR, 'Every value of the digits of BGM serial and RGS records of each vessel, database and given scale, any number of records.' + MODEL)
c('C12', STR, 'Three feeds of a yaml description with and without the $, lines with and without a prefix, records of other feeds in between, any number of lines; a missing feed is rejected.' + MODEL)
c('C13', GVN + '; refutation in finite models of the graph', 'The frame of every track of any length in one file or any number, longitudes within a half turn.' + MODEL)
c('C14', 'static analysis: effect and ownership analysis by abstract interpretation (objects of the caller and of the module are tagged, final contents compared with initial), and an effect query over the call graph', 'Every public function in the configurations of the other checks, arguments as arrays and lists; module state and defaults are compared, and a call after another one is compared with the call alone; file and process effects of every function reachable from every entry point.' + MODEL)
c('C15', 'static analysis: typestate analysis of file handles over all paths of each function, normal and exceptional, with summaries for helpers', 'Every function of the package and every opening in it; any expression with a call, an index or an operator may raise; a handle put in a container is undecided.')
c('C16', GVN, 'Every input: the value graph of longman_tide_prediction (total and components) equals the reference formula.' + MODEL)
c('C17', GVN, 'Every track of at least three samples, height and sampling rate: the value graph equals the Harlan reference.' + MODEL)
c('C18', GVN, 'Every latitude and height, scalar and array, each option.' + MODEL)
c('C19', GVN, 'Every series, with and without timestamps, any number of gaps; regression and filters are opaque library functions compared by their arguments.' + MODEL)
c('C20', GVN, 'Every series and filter constants.' + MODEL)
c('C21', GVN, 'Every track of at least eleven points and every velocity.' + MODEL)
c('C22', GVN, 'Every profile and grid size; series lengths 2, 3, 4 (default) and 7; the FFT is an opaque linear operator with its algebra.' + MODEL)
c('C23', GVN, 'Every grid and size; one known finding (Nyquist wavenumber).' + MODEL)
c('C24', GVN, 'The four functions, with ages and with distances, default and free parameters.' + MODEL)
c('C25', GVN, 'Every residual, line and grid, with and without back, default and free parameters; one known finding (reversed profiles).' + MODEL)
c('C26', GVN, 'Every series and every filter length (plus five fixed lengths).' + MODEL)
c('C27', GVN, 'Every 16-bit word and every frame of three column layouts; other argument kinds are rejected.' + MODEL)
c('C28', STR, 'Files of one line of every kind (sections, comments, blanks, flags, numbers, text, quoted text, with and without comments; digits symbolic) and of all kinds in both orders, judged line by line; any file by comparison with the reference conversion.' + MODEL)
c('C29', GVN + '; the state of the picker after every click', 'Every sequence of up to four events of eight kinds (left, right and other buttons, inside and outside, moves) from a new picker, up to six left and right clicks, one click on lists of any length, a second picker, and the dot in the map after up to three events beginning with a move; positions and data symbolic. State other than the three lists leaves the arbitrary-length case undecided.' + MODEL)
c('C30', GVN + '; dependence of the result on every documented parameter', 'Every option of the numerical functions as a free symbol that must occur in the result and agree with the reference; fixed flags switched; reader options per vessel and layout; one known finding (the sampling of read_nav is ignored).' + MODEL)
c('C31', 'static analysis: call-binding, name and arity query over the syntax trees, and abstract interpretation of the example workflows and of the library in every configuration of the other checks (misused calls, unpackings, columns, database entries, sample counts)', 'Every call site of a package function in the library and the example scripts; each example script from beginning to end with the downloads replaced by unknown files; every database entry looked up for a vessel.' + MODEL)

NA = {
    'C32': 'Accuracy of floating-point results (round-off, cancellation, edge effects) is a quantitative runtime property with no structural necessary condition in this code; the structure of the formulas is decided under C16-C25.',
    'C33': 'Which malformed lines pandas, int() and float() tolerate is decided by library run-time behaviour on the data, and the code has no error handling whose shape could be checked.',
    'C34': 'Whether a logging date and a GPS clock straddle midnight is a runtime quantity; the code has no construct that addresses it.',
    'C35': 'Running time and memory are quantities of executions; no sound static cost bound for numpy/pandas code is in reach.',
}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa spec', 'checks': [], 'not_applicable': [],
         'notes': 'No hooks in /repo. Everything runs on the system python3 (standard library only); see DESIGN.md.'}
    for i in ids:
        if i in CLAIMED:
            t, n = CLAIMED[i]
            m['checks'].append({'property': i, 'quick_cmd': 'python3 -m sa %s' % i, 'thorough_cmd': 'python3 -m sa %s --thorough' % i,
                                'technique': t, 'level': 'other', 'level_note': n})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not built yet')})
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
