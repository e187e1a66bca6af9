#!/usr/bin/env python3
# Writes MANIFEST.json.
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
notes = {
 'P01': 'Seeded search over write-side faults (mkdir, create, write, close, full disk; single, repeated, persistent; partial writes) in command and library runs; the oracle is the output of a fault-free run of the same tree, and the names declared by the schemas.',
 'P02': 'Seeded search over read-side faults, cut documents and fault-free runs of generated schema sets; oracle: fault-free output, declared names, equal types of members that must agree.',
 'P03': 'Seeded search over faults on any file operation, handle limits and full disks, in command runs and library sessions; oracle: ending, error, message and outputs against a fault-free run.',
 'P04': 'Seeded search over read chunkings, latencies, encodings and paddings of the same bytes; oracle: output of the plain delivery.',
 'P05': 'Seeded search over hash order, directory order, clock, time stamps, pid, host, environment and random state; oracle: byte equality of outputs and file sets.',
 'P06': 'Seeded search over schedules of 2-4 threads preempted at statement boundaries and file operations, with happens-before race detection on package variables; oracle: result and output alone.',
 'P07': 'Seeded search over histories of library calls with transient faults; oracle: the same call in a fresh process.',
 'P08': 'Seeded search over kill and power-loss points (before, inside, after file operations; between statements) and prior disk states; oracle: outputs and files of an uninterrupted run.',
 'P09': 'Seeded search over layouts, references, working directories, faults and crashes; every file-system change of the history and the final disk are compared with the output location.',
 'P10': 'Seeded search over directory trees, path spellings and faults of listing and examining; oracle: the mirrored tree of outputs.',
 'P11': 'Seeded search over sessions with faults and handle limits; oracle: open handles at each return, and a bound from the nesting of dependencies.',
 'P12': 'Seeded search over reference graphs (rings, diamonds, random) with faults; oracle: a polynomial budget of opens, operations and statements, and of generations of an output.',
 'P13': 'Seeded search over damage to stored bytes (blocks, bytes, tags, whole elements); oracle: no panic, no exhausted budget.',
 'P14': 'Seeded search over failures over older outputs; oracle: byte equality with the old or the complete new output.',
 'P15': 'Seeded search over runs with, without and on behalf of other schemas; oracle: byte equality of the output.',
}
na = {
 'P16': 'A table of constants: the mapping of one built-in type to one name involves no scheduling, time, I/O, fault or multi-party behaviour; simulation has nothing to vary.',
 'P17': 'Pure function of the schema text (and needs a Go compiler as oracle); no schedule, fault or environment is involved that P02-P05 do not cover.',
 'P18': 'Pure function of the schema text (and needs compilers of four languages as oracle); no schedule, fault or environment is involved.',
 'P19': 'Pure function of the names in one schema; deterministic simulation with faults does not add to plain input generation.',
 'P20': 'Pure function of one declaration; deterministic simulation with faults does not add to plain input generation.',
 'P21': 'Pure function of the schema text; deterministic simulation with faults does not add to plain input generation.',
 'P22': 'Pure function of the texts of a schema set; what faults and environment can do to resolution is claimed under P02, P05 and P15.',
}
m = {
 'version': 1,
 'setup_cmd': './check.sh -setup',
 'checks': [{
   'property': p, 'quick_cmd': './check.sh %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh %s' % p,
   'evidence_file': 'evidence/%s.json' % p,
   'technique': 'deterministic simulation with fault injection (seeded search)', 'level': 'exploration',
   'level_note': n + ' Real: packages xgen and cmd/xgen of the working tree, instrumented on a copy, and the standard library parts they use; simulated: disk, processes, clock, threads, environment, randomness, map order. Nothing is proved beyond the scenarios run.',
 } for p, n in notes.items()],
 'not_applicable': [{'property': p, 'reason': r} for p, r in na.items()],
 'notes': 'No hooks in /repo: every check copies the non-test Go files of the working tree to a scratch directory, rewrites imports of os, time, sync and so on to simulator packages, instruments statements there, and builds the simulator with that copy. ./check.sh -replay FILE runs a replay file again.',
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
