#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the table below."""
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ISA = ('TLA+ ISA model executed by TLC against recorded whole runs (TraceIsa)')
T = {
    'C01': (ISA, 'TLC executes the Y86 specification on every generated program and compares the final state of the real reference simulator; exhaustive for all 2-letter programs of three alphabets (3 letters in thorough), random beyond'),
    'C02': (ISA, 'all pairs of edge operands (sampled in quick) x 4 operations x 7 conditions on all four engines, compared with the TLA+ ISA'),
    'C03': (ISA, 'every first byte, every access at the edges of memory, mutated and arbitrary images; the TLA+ ISA decides whether an error is due'),
    'C04': ('TLA+ cycle-level trace validation (TraceHw) and ISA model (TraceIsa)', 'every cycle of recorded runs of both architectures must be a step of Seq.tla; Seq.tla = Y86.tla is model-checked by MCPipe'),
    'C05': ('TLC model checking of Pipe.tla against Y86.tla (MCPipe) plus validation of real runs (TraceIsa)', 'design: all programs of k letters; code: the same programs and random hazard-dense ones, final state compared with the ISA model'),
    'C06': ('TLC model checking (MCPipe, stop alphabet) plus validation of real runs (TraceIsa)', 'every kind of stop with state-changing neighbours, all three architectures, final state and status from the model'),
    'C07': ('TLC model checking of the timing formula (MCPipe) plus validation of real cycle counts (TraceIsa)', 'ghost counters in the ISA model predict the cycle count of every recorded run'),
    'C08': ('TLC model checking (MCPipe, control alphabet) plus validation of real runs (TraceIsa)', 'arbitrary bytes and out-of-memory targets on mispredicted paths and behind returns; the ISA model never sees them'),
    'C09': ('TLA+ cycle-level trace validation (TraceHw)', 'runs driven by step and by half cycles must be the same behaviour of Seq/Pipe cycle for cycle, from the specified start state'),
    'C10': ('self-composition of recorded runs (TraceDet) and trace validation (TraceHw)', 'every run, incl. self-modifying programs, twice in one process and in a second one; the displayed order and cost too'),
    'C11': ('TLC model checking of the circuit model (MCProp) plus validation of real evaluation orders (TraceProp)', 'random circuits valid and invalid through the builder, generated hardware descriptions through the macro, the built-in architectures'),
    'C12': ('TLA+ semantics of the hardware language (Hcl) validating every signal of every cycle of generated descriptions (TraceHcl)', 'generated descriptions are compiled into a copy of the tree and run; all operator pairs and case orders, random deep expressions'),
    'C13': ('TLA+ clock-edge semantics (Hcl) validating register values of generated descriptions (TraceHcl)', 'register banks with random stall/bubble/data signals, every signal of every cycle decided by TLC'),
    'C14': ('TLA+ specification of the assembler (Asm) executed by TLC on every source (TraceAsm); MCAsm checks the specification against the ISA decoder', 'every instruction with every register, condition and operation; random sources with all layout directives; memory, line addresses and symbols decided by TLC'),
    'C15': ('TLA+ specification of literals (Asm!Literal) executed by TLC on every literal and place (TraceLit, TraceAsm)', 'edge values in every notation and place, random literals'),
    'C16': ('TLA+ grammar and layout rules (Asm) decide acceptance; real runs validated by TLC (TraceAsm)', 'mutated sources, character soup, limits of memory; crash and hang of the assembler are violations'),
    'C17': ('TLA+ listing reader (Asm!ReadLine) validates every listing; source -> yas -> yis runs validated end to end (TraceAsm, TraceCli)', 'MCAsm proves the round trip for the specification on all small sources; the real listings are read by the specification'),
    'C18': ('TLA+ specification of the tools (TraceCli: Asm + Y86/Seq/Pipe) validates their whole output and exit status', 'real yas, yis, ysim processes on sources, hand-made listings, cycle limits around the real length, unusable input'),
    'C19': ('TLC model checking of the session machine (MCDap) plus trace validation of real sessions over TCP (TraceDap)', 'generated clients, valid and invalid requests in every state; every answer and event of the recorded session must be one of the session machine, nothing may be missing'),
    'C20': ('TLC model checking of the session machine (MCDap: StopRight, Ready) plus trace validation of real sessions (TraceDap)', 'every stop reported by the real debugger must be at the cycle the specified machine stops at, for generated programs and breakpoint sets'),
    'C21': ('TLC model checking (MCDap: Same) plus trace validation of real sessions (TraceDap)', 'every scope, register, stage and signal value shown at every stop must be the state of Seq/Pipe after the same number of cycles'),
    'C22': ('self-composition of recorded sessions (TraceDap twins) over interleaved and concurrent clients of one server', 'each session beside others must be the session it is alone; sessions dropped, endless and concurrent ones included'),
    'C23': ('TLA+ cycle-level trace validation of the printed report (TraceCli: Asm + Seq/Pipe)', 'every cycle printed by ysim must be a step of the model'),
    'C24': ('TLA+ model of the dependency graph (Prop) validates the information, graph, list and cost shown (TraceInfo)', 'built-in architectures and generated descriptions built into ysim; the graph is the one of the circuit the check itself derives from the description'),
    'C25': ('TLA+ trace validation of runs of the tools with verbosity options (TraceCli, Signals)', 'the same specification decides listing, results, status and logged stage signals with every combination of -v and -q'),
}
LEVEL = {}
TODO = 'check under construction'


def main():
    props = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
    m = {
        'version': 1,
        'setup_cmd': 'python3 bin/setup.py',
        'checks': [{'property': p, 'quick_cmd': f'python3 bin/check.py {p}',
                    'thorough_cmd': f'VERIF_TIER=thorough python3 bin/check.py {p}',
                    'technique': T[p][0], 'level': LEVEL.get(p, 'model_checking'), 'level_note': T[p][1]}
                   for p in props if p in T],
        'not_applicable': [{'property': p, 'reason': TODO} for p in props if p not in T],
    }
    with open(f'{V}/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
