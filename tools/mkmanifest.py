#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the checks that exist."""
import json, os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(H + '/check.py').read()
built = [m for m in re.findall(r"^    '(P\d\d)': dict\(src='([^']+)'", src, re.M) if os.path.exists(f'{H}/harness/{m[1]}')]
built = {a for a, b in built}
NOTE = {
 'P01': 'Every program over hazard alphabets up to the stated length, on several machine configurations, runs on the real pipeline and is compared with an independent sequential reference machine.',
 'P02': 'Every instruction x operand form x pair of boundary values x conditional jump runs on the real machine and is compared with the reference written from the documentation.',
 'P03': 'Every bounded program mixing faulting accesses with (mis)predicted control flow; stop reason, output and state compared with sequential execution.',
 'P04': 'Every operand string of a bounded token grammar for every mnemonic; accepted text must denote the written instruction, everything else must be a parse error.',
 'P05': 'Every accepted instruction x boundary constants is printed, reassembled, compared structurally and executed from both texts.',
 'P06': 'Every bounded program stepped throughout and every step/continue choice sequence, compared at every stop with the sequential reference.',
 'P07': 'Every bounded history of breakpoint commands and resumptions, and every subset of breakpoints on every small program, against a breakpoint model.',
 'P08': 'Every bounded history of breakpoint commands, code writes and resumptions, with code listing and raw code compared after each command.',
 'P09': 'Every bounded history of watchpoint commands and resumptions, every slot history, every small program x set of watched cells.',
 'P10': 'Every small program x every kind of stop x every single modification, and every bounded modification history, against a sequential machine modified the same way.',
 'P11': 'Every bounded history of next/finish/step/continue with breakpoints and watchpoints over call-shaped programs, against a call-depth model.',
 'P12': 'Every request sequence up to a bounded depth, synchronous and pipelined, against a protocol model; the whole message stream is compared.',
 'P13': 'All interleavings of the messenger operations of bounded exchanges under a controlled scheduler substituted for mutex and condition variable.',
 'P14': 'All segmentations of the byte streams of bounded message sequences and a close or error at every position, with substituted send/recv calls.',
 'P15': 'All bounded line tables over small programs x histories of source commands against a line model.',
 'P16': 'All bounded scope trees x addresses and all bounded location programs x machine states against reference scope resolution and a reference stack machine.',
 'P17': 'All bounded expressions over the token alphabet and typed variables against a reference evaluator; all memory and registers compared afterwards.',
 'P18': 'All bounded section files, orders, truncations and token corruptions against reference readers; malformed text must end in an error.',
 'P19': 'All bounded command histories of the real command interpreter, including re-runs, against a session model.',
 'P20': 'All bounded histories over an alphabet of valid, misused and abbreviated commands typed into the real command interpreter, every shown line compared with a session model.',
 'P21': 'All bounded sessions of the real command interpreter attached over interposed sockets, with the connection cut at every byte and every message, against the session model.',
 'P22': 'The full configuration grid x every bounded program, and every combination of documented arguments, on the real processor against the sequential reference.',
 'P23': 'Every operand form, patched jump, data addition and bounded sequence of hooks and instructions built with the real library, run and compared with the sequential reference including every hook call.',
 'P24': 'Every bounded program over branch, memory and loop alphabets; printed statistics compared with the sequential count of instructions and checked for consistency.',
 'P25': 'Every bounded argument sequence, program, corrupted file, network failure and debugger script given to the real main() in a process of its own; output, exit code and message against the reference.',
}
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 --version && g++ --version',
         checks=[dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                      technique='stateless model checking of the real code: exhaustive bounded enumeration of ' + '/'.join(p['quantifier']['over']).replace('_', ' ') + ' against a reference model',
                      level='model_checking', level_note=NOTE[p['id']]) for p in props if p['id'] in built],
         not_applicable=[dict(property=p['id'], reason='check not built yet') for p in props if p['id'] not in built])
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'checks')
