#!/usr/bin/env python3
"""Writes MANIFEST.json (kept here so that the texts of the checks live in one place)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation: seeded random/PCT/round-robin thread schedules"
D = "deterministic simulation with disk fault injection"
NOTE = " Sampling, not proof: a clean run covers the executions counted in the evidence. Trusts the simulator (sim/), the reference model or codec it compares with, libnetcdf and libstdc++."
C = {
 "C01": (T + ", compared bitwise with a one-thread execution", "Every output array, status and saved file of simulated parallel executions is compared bitwise with the single-thread execution of the same history; deadlock and lack of progress are detected by the scheduler."),
 "C02": (T + " with a vector-clock happens-before race detector", "Every memory access of the instrumented library sources in simulated parallel regions and concurrent calls is checked by a vector-clock detector; races are found from happens-before even if the sampled interleaving did not suffer from them."),
 "C03": (T + ", compared with one-surface executions and a reference model", "Outputs per surface are compared bitwise with executions that request only that surface, with permuted lists, and with an independent long-double transform."),
 "C04": (T + " with yields inside the output, parsed against a reference model", "The captured output of simulated parallel runs is parsed; each report must be one block, one per requested surface, with the values of the reference model."),
 "C05": ("deterministic simulation with output faults (closed, full, failing at any byte) and all verbosities, compared with a silent execution", "Statuses, arrays and file bytes of sessions with failing output are compared bitwise with the silent session."),
 "C06": (T + " over caller threads and interleaved histories of several objects, compared with each object alone", "Values and files of objects in interleaved, copied and concurrent histories are compared bitwise with each object's history alone."),
 "C07": ("deterministic simulation of object histories with faults, compared with a fresh object", "After random prefixes (other equilibria, runs, reads, failing calls under disk faults and allocation failures) the target calls' results are compared bitwise with those of a fresh object."),
 "C08": ("deterministic simulation of write/read histories with schedules and disk knobs, own NetCDF decoder as oracle", "After random histories each saved file is decoded independently and compared with the object, and each reloaded object with the saver; rewritten files must have the same contents."),
 "C09": ("deterministic simulation varying heap contents and layout, clock, pid, environment, block size, schedule; byte comparison", "Files and arrays of the same session under different memory patterns, layouts, clocks, pids, environments, block sizes and schedules are compared byte for byte."),
 "C10": (D + " (open, write, seek, sync, rename errors, short writes, full disk)", "A save that returns normally under injected faults must have produced a file whose independent decoding equals the object's results; a save without faults must succeed."),
 "C11": (D + " and process kills at any system call, torn writes, restart", "At every kill or failure the destination must hold its old bytes, be absent as before, or hold the complete new contents; saving again in the same or a new process must succeed."),
 "C12": (D + " (open, read, seek errors), missing variables and cut files, compared with the generator's model", "A read that returns normally under faults or on damaged files must have loaded exactly what the generator wrote; without a fault reads must succeed."),
 "C13": (D + " with repetition after the faults stop, descriptor accounting", "After a call failed by an injected fault no file may be open, the object must be as specified, and repeating the calls must give the undisturbed results."),
 "C14": ("deterministic simulation with allocation failure injection in any thread and schedule", "The n-th allocation of a call fails, in any thread; the call must raise or be right, the process must survive with intact memory, and repetition must give the right results."),
 "C15": ("deterministic simulation of reads of damaged files (truncation, structural mutation, inconsistent sizes) with shadow memory", "Reads of damaged files must not crash, hang or access memory outside live blocks, and must raise for contradicting sizes. Raw byte flips in the NetCDF header are not generated, because libnetcdf itself crashes on some."),
 "C16": (D + " on the command-line program, compared with the API and the reference model", "Executions of the real main() with generated control files and disk faults: status 0 must leave exactly the file the API produces, other statuses no new or altered result file."),
 "C17": (D + " on both command-line programs (C++ main and Python CLI in one simulated world), compared with each other", "Executions of the Python and the C++ command line on the same files and faults: equal acceptance and file contents; success under a fault only with the fault-free contents."),
 "C21": (D + " and object histories: the real plotting functions with recording stand-ins for matplotlib and plotly, compared with an independent evaluation", "After random histories (and disk faults while reading named files) every drawn curve, contour and surface is compared with an evaluation of the saved or held spectra written independently; the object is compared before and after."),
 "C22": (D + " and allocation failures: the same history on a Python and a C++ object in one simulated world, compared after every call", "Statuses, attribute values, shapes and types and the saved files of the Python object are compared with those of a C++ object with the same history, faults included; assignments to outputs must raise."),
 "C24": ("deterministic simulation of histories of inconsistent calls with shadow memory and schedules", "Random sequences of calls with inconsistent values and sizes must end in success or an error without a memory error, crash or hang; missing errors and wrongly refused calls are reported; a correct sequence afterwards must give the undisturbed results."),
 "C25": (D + " and object histories: arrays held in Python across later calls, with poisoned freed memory", "Arrays taken from result attributes are compared with copies made at once after each later run, read, failing call and deletion; freed memory is overwritten by the simulator so that a dangling array shows."),
 "C26": ("deterministic simulation of several processes in one directory: seeded interleaving of their file operations, disk faults and kills", "Groups of two to five simulated processes (library users, command lines, readers, programs that replace files) take turns at file operations under a seeded scheduler; the watched files are checked at every change, each save against the same process running alone, each read against the single versions of the file."),
}
NA = {
 "C18": "Pure function of one input (convergence of the numerical transform): no schedule, clock, fault, I/O or history for a simulator to vary.",
 "C19": "Pure function of one input (radial interpolation formula): nothing for a simulator to vary.",
 "C20": "Pure function of one input (comparison of two numerical algorithms): nothing for a simulator to vary.",
 "C23": "A property of the build and packaging, decided before anything runs: nothing for a simulator to vary.",
}
SKIP = {}
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in {**SKIP, **NA}.items()],
     "notes": "No hooks in /repo: the seams are symbols the compiler and linker provide (GOMP_*, __tsan_*, libc, operator new). Replay: python3 check.py --replay <file>."}
for k, (t, n) in C.items():
    if k in SKIP: continue
    m["checks"].append({"property": k, "quick_cmd": "python3 check.py %s" % k, "thorough_cmd": "python3 check.py %s --tier thorough" % k, "technique": t, "level": "exploration", "level_note": n + NOTE})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
