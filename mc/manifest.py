#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed properties"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FN = "bounded exhaustive state exploration of the real model functions against an independent executable reference model (lockstep on every state)"
SEQ = "exhaustive enumeration of operation sequences on the real objects, in lockstep with an abstract state machine"
CFGS = "bounded exhaustive enumeration of configurations through the real code, compared with the reference model"
FNN = "Every state of the stated bounded space (all joint words up to 3-4 joints, long chains, deviation-bounded parameter and variable values, all three mask modes, frozen-configuration deviations) is visited and compared; values outside the alphabets and longer chains are not. Trusts the reference model (mc/ref.hpp) and CasADi."
CHECKS = {
 "C01": (FN, FNN), "C02": (FN, FNN), "C03": (FN, FNN), "C04": (FN, FNN), "C05": (FN, FNN), "C06": (FN, FNN), "C07": (FN, FNN), "C08": (FN, FNN),
 "C10": (FN, "All placements of elastic joints up to 3-4 joints x orders x mask modes, values of both signs and zero, deviation-bounded. Trusts the reference laws and CasADi."),
 "C11": (FN, "All masks of small groups, singles/complements/pairs of the kinematic ones, compared with dual-number derivatives of the reference. Trusts the reference model and CasADi."),
}
GENL = " Compilation of the generated code uses g++ of the sandbox; longer sequences, more joints and other values than enumerated are not covered."
CHECKS.update({
 "C09": (SEQ, "Every conversion path (load_conf, both setters, load_par_REG with and without update, saves, genInertial_files) and pairs of them, over an enumerated grid of inertial vectors, in the model and in generated classes; compared with an independent parallel-axis reference." + GENL),
 "C12": (CFGS, "All masks of each small parameter, singles/complements/pairs of larger ones, and cross-parameter mask combinations; every function compared with the all-symbolic robot."),
 "C13": ("bounded exhaustive enumeration of configurations x option sets through the real generator, compiler and generated class, in lockstep with the model", "Every joint word up to 2-3 joints, elastic placements, mask modes, names and option sets of the stated space are generated, compiled and compared on every function with the model, with an AddressSanitizer pass." + GENL),
 "C14": (SEQ, "All sequences of public calls (good, wrong-size, missing/garbage files, save then load, copies, second object) up to depth 2-3 on compiled generated objects; every getter and function checked after each call." + GENL),
 "C15": (SEQ, "All sequences of public calls on Robot up to depth 2 (3 in thorough), all getters and functions checked after each, originals re-checked after copies were used." + GENL),
 "C21": (CFGS, "All subsets of the optional parts, spellings of defaults, section orders and enumerated malformed variants; accepted ones compared function by function with the explicit configuration, rejected ones must be reported by the parser and the CLI without producing a robot."),
})
CHECKS.update({
 "C16": ("exhaustive enumeration of writer/reader/value-pattern/fault-point combinations on the real code, in lockstep with a file model", "Every writer x reader pair of the model, the generated class and the CLI, over an enumerated alphabet of value patterns (tiny, huge, denormal, non-terminating fractions), every partial file (each section left out, fewer links), unreadable and cut files; bit-exact comparison link by link." + GENL),
 "C17": ("stateless model checking: exploration of thread schedules of the compiled generated code under a controlled scheduler, with a happens-before race monitor", "Real generated code with compiler-inserted access hooks runs under our own scheduler: all ordered pairs of calls are race-checked, one preemption at every access of short calls, two preemptions and three threads for the shortest ones; results compared with the sequential ones; files and process-wide state (cwd, locale, environment, rand, strtok) are interposed and treated as memory. Code inside libstdc++/yaml-cpp/libm that is not instrumented is atomic to the scheduler."),
 "C19": ("bounded exhaustive exploration of operation sequences on the real helpers, in lockstep with a pseudo-inertia reference model", "All angle triples of a grid, every body x frame of the alphabets, all sequences of transforms (new object / in place) and merges up to depth 4 (5 in thorough), FrameOffset setter sequences, and the genYAML program on every single-entry deviation of its input; the randomly perturbed files of genYAML are only checked to be complete. Merging takes bodies whose axes are aligned with the common frame (rpy zero), as after a transform."),
 "C18": ("explicit-state exploration of the real generator as a transition system on directory contents (states hashed), plus exhaustive call sequences in one process, compared with generation in a fresh process and directory", "All histories of 15 generation commands up to depth 3 (4 in thorough) from an empty and a littered directory, every listed directory / option order / environment, all sequences of build, add_function, set, generate, copy and drop up to depth 3 (4), and one program with 9 (13) separately compiled robots with colliding-looking names. -c is explored inside a scratch tree only."),
})
CHECKS.update({
 "C20": (SEQ, "User functions over every single argument, every ordered pair (and triples of six), all shapes and expression kinds of the alphabet, added during creation, afterwards and both; all sequences of add / overwrite / refuse / fail / set / copy up to depth 2-3 (4); the shipped example function; generated robots with user functions. Expression shapes outside the alphabet are not covered." + GENL),
 "C22": ("exhaustive enumeration of sequences of exported names on the binding module built by its own CMakeLists.txt against a recording pybind11, in lockstep with the class generated without -p", "Every exported name, every sequence of two calls (three for one-joint robots in thorough) with positional, omitted and keyword arguments, compared with direct calls on the class generated without -p; every public setter/getter/loader/saver must be exported. pybind11 and Python are replaced by a recording stand-in (they are not installed), so the interpreter side is trusted."),
})
CHECKS["C23"] = ("exhaustive enumeration of sequences of the public building stages on the real code, each result in lockstep with the robot built by robot_from_file", "All sequences of stages up to length 2-3, all orders of the complete build, all interleavings of the stages of two robots, a copy taken at every point, and values given before the symbols are fixed, for eight structures x four mask modes. Longer sequences and stages called after update_symb_parameters are not covered.")
CHECKS["C24"] = ("exhaustive fault injection: every file-changing call of the real generator is a crash or fault point (preloaded shim), the directory reached is the state, the repeated command is the recovery; overlapping runs are enumerated by pausing one before each of its calls", "All crash/fault points x four ways of failing for seven robot/flag combinations, from an empty directory, over its own and over another robot's output; pairs of crash points; every pause point for four pairs of overlapping runs; the exact set of files written for all names, flags, places and refused calls of the alphabets. A failed write need not be reported in the exit status; power loss (reordered writes) is not modelled.")
CHECKS["C25"] = ("exhaustive enumeration of mistakes (and pairs of mistakes) in configuration and parameter files through every reader of the real code, memory-checked, in lockstep with an independent reader of the format", "Every place of the documents of several small robots x every kind of mistake, pairs of mistakes, every line and every sign edited; model (robot_from_file, load_conf_par, load_par_REG, load_par), genInertial_files, generator and compiled generated classes, with AddressSanitizer and checked standard containers. The syntax itself is left to yaml-cpp; mistakes outside the listed kinds, three mistakes at once and longer robots are not covered.")
# claimed
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 mc/run.py --setup",
     "checks": [{"property": i, "quick_cmd": "python3 mc/run.py " + i, "thorough_cmd": "python3 mc/run.py %s --thorough" % i, "evidence_file": "evidence/%s.json" % i,
                 "technique": CHECKS[i][0], "level": "model_checking", "level_note": CHECKS[i][1]} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in CHECKS],
     "notes": "No hooks are needed in /repo: every property is observed at public interfaces. known_findings.txt lists the defects repaired by fix: commits."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
