#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Wave function buffer never loses or mixes up content",
 "After any history of writes, additions, reads, in-place changes, explicit locks, resizes and clears, reading position i of a wave function buffer gives exactly the content last stored at i, wherever the buffer keeps it (memory or disk) and for multistate wave functions too. The bytes of single wave functions held in memory never exceed the configured maximum after a completed call, positions that are explicitly locked or among the last N accessed ones stay in memory (the pointers handed out stay valid), and an out-of-memory error is raised only when the pinned positions leave no choice. Clearing or destroying the buffer leaves no temporary file behind.",
 ["histories", "configurations"], "all call histories of the buffer, all buffer sizes relative to the wave function size, all auto-lock depths, single and multistate wave functions",
 "One test with one-element wave functions and a fixed sequence of about fifteen calls; eviction choices, locks rolled over by later accesses and multistate content are not reached.",
 ["src/qdlib/WFBuffer.cpp", "src/qdlib/WFBuffer.h", "src/qdlib/WFMultistate.cpp"],
 [("eviction and reload", "src/qdlib/WFBuffer.cpp:_MoveToDisk/_MoveToMem"), ("access window", "src/qdlib/WFBuffer.cpp:Get")],
 ["WFBuffer::Get/Set/Lock/Clear return values, files in the temporary directory"])

prop("C02", "Aligned memory accounting and limit",
 "Every block handed out is aligned, disjoint from all live blocks and keeps its content until it is freed; the reported used size is the sum of the (rounded) blocks owned, never exceeds the configured maximum, the reported available size is the difference, and the high-water mark is the maximum of the used size over the history. An allocation that does not fit is refused without any change of state, one that fits is never refused, and memory size strings (K, M, G, T suffixes) mean their binary value or are rejected.",
 ["histories", "inputs"], "all sequences of allocate, free, cleanup and reconfigure with any sizes and limits, with and without block recycling; all size strings",
 "The memory test allocates a handful of blocks well below the limit.",
 ["src/tools/Memory.cpp", "src/tools/Memory.h"],
 [("slot map, limit check", "src/tools/Memory.cpp:Align/Free/Cleanup")],
 ["Memory::CurrentSizeUsed/CurrentSizeAvail/MaximumSizeUsed/MaximumSize, returned pointers"])

prop("C03", "Collected objects are destroyed exactly once, at the last release",
 "An object known to the garbage collector is destroyed exactly when its reference count (one per registration, minus one per delete) reaches zero or when everything is deleted, never earlier and never twice; deleting an unknown or null pointer has no effect, also when an object's destructor itself releases other collected objects. Wave functions, operators and their containers created and released through the library obey this, so a container releases its parts exactly once.",
 ["histories"], "all sequences of create, register, delete, delete-all with nested ownership graphs",
 "The collector test checks a few counts; nested destruction and re-registration orders are not enumerated.",
 ["src/tools/Collector.h", "src/qdlib/WaveFunction.h", "src/qdlib/WFMultistate.cpp", "src/qdlib/OList.cpp"],
 [("reference counts", "src/tools/Collector.h:Register/Delete")],
 ["Collector::Elements/IsAllocated, destructor calls"])

prop("C04", "Global operator and wave function registries",
 "Looking up a label returns the object last stored under that label (or nothing); listing gives each stored label exactly once; removing or clearing releases objects and makes them unreachable. A validity request for a named operator initialises it once per wave function it is made valid for, and an unknown name is reported rather than ignored.",
 ["histories"], "all sequences of set, get, list, remove, clear, including re-use of labels and objects",
 "No test uses the registries on their own.",
 ["src/GlobalOpList.cpp", "src/GlobalWFList.cpp"],
 [("label maps", "src/GlobalOpList.cpp"), ("label maps", "src/GlobalWFList.cpp")],
 ["GlobalOpList/GlobalWFList public methods"])

prop("C05", "Parameter containers behave as typed maps and survive a text round trip",
 "A parameter container is a map from names to values with types: reading returns the value last written (floating point numbers bit by bit), 0, empty or the given default when there is none, and arrays element by element; adding overwrites exactly the given names with value and type; iteration visits each entry once; copies are independent of their source. Writing a container as text (string, stream, file) and parsing it back gives an equal container, with types if asked for. Parsing replaces the whole content by the entries of the text up to the end mark: blanks around names and values do not count, comment lines and lines without = are skipped, unknown types are refused, lines may have any length.",
 ["histories", "inputs"], "all sequences of set, get, add, copy, iterate, clear, write, parse; all names and values without the format's delimiters; all texts",
 "The tests set and read a few fixed values.",
 ["src/tools/ParamContainer.cpp", "src/tools/ParamContainer.h", "src/tools/helpers.cpp"],
 [("value and type maps", "src/tools/ParamContainer.cpp"), ("text form", "src/tools/ParamContainer.cpp:Parse/Write")], ["ParamContainer public methods, text output"])

prop("C06", "The simulation clock is an exact counter",
 "A clock's time is always its step number times its step length. It starts at step zero, advances or goes back by exactly one per increment or decrement, can be set to the first, the last (steps-1) or any step, and changes of step length and step count leave the step alone. Assigned and copied clocks are equal to and independent of their source. Synchronising to another clock takes over its time exactly when that is a whole number of own steps and is refused with the clock unchanged otherwise. The global clock is one shared instance until it is destroyed, after which a new one starts at zero.",
 ["histories"], "all sequences of clock operations over any number of clocks, all step lengths and counts",
 "No test looks at the clock alone; synchronisation depends on floating point rounding for particular step lengths.",
 ["src/tools/QDClock.cpp", "src/tools/QDClock.h", "src/tools/QDGlobalClock.cpp"],
 [("counter", "src/tools/QDClock.cpp"), ("singleton", "src/tools/QDGlobalClock.cpp")], ["QDClock public methods"])

prop("C07", "Temporary disk arrays keep their content and clean up",
 "A temporary disk array returns what was last written at each element through reads, seeks, memory mapping, flushes and resizes; its reported size is the number of elements it holds; each open array has a file of its own in the configured directory, and closing (or destroying) it removes exactly that file unless told to keep it.",
 ["histories", "configurations"], "all histories of open, write, read, seek, resize, flush, close over several arrays, mapped and not",
 "No reliable test exercises resize or several arrays.",
 ["src/tools/TmpFile.h"], [("mkstemp, mmap, ftruncate", "src/tools/TmpFile.h")], ["TmpFile public methods, directory content"])

prop("C08", "Wave function and operator files read back what was written",
 "Whatever is written to a file - single or multistate wave functions, in stream or split format, uncompressed or compressed, single or in numbered sequences - reads back, into a prepared or a newly created object, with the same type, parameters, state structure and content (up to the declared compression tolerance). Sequence numbers advance by the configured step on each access and name the same file for reading as for writing; the output format chosen for one file does not leak into another.",
 ["inputs", "histories", "configurations"], "all wave function shapes, formats, compression settings, counters and interleavings of reads and writes",
 "The file tests write and read one vector in one format.",
 ["src/qdlib/FileWF.cpp", "src/tools/FileSingle.h", "src/tools/FileSingleHeader.proto", "src/tools/ZCopyStream.cpp"],
 [("header and payload streams", "src/tools/FileSingle.h"), ("multistate recursion", "src/qdlib/FileWF.cpp")], ["FileWF read and write operators, files"])

prop("C09", "Damaged or foreign files are refused",
 "Reading a wave function file that is missing, empty, truncated at any byte, has a damaged header or magic, belongs to another object type, or holds less than it declares raises an error and leaves the file object usable for other files; it never returns a wave function as if it had been read, never crashes and never allocates unboundedly.",
 ["crash_points", "fault_sequences", "inputs"], "every truncation length and byte corruption of the header region, for every format",
 "Tests read intact files only.",
 ["src/tools/FileSingle.h", "src/qdlib/WFLevel.cpp", "src/qdlib/WFGridSystem.cpp", "src/tools/ZCopyStream.cpp"],
 [("magic and length checks", "src/tools/FileSingle.h")], ["exceptions from FileWF reading"])

prop("C10", "Interactive command protocol: one answer per command, server survives",
 "In interactive mode every complete request is answered in order by exactly one response: success with the requested data reflecting all earlier successful commands, or an error that leaves nothing of the failed definitions behind (a failed program may have set global parameters). Requests naming unknown operators, wave functions or files are answered by an error and never end the server; only data that cannot be understood may end the session, with an error; end of input ends it cleanly.",
 ["histories", "inputs"], "all sequences of requests, valid and invalid, over the command set",
 "No test runs the interactive mode.",
 ["src/CmdHandler.cpp", "src/CmdHandler.h", "src/IACmds.proto"],
 [("dispatch and reply", "src/CmdHandler.cpp")], ["bytes on the two protocol streams"])

prop("C11", "Propagation output series and restart",
 "A propagation writes wave function k after exactly k*wcycle steps for k=0.. (steps/wcycle), each equal to the initial state advanced by that many steps; the report has one row per step, in order, with the time, population(s), energy and projection onto the initial state of the wave function before that step; Propagation.meta describes the series. Continuing with start=k from the written wave function k-1 reproduces the wave functions k.. and the report rows of an uninterrupted run, also with time dependent Hamiltonians.",
 ["crash_points", "configurations", "histories"], "all steps, wcycle, start values and directions (forward, backward)",
 "The propagation tests run a fixed set of complete runs and compare the last values loosely.",
 ["src/ProgPropa.cpp", "src/Reporter.cpp"], [("main loop", "src/ProgPropa.cpp:Start")], ["output directory of a run, its log"])

prop("C12", "Filters act as ordered operator application with exact reports",
 "A filter chain applies its entries in the order given: apply entries transform the wave function (optionally renormalised), expectation entries append one row per step with the value for the current wave function, in declaration order and with their labels, without changing it. Initial, pre-step and post-step chains run at their places and times, no entry runs twice, and int entries give the running sum.",
 ["configurations", "histories"], "all chains of filter entries and all numbers of steps",
 "No unit test covers the filter chain.",
 ["src/FiltersList.cpp", "src/FiltersList.h"], [("filter loop", "src/FiltersList.cpp:Apply")], ["expectation value files, filtered wave function"])

prop("C13", "Composed operators obey operator algebra",
 "For sums, products, scalar multiples, multistate matrices, projections and other combinators, application, in-place application, accumulating application, expectation value and matrix element all agree with the mathematical operator the composition denotes; the wave function passed in is changed only by in-place calls. Copies of a composition are independent and act identically.",
 ["inputs", "programs"], "all operator expressions over the combinators and all wave functions",
 "Unit tests exercise each combinator on one example, if at all.",
 ["src/qdlib/OSum.cpp", "src/qdlib/OProduct.cpp", "src/qdlib/OList.cpp", "src/qdlib/OMultistate.cpp", "src/qdlib/OProjection.cpp", "src/qdlib/Operator.h"],
 [("combinators", "src/qdlib/OSum.cpp etc.")], ["Operator::Apply/Expec/MatrixElement results"])

prop("C14", "Propagators realise the evolution generated by their Hamiltonian",
 "For any time-independent Hermitian Hamiltonian within a propagator's stated limits, n applications give exp(-iHndt) applied to the start state within its accuracy, preserve the norm, and are undone by the backward propagation. All propagator types agree with each other.",
 ["inputs", "programs"], "all Hermitian Hamiltonians, states, time steps and step counts within the accuracy limits",
 "Propagation tests compare a few physical systems.",
 ["src/qdlib/OCheby.cpp", "src/qdlib/OSIL.cpp", "src/qdlib/OArnoldi.cpp", "src/qdlib/ORK4.cpp", "src/qdlib/OGSPO.cpp", "src/qdlib/OPropagator.h", "src/qdlib/ODMultistate.cpp"],
 [("expansions", "src/qdlib/O*.cpp")], ["wave function after Apply"])

prop("C15", "Time-dependent operators follow the simulation clock",
 "A time-dependent operator always uses the field value of the clock step at which it is applied, whatever order operators are applied in and however it is nested inside sums, products, multistate matrices or propagators; laser files read back the samples written, and a field of n samples is used at n consecutive steps and not beyond.",
 ["histories", "configurations"], "all clock histories, nestings and laser lengths",
 "Only complete runs with one laser are compared.",
 ["src/qdlib/Laser.cpp", "src/qdlib/OLaser.cpp", "src/qdlib/OGridDipole.cpp", "src/qdlib/Operator.h"],
 [("clock sharing", "src/qdlib/Operator.h:Clock")], ["Laser::Get, Apply results at each step"])

prop("C16", "Input definitions build exactly the objects they describe",
 "Wave function and operator definitions - nested lists, references, sums, products, multistate matrices, linear combinations, coefficient, phase and normalisation attributes - build an object whose action is the one the definition denotes. A reference denotes the same object as its definition, ill-formed definitions are rejected with an error, and the order of unrelated definitions does not matter.",
 ["inputs", "programs"], "all definition trees over the documented elements and attributes",
 "Tests load a few input files.",
 ["src/ChainLoader.cpp"], [("recursive loader", "src/ChainLoader.cpp")], ["action of loaded operators, content of loaded wave functions"])

prop("C17", "Command line options",
 "Every argument of a command line is attributed exactly once: as declared options (alone or clustered, a parameter being the rest of the argument or the next argument, the last occurrence counting), as a non-option argument in order, or, for letters that are not declared, dropped. Asking for an option tells whether it was given and its value or else its default, however often and in whatever order one asks; non-option arguments are the same through both access methods. The options are accepted exactly when help was not asked for and every required parameter has a value; a refusal names a missing one.",
 ["inputs", "histories"], "all argument vectors over any declared option set, all orders of queries",
 "The option test covers a few vectors.",
 ["src/tools/Getopt.cpp"], [("option parser", "src/tools/Getopt.cpp")], ["Getopt::GetOption/GetNonOption/CheckOptions"])

prop("C18", "Simplified input is translated to the XML it denotes",
 "The simplified input language (blocks by indentation, attributes, variables, string composition, loops) is translated to the one XML document it denotes: same nesting, same attributes, loop bodies once per value in order. Ill-formed input is rejected with an error, and one translation does not influence the next.",
 ["inputs", "histories"], "all programs of the language, and sequences of translations",
 "Tests use two or three fixed inputs.",
 ["src/simpleXml/grammar.yy", "src/simpleXml/simpleXml.ll", "src/simpleXml/Simple2Xml.cpp"],
 [("grammar actions", "src/simpleXml/grammar.yy")], ["the XML text produced"])

prop("C19", "Log output is complete and ordered",
 "Everything written to the logger reaches the selected sink exactly once, in order, with the indentation and level filter in force when it was written; switching between file and console, flushing and closing lose or duplicate nothing.",
 ["histories"], "all histories of writes, level changes, indent changes, sink changes and flushes",
 "The logger has one smoke test.",
 ["src/tools/Logger.cpp", "src/tools/Logger.h"], [("buffering", "src/tools/Logger.cpp")], ["log file and console bytes"])

prop("C20", "Wave functions form a vector space, states and all",
 "Addition, subtraction, scaling, copying, scalar product, norm and normalisation of single and multistate wave functions (and of references to their parts) agree with the complex vector of all their components; a multistate wave function and its states are one storage, new instances and copies never share storage with the original, also after representation switches and retiring or reacquiring storage.",
 ["histories", "inputs"], "all sequences of vector operations over any set of wave functions of any shape",
 "Unit tests check a few operations on one vector.",
 ["src/qdlib/WaveFunction.h", "src/qdlib/WFMultistate.cpp", "src/math/Vector.h", "src/math/cplxarray.h"],
 [("strided references", "src/math/Vector.h:StrideRef")], ["wave function content after each operation"])

prop("C21", "Eigenstate runs and their restart",
 "An eigenstate calculation writes the requested number (for an autocorrelation: those above the peak threshold) of mutually orthonormal eigenstates with the matching energy list, in ascending order where it diagonalises; a run continued from an earlier one's files keeps the finished states and arrives at the same set as an uninterrupted run.",
 ["crash_points", "configurations"], "all numbers of states, methods and restart points",
 "Tests run one complete calculation.",
 ["src/ProgEigen.cpp"], [("projection and restart", "src/ProgEigen.cpp")], ["output directory of a run"])

prop("C22", "Post-processing of recorded series",
 "The filter program applies its chain to every wave function 0..Nt/wcycle of a recorded series, each exactly once and in order, with the clock at the time the wave function was recorded, and writes one table row per wave function with that time and the chain's values; the series itself is left as it was.",
 ["configurations"], "all series (lengths, write cycles, directions, continued or not) and chains",
 "One fixed run.",
 ["src/ProgFilter.cpp"], [("series loop", "src/ProgFilter.cpp")], ["output directory of a run"])

prop("C23", "Correlation functions follow their ket and bra definitions",
 "For a ket and a bra given as operators separated by propagators U{}, cfunc applies each operator of a segment once, in order and at the time of its segment, and writes to <dir><fname>_1.cf the values <bra(t)|ket(t)> at t = 0, wcycle, ... (with one propagator before the signal operator), or to <dir><fname>_2.cf the two-point function: with two propagators on the ket the value for interaction at t1 and signal at t2 is entry t1*Nt+t2, with two on the bra entry t2*Nt+t1, entries with t2 < t1 or beyond the stepsint horizon are zero. Both sides start from the initial wave function at time zero; time-dependent operators and propagators act at their own times. The ground series may come from a recorded propagation (read) with the same result, and write stores it as a recorded propagation. The meta file gives the number of points, their time step and the dimension; wrong definitions fail.",
 ["configurations", "operators", "laser fields"], "all segment structures, operators, lasers, steps, write cycles and directions",
 "No stable test runs cfunc.",
 ["src/ProgCfun.cpp", "src/qdlib/WFBuffer.cpp"], [("two-point loop", "src/ProgCfun.cpp")], ["correlation function files"])

prop("C24", "Configuration precedence and program sequencing",
 "The output directory is the first given of: command line (-d), environment (QD_DIR), the input's root element, the configuration file of the current directory, that of the home directory, the program's own dir attribute. The programs of an input run in order, each exactly once, with the effects of earlier ones visible to later ones, and a failing step ends the run with a failure status and an error message instead of being skipped.",
 ["configurations", "programs"], "all combinations of configuration sources and program lists, and failures at any of them",
 "Tests run single-program inputs.",
 ["src/qdng.cpp", "src/tools/GlobalParams.cpp"], [("main loop", "src/qdng.cpp")], ["output files and exit status of qdng"])

if __name__ == "__main__":
    import sys
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
