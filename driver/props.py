"""What each check runs. jobs: (world, build variant, share of the cores)."""

WORLDS = {
    "field": {"src": ["w_field.cpp"]},
    "curve": {"src": ["w_curve.cpp"]},
    "target": {"src": ["w_target.cpp"]},
    "pairing": {"src": ["w_pairing.cpp"]},
    "vint": {"src": ["w_vint.cpp"]},
    "text": {"src": ["w_io.cpp"]},
    "damage": {"src": ["w_io.cpp"]},
    "alloc": {"src": ["w_alloc.cpp"]},
    "init": {"src": ["w_init.cpp"]},
    "cfg": {"src": ["w_cfg.cpp", "catalog.cpp"]},
    "java": {"src": ["w_java.cpp"]},
    "net": {"src": ["w_net.cpp"]},
    "threads": {"src": ["w_thread.cpp", "catalog.cpp", "simthr.cpp"], "flags": ["-fsanitize=thread"]},
    "shared": {"src": ["w_thread.cpp", "catalog.cpp", "simthr.cpp"], "flags": ["-fsanitize=thread"]},
}

REAL = ["include/*.h", "src/zm.cpp", "src/zm2.cpp (with the code it generates at run time)"]

PROPS = {
    "C09": {
        "jobs": [("field", "default", 2), ("field", "snark", 2), ("field", "debug", 1), ("field", "native", 1), ("field", "clang", 1), ("field", "wide", 1)],
        "rule": "A case is a seeded history of up to 60 (quick) or 160 (thorough) operations of up to 4 interleaved clients on shared "
                "registers of all element types, with aliasing, re-initialization and garbage faults. Non-trivial: at least 3 operations "
                "were executed and compared with the GMP model; distinct: by the hash of all results.",
        "measure": "distinct (operation, aliasing pattern, zero operands) triples executed",
        "real": REAL,
        "stub": ["operator new/delete (seam: contents of fresh memory)", "dead stack contents (seeded)"],
        "assumptions": ["GMP arithmetic is right", "CPU executes instructions as documented"],
    },
    "C08": {
        "jobs": [("curve", "default", 3), ("curve", "snark", 2), ("curve", "debug", 1), ("curve", "native", 1), ("curve", "clang", 1)],
        "rule": "A case is a seeded history of up to 25 (quick) or 60 (thorough) group operations of up to 4 interleaved clients on 5 points of "
                "G1 and 4 points of G2, started in random representations (zero with garbage coordinates, Jacobian with boundary biased z, "
                "equal and opposite points), with aliasing, re-initialization and garbage faults. After every operation all registers named "
                "in it are compared with affine arithmetic of the model. Non-trivial: at least 3 operations were executed and compared; "
                "distinct: by the hash of all results.",
        "measure": "distinct (operation, representation class of each operand, alias/equal/opposite relation of operands) tuples executed",
        "real": REAL,
        "stub": ["operator new/delete (seam: contents of fresh memory)", "dead stack contents (seeded)"],
        "assumptions": ["GMP arithmetic is right", "CPU executes instructions as documented"],
    },
    "C10": {
        "jobs": [("pairing", "default", 3), ("pairing", "snark", 2), ("pairing", "debug", 1), ("pairing", "native", 1), ("pairing", "clang", 1)],
        "rule": "A case is a seeded history of up to 14 (quick) or 36 (thorough) pairings on all routes, table constructions and reuses, point "
                "operations and operations on values by up to 4 interleaved clients, on points with known logarithms in random representations, "
                "with re-initialization and garbage faults. Every value is compared with the model's power of e(g2, g1) (model Miller loop and "
                "final exponentiation), some with the model pairing of a random point. Non-trivial: at least 2 operations were executed and "
                "compared; distinct: by the hash of all results.",
        "measure": "distinct (operation, representation class of operands, table state, aliasing) tuples executed",
        "real": REAL,
        "stub": ["operator new/delete (seam: contents of fresh memory)", "dead stack contents (seeded)"],
        "assumptions": ["GMP arithmetic is right", "the model's affine Miller loop implements the documented pairing", "CPU executes instructions as documented"],
    },
    "C14": {
        "jobs": [("target", "default", 3), ("target", "snark", 2), ("target", "debug", 1), ("target", "native", 1), ("target", "clang", 1)],
        "rule": "A case is a seeded history of up to 12 (quick) or 30 (thorough) target group operations by up to 4 interleaved clients on any "
                "elements (also of subfields) and elements of the cyclotomic subgroup (also 1, of small order, and those whose compressed form "
                "is exceptional now or after a number of squarings), with aliasing, re-initialization and garbage faults; results are compared "
                "with generic arithmetic of the model. Non-trivial: at least 2 operations were executed and compared; distinct: by the hash of "
                "all results.",
        "measure": "distinct (operation, zero coefficients of each operand, aliasing) tuples executed",
        "real": REAL,
        "stub": ["operator new/delete (seam: contents of fresh memory)", "dead stack contents (seeded)", "upper halves of argument registers"],
        "assumptions": ["GMP arithmetic is right", "CPU executes instructions as documented"],
    },
    "C12": {
        "jobs": [("vint", "default", 3), ("vint", "debug", 1), ("vint", "native", 1), ("vint", "clang", 1), ("vint", "wide", 1), ("vint", "narrow", 1)],
        "rule": "A case is a seeded history of up to 80 (quick) or 200 (thorough) operations of up to 4 interleaved clients on 5 unsigned and 4 "
                "signed big integers of up to the capacity of 576 bits and 4 integers modulo a seeded m of up to 256 bits, with aliasing, "
                "re-initialization and garbage in the unused words; negative differences, results over the capacity and negative right shifts "
                "must end a forked copy of the process with status 1 and a message. Non-trivial: at least 3 operations were executed and "
                "compared with GMP; distinct: by the hash of all results.",
        "measure": "distinct (operation, length and sign of each operand, alias relation) tuples executed",
        "real": REAL,
        "stub": ["operator new/delete (seam: contents of fresh memory)", "dead stack contents (seeded)", "unused words of the numbers (seeded)"],
        "assumptions": ["GMP arithmetic is right", "CPU executes instructions as documented"],
    },
    "C03": {
        "jobs": [("text", "default", 3), ("text", "snark", 2), ("text", "debug", 1), ("text", "clang", 1), ("text", "wide", 1)],
        "rule": "A case is a seeded history of up to 45 (quick) or 120 (thorough) writes and reads of values of all 8 readable types on 3 simulated "
                "byte channels, each with its own delivery in pieces, buffer size, white space, formatting state, exception mask and locale; "
                "devices fail at a seeded byte by refusing, throwing or ending, and the operation is repeated on a healthy one. What is written "
                "is judged by an independent strict reader of the documented notation. Non-trivial: at least 3 operations; distinct: by the hash "
                "of all texts.",
        "measure": "distinct (type, operation, outcome, fault, bytes consumed up to 30) tuples",
        "real": REAL + ["libstdc++ streams"],
        "stub": ["std::streambuf: simulated byte channels", "global and stream locale: seeded numpunct facets", "operator new/delete (seam: contents of fresh memory)", "dead stack contents (seeded)"],
        "assumptions": ["GMP text conversion is right", "a locale changes number punctuation, not which characters are white space"],
    },
    "C04": {
        "jobs": [("damage", "default", 3), ("damage", "snark", 2), ("damage", "debug", 1), ("damage", "clang", 1), ("damage", "wide", 1)],
        "rule": "A case is a seeded history of up to 50 (quick) or 150 (thorough) parses (stream in pieces, set, constructor) of undamaged text in every "
                "allowed spelling, of damaged text (1 to 6 seeded edits: flips, inserts, cuts, swaps, repeats, prefixes, long digit runs), of text "
                "of other types, of points off the curve and of coordinates; an independent strict reader decides which value the consumed bytes "
                "denote. Non-trivial: at least 3 operations; distinct: by the hash of all texts.",
        "measure": "distinct (type, route, outcome, first and last three bytes of the text) tuples",
        "real": REAL + ["libstdc++ streams"],
        "stub": ["std::streambuf: simulated byte channels", "global and stream locale: seeded numpunct facets", "operator new/delete (seam: contents of fresh memory)", "dead stack contents (seeded)"],
        "assumptions": ["GMP text conversion is right", "a locale changes number punctuation, not which characters are white space"],
    },
    "C05": {
        "jobs": [("alloc", "default", 3), ("alloc", "snark", 2), ("alloc", "debug", 1), ("alloc", "clang", 1), ("alloc", "wide", 1)],
        "rule": "A case is a seeded history of up to 25 (quick) or 60 (thorough) operations which allocate: text from values (toString, streams) and "
                "values from well-formed and damaged text (streams, set, constructors) of all 8 readable types, construction and use of precomputed "
                "tables (also into old tables of other size) and text of the Java classes; in each a seeded single allocation, all from the n-th on, "
                "a seeded pattern, or every position in turn fails; then it is repeated without. Judged: result or report, values of operands and "
                "of the old destination, bytes outside, blocks left over. Non-trivial: at least 2 operations and one failed allocation; distinct: "
                "by the hash of all outcomes.",
        "measure": "distinct (operation, type, failing pattern and position, outcome) tuples",
        "real": REAL + ["java/bn254_if.hpp", "libstdc++ strings and streams"],
        "stub": ["operator new/delete (seam: failures, contents of fresh memory, count of live blocks)", "std::streambuf: fixed memory", "dead stack contents (seeded)"],
        "assumptions": ["GMP's own allocations (malloc) do not fail: GMP ends the process on failure by its documentation"],
    },
    "C06": {
        "jobs": [("init", "default", 3), ("init", "snark", 3), ("init", "debug", 1), ("init", "clang", 1)],
        "rule": "A case starts with an uninitialized library in a fresh process on a simulated processor and is a seeded history of up to 6 (quick) or "
                "12 (thorough) initializations with any curve, mode and CPU choice, in which a seeded allocation, all from the n-th on, a pattern, a "
                "page allocation or a change of page protection is refused, of calls with parameters which are not supported and of broad self tests "
                "(curve, pairing, table, field, division, text) against the model after every success. Judged: exception, or non-zero status with "
                "a message, or a fully working library, also after initializing again. Non-trivial: a fault fired; distinct: by the hash of all outcomes.",
        "measure": "distinct (call, fault kind, position, outcome, state before) tuples",
        "real": REAL + ["src/xbyak"],
        "stub": ["operator new/delete (seam: failures, contents of fresh memory)", "mmap, posix_memalign, mprotect (seam: refusals)", "CPUID (seam by instruction faulting, if the machine offers it): vendor, model, BMI2", "dead stack contents (seeded)"],
        "assumptions": ["GMP arithmetic is right", "memory refused inside of the C library itself (stdio, locale) is outside of the library's control"],
    },
    "C01": {
        "jobs": [("threads", "default", 4), ("threads", "snark", 3), ("threads", "native", 1)],
        "rule": "A case is 2 to 4 threads with programs of up to 5 (quick) or 8 (thorough) operations of all kinds (field tower, curves, pairing on "
                "all routes, tables, big integers, text) on workspaces of their own, in a fresh process after initialization, with a plan of pre-emptions: at "
                "the n-th memory access of an operation, at the n-th access to memory which several threads see and one writes, after m single "
                "instructions from the n-th access on, and between operations. All results and final objects are compared with each program run alone in a "
                "process of its own. Non-trivial: at least one thread was stopped inside or between operations and another went on; distinct: by the hash of results and interleaving.",
        "measure": "distinct interleavings: hash of all (thread, operation, access number, next thread) of the switches",
        "real": REAL + ["pthreads, of which the simulator lets exactly one run at a time"],
        "stub": ["thread scheduler (baton given by the plan; locks, once and guards of local statics give way to it)",
                 "run time library of the thread sanitizer instrumentation: replaced by pre-emption points before every memory access, function entry and atomic operation",
                 "single stepping by the trap flag: pre-emption points before every instruction, also of generated code",
                 "operator new/delete (seam: contents of fresh memory)"],
        "assumptions": ["sequentially consistent memory: one thread runs at a time, reordering by the processor is not simulated",
                        "a thread is not stopped inside of the C, C++ and GMP libraries"],
    },
    "C02": {
        "jobs": [("shared", "default", 4), ("shared", "snark", 3), ("shared", "native", 1)],
        "rule": "As for C01, but most operands which an operation only reads (also points in Jacobian coordinates, zero with any coordinates, precomputed "
                "tables) are taken from one workspace of all threads. Its pages are write protected: a write is let through and makes a pre-emption point. All "
                "results and final objects are compared with each program run alone, the shared objects must have their values at the end. Non-trivial and distinct as for C01.",
        "measure": "distinct interleavings: hash of all (thread, operation, access number, next thread) of the switches",
        "real": REAL + ["pthreads, of which the simulator lets exactly one run at a time"],
        "stub": ["thread scheduler (baton given by the plan; locks, once and guards of local statics give way to it)",
                 "run time library of the thread sanitizer instrumentation: replaced by pre-emption points before every memory access, function entry and atomic operation",
                 "single stepping by the trap flag: pre-emption points before every instruction, also of generated code",
                 "operator new/delete (seam: contents of fresh memory)"],
        "assumptions": ["sequentially consistent memory: one thread runs at a time, reordering by the processor is not simulated",
                        "a thread is not stopped inside of the C, C++ and GMP libraries"],
    },
    "C07": {
        "jobs": [("cfg", "default", 3), ("cfg", "snark", 3), ("cfg", "debug", 1), ("cfg", "clang", 1)],
        "rule": "A case is one seeded history of up to 50 (quick) or 120 (thorough) operations of all kinds, executed by 2 to 4 nodes: processes with "
                "a code generation mode, use of special instructions, simulated processor (vendor, model, without BMI2), garbage and a history of further "
                "initializations (before and during the history, with other modes and the other curve, and with operations of their own on other objects) "
                "of their own. All results, final objects and constants of node 0, which is initialized once, must be those of every node bit by bit (unreduced "
                "double width values: modulo p); some results are compared with the model; on a processor without BMI2 short operations are executed "
                "instruction by instruction and must not contain instructions it does not have. Non-trivial: at least 2 nodes and 2 operations; distinct: by the hash of all results.",
        "measure": "distinct (operation, configuration of the node, number of initializations) tuples",
        "real": REAL + ["src/xbyak"],
        "stub": ["CPUID (seam by instruction faulting, if the machine offers it): vendor, model, BMI2", "single stepping by the trap flag",
                 "operator new/delete (seam: contents of fresh memory)", "dead stack contents (seeded)"],
        "assumptions": ["GMP arithmetic is right", "CPU executes instructions as documented"],
    },
    "C13": {
        "jobs": [("java", "default", 4), ("java", "debug", 1), ("java", "native", 1), ("java", "clang", 1), ("java", "wide", 1)],
        "rule": "A case is a seeded history of up to 45 (quick) or 120 (thorough) calls of the classes Mpz, Fp, Fp2, Fp12, Ec1, Ec2 of the Java interface on "
                "3, 4, 3, 2, 3, 2 objects and on the references into elements and points that getA, getB, getX, getY, getZ give, with operands which are the object "
                "or a part of the object, with strings in every allowed spelling and damaged ones, points on and off the curve, failing allocations during text "
                "conversion, seeded locales, garbage and initializing again. After every call all coefficients of the destination are compared with the GMP model and all "
                "other bytes must be unchanged. Non-trivial: at least 3 calls; distinct: by the hash of all results.",
        "measure": "distinct (call, aliasing) and (type, damage, outcome, text ends) tuples",
        "real": REAL + ["java/bn254_if.hpp"],
        "stub": ["SWIG/JNI wrapper and Java virtual machine (not installed): the C++ classes are called as the wrapper does", "operator new/delete (seam: failures, contents of fresh memory)",
                 "global locale: seeded numpunct facets", "dead stack contents (seeded)"],
        "assumptions": ["GMP arithmetic is right", "CPU executes instructions as documented"],
    },
    "C11": {
        "jobs": [("net", "default", 3), ("net", "snark", 2), ("net", "debug", 1), ("net", "native", 1), ("net", "clang", 1)],
        "rule": "A case is 3 or 4 parties, each a process with the library in its own code generation mode, on its own simulated processor, with its own "
                "routes of computation and text styles, running up to 3 (quick) or 6 (thorough) sessions of three party key agreement with confirmation, "
                "threshold and aggregate signatures over a simulated network in simulated time: messages lost, duplicated, delayed (reordered), damaged, "
                "delivered in pieces, forged by outsiders and insiders, replayed; partitions; crashes with restart from the log of received messages, of which the last "
                "lines may be lost, torn or damaged, in another configuration; allocations which fail while a message is read; initializing again; garbage. Every message "
                "sent, every value accepted, every key and combined signature is compared with the model; after the faults every session must be finished everywhere "
                "within 8 ticks. Non-trivial: at least 4 messages delivered and 2 accepted; distinct: by the hash of all events.",
        "measure": "distinct schedules (hash of the order of all verdicts, keys and signatures), and (message type, configuration, fault) tuples",
        "real": REAL,
        "stub": ["network, clock and durable log (simulator)", "processes: real ones, which run only when the simulator asks", "hash to a point (harness)",
                 "CPUID (seam by instruction faulting, if the machine offers it)", "operator new/delete (seam: failures, contents of fresh memory)", "std::streambuf: messages in pieces", "dead stack contents (seeded)"],
        "assumptions": ["GMP arithmetic is right", "the adversary does not know the keys of the sender it names, except where it acts as an insider"],
    },
}
