#!/usr/bin/env python3
# regenerates properties.jsonl (kept so that the statements stay reviewable)
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80, (id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
H=["include/bn.h","include/zm.h","include/zm2.h","src/zm.cpp","src/zm2.cpp"]
prop("C01","Threads working on distinct objects never influence each other",
 "After initialization, any number of threads may run any operations of the library (arithmetic at every level, curve operations, pairings, precomputation, number/text conversion) at the same time, each on objects of its own. Under every interleaving of their execution, down to single machine instructions, every operation produces exactly the result it produces when it runs alone.",
 ["schedules"],"every interleaving of 2 or more threads, every pair of operations and operands",
 "All tests are single threaded; a static scratch variable, a memoised value or generated code that keeps a temporary in its data page is invisible to them.",
 H,[("temporaries only on the stack, constants only in tables written by initialization","include/bn.h, src/zm2.cpp (generated code)")],
 [("s_data tables, ParamT statics","read-only after initialization","src/zm2.cpp, include/bn.h"),("function pointers of Fp, Fp2, ...","switched once by initialization","include/zm2.h")],
 ["results of every public operation, per thread"])
prop("C02","Shared operands can be read by many threads at once",
 "Any number of threads may at the same time pass the same point, field element, number or precomputed table as an operand that an operation only reads (comparison, output, validity test, being an addend, a scalar multiplicand, or a pairing argument), whatever internal representation the operand currently has. Under every interleaving each operation produces the result it produces alone, and the value of the operand does not change.",
 ["schedules"],"every interleaving of read-only operations on shared operands, normalized or not",
 "Single-threaded tests cannot see that a read-only operation rewrites its operand in several steps.",
 ["include/bn.h","include/zm.h","include/zm2.h"],[("read-only operations work on copies","include/bn.h EcT, opt_atePairing")],
 [("EcT::p","Jacobian coordinates, mutable so that the representation can change behind const","include/bn.h")],
 ["results per thread; value of the shared operand afterwards"])
prop("C03","Text round trip over any stream, also a slow or failing one",
 "Every number, field element and point written to a stream (decimal or hexadecimal, alone or several after each other) is read back as the same value, however the stream delivers or accepts the bytes: in pieces of any size, with any white space between values, under any global locale and any formatting state of the stream. If the stream fails at any byte, while writing or reading, the failure is reported by the stream state or an exception and never as a silently different value; the object involved and the stream's formatting flags are unchanged, and the same operation on a healthy stream succeeds.",
 ["inputs","fault_sequences"],"every value, every split of the byte stream, every position and kind of a read or write failure",
 "The tests convert a few values through complete in-memory strings; they never split, delay or fail a stream.",
 ["include/zm.h","include/zm2.h","include/bn.h"],[("getDigits","include/zm.h"),("toString, operator<<, operator>> of Vuint, Vsint, Fp, Fp2, Fp6, Fp12, EcT","include/zm.h, include/zm2.h, include/bn.h")],
 [],["bytes written, values read, stream state, stream flags"])
prop("C04","Damaged text is rejected or read exactly, and never does harm",
 "For every sequence of bytes offered as the text of a number, field element or point, reading it either yields exactly the value the consumed bytes denote in the documented notation or reports an error by an exception or the stream state. After an error the destination still has its old value, a point that was read or constructed with verification always satisfies its curve equation, and the process is never ended or corrupted by the text. Well-formed text, of any length of leading zeros, is accepted.",
 ["inputs","fault_sequences"],"every well-formed text with every combination of flips, cuts, insertions, duplications and swaps of its parts",
 "The tests feed a handful of malformed numbers; storage and network damage is unbounded.",
 ["include/zm.h","include/zm2.h","include/bn.h"],[("VuintT::set(str) strict digits and range","include/zm.h"),("all-or-nothing operator>>","include/bn.h"),("EcT::set verification","include/bn.h")],
 [],["value, exception, stream state, destination after an error, process status"])
prop("C05","Running out of memory is reported and harmless",
 "If any single memory allocation or several allocations made by an operation fail, the operation either completes with the right result or reports the failure by an exception or the stream state. Operands keep their values, nothing is leaked, a value being assigned keeps its old value unless it is a pure output, and repeating the operation with memory available gives the right result.",
 ["fault_sequences"],"every allocation of every operation, in any combination and history",
 "No test makes an allocation fail.",
 ["include/zm.h","include/zm2.h","include/bn.h","java/bn254_if.hpp"],[("temporaries and assign at the end; RAII containers","include/zm.h, include/bn.h")],
 [],["exceptions, stream state, live allocations, operand values"])
prop("C06","Initialization works, or fails loudly: never half initialized",
 "If memory, executable memory or page protection is refused at any moment of initialization, initialization reports it by an exception or ends the process with a non-zero status and a message; it never crashes later, never returns as if it had succeeded while operations give wrong results. If it reported an exception, initializing again with resources available gives a fully working library.",
 ["fault_sequences","crash_points"],"every allocation and system call of initialization refused, alone or in combination, in every configuration",
 "The tests initialize with all resources available.",
 ["include/bn.h","src/zm.cpp","src/zm2.cpp","src/xbyak/xbyak.h"],[("try/catch around code generation","src/zm.cpp zmInit, src/zm2.cpp Fp::setModulo"),("init flags","src/zm2.cpp")],
 [("static init flags","initialization is done once","src/zm.cpp, src/zm2.cpp")],["exit status, message, exception, results after a successful return"])
prop("C07","Results do not depend on configuration or initialization history",
 "Any history of operations gives bit-identical results for every choice of the code generation mode and of the use of special CPU instructions, and initializing again at any moment, with the same or other choices, changes no later result. In the build that supports several curves, selecting a curve by initialization gives the results of that curve, whichever curves were selected before.",
 ["configurations","histories"],"every configuration, every position and argument of repeated initialization in a history",
 "Each test process initializes once with one configuration and checks a fixed script.",
 ["include/bn.h","src/zm2.cpp"],[("generation of code per mode","src/zm2.cpp PairingCode::init"),("Param::init, Fp::setModulo early return","include/bn.h, src/zm2.cpp")],
 [("function pointers, ParamT statics, code buffer","configuration","src/zm2.cpp, include/bn.h")],["results of the same history under different configurations"])
prop("C08","Curve group operations follow the group laws in every history",
 "In every history of additions, doublings, negations, subtractions, multiplications by int, size_t, big or negative integers, normalizations, comparisons, copies and conversions on points of both groups, interleaved by any clients, with operands in any internal representation and with results stored over operands, every point equals the one obtained from the group law, including doubling through addition, opposite points and the point at infinity. Comparison, zero and validity tests agree with that, and operands do not change value.",
 ["histories","inputs"],"every history of group operations, including exceptional cases that only arise after certain histories",
 "Tests apply each operation to a few fixed points; exceptional cases depend on how a representation was produced before.",
 ["include/bn.h"],[("ECAdd, ECDouble, ScalarMult, normalize","include/bn.h ecop, EcT")],
 [("EcT::p","Jacobian coordinates","include/bn.h")],["value of every point after every step"])
prop("C09","Field tower arithmetic is exact and canonical in every history",
 "In every history of operations on elements of the prime field and its extensions of degree 2, 6 and 12 (addition, subtraction, negation, multiplication, squaring, inversion, halving, square root, powers, multiplication by the tower constants, double-width products and their reduction, conversion from and to integers), with results stored over operands and whatever garbage new objects contain, every element has exactly the mathematical value and a unique, fully reduced representation, so that equality of representation is equality of value.",
 ["histories","inputs"],"every history; operands produced by other operations, at the borders of the range, aliased",
 "Tests use few random and fixed operands per operation, and carries at limb borders, aliasing and lazily reduced values are mostly unvisited.",
 H,[("generated code for Fp, FpDbl, Fp2, Fp2Dbl, Fp6, Fp12","src/zm2.cpp"),("C++ parts of the tower","include/bn.h")],
 [],["every element after every step, limb by limb"])
prop("C10","The pairing is the optimal ate pairing on every route and history",
 "For all points of the two groups the pairing has the mathematically defined value: e(aQ, bP) = e(Q, P)^(ab) for all integers a and b, equal to 1 exactly if one argument is zero, and of order r otherwise. The value does not depend on the representation of the points or on the route: affine, Jacobian, point objects, precomputed table for one argument (reused any number of times, in any order), or two pairings evaluated together, which give the product of the two values.",
 ["histories","inputs"],"every pair of points, every history that produced, stored, reused or interleaved points, tables and accumulators",
 "Tests use one generator and two fixed scalars; special intermediate values and reuse of tables across histories are not visited.",
 ["include/bn.h","src/zm2.cpp"],[("opt_atePairing, opt_atePairingJac","include/bn.h"),("components::precomputeG2, millerLoop, millerLoop2","include/bn.h"),("final_exp","include/bn.h")],
 [("siTbl, gammar tables","loop and Frobenius constants","include/bn.h ParamT")],["pairing values"])
prop("C11","Parties using the library agree over an unreliable network",
 "Parties that run pairing based protocols (aggregate and threshold signatures, one round three party key agreement) with the library, each with its own configuration, exchanging points and field elements as text over a network that loses, delays, duplicates, reorders, splits and damages messages, and restarting from their stored text after crashes, never accept a forged or damaged signature, never derive different keys from the same messages, and never reject an honest undamaged message. Once faults stop they all finish within a bounded number of steps.",
 ["schedules","crash_points","fault_sequences"],"every schedule of deliveries, faults, crashes and restarts; every assignment of configurations to parties",
 "There is no multi-party test.",
 ["include/bn.h","include/zm.h","include/zm2.h","src/zm2.cpp"],[("pairing, group operations and text formats together","include/bn.h")],
 [],["decisions and keys of all parties"])
prop("C12","Big integer arithmetic is exact in every history",
 "In every history of operations on the unsigned and signed big integers and on integers modulo m (addition, subtraction, multiplication, division with remainder, shifts, comparison, bit access, inversion, powers, conversion from and to words and text), with results stored over operands of any length up to the capacity, and before as well as after the generated primitives replace the portable ones, every result equals the mathematical one: normalized, with remainders in the documented range. Division by zero and subtraction below zero are handled as documented; the remaining operands never change.",
 ["histories","inputs"],"every history of operations and every point of it at which the library is initialized; operands with stale words, at word borders, aliased",
 "Tests check a few dozen fixed values, from fresh objects.",
 ["include/zm.h","src/zm.cpp"],[("VuintT, VsintT, ZmZ","include/zm.h"),("generated primitives addN, subN, mul1, div1","src/zm.cpp")],
 [("FixedBuffer","words beyond size are stale","include/zm.h")],["value of every number after every step"])
prop("C13","The Java API layer is faithful to the library and reports errors",
 "In every history of calls of the classes exposed to Java, including element access that refers into a point or element, every object has the value given by the mathematical operation. Strings which do not begin with a well-formed value, points that are not on the curve and division by zero are reported by an exception, with the object unchanged when a string is bad, and no call corrupts another object.",
 ["histories","fault_sequences"],"every history of API calls, with bad strings and exhausted memory at any call",
 "The Java tests run one fixed script.",
 ["java/bn254_if.hpp"],[("wrapper classes Mpz, Fp, Fp2, Fp12, Ec1, Ec2","java/bn254_if.hpp")],
 [],["toString, equals, isValid, isZero of all objects after every call"])
prop("C14","Target group operations agree in every history",
 "For every element and every history of target group operations the final exponentiation is a homomorphism that maps every non-zero element of the degree 12 field into the group of order r, with the fixed exponent of the documented algorithm; Frobenius maps, cyclotomic squaring, compressed squaring with decompression and the fast power by the curve parameter give exactly what generic multiplication and powering give on their domain, also when the element is the identity and when the result is stored over the operand.",
 ["histories","inputs"],"every element, every chain of these operations, in place or not",
 "Tests compare one or two elements; degenerate compressed elements and chains are not visited.",
 ["include/bn.h","src/zm2.cpp"],[("final_exp, mapToCyclo, sqru, Frobenius*","include/bn.h Fp12T"),("CompressT","include/bn.h, src/zm2.cpp")],
 [],["every element after every step"])
prop("C15","Documented operation counts and speed",
 "Pairing, exponentiation and field operations take the documented number of field operations and clock cycles.",
 ["inputs"],"every operation","Benchmarks print numbers and assert nothing.",
 ["readme.md","test/bench.cpp"],[("generated code","src/zm2.cpp")])
prop("C16","Execution time does not depend on secret values",
 "The time and memory access pattern of operations with secret scalars does not depend on the scalar.",
 ["inputs"],"every scalar","Timing is not observed by tests; the library makes no such promise.",
 ["include/bn.h"],[("ScalarMult (variable time)","include/bn.h")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
