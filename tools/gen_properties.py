#!/usr/bin/env python3
"""Writes properties.jsonl (one place to keep the property texts readable)."""
import json, os
P = []

def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

GC = ["garbled_circuit/garbled_circuit.cpp", "garbled_circuit/garbled_circuit_high_mem.cpp",
      "garbled_circuit/garbled_circuit_low_mem.cpp", "garbled_circuit/garbled_circuit_util.cpp"]
OBS_GC = ["return code and output string of GarbleStr / EvaluateStr", "bytes exchanged on the two parties' socket"]

p("C01", "Two-party evaluation of a combinational circuit computes its function",
  "For every well-formed combinational SCD circuit and every assignment of the public, garbler (Alice) and evaluator (Bob) inputs, a garbler and an evaluator that are run against each other both succeed and the output they reveal equals the Boolean function the circuit describes. This holds for all eleven gate types, for every fan-in/fan-out structure, for outputs that are inputs or shared wires, and for circuits with unused gates.",
  ["inputs", "programs"], "all acyclic netlists over the 11 gate types with constant/public/secret operands x all input values x random fragmentation of the connection",
  "The GC tests need benchmark circuits that are not in the tree (v.tar.gz), so no stable test garbles a single gate; even with them only a handful of fixed circuits is sampled.",
  GC, [("half-gate garbling/evaluation, free XOR/XNOR/NOT", "garbled_circuit/garbled_circuit_util.cpp GarbleGate/EvalGate"),
       ("label transfer and output decoding", "garbled_circuit/garbled_circuit_high_mem.cpp")], OBS_GC,
  [("wire labels", "pair of 128-bit labels per wire at the garbler, one active label at the evaluator", "garbled_circuit_high_mem.cpp")])

p("C02", "Sequential circuits: flip-flops, initial values and per-cycle inputs",
  "For every sequential SCD circuit and cycle count, clock cycle c of a two-party run reads input bits [c*n, (c+1)*n) of each party's input vector, starts each flip-flop from its declared initial value (constant 0/1 or the public, garbler or evaluator init bit), loads every flip-flop simultaneously with its D value at each following cycle, and reports output bits [c*m, (c+1)*m). Both parties see the values a cycle-by-cycle simulation of the circuit gives, in both the default and the low-memory engine.",
  ["inputs", "programs", "histories"], "all sequential circuits (DFF chains, swaps, constant D, shared D, unused DFFs) x cycle counts x inputs",
  "No stable test runs a sequential circuit; the quantifier is over circuits and histories of cycles.",
  GC + ["scd/scd.cpp"], [("DFF label initialisation and latching", "garbled_circuit_high_mem.cpp / garbled_circuit_low_mem.cpp GarbleMakeLabels, GarbleHighMem, EvaluateHighMem, ...")], OBS_GC)

p("C03", "The low-memory engine is observationally equal to the default engine",
  "For every circuit, inputs, cycle count, output mask, output mode, termination period and OT setting, running both parties with the low-memory option gives each party the same status and the same output string as running both parties without it.",
  ["inputs", "programs", "configurations"], "all multi-cycle requests x configurations",
  "Two separate 1100-line implementations of the same protocol; the tests that compare them need missing circuits.",
  ["garbled_circuit/garbled_circuit_high_mem.cpp", "garbled_circuit/garbled_circuit_low_mem.cpp", "util/util.cpp"],
  [("streamed per-cycle labels/tables/outputs", "garbled_circuit/garbled_circuit_low_mem.cpp"), ("output accumulation per mode", "util/util.cpp OutputBN2StrLowMem")], OBS_GC)

p("C04", "Delivering the evaluator's inputs by OT changes nothing but privacy",
  "For every circuit and input, a run in which the evaluator's labels are delivered by oblivious transfer yields the same statuses and outputs as a run with OT disabled, for any number of evaluator bits including zero, one, and more than 128 (where OT extension is used). This holds for evaluator init bits and evaluator input bits of every cycle.",
  ["inputs", "programs", "configurations"], "evaluator bit counts around every switch-over (0, 1, 127..129, several hundred) x init/input split x cycles x engine",
  "OT unit tests move standalone messages; none connects OT to label transfer, and the selector/label index arithmetic differs between engines and cycles.",
  GC + ["crypto/OT.cpp", "crypto/OT_extension.cpp"], [("combined init+input OT", "garbled_circuit_high_mem.cpp Garble/EvaluateTransferLabels"), ("switch at OT_EXT_LEN", "crypto/OT_extension.h")], OBS_GC)

p("C05", "The output mask partitions the output between the two parties",
  "For every output mask, each output bit whose mask bit is 1 appears with its true value only in the garbler's output and each whose mask bit is 0 (including all bits above the mask's top bit) appears with its true value only in the evaluator's output; the other party reads 0 there. The rule is identical for every clock cycle, for secret, public and constant outputs, and for both engines.",
  ["inputs", "configurations"], "all masks (empty, short, long, full) x circuits x cycles x output modes x engines",
  "Existing circuits-based tests use only the all-ones mask string.",
  ["garbled_circuit/garbled_circuit_high_mem.cpp", "garbled_circuit/garbled_circuit_low_mem.cpp"],
  [("GarbleTransferOutput/EvaluateTransferOutput and LowMem variants", "garbled_circuit_high_mem.cpp, garbled_circuit_low_mem.cpp")], OBS_GC)

p("C06", "Output modes are three renderings of one output vector",
  "For every run, output mode 0 prints the concatenation of all cycles' outputs (cycle 0 least significant), mode 1 prints one hexadecimal number per executed clock cycle in order separated by newlines, and mode 2 prints exactly the last executed cycle's output. All modes agree with each other and with the simulated outputs, for garbled execution in both engines and for the plaintext evaluator.",
  ["inputs", "configurations"], "modes x output widths (incl. not multiples of 4/8) x cycle counts x early termination",
  "Stable tests never render a multi-cycle output.",
  ["util/util.cpp", "garbled_circuit/garbled_circuit.cpp", "scd/scd_evaluator.cpp"],
  [("OutputBN2StrHighMem / OutputBN2StrLowMem", "util/util.cpp")], OBS_GC + ["output of EvalauatePlaintextStr"])

p("C07", "A terminate signal ends both parties at the same, correct cycle",
  "With a positive terminate period T on a circuit with a terminate signal, execution stops right after the first cycle c with c divisible by T whose terminate wire is 1, or after the requested number of cycles if there is none; both parties and the plaintext evaluator stop at the same cycle and report exactly the outputs of the executed cycles. This holds whether the terminate wire is public, constant, depends on secrets, is inverted, or is an input/flip-flop wire; with period 0 the signal is ignored.",
  ["inputs", "programs", "configurations"], "terminate wire kinds x periods x cycle counts x engines",
  "No stable test has a terminate signal, and the two parties decide termination in different code.",
  GC + ["scd/scd_evaluator.cpp"], [("GarbleTransferTerminate / EvaluateTransferTerminate", "garbled_circuit/garbled_circuit_util.cpp")], OBS_GC)

p("C08", "Gates on public, constant, equal or inverse operands evaluate correctly",
  "A gate any of whose operands is a constant or publicly known, or whose two secret operands are always equal or always complementary, yields the Boolean value its type defines at both parties, and this public or implied knowledge propagates correctly through later gates, flip-flops, clock cycles, outputs and unused logic. The parties never disagree about which gates need a garbled table.",
  ["inputs", "programs"], "circuits dominated by (type x operand-knowledge x operand-relation) combinations, through gates and flip-flops",
  "This is the SkipGate part of the engine; its case table (11 types x 4 knowledge x 3 relations x inversion) is not sampled by any stable test.",
  GC, [("known-value propagation and equal/inverse detection", "garbled_circuit_util.cpp HalfGarbleGate/HalfEvalGate/GarbleGate/EvalGate")], OBS_GC)

p("C09", "Communication: free gates cost nothing, other gates cost one table at most",
  "XOR, XNOR and NOT gates, gates whose result is determined by constants, public values, or equal/complementary operands, and gates whose outputs, because of such determined gates, cannot influence any output, flip-flop input or terminate signal in that cycle add no bytes to the traffic from garbler to evaluator (in circuits without dangling logic, i.e. where every gate is connected to an output, flip-flop or terminate signal). Every other gate adds at most one fixed-size garbled table per clock cycle.",
  ["programs", "inputs"], "pairs of circuits that differ by inserted free/needless logic, and circuits with a predicted table count",
  "No test measures traffic; a regression would only cost performance silently.",
  GC, [("fan-out reduction and table skipping", "garbled_circuit_util.cpp ReduceFanout, garbled_circuit_high_mem.cpp")], ["bytes from garbler to evaluator"])

p("C10", "Messages depend on secrets only through the selected labels",
  "With the garbler's randomness fixed, changing the garbler's secret inputs changes, in the garbler's stream, nothing except one 16-byte label per changed bit, always by the same session-wide offset; garbled tables, lengths and decoding information do not change. With OT enabled, changing the evaluator's inputs changes no message length or message order, and the evaluator's stream never contains its input vector.",
  ["inputs", "histories"], "pairs of secret inputs x circuits x engines x OT setting with fixed randomness",
  "Tests look only at outputs; a leak leaves every output correct.",
  GC + ["crypto/OT.cpp"], [("free-XOR offset, label selection", "garbled_circuit_high_mem.cpp GarbleTransferLabels")], ["full transcript of both directions"])

p("C11", "The garbler's global offset is never disclosed",
  "No transcript of a run contains the free-XOR offset that separates the two labels of every wire, nor any two 16-byte fields whose XOR is the offset; in particular never are both labels of one wire sent in clear. This holds for all circuits, input values, output masks, engines and OT settings.",
  ["inputs", "programs"], "circuits x inputs x configurations, offset recovered from a twin run with the same randomness and one flipped input bit",
  "Disclosure leaves outputs correct; tests only compare outputs.",
  GC, [("labels masked by OT / only active label sent", "garbled_circuit_high_mem.cpp, garbled_circuit_low_mem.cpp")], ["full transcript of both directions"])

p("C12", "Labels, keys and tables are fresh within and across sessions",
  "Within a session no two label, key or garbled-row fields the garbler sends are equal, across different wires, gates and clock cycles (even for identical gates with identical operands), except that a label is the same wire's label. Two sessions share no label, key or table row, even when they are started in the same second or with the same weak seed, and future secrets cannot be computed from values already sent in clear.",
  ["histories", "inputs"], "multi-cycle circuits with duplicated gates and held registers; pairs of sessions",
  "Randomness quality is invisible to tests that compare outputs.",
  GC + ["util/util.cpp"], [("RandomBlock/SrandSSE", "util/util.cpp"), ("per-gate, per-cycle tweak", "garbled_circuit_util.cpp GarbleGate")], ["full transcript of both directions"])

p("C13", "A party's stream carries no decoding information for the other's outputs",
  "When an output bit belongs only to the garbler, the garbler sends nothing that lets the evaluator decode it; when it belongs only to the evaluator, the evaluator sends nothing about it back. Hence the bytes each party sends for outputs number exactly those bits assigned to the other party, and with fixed randomness a party's stream for a smaller share is what remains after deleting those fields.",
  ["inputs", "configurations"], "masks x circuits x engines, comparing transcripts across masks with fixed randomness",
  "Outputs stay correct when too much is sent.",
  ["garbled_circuit/garbled_circuit_high_mem.cpp", "garbled_circuit/garbled_circuit_low_mem.cpp"],
  [("mask test before sending output types", "GarbleTransferOutput/EvaluateTransferOutput")], ["transcript lengths and contents"])

p("C14", "A vanished peer makes a run fail, never succeed, crash or hang",
  "If the connection of a run, or of a single oblivious transfer, is cut (or only one of its directions closed) after any number of bytes, each party's call returns: a party that has not received everything the protocol sends it returns failure, and one that reports success reports the correct output. No cut point makes a party crash, block for ever, or report success with a wrong output. The programs TinyGarble and OT_Main show the same by their exit status.",
  ["crash_points", "fault_sequences"], "every byte offset in both directions of recorded runs (enumerated for small runs, sampled for large ones) x engines x OT setting",
  "Tests only run complete sessions; the quantifier is over crash points.",
  GC + ["garbled_circuit/garbled_circuit_main.cpp", "crypto/OT_main.cpp", "tcpip/tcpip.cpp", "crypto/OT.cpp", "crypto/OT_extension.cpp", "crypto/BN.cpp"],
  [("CHECK on every transfer", "util/log.h, garbled_circuit_*.cpp"), ("short read/EOF handling", "tcpip/tcpip.cpp")], OBS_GC)

p("C15", "Impossible requests are refused before any secret is sent",
  "A request for zero clock cycles, for a terminate period on a circuit with no terminate signal, or for a circuit file that cannot be opened is refused with a failure status by garbler, evaluator and plaintext evaluator alike. The refusing party sends nothing on the connection and writes no output.",
  ["inputs", "configurations"], "the rejected request classes x all other parameters valid and random",
  "Stable tests issue only valid requests.",
  ["garbled_circuit/garbled_circuit.cpp", "scd/scd_evaluator.cpp", "scd/scd.cpp", "garbled_circuit/garbled_circuit_main.cpp"],
  [("early parameter checks", "garbled_circuit.cpp GarbleStr/EvaluateStr")], OBS_GC)

p("C16", "Hexadecimal input strings mean one number, whatever their spelling",
  "For init, input and mask strings, letter case and leading zeros are irrelevant, a string shorter than the port width is zero-extended, and digits beyond the bits consumed in the executed cycles are ignored. Garbler, evaluator and plaintext evaluator apply the same rule, so re-spelling any string of any party leaves every output unchanged.",
  ["inputs"], "all respellings (case, padding, truncation of zero digits, excess digits) of random inputs",
  "Tests use fixed full-width upper-case strings.",
  ["garbled_circuit/garbled_circuit_util.cpp", "garbled_circuit/garbled_circuit.cpp", "scd/scd_evaluator.cpp", "util/util.cpp"],
  [("ParseInitInputStr, BN_is_bit_set beyond top bit", "garbled_circuit_util.cpp")], OBS_GC)

p("C17", "Verilog netlist translation preserves the netlist's behaviour",
  "For every structural Verilog netlist in the documented subset (library cells incl. MUX, HADDER, FADDER and DFF with init pin, scalar and bus ports and wires, constants, assign aliases, any instance order), the produced SCD file computes, cycle by cycle for all inputs, the same outputs as the netlist. Ports map to input/output positions by role (p_init, g_init, e_init, p_input, g_input, e_input, o, terminate) and bit index.",
  ["programs", "inputs"], "all generated netlists in the subset x input vectors x cycles",
  "The V2SCD tests need missing benchmark archives; one fixed netlist could not cover cells, orders, bus forms and aliases anyway.",
  ["scd/parse_netlist.cpp", "scd/scheduling.cpp", "scd/v_2_scd.cpp", "scd/scd.cpp"],
  [("netlist parser and wire id assignment", "scd/parse_netlist.cpp"), ("topological sort and renumbering", "scd/scheduling.cpp")],
  ["SCD file written by Verilog2SCD, simulated by an independent reader"])

p("C18", "Every SCD file the translators write is well formed",
  "Every SCD file produced by a successful translation has counts that match its lists and the netlist's port widths, gate operands that are constants, inputs, flip-flop outputs or strictly earlier gates, valid gate codes, and outputs, D inputs, init references and terminate index within range (init references being constants or init inputs). Permuting cell instances or renaming internal wires does not change the gate multiset or what the circuit computes.",
  ["programs"], "all generated netlists and permutations/renamings of them",
  "Quantifies over netlists; nothing stable in the suite produces an SCD file.",
  ["scd/scheduling.cpp", "scd/scd.cpp", "scd/parse_netlist.cpp"],
  [("scheduling", "scd/scheduling.cpp"), ("WriteSCD", "scd/scd.cpp")], ["SCD file"])

p("C19", "Bristol-format circuits translate to equivalent SCD circuits",
  "For every Bristol-format circuit over AND, XOR and INV gates, the produced SCD file has the first party's bits as garbler inputs and the second party's as evaluator inputs in order, and its outputs equal the Bristol circuit's output wires in order for every input.",
  ["programs", "inputs"], "all generated Bristol circuits (any party sizes, blank lines, gate counts) x inputs",
  "No stable test translates a Bristol circuit.",
  ["scd/parse_netlist.cpp", "scd/v_2_scd.cpp", "scd/scheduling.cpp"], [("ParseBristol", "scd/parse_netlist.cpp"), ("Bris2SCD", "scd/v_2_scd.cpp")], ["SCD file written by Bris2SCD"])

p("C20", "Netlists that denote no circuit are refused, not mistranslated",
  "A netlist with a combinational loop, a reference to a wire nobody drives, an unknown cell type whose output is used, a cell that lacks a pin it needs, an input or output port with none of the documented names, or a missing input file makes the translator return failure without crashing or looping. A truncated netlist (no endmodule) is refused as well.",
  ["inputs", "programs"], "valid random netlists with one injected defect of each class at a random place",
  "Only valid inputs exist in the tests.",
  ["scd/parse_netlist.cpp", "scd/scheduling.cpp", "scd/v_2_scd.cpp"], [("loop detection in the topological sort", "scd/scheduling.cpp"), ("parser errors", "scd/parse_netlist.cpp")],
  ["status of Verilog2SCD"])

p("C21", "Writing and reading an SCD circuit is lossless",
  "Reading an SCD file gives exactly the sizes, gates (operands, type, output wire), outputs, D and init lists and terminate index written in it, in order; writing a circuit and reading it back is the identity. A file that ends early or cannot be opened is reported as a failure.",
  ["inputs"], "all circuits of the model, incl. empty sections, constants, and 1-element to multi-hundred-element lists; every token-level truncation",
  "No stable test reads or writes SCD.",
  ["scd/scd.cpp"], [("ReadSCD/WriteSCD", "scd/scd.cpp")], ["in-memory circuit returned by ReadSCD", "file written by WriteSCD"])

p("C22", "The plaintext evaluator equals the circuit's semantics",
  "For every SCD circuit and inputs, the plaintext SCD evaluator returns success and the outputs of the same cycle-by-cycle simulation that defines the garbled execution, including initial values, constants, termination and output modes.",
  ["inputs", "programs"], "circuits x inputs x cycles x modes x terminate periods",
  "The evaluator's tests need missing circuits.",
  ["scd/scd_evaluator.cpp", "util/util.cpp"], [("EvalauatePlaintext", "scd/scd_evaluator.cpp")], ["output of EvalauatePlaintextStr"])

p("C23", "Wire maps and simulation traces show the right signal values",
  "The map file written with a translated netlist names every flip-flop and gate output wire of the netlist and the terminate wire with the SCD wire index that carries that signal. The CSV trace the plaintext evaluator writes has one row per traced clock cycle holding, for each mapped name in order, that signal's value in that cycle (the cycle in which a circuit terminates need not have a row).",
  ["programs", "inputs"], "generated netlists x inputs x cycles",
  "Nothing checks map or CSV contents.",
  ["scd/v_2_scd.cpp", "scd/scd.cpp", "scd/scd_evaluator.cpp", "scd/scheduling.cpp"], [("map writer", "scd"), ("CSV writer", "scd/scd_evaluator.cpp")], [".map file", ".csv file"])

p("C24", "Base oblivious transfer delivers exactly the selected messages",
  "For any number of message pairs (including one), any 128-bit messages or big-number messages, and any choice bits, the receiver obtains for each index exactly the message its bit selects, and both calls succeed, under any fragmentation of the stream. If the parties disagree on the number of messages, neither reports success with wrong data.",
  ["inputs", "schedules"], "lengths, message values (zero, all-ones, leading zeros, equal pairs), choice vectors, fragmentation",
  "The OT unit test runs one length with random messages.",
  ["crypto/OT.cpp", "crypto/BN.cpp"], [("RSA-based 1-of-2 OT", "crypto/OT.cpp")], ["messages returned by the receiver calls"])

p("C25", "OT extension delivers exactly the selected messages",
  "For any number of message pairs m (below, at and above the base-OT length, multiple of 8 or not) and any choice bits and message values, the extended OT gives the receiver exactly the selected message for every index and both calls succeed, in the block and the big-number variant for every byte-multiple message length up to 256 bits.",
  ["inputs", "schedules"], "m in 1..several hundred incl. 127..129, byte boundaries; message lengths; choice vectors; fragmentation",
  "The extension's unit test samples one size.",
  ["crypto/OT_extension.cpp"], [("matrix transpose, correlated PRG/hash", "crypto/OT_extension.cpp")], ["messages returned by the receiver calls"])

p("C26", "OT transcripts reveal neither messages nor choices",
  "Neither direction of an OT or OT-extension transcript contains any of the sender's messages (of any length) or the receiver's choice vector in clear; repeating a transfer with the same messages and choices gives different receiver requests and sender replies. With the receiver's randomness fixed, message lengths and order do not depend on its choices, and the reply fields for the two messages of a pair differ from each other.",
  ["inputs", "histories"], "message/choice vectors x repetitions with fixed and fresh randomness",
  "A transfer that sends messages in clear still passes a delivery test.",
  ["crypto/OT.cpp", "crypto/OT_extension.cpp"], [("blinding with fresh x and k", "crypto/OT.cpp"), ("per-column PRG masks", "crypto/OT_extension.cpp")], ["full transcript of both directions"])

p("C27", "The byte transport delivers all bytes in order or reports failure",
  "Whatever the sizes of the buffers on either side and however the stream is fragmented or interrupted by (restarting) signals, a successful receive returns exactly the next bytes sent, in order, and a successful send has handed over every byte. When the peer closes before enough bytes arrived the receive reports failure, and a server and client that open the same port get connected to each other and can exchange data in both directions.",
  ["schedules", "inputs", "fault_sequences"], "write/read size sequences x fragmentation x EOF positions x signals x socket types",
  "The unit test exchanges one fixed message over loopback.",
  ["tcpip/tcpip.cpp"], [("send/recv loops", "tcpip/tcpip.cpp SendData/RecvData"), ("ServerInit/ClientInit", "tcpip/tcpip.cpp")], ["bytes received, status codes"])

p("C28", "Big-number and block helpers agree with exact arithmetic",
  "Sending a non-negative big number or a block over a connection and receiving it gives the same value for every value and width; conversion between blocks and big numbers is lossless in both directions; inversion of the low n bits, the all-ones number and bitwise XOR agree with integer arithmetic for all operands and lengths, also when destination and operand are the same object.",
  ["inputs"], "values of 0..several hundred bits incl. 0, leading-zero blocks, unequal lengths, aliasing",
  "The unit test samples a few random full-width values.",
  ["crypto/BN.cpp", "crypto/block.h"], [("BN_invert, BN_full_one, BN_xor, BlockToBN, BNToBlock, SendBN, RecvBN", "crypto/BN.cpp")], ["returned values"])

p("C29", "The block cipher and block primitives match their specifications",
  "For every key and block the block cipher used for garbling and hashing equals AES-128 as specified in FIPS-197, for any number of blocks encrypted in one call, and the block helpers (build from halves, XOR, compare, least-significant bit, zero, hex parsing and printing) match 128-bit integer arithmetic.",
  ["inputs"], "all keys/blocks (random plus structured), batch sizes 1..many, hex strings of 0..32 digits with separators",
  "No stable test compares the cipher with a second implementation.",
  ["crypto/aes.h", "crypto/block.h", "util/util.cpp"], [("AES-NI key schedule and ECB", "crypto/aes.h"), ("block inline helpers", "crypto/block.h")], ["returned values"])

p("C30", "Gate semantics: operator table and half-gate form agree",
  "For every gate type the Boolean operator is the one its name denotes, and for every non-free two-input type the three-bit half-gate description (v0, v1, v2) satisfies a op b = ((a xor v0) and (b xor v1)) xor v2 for all a, b. A single-gate circuit of each type behaves accordingly in the plaintext evaluator and in a two-party run for all four operand combinations and all ownerships of the operands.",
  ["inputs"], "exhaustive: 11 types x operand values x operand owners (constant, public, garbler, evaluator)",
  "Tests sample gates only through circuits that are not in the tree.",
  ["util/util.cpp", "util/common.h", "garbled_circuit/garbled_circuit_util.cpp"], [("GateOperator, Type2V", "util/util.cpp")], ["returned values", "outputs of one-gate runs"])

p("C31", "Packing inputs and unpacking outputs are exact inverses",
  "Packing integers into a hex input string by bit lengths places each value, truncated to its length, in order with the first value most significant; unpacking an output string by bit lengths recovers, as sign-extended values, exactly the fields at those positions above the given offset, for any lengths up to 64 bits (-2^63 aside) and any number of leading zero digits. Binary/decimal/hex conversions, two's complement and ownership-mask construction agree with integer arithmetic.",
  ["inputs"], "vectors of values and widths, offsets, digit case, missing leading zeros",
  "The unit test has a few fixed vectors.",
  ["util/util.cpp"], [("formatGCInputString, parseGCOutputString, dec2bin, bin2dec, hex2bin, bin2hex, towsComplement, formatGCOutputMask", "util/util.cpp")], ["returned strings and integers"])

p("C32", "The command-line programs compute what the library and model compute",
  "Translating a netlist with the translator program and running it with the plaintext evaluator program or with two TinyGarble processes over TCP prints, for every netlist, inputs given as strings or files, cycle counts, output masks and modes, and OT and memory options, exactly the outputs the netlist defines, with exit status zero. If a program cannot do what is asked (missing or unusable file, refused request, no peer) it exits with a non-zero status.",
  ["inputs", "programs", "configurations"], "random netlists and command lines over the three programs and OT_Main",
  "No stable test runs these programs.",
  ["garbled_circuit/garbled_circuit_main.cpp", "scd/v_2_scd_main.cpp", "scd/scd_evaluator_main.cpp", "crypto/OT_main.cpp", "tcpip/tcpip.cpp"],
  [("option parsing and orchestration", "*_main.cpp")], ["stdout and exit status of the programs"])

p("C33", "ARM-processor example programs compute their documented functions",
  "For all inputs in its documented domain, each secure-processor example program (AES-128, the AES S-box, bubble sort, merge sort, unsigned multi-word compare, CORDIC, Dijkstra, Hamming distance, matrix multiplication, memory test, multiplication, SHA3-256, multi-word sum) writes the result of the function it names to the output array, and accesses no memory outside its arrays.",
  ["inputs"], "random and boundary inputs per program against independent reference implementations",
  "Each program has exactly one g.txt/e.txt vector.",
  ["a23/aes", "a23/bubble-sort", "a23/compare", "a23/cordic", "a23/dijkstra", "a23/hamming", "a23/matrix-mul", "a23/mem-test", "a23/merge-sort", "a23/mul", "a23/sbox", "a23/sha3", "a23/sum"],
  [("gc_main of each program", "a23/*/*.c")], ["output array of gc_main"])

p("C34", "Valid use never corrupts or reads memory it does not own",
  "On every valid circuit, netlist, OT request and input the library performs no out-of-bounds, use-after-free or uninitialised-dependent access: results and transmitted bytes are a function of the inputs and the random source only, not of leftover memory contents. In particular no stale heap or stack bytes are sent to the peer.",
  ["inputs", "programs"], "the generators of C01-C08, C17, C19, C24, C25 under AddressSanitizer/UBSan and under different allocator fill patterns",
  "Silent over-reads leave outputs correct most of the time; the suite runs without sanitizers.",
  GC + ["scd/scd.cpp", "scd/parse_netlist.cpp", "scd/scheduling.cpp", "crypto/OT.cpp", "crypto/OT_extension.cpp", "crypto/BN.cpp"],
  [("allocation sizes and initialisation", "throughout")], ["sanitizer reports", "transcripts under different fill patterns"])

p("C35", "The low-memory mode's footprint does not grow with the length of the run",
  "A run of more than one clock cycle in the low-memory mode needs, at either party, an amount of heap memory that depends on the circuit but not on the number of clock cycles, apart from the room for the input numbers and for the outputs the output mode asks for (all cycles, or only the last one): labels, garbled tables, transfer state and other per-cycle data of earlier cycles are not kept. This holds with and without oblivious transfer, for every circuit, mask and output mode.",
  ["inputs", "configurations"], "random sequential circuits, cycle counts 2..1500, all output modes, masks, with and without OT",
  "No test runs the low-memory mode, and no test looks at memory; outputs stay right while memory grows.",
  ["garbled_circuit/garbled_circuit_low_mem.cpp", "garbled_circuit/garbled_circuit.cpp", "crypto/OT.cpp", "crypto/OT_extension.cpp", "util/util.cpp"],
  [("per-cycle loop of both parties", "garbled_circuit/garbled_circuit_low_mem.cpp")], ["highest and remaining heap use of GarbleStr / EvaluateStr"])

p("C36", "Repeated use accumulates neither memory nor open descriptors",
  "A process can make any number of library calls: after a successful garbled or evaluated run (either memory mode, with or without OT), oblivious transfer, plaintext evaluation, translation, or a connection that was opened and closed, everything the call allocated or opened has been given back except its result, so that heap in use and open descriptors do not grow with the number of calls, and the results of later calls are those of the first.",
  ["inputs", "histories"], "repetitions of one random call, of rounds of different calls, and series of different calls, per kind of call",
  "Tests make a few calls and exit; a leak shows only in the history of a process.",
  GC + ["crypto/OT.cpp", "crypto/OT_extension.cpp", "crypto/BN.cpp", "scd/scd.cpp", "scd/scd_evaluator.cpp", "scd/parse_netlist.cpp", "scd/v_2_scd.cpp", "tcpip/tcpip.cpp", "util/util.cpp"],
  [("ownership of arrays, big numbers, files and sockets", "throughout")], ["heap in use and open descriptors around each library call"])

CSY = "circuit_synthesis/"

p("C37", "Cell libraries, cell models, translator and evaluator agree on every cell",
  "For every cell of the shipped libraries (lib/dff_full and the ASIC libraries for Yosys) the function its name denotes to the translator, the function its Liberty entry states, the behaviour of its Verilog model (dff_full.v) and the value the translated circuit evaluates to are the same, for all input values, reset and initial values and every sequence of clock cycles. This holds for a single cell and for netlists built from them: a cell mapped by synthesis means the same gate after translation.",
  ["inputs", "programs", "histories"], "every cell and output exhaustively over its inputs; random netlists of library cells with flip-flops over several cycles",
  "No test reads the libraries; a wrong function in any of them silently changes every circuit synthesised with it.",
  [CSY + "lib/dff_full/dff_full.lib", CSY + "lib/dff_full/dff_full.v", CSY + "lib/asic_cell_yosys_extended.lib", "scd/parse_netlist.cpp", "scd/v_2_scd.cpp", "util/util.cpp"],
  [("cell functions", CSY + "lib"), ("cell table of the translator", "scd/parse_netlist.cpp")], ["Liberty functions and Verilog models as parsed", "outputs of the plaintext evaluator on V2SCD's circuit"])

p("C38", "The arithmetic modules of syn_lib compute their arithmetic at every width",
  "For every width parameter and every operand value, the modules of circuit_synthesis/syn_lib compute: ADD and SUB (sum and carry, difference and no-borrow), ADD_ and SUB_ (signed, one bit wider), COMP (A >= B), MULT and MULT_ (unsigned and signed product at full width), DIV and DIV_ (quotient truncated towards zero, divisor not zero), MUX, TwosComplement, COUNT (number of ones), SHIFT_LEFT and SHIFT_RIGHT (logical, by an operand), and square_root_comb (integer square root).",
  ["inputs", "configurations"], "all operand values for narrow widths, drawn and boundary operands for widths up to 600",
  "No test elaborates any Verilog; the benchmark circuits a user synthesises are built from these modules.",
  [CSY + "syn_lib"], [("width-generic generate loops", CSY + "syn_lib/*.v")], ["outputs of the elaborated modules"])

p("C39", "The benchmark circuits compute their documented functions",
  "For every admissible parameter setting and input, the benchmark circuits of circuit_synthesis, run for the number of clock cycles that goes with their parameters, output the function they are named after: sum, compare, hamming, mult (over CC cycles, carry or count kept in between), argmax, encoder, select, matrix multiplication (all four sequential layouts), AES-128 (combinational and one round per cycle), SHA3's keccak-f (combinational, and 24/CC rounds per cycle), nearest and k-nearest neighbours (Hamming and taxicab distance, combinational and sequential), modular multiplication and exponentiation (rsa), stable matching (Gale-Shapley result), CORDIC (circular and linear, rotation and vectoring, within the rounding error), the stack machine's instruction set, public_test and non_secret_test. The division and floating-point circuits (div, float) hand the DesignWare component they are built around the parties' operands, widths and rounding mode, and output its result.",
  ["inputs", "configurations", "histories"], "drawn parameters, inputs and instruction sequences per circuit, judged every cycle where the value is defined",
  "No test elaborates any Verilog.",
  [CSY + d for d in ("sum", "compare", "hamming", "mult", "argmax", "encoder", "select", "matrix_mult", "aes", "sha3", "knns", "knns_td", "rsa", "stable_match", "cordic", "stack_machine", "public_test", "non_secret_test", "div", "float")] + [CSY + "syn_lib"],
  [("one module tree per benchmark", CSY + "*/*.v")], ["outputs of the elaborated circuits, cycle by cycle"])

p("C40", "From Verilog through cells and translation to two parties: nothing is lost",
  "A benchmark circuit expressed in the cells of a shipped library (each used for the function the library states), translated by V2SCD and run for its clock cycles, gives the circuit's documented result both in the plaintext evaluator and in a two-party garbled evaluation, whichever equivalent cells were chosen, in either memory mode, with or without oblivious transfer, and under every output mask.",
  ["inputs", "programs", "configurations"], "drawn circuits, parameters, inputs, choice of cells and pins, library, memory mode, transfer, mask",
  "The steps are tested, if at all, one by one on fixed files; no test goes from Verilog to a garbled result.",
  [CSY + "lib", "scd/parse_netlist.cpp", "scd/scheduling.cpp", "scd/v_2_scd.cpp", "scd/scd_evaluator.cpp"] + GC + [CSY + "syn_lib"],
  [("flow described in README and circuit_synthesis/README", "throughout")], ["outputs of the plaintext evaluator and of both parties"])

p("C41", "The MIPS circuit (Lite_MIPS) executes its instruction set",
  "For every program of implemented instructions and every initial data memory, the circuit circuit_synthesis/mips (Lite_MIPS) executes one instruction per clock cycle as the MIPS I architecture defines it, without delay slots and with branch offsets counted from the branch itself: arithmetic and logic with registers and immediates (sign or zero extended as defined), signed and unsigned comparison, shifts by constants and registers, word, half-word and byte loads (sign or zero extended) and stores, branches on all conditions, jumps and calls. Register 0 stays zero, and nothing else in registers and memory changes. Unaligned word accesses (LWL and relatives), multiplication and division (whose unit is taken out), traps and coprocessor instructions are not part of it.",
  ["inputs", "programs", "histories"], "programs of up to the size of the code memory x initial memories; every cycle's memory compared",
  "The one MIPS test vector needs a netlist that is not in the repository; no test elaborates the processor.",
  [CSY + "mips"], [("decoder, ALU, shifter, register file, memories", CSY + "mips/*.v")], ["data memory after each clock cycle"])

p("C42", "The ARM circuit (a23 core) executes ARMv2a user programs",
  "For every user-mode program of implemented ARMv2a instructions and every content of the garbler's and evaluator's memories, the processor circuit (circuit_synthesis/a23, a23_gc_main) executes the program as the architecture defines it: data processing with all operand shifts and rotates (by constants and registers, through the carry, and by 32 and more), condition codes and flags, MUL and MLA, word and byte loads and stores and block transfers in all addressing modes, branches with link, and conditional execution of each of these including those that write the program counter. It raises terminate when, and only when, the program reaches its final branch to itself; the output memory then holds what the program wrote. Register offsets of single transfers are shifted left only; SWP, coprocessors, status-register access and other modes are not part of it.",
  ["inputs", "programs", "histories"], "programs within the code memory x memories; registers and flags dumped at the end",
  "The processor is tested only through precompiled programs on a netlist that is not in the repository; no test elaborates it.",
  [CSY + "a23"], [("pipeline, decoder, ALU, barrel shifter, multiplier, register bank, memories", CSY + "a23/*.v")], ["output memory at terminate"])

p("C43", "The ARM example programs, as shipped and as built, work on the processor",
  "The machine code shipped for each secure-processor example program (a23/*/p.txt) and the code its build chain makes (the program's C source with its ARM branches, start.S, sections.lds, amber-elfsplitter, amber-code32.sh) compute the program's documented function on the processor: arguments and results are found where the start code and the memory map place the garbler's, the evaluator's and the output memory, words after the results stay untouched, no access falls outside the memories, and the program ends by reaching the final loop. amber-elfsplitter and amber-code32.sh turn every ELF executable of the kind the linker script makes into one line per word, the word at address a on line a/4, without overrunning their buffers.",
  ["inputs", "programs"], "inputs as for C33 on an ARM interpreter and, for short programs, on the elaborated processor; generated ELF files for the tools",
  "Stable tests run the native branch only; the shipped binaries, the ARM assembly branches, the start code and the tools are run by nothing.",
  ["a23"], [("machine code", "a23/*/p.txt"), ("start code and memory map", "a23/lib/start.S, a23/include/sections.lds"), ("ELF to text", "a23/tools")], ["output memory", "text file of the program"])

p("C44", "Secure processors end to end: a program garbled on a processor circuit",
  "A processor circuit of the repository (the ARM core with a public program, or Lite_MIPS with the garbler's private program), expressed in the cells of a shipped library and translated by V2SCD, gives the result the program has on the architecture, with memories initialised from the parties' files, both in SCD_Evaluator_Main and in a run of two TinyGarble processes; with -t 1 the ARM run ends by itself when the program ends. This holds with and without oblivious transfer, in either memory mode and under every output mask.",
  ["inputs", "programs", "configurations"], "generated programs and memories, shipped programs in the thorough tier, library and cells, options",
  "The flow a23/README.md describes needs a netlist that is not in the repository, so nothing in the tests exercises it.",
  [CSY + "a23", CSY + "mips", CSY + "lib", "scd/v_2_scd_main.cpp", "scd/scd_evaluator_main.cpp", "garbled_circuit/garbled_circuit_main.cpp"] + GC,
  [("flow described in a23/README.md", "throughout")], ["printed outputs of the evaluator and both parties"])

p("C45", "The Yosys technology map implements every word-level operator at every width",
  "For every operand width, result width, signedness and operand value, the modules of circuit_synthesis/lib/stdcells_S.v (the technology map for synthesis with Yosys, with adders made of one AND per bit) compute what Yosys' cell of the same name means: add (plus the carry input added here), sub, neg, mul, div and mod (truncating towards zero, divisor not zero), the comparisons lt, le, gt, ge, eq, ne, eqx, nex, the shifts shl, sshl, shr, sshr (shift amounts of any width, also beyond the width of the operand), pmux and safe_pmux; operands are extended by their sign where they are signed, results cut or extended to the result width.",
  ["inputs", "configurations"], "all operand values for widths 1 to 3, drawn widths up to 70 (20 for multiplication and division) and operands",
  "No test reads the file; an operator that is wrong at one width silently changes every circuit synthesised with it.",
  [CSY + "lib/stdcells_S.v"], [("operator modules", CSY + "lib/stdcells_S.v")], ["outputs of the elaborated modules"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
