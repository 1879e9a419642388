#!/usr/bin/env python3
"""Writes known_findings.json: defects recorded rather than repaired ("findings") and repaired ones ("fixed")."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("C07", "9ba87b2", "a secret terminate signal was never revealed correctly: the evaluator sent nothing useful and the bits were XORed without regard to which side held one"),
    ("C05", "f80596b", "Bob lost publicly known one-bits that the output mask assigns to him (bits below the top of Alice's mask)"),
    ("C06", "dde6dea", "the evaluator compared gates with garbled tables it never received and read past the received tables"),
    ("C34", "2349014", "uninitialised padding bytes of garbled tables were sent to Bob"),
    ("C11", "d75aa43", "stale heap bytes in the padding of garbled tables, once the offset R itself, were sent to Bob"),
    ("C14", "bbe29fb", "failures inside the garbling and evaluation loops were dropped and success was reported"),
    ("C29", "d82c4fc", "CmpBlock compared only part of the 128 bits"),
    ("C12", "621b865", "labels, R and the garbling key came from a linear congruential generator seeded with the time, predictable from the transmitted key"),
    ("C34", "7435914", "memory was released with a function that does not match its allocation"),
    ("C21", "897c0ab", "ReadSCD accepted a file that ends early"),
    ("C22", "98bcc47", "the plaintext evaluator and its program reported success when they could not evaluate"),
    ("C17", "a9aace6", "outputs and terminate signals assigned a constant were translated to invalid wire numbers"),
    ("C17", "e0346f9", "assign statements only worked in dependency order"),
    ("C26", "c8f7693", "messages longer than the RSA modulus left their high part unmasked in the transcript (also the choice vector of OT extension beyond 1024 transfers)"),
    ("C15", "95b0427", "the plaintext evaluator accepted a request for zero clock cycles"),
    ("C23", "67d3985", "the trace stopped at the terminate entry and skipped later signals when a gate drives the terminate port directly"),
    ("C20", "9401a91", "pins of an unknown cell were taken over by the next cell, so the unknown cell went unnoticed"),
    ("C17", "2d28534", "reads of wire 0 were not renumbered when gates are reordered (circuits without inputs)"),
    ("C31", "4a02a73", "packing helpers truncated more than 255 outputs and more than 65535 bits"),
    ("C33", "b144429", "merge-sort did not sort: its split point was a global overwritten by the recursive calls"),
    ("C33", "2192dd6", "compare treated words with the top bit set as negative, unlike its ARM version"),
    ("C36", "a1b47e9", "every oblivious transfer left arrays and big numbers allocated"),
    ("C36", "4623cbd", "the hexadecimal string of every output value was left allocated (in separated-clock mode one per cycle)"),
    ("C36", "9cf6fd4", "a plaintext evaluation left the circuit, all inputs and the outputs allocated"),
    ("C35", "9fe0784", "Bob left the labels received by oblivious transfer allocated in every low-memory clock cycle"),
    ("C34", "40e1d0f", "the 192-bit AES key schedule read eight bytes past the key"),
    ("C38", "42d517c", "SHIFT_LEFT shifted right and SHIFT_RIGHT left"),
    ("C39", "6f14415", "sha3_seq started with the last round constant instead of the first"),
    ("C39", "7387f33", "modmult did not reduce its product and selected with inverted polarity"),
    ("C39", "47a5eff", "modexp_1_N left its output undriven"),
    ("C39", "08e7193", "modexp_2N_NN selected with inverted polarity"),
    ("C39", "f3d643b", "first_nns_comb and first_nns_seq kept the farther element"),
    ("C39", "023e681", "the taxicab nearest-neighbour circuits kept the wrong element"),
    ("C39", "b84a9c6", "stable_match did not produce a stable matching"),
    ("C39", "7007f9e", "cordic: direction of vectoring steps, and shifts of negative operands filled with zeros"),
    ("C33", "7b55657", "aes and sbox wrote S-box temporaries behind the end of their arrays"),
    ("C41", "22ddb06", "Lite_MIPS did not sign-extend LB and LH and zero-extended SLTIU's operand"),
    ("C42", "f5822da", "a23: MLA ignored the accumulator"),
    ("C42", "1123dd8", "a23: LSR/ASR #32, RRX and shifts by 32 and more from a register gave wrong values"),
    ("C42", "9564ef2", "a23: N, Z and V flags of ADCS, SBCS and RSCS"),
    ("C42", "0779e07", "a23: the shifter's carry input was wrong for AND, TST, SUB, CMP and RSB"),
    ("C42", "49accfd", "a23: a multiplication right after another one returned the first product"),
    ("C42", "3b738e2", "a23: conditional instructions that write the program counter did so unconditionally"),
    ("C43", "4ba56b7", "the shipped merge-sort p.txt was not what its source builds and did not sort"),
    ("C43", "d9864bf", "amber-elfsplitter wrote behind its buffer for a large .bss"),
    ("C43", "840601a", "inline assembly of compare and sum changed the flags without saying so; optimised builds went wrong"),
    ("C17", "86b9e96", "a netlist with a path of several hundred thousand cells overflowed the call stack of the translator"),
    ("C01", "adae0bd", "a path of more than a million gates that became useless overflowed the call stack of the engine"),
]
FINDINGS = []
with open(os.path.join(H, "known_findings.json"), "w") as f:
    json.dump(dict(findings=FINDINGS, fixed=["fixed: property=%s %s %s" % x for x in FIXED]), f, indent=1)
    f.write("\n")
