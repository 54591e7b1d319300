#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the texts)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)))


VM = ["ckb_bf_vm/src/code.rs", "ckb_bf_vm/src/interpreter.rs", "ckb_bf_vm/src/matrix.rs"]
BASE = ["ckb_bf_base/src/main_config.rs", "ckb_bf_base/src/"]
p("C01", "Compilation keeps operations in order and resolves every loop target",
  "For every source text with balanced brackets, the compiled program is exactly the eight Brainfuck operations of the text in order, everything else ignored, where each bracket is followed by one extra cell. "
  "That extra cell holds the address just past the matching bracket pair member: for an opening bracket the address after its closing bracket's operand, for a closing bracket the address after its opening bracket's operand. "
  "Compilation terminates without a fault for every such text.",
  ["programs"], "every byte string with balanced brackets (compiled size below 65536 cells), any nesting depth and any non-operation bytes",
  "The tests compile a handful of fixed programs and only look at the program's output; nesting shapes, addresses past one byte and arbitrary comment bytes are never enumerated.",
  VM[:1], [("compile: one pass with a stack of open brackets", "ckb_bf_vm/src/code.rs")], observe=["the compiled program returned to the caller"])
p("C02", "The virtual machine executes Brainfuck faithfully, or stops with a fault",
  "Running a compiled program on an input performs exactly the Brainfuck steps: pointer moves, cell increments and decrements modulo the cell range, one input byte per read, one output per write, and loops taken or skipped according to the current cell, until the end of the program. "
  "Output, input consumed, memory and the sequence of machine states are those of the source program. "
  "Moving left of the first cell or reading past the end of the input never completes as if nothing had happened.",
  ["programs", "inputs"], "every balanced program, every input, every configured cell width, runs of any length that terminate",
  "Existing tests run a few programs and compare final outputs; wrap-around, loops skipped at zero, faults and intermediate states are not covered for all programs.",
  VM, [("run loop and register update", "ckb_bf_vm/src/interpreter.rs"), ("cell wrap-around", "ckb_bf_vm/src/interpreter.rs")],
  [("register", "clock, instruction pointer, memory pointer, current cell", "ckb_bf_vm/src/interpreter.rs"), ("memory", "the tape", "ckb_bf_vm/src/interpreter.rs")],
  ["output, input, memory and registers of the interpreter after run"])
p("C03", "The recorded execution tables are a faithful account of the run",
  "After a completed run, the processor table has one row per machine state including the final one, with the state's clock, addresses, instruction cells, cell value and its inverse. "
  "The memory table is those rows ordered by cell and then by time; the instruction table is the program's cells plus one row per executed state, ordered by address; the input and output tables list the bytes read and written, in order.",
  ["programs", "inputs"], "every balanced program and every input on which it completes",
  "The tests never look at the tables beyond feeding them to the circuit for a few programs.",
  VM, [("row recording and sorting", "ckb_bf_vm/src/interpreter.rs"), ("table rows", "ckb_bf_vm/src/matrix.rs")],
  [("matrix", "the recorded tables", "ckb_bf_vm/src/matrix.rs")], ["the tables handed to the circuit"])
p("C04", "Every honest execution satisfies the circuit",
  "For every program and input on which the virtual machine completes, the circuit built from the recorded tables is satisfied with the true program and input as public values. "
  "No honest run is rejected, whatever the verifier's random challenges are.",
  ["programs", "inputs"], "every balanced program and input on which the machine completes having read all of its input, all challenges, cell widths 1 to 8 bits",
  "The tests build the circuit for a few programs; a constraint that is too strict for an unusual run (wrap-around, revisited cells, empty output, skipped loops) shows only on that run.",
  BASE, [("gates and lookups of the five tables", "ckb_bf_base/src/"), ("witness assignment", "ckb_bf_base/src/main_config.rs")],
  observe=["satisfaction of all gates, lookups and copies on the assigned witness"])
p("C05", "The circuit accepts only correct step-by-step execution to the end",
  "A trace that does not begin in the initial state (clock, instruction pointer, memory pointer and cell all zero), that contains a step other than the one Brainfuck prescribes for the current instruction, or that stops before the end of the program never satisfies the circuit. "
  "This covers wrong jumps, wrong pointer moves, wrong arithmetic results, cell values outside the cell range, skipped, repeated or removed steps, and wrong clocks.",
  ["programs", "inputs", "histories"], "every program, every run of it, and every deviating trace, the cheating prover choosing all auxiliary cells and table layouts",
  "Tests show honest runs verify (and a few mutated ones fail); no test ranges over dishonest provers.",
  BASE, [("processor table gates", "ckb_bf_base/src/processor_table.rs"), ("range lookup", "ckb_bf_base/src/"), ("instruction table order and last row", "ckb_bf_base/src/instruction_table.rs")],
  observe=["satisfiability of the circuit for given trace tables"])
p("C06", "The circuit accepts only consistent memory",
  "In any accepted trace every cell reads zero before its first write and afterwards holds exactly what was last written to it, in clock order. "
  "A trace in which a cell changes behind the program's back, starts non-zero, lies left of the first cell, or whose accesses are reordered, dropped, duplicated or disagree with the processor's accesses never satisfies the circuit.",
  ["programs", "inputs", "histories"], "every program, run and forged memory account, the cheating prover choosing all auxiliary cells and the order of the memory table",
  "Tests only build the memory table honestly; forged or reordered tables are never tried.",
  BASE, [("memory table gates", "ckb_bf_base/src/memory_table.rs"), ("memory permutation argument", "ckb_bf_base/src/"), ("clock order lookup", "ckb_bf_base/src/memory_table.rs")],
  observe=["satisfiability of the circuit for given memory tables"])
p("C07", "The circuit accepts only execution of the public program",
  "A trace is accepted only if every executed instruction and every jump target is the one the public program holds at that address, and the public program (length included) is exactly the program that was executed. "
  "Replacing, adding, removing or reordering a cell of either the executed or the public program, running past its end, or stating another length never satisfies the circuit.",
  ["programs", "inputs", "histories"], "every public program and every trace, the cheating prover choosing the instruction table and all auxiliary cells",
  "Tests never present a proof for one program against another program's public values beyond a fixed example.",
  BASE, [("instruction table gates, permutation and evaluation arguments", "ckb_bf_base/src/instruction_table.rs"), ("copy to the public columns", "ckb_bf_base/src/main_config.rs")],
  observe=["satisfiability of the circuit for given tables and public values"])
p("C08", "The circuit accepts only the public input and the true output",
  "A trace is accepted only if the bytes it reads are exactly the public input in order, each read stored unchanged in the current cell, with the public length equal to the number of bytes read, and only if the output table lists exactly the values written, in order. "
  "Zero bytes count like any other byte.",
  ["programs", "inputs", "histories"], "every program, public input and trace, the cheating prover choosing the input and output tables and all auxiliary cells",
  "Tests use one input per program and never a mismatched one with the same checks enabled.",
  BASE, [("input and output evaluation arguments", "ckb_bf_base/src/"), ("copy to the public columns", "ckb_bf_base/src/main_config.rs")],
  observe=["satisfiability of the circuit for given tables and public values"])
exec(open(__file__.replace("props.py", "props_more.py")).read()) if __import__("os").path.exists(__file__.replace("props.py", "props_more.py")) else None
with open(__file__.replace("props.py", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
