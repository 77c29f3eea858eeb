#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and the registered properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vp'))
import props

T = {}


def P(pid, title, statement, over, q, why, files, mech, note=''):
    T[pid] = dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': q}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]})


ENCW = ('The 1110 tests assemble one fixed text each and compare one word; a form with ten modifiers has thousands of modifier combinations and 2^40 operand values, of which the tests sample a handful, '
        'and almost none of them is an operand that must be rejected.')
ENCQ = 'every instruction form of the family, every combination of its modifiers, every register, predicate and immediate operand, in range or not'
TAB = [('instruction table', 'src/table.h: table'), ('operand encoders', 'src/operand.h: DEFINE_*'), ('form selection', 'src/parse.cpp: parse_instruction, parse_insn')]
P('C01', 'Integer, logic, move and video instructions encode as the hardware defines',
  'Every well-formed integer, shift, logic, bit-field, comparison, video or move instruction assembles to exactly the Maxwell machine word its mnemonic, modifiers and operands denote: opcode, every modifier bit, every register, '
  'predicate, constant-buffer and immediate field in its place and nothing else set. An operand that does not fit its field, or a combination of modifiers with no encoding, is rejected with a diagnostic instead of yielding a different instruction.',
  ['inputs', 'programs'], ENCQ, ENCW, ['src/table.h', 'src/operand.h', 'src/parse.cpp', 'src/helper.cpp'], TAB)
P('C02', 'Float, double, half and conversion instructions encode as the hardware defines',
  'Every well-formed single, double or half precision arithmetic, comparison, multifunction or format-conversion instruction assembles to exactly the Maxwell machine word its mnemonic, modifiers and operands denote. '
  'Combinations the hardware cannot express, such as a rounding mode that does not go with the formats or a byte selector on a halfword source, are rejected with a diagnostic.',
  ['inputs', 'programs'], ENCQ, ENCW, ['src/table.h', 'src/operand.h', 'src/parse.cpp', 'src/helper.cpp'], TAB)
P('C03', 'Memory, texture, surface and attribute instructions encode as hardware defines',
  'Every well-formed load, store, atomic, reduction, attribute, constant-buffer, shuffle, surface or texture instruction assembles to exactly the Maxwell machine word its mnemonic, modifiers, address and operands denote, '
  'for every way of writing the address (register with offset, offset alone, register alone, nothing). Offsets that do not fit or are misaligned and texture types or swizzles without an encoding are rejected with a diagnostic.',
  ['inputs', 'programs'], ENCQ + ', every way of writing an address', ENCW, ['src/table.h', 'src/operand.h', 'src/parse.cpp', 'src/helper.cpp'], TAB)
P('C04', 'Control-flow, predicate and system instructions encode as hardware defines',
  'Every well-formed control-flow, predicate, condition-code, barrier, system-register or synchronisation instruction assembles to exactly the Maxwell machine word its mnemonic, modifiers and operands denote, '
  'including numeric branch targets, every named system register and every condition code. Anything that does not fit is rejected with a diagnostic.',
  ['inputs', 'programs'], ENCQ + ', every 24-bit relative distance of a numeric target', ENCW, ['src/table.h', 'src/operand.h', 'src/parse.cpp', 'src/helper.cpp'], TAB)
P('C05', 'Integer literals mean their value or are rejected, in every operand',
  'An integer literal in decimal, hexadecimal or octal notation, with either sign, is encoded as exactly its value in every operand that takes integers, provided the value fits the range of that operand. '
  'Every other literal, of whatever length, is rejected with a diagnostic; no literal is silently truncated, wrapped or clamped.',
  ['inputs'], 'every integer literal in every integer operand of every instruction form',
  'Tests use a few small constants per field; the limits of signed, unsigned, split and scaled fields, 64-bit wrap-around and over-long literals are never exercised.',
  ['src/context.cpp', 'src/helper.cpp', 'src/operand.h'], [('literal scanner', 'src/context.cpp: context::tokenize'), ('range check', 'src/helper.cpp: convert_integer'), ('20-bit split immediate', 'src/helper.cpp: assemble_signed_20bit_immediate')])
P('C06', 'Floating immediates carry the correctly rounded or truncated value and sign',
  'A floating literal is encoded as the bits of its single, double or half precision value that the operand holds, with its sign, including zeros of either sign, subnormals, overflow and the named values infinity and not-a-number; '
  'half precision values are rounded to nearest even. An integer literal in a floating operand means the floating number of that value, and is rejected where a single cannot hold it exactly.',
  ['inputs'], 'every single precision value a literal can denote, every sign, every named value, every integer literal, in every floating operand of every form',
  'Tests use a few literals such as 1.5 and -2; rounding, subnormal, overflow and signed-zero cases number in the billions.',
  ['src/helper.cpp', 'src/fp16.h'], [('float immediates', 'src/helper.cpp: assemble_float_immediate, assemble_double_immediate, assemble_half_float_immediate'), ('half conversion', 'src/fp16.h: fp32_to_fp16')])
P('C07', 'A branch to a label encodes the distance to the labelled instruction',
  'In every program, an instruction that names a label encodes the distance from the instruction after it to the instruction the label stands in front of, taking the interleaved scheduling words into account, for labels before, at and after the branch and at the end of the program. '
  'A label is found by its whole name, case included, a name that labels several instructions means the first of them, and a name that is not defined is rejected with a diagnostic.',
  ['programs', 'inputs'], 'every program of bounded length, every branch position, every label position, every label name and every way of laying the labels out',
  'No test assembles a program with two instructions or a label, so label addresses and distances are not tested at all.',
  ['src/context.cpp', 'src/operand.h', 'src/parse.cpp'], [('label scan', 'src/context.cpp: context::generate_labels, find_label'), ('distance', 'src/operand.h: label operand'), ('program counter', 'src/parse.cpp: parse_instruction')])
P('C08', 'Code is laid out in bundles of one scheduling word and three instructions',
  'A program of any length assembles to its instructions in order, each group of three preceded by a scheduling word whose fields belong to those three instructions in order, with missing instructions given the default scheduling, '
  'and the code padded with unconditional no-operation instructions to a whole bundle. An empty program yields no code.',
  ['programs'], 'every number of instructions, every position of annotated instructions and reuse flags within the bundles',
  'Tests look at word 1 of one-instruction programs only: bundling, scheduling words and padding are never compared.',
  ['src/nxas.cpp', 'src/opcode.h'], [('bundle writer', 'src/nxas.cpp: assemble, generate_sched')])
P('C09', 'Scheduling annotations set exactly their fields or are rejected',
  'The stall count, yield, write barrier, read barrier and dependency annotations after an instruction set exactly their fields of its scheduling slot, in any order, and absent ones leave the defaults. '
  'A value out of range, an annotation given twice, or a dependency on the same barrier twice is rejected with a diagnostic.',
  ['inputs', 'programs'], 'every sequence of annotations with every value, after every instruction form',
  'No test contains an annotation.', ['src/parse.cpp', 'src/opcode.h', 'src/nxas.cpp'], [('annotations', 'src/parse.cpp: assemble_sched'), ('slot layout', 'src/opcode.h: opcode::sched')])
P('C10', 'Predicate guards are encoded on every instruction that allows them',
  'Every instruction written without a guard executes unconditionally, and a guard naming any predicate, negated or not, is encoded in the guard field without disturbing anything else. '
  'Instructions that cannot be predicated reject every guard other than the always-true one, and malformed guards are rejected with a diagnostic.',
  ['inputs', 'programs'], 'every guard on every form of every instruction',
  'A handful of tests carry a guard; whether each form accepts or rejects one is not tested.', ['src/parse.cpp', 'src/context.cpp', 'src/table.h'],
  [('guard', 'src/parse.cpp: parse_instruction, assemble_predicate'), ('no-predicate flag', 'src/table.h: NO_PRED')])
P('C11', 'Register operands name exactly R0 to R254 and RZ, and reuse flags follow them',
  'Every register operand accepts R0 to R254 and RZ and encodes that register, and rejects every other register number, however many digits it has. '
  'The reuse flag on a source operand sets exactly the flag of that operand in the scheduling slot, and is rejected on operands that cannot be reused.',
  ['inputs'], 'every register spelling in every register operand of every form, every combination of reuse flags',
  'Tests use one-digit registers mostly and never look at the scheduling word, where the reuse flags are.', ['src/context.cpp', 'src/helper.cpp', 'src/operand.h'],
  [('register scanner', 'src/context.cpp: context::tokenize'), ('reuse flags', 'src/helper.cpp: try_reuse')])
P('C12', 'No text makes the assembler crash, hang or run into undefined behaviour',
  'For every text whatsoever, valid or not, the assembler ends: it returns the code, or it exits with a non-zero status after printing a diagnostic. It never crashes, never hangs, and never reads or writes outside its data or otherwise depends on undefined behaviour.',
  ['inputs'], 'every byte string up to the bound, and every mutation of bounded size of texts of every instruction form, option and annotation, truncations included',
  'Tests feed well-formed texts and a few malformed ones; memory errors on malformed ones need not even be visible.', ['src/context.cpp', 'src/parse.cpp', 'src/options.cpp', 'src/operand.h', 'src/helper.cpp', 'src/error.cpp'],
  [('scanner', 'src/context.cpp'), ('parser', 'src/parse.cpp'), ('diagnostics', 'src/error.cpp')])
P('C13', 'White space between tokens never changes the result',
  'Replacing the white space between two tokens by any other amount and kind of white space, line ends and tabs included, or inserting some where none is needed, leaves the assembled code of every instruction unchanged.',
  ['inputs', 'programs'], 'every gap of every instruction form, guard, annotation and label, with every sequence of white space up to the bound',
  'Tests are written with single spaces.', ['src/context.cpp'], [('scanner', 'src/context.cpp: context::tokenize')])
P('C14', 'The shader container describes the code that follows it',
  'A compute program that asks for the shader container assembles to a control section of one 256-byte block, whose header and program header hold the sizes, offsets, entry point and the values of the options or their defaults, '
  'followed by the same code the program assembles to without the container, padded with zeros to 256 bytes. Without a main label at the start of a bundle, or for program types that are not supported, it is rejected with a diagnostic.',
  ['programs', 'configurations'], 'every number of instructions up to the bound, every position of the entry point, every combination and order of options and every option value',
  'No test uses the container.', ['src/dksh.cpp', 'src/write.cpp', 'src/options.cpp'], [('container', 'src/dksh.cpp: context::write_dksh'), ('padding', 'src/write.cpp: context::binary')])
P('C15', 'Options are read exactly or rejected, and do not leak into the code',
  'Each option in front of an instruction takes exactly its arguments, on its own line, with values in the documented range, and every unknown option, missing or extra argument, out-of-range value or repeated program type is rejected with a diagnostic. '
  'Options change neither the machine code nor the label addresses of the instructions around them.',
  ['inputs', 'configurations'], 'every option name and value, every sequence of options up to the bound, every place between instructions',
  'No test uses an option.', ['src/options.cpp', 'src/parse.cpp'], [('options', 'src/options.cpp: context::parse_option')])
P('C16', 'Text that is not an instruction is rejected, never guessed at',
  'A misspelt, missing, repeated, misplaced or foreign mnemonic, modifier, operand, operator or separator is rejected with a diagnostic and a non-zero status; nothing is silently ignored or taken for something similar. '
  'No output is produced for a program with a rejected instruction anywhere.',
  ['inputs', 'programs'], 'every replacement, insertion and deletion of bounded size in the text of every form',
  'There are few tests of rejected texts, each for one fixed text.', ['src/parse.cpp', 'src/operand.h', 'src/helper.cpp', 'src/context.cpp'], [('form selection', 'src/parse.cpp'), ('modifier tables', 'src/operand.h: DEFINE_DOT_TABLE'), ('lookup', 'src/helper.cpp: find_in_table')])
P('C17', 'Diagnostics name the file and the line and column of the offending token',
  'Every diagnostic about a token starts with the file name and the one-based line and column of that token, whatever precedes it: blank lines, tabs (four columns), carriage returns, labels, options and other instructions.',
  ['inputs', 'programs'], 'every amount and kind of white space and every number of lines in front of the error',
  'No test looks at diagnostics.', ['src/error.cpp', 'src/context.cpp'], [('position', 'src/context.cpp: context::next'), ('diagnostics', 'src/error.cpp')])
P('C18', 'The command line tool writes exactly the assembled code or reports failure',
  'The tool reads the whole input file, writes exactly the assembled words in little-endian order to the output file and exits with zero; for wrong arguments, a file that cannot be opened, read or written completely, or a program that is rejected, it prints a diagnostic and exits with a non-zero status. '
  'Unless it is writing that fails, a run that fails leaves the output file as it was.',
  ['inputs', 'fault_sequences', 'configurations'], 'every argument list up to the bound, every input content, every failing open, read and write',
  'Tests do not run the tool.', ['src/command_line.cpp'], [('main', 'src/command_line.cpp: main, read_file')])
P('C19', 'Every instruction and every call is assembled independently of the others',
  'The word of an instruction depends on that instruction alone (and, for branches, on the label distance), not on the instructions around it, and assembling a text gives the same result however many other texts, with whatever options and labels, were assembled before in the same process.',
  ['histories', 'programs'], 'every pair of neighbouring forms with free operands, every sequence of calls up to the bound',
  'Each test assembles one instruction in a fresh process.', ['src/parse.cpp', 'src/nxas.cpp', 'src/context.h'], [('saved state', 'src/parse.cpp: parse_instruction'), ('entry point', 'src/nxas.cpp: assemble')])

NOTE = ('bounded: bitcode of the current sources is executed symbolically by engine/symex.cpp, z3 decides every branch and the property at the end of every path; bounds: %s. Outside: %s')


def main():
    ids = [p for p in sorted(T) if p in props.PROPS]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in ids:
            f.write(json.dumps(T[p]) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 vp/build.py', 'checks': [], 'not_applicable': []}
    for p in ids:
        i = props.PROPS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                            'technique': 'symbolic execution of the LLVM bitcode of the current sources with state merging; z3 decides the property over all values within the bounds; counterexamples are replayed on the real build',
                            'level': 'model_checking', 'level_note': NOTE % (i['bounds'], i['outside'])})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    for p in ids:
        assert len(T[p]['title']) <= 80, p
        assert T[p]['statement'].count('. ') <= 2, p
    print(len(ids), 'properties')


main()
