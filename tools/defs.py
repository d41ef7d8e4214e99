TECH = {
    'ai': 'path-sensitive abstract interpretation (affine/interval/zone domains, trace partitioning) over the type-checked AST',
}
BOUND = ('Every partition of the abstract state space is discharged or reported; loops are unrolled up to a bound per tier '
         'and anything beyond it is counted separately in the evidence. Trusts the clang front end, the container/stdio '
         'models in nsa/lib.py and the domain operations in nsa/dom.py.')

P = []


def prop(id, title, st, over, q, why, files, mech, note, tech=None, obs=None):
    P.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, note=note, tech=tech, obs=obs))


prop('P01', 'SNES addresses map to the cartridge offset the hardware reads',
     'For every 24-bit address and each of the three cartridge mappings, the address translation yields exactly the ROM offset '
     'the hardware would read, and refuses exactly the addresses that do not reach the cartridge: work RAM banks, the lower '
     'half of the system banks, and, for LoROM, the lower half of every bank.  ExHiROM selects its upper four megabytes with '
     'the inverted top address bit.',
     ['inputs', 'configurations'], 'all 2^24 addresses in all three mapping modes',
     'No test calls the translation at all; a sample of addresses cannot cover banks x halves x modes.',
     ['nsasm/rom.cc', 'nsasm/rom.h', 'nsasm/address.h'], [('address translation', 'nsasm/rom.cc:SnesToROMAddress')],
     'Complete over its domain: no loops, every partition decided. ' + BOUND)

prop('P02', 'Address arithmetic, comparison and text are exact',
     'Wrapped addition keeps the bank and is modulo 65536 in the offset; unwrapped addition carries into the bank; wrapped '
     'subtraction gives the signed 16-bit distance within a bank and an error across banks.  Addresses and label values compare '
     'and convert by numeric value, decompose into bank and offset, and print as a dollar sign and six hexadecimal digits.',
     ['inputs'], 'all addresses and all 32-bit offsets',
     'No test exercises address arithmetic near bank borders or with negative offsets.',
     ['nsasm/address.h'], [('address value type', 'nsasm/address.h:Address'), ('label value type', 'nsasm/address.h:LabelValue')],
     'Complete over its domain: no loops, every partition decided. ' + BOUND)

prop('P03', 'A ROM read returns exactly the mapped bytes or fails',
     'Reading a run of bytes succeeds exactly when every byte of the run, with addresses wrapping inside their bank, is mapped '
     'and inside the image; the result then has the requested length and each byte is the image byte at its mapped offset.  '
     'Empty reads succeed, negative lengths fail, and no read touches memory outside the image.',
     ['inputs', 'configurations'], 'every image size, mapping, address and length',
     'No test loads or reads a ROM; off-by-one and wrap errors need particular address/length/size combinations.',
     ['nsasm/rom.cc', 'nsasm/rom.h'], [('ROM read', 'nsasm/rom.cc:Rom::Read'), ('address translation', 'nsasm/rom.cc:SnesToROMAddress')],
     'Runs inside one bank are decided for every length; bank-wrapping runs up to the loop bound per tier. ' + BOUND)

prop('P04', 'Overwriting a ROM changes exactly the written bytes of the saved file',
     'A write is accepted exactly when every byte of its run maps inside the image, and a write past the end never touches '
     'memory outside it.  The saved file consists of the copier header, if there was one, followed by the image with exactly '
     'the bytes written replaced; saving reports success exactly when every file operation succeeded.',
     ['inputs', 'histories', 'fault_sequences'], 'every image, mapping, address, data and outcome of every file operation',
     'No test exercises the overwriting sink, and file faults cannot be sampled.',
     ['nsasm/rom.h', 'nsasm/rom.cc'], [('overwriting sink', 'nsasm/rom.cc:RomOverwriter::Write'), ('saving', 'nsasm/rom.cc:RomOverwriter::CreateFile')],
     'Writes of one and two bytes are compared byte for byte at an arbitrary file position; acceptance of longer writes up to the loop bound. ' + BOUND)

prop('P05', 'The identity-checking sink accepts exactly the bytes of the ROM',
     'A write to the identity-checking sink succeeds exactly when every byte of the run is mapped, lies inside the image and '
     'equals the image byte there; any mismatch, even in the last byte or across a bank wrap, is reported as an error.',
     ['inputs', 'configurations'], 'every image, mapping, address and data',
     'No test exercises the sink; a single missed byte position needs the right data at the right address.',
     ['nsasm/rom.h', 'nsasm/rom.cc'], [('identity sink', 'nsasm/rom.cc:RomIdentityTest::Write')],
     'Runs of one to three bytes are decided completely. ' + BOUND)

prop('P06', 'ROM files are recognised, stripped of their header and mapped correctly',
     'A file is accepted exactly when its size is a multiple of 4096 bytes, optionally plus a 512-byte copier header, at least '
     '64 KiB without it, and exactly one of the two candidate cartridge headers carries a complementary checksum; that header '
     'decides the mapping, with ExHiROM for images of four megabytes and more.  The loaded image is the file contents after any '
     'copier header, and any failed file operation makes the load fail.',
     ['inputs', 'fault_sequences'], 'every file size and contents and every outcome of every file operation',
     'No test loads a file.',
     ['nsasm/rom.cc'], [('loader', 'nsasm/rom.cc:LoadRomFile')],
     'Complete over symbolic file size and contents. ' + BOUND)

prop('P07', 'Every opened file is closed exactly once on every path',
     'Loading and saving a ROM release every file they opened on every exit, including every failure of every file operation, '
     'never close it twice and never use it after closing.',
     ['fault_sequences'], 'every combination of outcomes of the file operations',
     'Leaks on failure paths need injected I/O faults; no test performs I/O.',
     ['nsasm/rom.cc'], [('loader', 'nsasm/rom.cc:LoadRomFile'), ('saving', 'nsasm/rom.cc:RomOverwriter::CreateFile')],
     'Complete over the outcomes of the modelled stdio calls. ' + BOUND,
     tech='typestate analysis of file handles by path-sensitive abstract interpretation; call-graph rule for who may open files')

prop('P08', 'Multi-byte reads combine bytes little-endian at wrapped addresses',
     'Reading a byte, word or long from an input source yields the little-endian combination of the bytes at the address and '
     'its bank-wrapped successors, and fails exactly when one of those bytes cannot be read.',
     ['inputs', 'configurations'], 'every address, mapping, image size and contents',
     'No test reads values through an input source.',
     ['nsasm/memory.cc', 'nsasm/memory.h'], [('read helpers', 'nsasm/memory.cc:InputSource::ReadByte/ReadWord/ReadLong')],
     'Complete over its domain. ' + BOUND)

prop('P09', 'Numeric coercion and type combination follow the 65816 types',
     'Coercing a value to a numeric type yields the one representative of that value modulo the width that lies in the range '
     'of the type, for numbers and labels alike, and leaves it unchanged for the unknown type.  Combining two types gives the '
     'wider width, signed when either is signed, and the unknown type is neutral.',
     ['inputs'], 'all 32-bit values, all types and all pairs of types',
     'No test covers coercion in the buildable test set.',
     ['nsasm/numeric_type.h', 'nsasm/address.h'], [('coercion', 'nsasm/numeric_type.h:CastTo'), ('combination', 'nsasm/numeric_type.h:ArtihmeticConversion')],
     'Complete over its domain. ' + BOUND)

prop('P10', 'Claimed byte ranges are exact, conflict-detecting and canonical',
     'After any history of claims an address is in the set exactly when some claim covered it, where a run claimed by address and '
     'length wraps inside its bank.  A claim reports success exactly when none of its bytes was claimed before, and the '
     'reported chunks are always ascending, non-empty, disjoint and non-adjacent.',
     ['histories', 'inputs'], 'every history of claims of arbitrary ranges',
     'Tests use a handful of fixed ranges of three chunks.',
     ['nsasm/ranges.cc', 'nsasm/ranges.h'], [('claiming', 'nsasm/ranges.cc:DataRange::ClaimBytes'), ('membership', 'nsasm/ranges.cc:DataRange::Contains')],
     'Inductive step decided for every state of up to 4 (thorough 6) chunks and every claim; wide claims over 12 (24) chunks; states with more chunks are outside. ' + BOUND)

prop('P11', 'The range map never overlaps entries and looks up the covering value',
     'Inserting a set of ranges succeeds exactly when it overlaps no earlier entry, and a refused insertion changes nothing.  '
     'Looking up any address yields the value of the entry that covers it, and nothing when no entry does, also when entries '
     'touch or consist of several ranges.',
     ['histories', 'inputs'], 'every history of insertions of arbitrary range sets',
     'The one test uses four fixed ranges and no conflicting insertion.',
     ['nsasm/ranges.h'], [('range map', 'nsasm/ranges.h:RangeMap')],
     'Decided for the listed shapes (up to two entries plus one insertion quick, three thorough) with arbitrary bounds and values. ' + BOUND)

prop('P12', 'Mnemonic, suffix and directive names convert both ways',
     'Every 65816 mnemonic, pseudo-mnemonic, size suffix and directive prints as its own name, and a string is recognised '
     'exactly when it is a letter-case variant of such a name, as that very item.  Values outside the lists print as nothing, '
     'and the lists offered for iteration contain every item once.',
     ['inputs'], 'every item in every letter case, and every string',
     'The test covers lower and upper case of listed names only, not mixed case, unlisted directives, arbitrary strings or the iteration lists.',
     ['nsasm/mnemonic.cc', 'nsasm/mnemonic.h'], [('names', 'nsasm/mnemonic.cc:ToString/ToMnemonic/ToSuffix/ToDirectiveName'), ('lists', 'nsasm/mnemonic.cc:AllMnemonics/AllSuffixes')],
     'Complete over the finite tables; arbitrary strings symbolically. ' + BOUND)

prop('P15', 'Diagnostics name the file and position they concern',
     'Merging locations overrides exactly the parts the newer location has, and a location with a path renders as the path, '
     'followed by its line number or its six-digit hexadecimal address.  A diagnostic is its location, a colon and its message; a '
     'failed ROM read is reported at the path of the image and an address of the run, and failed loads and saves name the file.  A result is '
     'a failure exactly when it was made from a diagnostic, and results compare by value or by diagnostic.',
     ['inputs', 'fault_sequences'], 'every combination of present and absent location parts, every failing read, load and save',
     'No test checks a location or the text of a diagnostic from the ROM code.',
     ['nsasm/location.h', 'nsasm/error.h', 'nsasm/error.cc', 'nsasm/rom.cc'],
     [('locations', 'nsasm/location.h:Location'), ('diagnostics', 'nsasm/error.cc:Error::ToString')],
     'Complete over the location shapes; runs of reads up to the loop bound. ' + BOUND)

prop('P16', 'Status flag states are sound and exact',
     'A flag state always covers every concrete flag value it was built from: emulation mode forces the two width bits, setters '
     'change their bit only, entering a subroutine turns unknown bits into original ones, and exchanging carry and emulation '
     'covers every outcome and keeps known bits.  Merging two states covers both, keeps bits known in both and adds nothing '
     'when repeated, and states are equal exactly when all four bits are.',
     ['inputs', 'histories'], 'all flag states, all pairs of states and all operations',
     'No test covers the flag states; 256 states and their pairs are beyond examples.',
     ['nsasm/execution_state.h'], [('flag states', 'nsasm/execution_state.h:StatusFlags'), ('bit constraint', 'nsasm/execution_state.h:ConstrainedForEBit')],
     'Complete: the whole finite domain is decided against an oracle of concrete flag values. ' + BOUND)

prop('P17', 'Values pulled from the modelled stack are the ones pushed',
     'On the modelled stack every pull yields what the matching push stored, bytes, words, registers in their width, flags and the '
     'data bank alike, or reports it unknown; it never yields a wrong value.  Pulling from an empty stack, across entries of '
     'variable width or with an unknown width gives the stack up, and a stack once given up stays so.',
     ['histories', 'inputs'], 'every sequence of pushes and pulls',
     'No test exercises the modelled stack.',
     ['nsasm/execution_state.h'], [('stack', 'nsasm/execution_state.h:Stack'), ('entries', 'nsasm/execution_state.h:StackValue')],
     'Sequences of up to two pushes and two pulls over every kind of item with symbolic values. ' + BOUND)

prop('P18', 'Merging execution states keeps exactly what both agree on',
     'Merging two execution states merges each register, the flags and the stack with its counterpart: what both agree on is kept, '
     'what differs becomes unknown, and stacks of different shape are given up.  Merging again changes nothing, and states '
     'compare equal exactly when every component does, so that repeated merging reaches a fixed point.',
     ['histories', 'inputs'], 'all pairs of execution states',
     'No test merges execution states.',
     ['nsasm/execution_state.h'], [('state merge', 'nsasm/execution_state.h:ExecutionState::operator|='), ('stack merge', 'nsasm/execution_state.h:Stack::operator|=')],
     'All register states with symbolic values, all pairs of stacks of up to two items, all subsets of differing components. ' + BOUND)

prop('P19', 'Flag-state names and return conventions convert both ways',
     'A string is recognised as a flag state exactly when it is a letter-case variant of one of the eleven names, and stands for '
     'that state; every state prints as the name of what is known of it, with a known carry added in the readable form.  A return '
     'convention is the default, yields its flags or never returns, prints as the matching suffix, and sets exactly the flags it yields.',
     ['inputs'], 'all flag states and every string',
     'No test covers names of flag states or return conventions.',
     ['nsasm/execution_state.cc', 'nsasm/calling_convention.h', 'nsasm/calling_convention.cc'],
     [('names', 'nsasm/execution_state.cc:StatusFlags::FromName/ToName'), ('conventions', 'nsasm/calling_convention.h:ReturnConvention')],
     'Complete over the states; arbitrary strings symbolically. ' + BOUND)

prop('P20', 'The dump tool lists exactly the requested memory or fails visibly',
     'The dump tool prints the origin followed by exactly the requested number of values in the requested width, each the value '
     'stored at its bank-wrapped address, at most the requested number per line, with the directive of their width.  '
     'A malformed or out-of-range argument explains the usage, a failed load or read prints its error, and both make the exit '
     'status non-zero.',
     ['inputs', 'fault_sequences'], 'all arguments, image sizes and contents',
     'No test runs the tool.',
     ['util/quick_dump.cc'], [('tool', 'util/quick_dump.cc:main')],
     'Up to 17 (thorough 19) values per dump and every stride and line length class. ' + BOUND)

prop('P21', 'Opcodes, mnemonics and addressing modes follow the 65816 table',
     'Every one of the 256 opcodes decodes to the mnemonic and addressing mode of the 65816 instruction set, including modes and '
     'immediates whose width follows the M or X flag, and encoding any legal combination gives that opcode back.  A combination is '
     'legal exactly when the table has it, and every instruction has the size its addressing mode and flag width dictate.',
     ['inputs'], 'all 256 opcodes, all mnemonics and addressing modes and flag states',
     'The tests of the opcode map are not in the buildable test set; a single swapped entry is invisible to the others.',
     ['nsasm/opcode_map.cc', 'nsasm/opcode_map.h'], [('opcode map', 'nsasm/opcode_map.cc:DecodeOpcode/EncodeOpcode'), ('sizes', 'nsasm/opcode_map.cc:InstructionLength')],
     'Complete: the whole table is compared with an independently written table of the instruction set. ' + BOUND)

prop('P22', 'Decoding yields the instruction the bytes encode, or fails',
     'Decoding a byte string yields the instruction and operands the processor would execute for it with the given flags: the '
     'opcode selects mnemonic and mode, the known M or X bit selects the width of an immediate, operands are little-endian, '
     'branch displacements signed, and block moves name the bank stored last first.  It fails exactly when a needed byte is '
     'missing or the width of an immediate is unknown.',
     ['inputs', 'configurations'], 'all byte strings and flag states',
     'The decoder tests do not build here and use examples.',
     ['nsasm/decode.cc', 'nsasm/decode.h'], [('decoder', 'nsasm/decode.cc:Decode')],
     'Complete over opcodes, flag widths, operand bytes and string lengths. ' + BOUND)

prop('P23', 'Assembling an instruction writes exactly its 65816 encoding',
     'Assembling an instruction writes the opcode and little-endian operand bytes of its mnemonic, mode and operands at its address '
     'and nothing else, with exactly the size it announces.  Relative branches encode the distance from the following instruction '
     'and are refused when it does not fit or crosses banks; unresolved operands, failed writes and illegal combinations fail.',
     ['inputs', 'configurations', 'fault_sequences'], 'all instructions, operand values, addresses and failing writes',
     'The assembler tests do not build here and use a handful of operands.',
     ['nsasm/instruction.cc', 'nsasm/instruction.h'], [('encoder', 'nsasm/instruction.cc:Instruction::Assemble'), ('size', 'nsasm/instruction.cc:Instruction::SerializedSize')],
     'Complete over mnemonic, mode, width and operand values. ' + BOUND)

prop('P24', 'Expressions evaluate, type and print by the language rules',
     'Evaluating an expression yields the value its operators give to the values of its operands coerced to their types, names '
     'taking the value the context gives them, and fails exactly when a name is unresolved, a division is by zero or its quotient '
     'overflows, or an operation does not apply to its operands.  Copies denote the same expression and text parses back to it.',
     ['inputs', 'configurations'], 'all operators, operand values, types and name contexts',
     'The expression tests do not build here and evaluate literals only.',
     ['nsasm/expression.h', 'nsasm/expression.cc', 'nsasm/identifiers.h'], [('expressions', 'nsasm/expression.cc:BinaryExpression/UnaryExpression')],
     'Every operator over arbitrary operand values and types, nested to depth two. ' + BOUND)

prop('P25', 'Operand syntax and widths select the addressing mode',
     'The operand syntax of an instruction, the widths of its operands and the known flag widths select the one addressing mode '
     'the instruction has for them, preferring the narrowest that holds the operand, branches taking the relative mode; '
     'anything the processor lacks is an error.  An addressing mode prints its operands in the syntax that selects it.',
     ['inputs', 'configurations'], 'all mnemonics, operand syntaxes, operand widths and flag states',
     'The tests of addressing mode deduction do not build here.',
     ['nsasm/addressing_mode.cc', 'nsasm/addressing_mode.h'], [('deduction', 'nsasm/addressing_mode.cc:DeduceMode'), ('operand text', 'nsasm/addressing_mode.cc:ArgsToString')],
     'Complete over mnemonics, syntaxes, width classes and flag widths. ' + BOUND)

prop('P26', 'Executing an instruction keeps the modelled state sound',
     'After any instruction, fallen through or branched, the modelled flags cover every state the processor can be in, and bits the '
     'instruction fixes or leaves alone stay known.  Registers are claimed only to hold values they hold: a load, transfer, pull, '
     'call or change of width never leaves a stale value; the modelled stack gains and loses exactly the pushed and pulled entries.  '
     'Unresolved operands mark the state for re-evaluation.',
     ['inputs', 'histories', 'configurations'], 'all instructions, flag states, register values and modelled stacks',
     'No test executes an instruction on a modelled state.',
     ['nsasm/instruction.cc', 'nsasm/execution_state.h'], [('execution', 'nsasm/instruction.cc:Instruction::Execute'), ('taken branches', 'nsasm/instruction.cc:Instruction::ExecuteBranch')],
     'Flags completely for the flag-changing instructions; stacks of up to three entries. ' + BOUND)

prop('P27', 'Instructions print as written and report where control goes',
     'An instruction ends a run of code exactly when it jumps, returns, stops, always branches or calls what never returns; exactly '
     'the relative branches are local; a jump or call of a fixed known address goes to that address, a short one within the '
     'bank of the instruction, and nothing else has a far target.  It prints as name, suffix, operands and return convention.',
     ['inputs', 'configurations'], 'all instructions, operand values, addresses and return conventions',
     'No test asks an instruction where control goes.',
     ['nsasm/instruction.cc', 'nsasm/instruction.h'], [('flow', 'nsasm/instruction.cc:Instruction::IsExitInstruction/IsLocalBranch/FarBranchTarget'), ('text', 'nsasm/instruction.cc:Instruction::ToString')],
     'Complete over mnemonic, mode and return convention, operand values symbolically. ' + BOUND)

prop('P28', 'Instructions are accepted exactly where the flag state fits them',
     'An instruction is consistent with a flag state exactly when the processor has its mnemonic and mode, its suffix belongs to an '
     'instruction of flag-dependent width and does not contradict the flag, and an immediate whose width follows M or X '
     'has a known flag of that width.  Fixing a flag-dependent mode yields the one the known flag selects and fails when unknown.',
     ['inputs', 'configurations'], 'all mnemonics, addressing modes, suffixes and flag states',
     'No test of the buildable set checks an instruction against a flag state.',
     ['nsasm/instruction.cc', 'nsasm/instruction.h'], [('consistency', 'nsasm/instruction.cc:Instruction::CheckConsistency'), ('fixing', 'nsasm/instruction.cc:Instruction::FixAddressingMode')],
     'Complete over mnemonics, modes, suffixes and width bits. ' + BOUND)

prop('P29', 'Directives do, write and print what they say',
     'A data directive writes exactly its values, little-endian, at its address in one write of the size it announces, and cannot be '
     'executed; unresolved values and failed writes fail.  A mode directive replaces the flags, an origin ends execution, '
     'halt ends a run of code, and no other directive changes anything.  Each prints all it says in the syntax it is read from.',
     ['inputs', 'configurations', 'fault_sequences'], 'all directives, argument values, addresses and failing lookups and writes',
     'No test assembles or prints a directive in the buildable set.',
     ['nsasm/directive.cc', 'nsasm/directive.h', 'nsasm/statement.cc', 'nsasm/statement.h'],
     [('directives', 'nsasm/directive.cc:Directive::Execute/Assemble/ToString'), ('statements', 'nsasm/statement.cc:Statement')],
     'All directives; lists of up to four values. ' + BOUND)

prop('P30', 'Source text splits into exactly the tokens it spells',
     'Every line of text is split, after white space and up to a comment, into the longest possible symbols, reserved words, names '
     'and literals in order, each carrying the location of the line; a literal has exactly the value its digits spell and the width '
     'its form implies, and is refused when it does not fit; a character no token begins with and an unknown dotted word are '
     'refused at that location.  Tokens compare equal exactly when they say the same.',
     ['inputs'], 'all texts', 'The tokenizer is outside the buildable tests, and no finite set of lines settles maximal munch or literal ranges.',
     ['nsasm/token.cc', 'nsasm/token.h'], [('tokenizer', 'nsasm/token.cc:Tokenize'), ('equality', 'nsasm/token.h:Token::operator==')],
     'Any two characters (thorough: three), literals of up to 20 (binary 33) digits, words of up to eight, any two tokens in sequence. ' + BOUND)

prop('P31', 'Lines parse into exactly the statements the grammar gives',
     'A line of tokens is refused, at its location, exactly when it is outside the grammar; any other line yields its labels, '
     'instructions and directives in order with nothing lost: operands in the syntactic mode written, expressions with the usual '
     'precedence and grouping to the left, names qualified and long as written, return conventions only on calls.',
     ['inputs'], 'all lines of tokens', 'The parser is outside the buildable tests, which could sample only a few lines.',
     ['nsasm/parse.cc', 'nsasm/parse.h'], [('statements', 'nsasm/parse.cc:Parse'), ('expressions', 'nsasm/parse.cc:Expr/Term/Factor/Comp'), ('operands', 'nsasm/parse.cc:ParseInstructionCore')],
     'Every prefix of every form followed by any token (often any two, and always two in the thorough tier); operator chains of up to three (four). ' + BOUND)

prop('P32', 'Analysing a module joins the states of all paths',
     'The first pass over a module analyses every line in the join of the flag states over all paths of execution to it from every '
     'entry point, and fixes the width of each instruction in that state.  It accepts exactly the modules whose every instruction is '
     'reached and fits its state, and whose paths never miss their branch target or run into data or off the end.',
     ['inputs', 'histories'], 'all modules',
     'No test loads or analyses a module in the buildable set; joins and loops show only on particular programs.',
     ['nsasm/module.cc', 'nsasm/module.h'], [('first pass', 'nsasm/module.cc:Module::RunFirstPass'), ('names of targets', 'nsasm/module.cc:Module::LocalIndex')],
     'Every program of up to four lines over the effects a statement can have on state and control (thorough: more). ' + BOUND)

prop('P33', 'Lines get the addresses and values the source gives them',
     'After an origin each statement has the address of the origin plus the sizes since, wrapping within the bank; bytes before any '
     'origin and origins that are no address or depend on names are refused; a line giving a value takes no space.  Definitions are '
     'evaluated in order from addresses, earlier definitions and outside names, and have the value of their expression.',
     ['inputs', 'histories'], 'all modules and origins', 'No test lays out a module in the buildable set; bank wrapping and widths need particular origins.',
     ['nsasm/module.cc', 'nsasm/module.h', 'nsasm/address.h'], [('layout', 'nsasm/module.cc:Module::RunFirstPass'), ('definitions', 'nsasm/module.cc:Module::RunSecondPass')],
     'Symbolic origins and values; two runs of up to four statements of every size; three definitions in every order. ' + BOUND)

prop('P34', 'Names refer to the definition that scoping gives them',
     'An unqualified name refers to its innermost definition in scope, else to the outside; one qualified by the module itself to its '
     'exported name, any other to the outside in full.  Exported are the outermost names and those marked, at their place '
     'in the source.  Exactly modules with unbalanced scopes, two equal names in one scope or two module names are refused, there.',
     ['inputs'], 'all modules', 'No test resolves a name in the buildable set, and scoping shows only in particular nestings.',
     ['nsasm/module.cc', 'nsasm/identifiers.h'], [('loading', 'nsasm/module.cc:Module::LoadAsmFile'), ('resolution', 'nsasm/module.cc:ModuleLookupContext/ModuleIsLocalContext/Module::LocalIndex')],
     'Every arrangement of five (thorough: six) labels, references and scope borders, and some deeper nestings. ' + BOUND)

prop('P35', 'A module writes each statement once and reports what it wrote',
     'A module is assembled exactly when every name it uses has a value, every write succeeds and no address is written twice; then '
     'each statement has written its bytes once, at its address, and the module owns exactly those.  Names of addresses, jump '
     'targets with the join of the flags at their calls, and declared return conventions are those of the source.',
     ['inputs', 'fault_sequences'], 'all modules and outcomes of the sink', 'No test assembles a module in the buildable set.',
     ['nsasm/module.cc', 'nsasm/ranges.cc'], [('assembly', 'nsasm/module.cc:Module::Assemble'), ('names', 'nsasm/module.cc:Module::NameForAddress')],
     'Two or three runs of statements touching, overlapping or wrapping; two routines with calls of every form. ' + BOUND)

prop('P36', 'Modules are assembled together in any order',
     'Exactly the sets of modules are assembled whose definitions do not depend on each other in circles, which export no name and '
     'write no address twice, and whose references name what another exports; the order of the files does not matter.  Every '
     'reference has the value it has in its module, and memory, names, jump targets and conventions are those of all modules together.',
     ['inputs', 'histories', 'fault_sequences'], 'all sets of modules', 'No test assembles several modules in the buildable set.',
     ['nsasm/assembler.cc', 'nsasm/assembler.h'], [('order', 'nsasm/assembler.cc:Assembler::FindAssemblyOrder'), ('assembly', 'nsasm/assembler.cc:Assembler::Assemble'), ('queries', 'nsasm/assembler.cc:Assembler::JumpTargets/JumpTargetReturnConventions')],
     'Every graph of dependencies between three modules (thorough: four); two modules otherwise. ' + BOUND)

prop('P37', 'Disassembly follows every path and decodes in its state',
     'From an entry point the disassembly holds exactly the instructions reached over all paths, each decoded from the bytes at its '
     'address in the join of the flags on all paths to it over all entry points so far, with labels on the branch targets, width '
     'suffixes only where known and the return conventions of its targets; far targets are reported with the flags at their calls. '
     'A path into unreadable bytes or an unknown width fails and changes nothing.',
     ['inputs', 'histories'], 'all images and sequences of entry points',
     'No test disassembles in the buildable set; joins, revisits and the ends of memory need particular images.',
     ['nsasm/disassemble.cc', 'nsasm/disassemble.h'], [('following', 'nsasm/disassemble.cc:Disassembler::Disassemble')],
     'Every image of up to three instructions over the effects on flags and control (thorough: more), one or two entries. ' + BOUND)

prop('P38', 'Tidying a disassembly keeps what it says',
     'Cleanup numbers labels and entry points in the order of their addresses, renames every use with them, refers to far targets '
     'by name exactly where they are entry points, and folds a carry setup and the addition or subtraction that follows at the '
     'next byte into the one operation they are, unless something branches between them; all other instructions and all states stay.',
     ['inputs', 'histories'], 'all disassemblies', 'No test disassembles in the buildable set.',
     ['nsasm/disassemble.cc'], [('tidying', 'nsasm/disassemble.cc:Disassembler::Cleanup'), ('names', 'nsasm/disassemble.cc:Disassembler::NameForAddress')],
     'Every image of up to three instructions (thorough: four) that branch, call, set the carry or add, entered once to three times. ' + BOUND)

prop('P39', 'The assembler tool saves exactly what assembles',
     'The assembler tool opens the ROM and the sources given, assembles exactly those over a copy of the ROM, and saves the result '
     'once, where asked, exactly when all of it succeeded; with "-" it only checks against the ROM.  It never writes over a source, '
     'and its exit status is success exactly when everything it did succeeded; a failure is printed.',
     ['inputs', 'fault_sequences'], 'all outcomes of loading, opening, assembling and saving', 'No test runs the tool, and failures of saving do not occur in ordinary use.',
     ['util/quick_assemble.cc'], [('tool', 'util/quick_assemble.cc:main')],
     'Up to three sources (thorough: five) and eight kinds of output names. ' + BOUND)

prop('P40', 'The disassembly tools follow and list all reached code',
     'The disassembly tools disassemble every address given -- or found by assembling the sources given against the ROM -- and every '
     'far target reported in turn, each in the states it is reached in, except what the sources hold; then they tidy once and list '
     'every instruction where an assembler reading the listing would put it, with its label, entry state and next state.  Malformed '
     'arguments and unreadable files make them fail.',
     ['inputs', 'histories', 'fault_sequences'], 'all arguments and graphs of far targets', 'No test runs the tools.',
     ['util/quick_disassemble.cc', 'util/disassemble_more.cc'], [('plain', 'util/quick_disassemble.cc:main'), ('after assembling', 'util/disassemble_more.cc:main')],
     'Seven graphs of far targets (chains, loops, joins, failures) and five listings (gaps, overlaps, ends of banks). ' + BOUND)

prop('P41', 'A source file holds exactly the lines of its text',
     'Opening a source succeeds exactly when the file exists and can be read to its end, and a failure names the file.  Its lines, in '
     'order, are the lines of its text, up to white space around them and empty lines at the end; so are those of contents given '
     'directly.  No line is lost, joined, split or cut.',
     ['inputs', 'fault_sequences'], 'all texts and read failures', 'Tests use contents given directly, and no unreadable file.',
     ['nsasm/file.cc', 'nsasm/file.h'], [('opening', 'nsasm/file.cc:OpenFile'), ('contents given', 'nsasm/file.cc:MakeFakeFile')],
     'Texts of at most four (thorough: six) characters of six kinds. ' + BOUND)

prop('P42', 'The linear disassembler lists one run of instructions and where its branches go',
     'dumb_disassemble lists contiguous instructions from the address given: each is what its bytes encode in the state it is '
     'listed in, which is the state after the one before it or, after an exit, the state of a branch to exactly that address.  '
     'It ends at an exit which no branch continues, naming the nearest branch target after it and the earliest one, or fails at '
     'bytes which cannot be read or whose width is unknown.  It fails, listing nothing, when the address, the mode or the ROM is no good.',
     ['inputs', 'fault_sequences'], 'all images and arguments', 'No test runs this tool.',
     ['util/dumb_disassemble.cc'], [('the tool', 'util/dumb_disassemble.cc:main')],
     'Images of at most four (thorough: five) instructions of fourteen kinds. ' + BOUND)

prop('P43', 'The inspection tools show every opcode and every line typed as they are read',
     'print_opcode_map lists the 256 opcodes in order, each with its mnemonic and addressing mode, and with a byte suffix exactly '
     'where the width of an immediate depends on the flags, so that every row assembles to its opcode.  interactive_parse answers '
     'every line typed with the reason it is refused or with each of its labels and statements in order, and goes on to the next.',
     ['inputs'], 'all opcodes and typed lines', 'No test runs these tools.',
     ['util/print_opcode_map.cc', 'util/interactive_parse.cc'], [('the table', 'util/print_opcode_map.cc:main'), ('the parser', 'util/interactive_parse.cc:main')],
     'Two typed lines with up to three labels and statements each. ' + BOUND)

NA = {}
