import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=None)))
B='h800/bitfield.py'
p('C01','Bit-field reads return exactly the designated bits',
 "For every bit-field of width 1 to 64, under each of the four numberings and both orders, reading position i yields the one bit of the contents that the numbering gives that position (LSB 0: bit i counted from the least significant; LSB 1: i-1; MSB 0: width-1-i; MSB 1: width-i). Reading an inclusive range yields exactly the bits from one end to the other as an unsigned integer, and .value, int() and operator.index yield the whole contents. No read changes the contents.",
 ['inputs','configurations','histories'],"all widths 1..64, 4 numberings, 2 orders, all contents, all legal positions and ranges",
 "The tests read a few positions of 8-, 12-, 15- and 48-bit fields; the space of width x numbering x order x range x contents is astronomically larger.",
 [B],[('position to significance mapping','BitField._rindex/_shift'),('range extraction','BitField.__getitem__')],[('_value','the contents as an integer','BitField')],['BitField.__getitem__','BitField.value','int()'])
p('C02','Bit-field writes change exactly the designated bits',
 "For every bit-field of width 1 to 64, numbering, order and prior contents, writing a position, an inclusive range, .value, set() or clear() (with or without a position) makes the designated bits equal to the given value, and leaves every other bit as it was. This holds after any earlier sequence of writes, and a field never affects another field.",
 ['inputs','configurations','histories'],"all widths, numberings, orders, contents, legal positions and ranges, fitting values, and sequences of writes",
 "Tests write a few patterns into a handful of fields and mostly look at the bits just written, not at the rest.",
 [B],[('masking and merging','BitField.__setitem__/_bitmask'),('whole-field operations','BitField.set/clear/value')],[('_value','the contents','BitField')],['BitField.__setitem__','BitField.set','BitField.clear','BitField.value'])
p('C03','Bit-fields reject what does not fit, without effect',
 "Constructing a bit-field wider than 64 bits, with a negative value, a value of 2**width or more, or an unknown numbering or order raises ValueError. Reading, writing, setting, clearing or testing a position outside the field, a range with an end outside the field, or a range written against the field's order (MSB-left ranges run from more to less significant, LSB-left ranges the other way) raises ValueError, and so does writing a negative value or one that needs more bits than the field, the range or the single bit has. A rejected operation leaves the contents unchanged, and nothing else is rejected.",
 ['inputs','configurations'],"all integers as width, value, position, start and end, for all numberings and orders",
 "Tests try five illegal calls on one 8-bit field; off-by-one limits (2**width, position == width) were in fact accepted before.",
 [B],[('constructor checks','BitField.__init__'),('position checks','BitField._checkIndex/_checkRange'),('value checks','BitField._checkValue')],(),['ValueError from every BitField operation'])
p('C04','Bit-field predicates and self-description agree with the contents',
 "For every bit-field and legal argument, isBit, isBitSet and isBitClr tell the truth about the one position, and isRange(s,e,0|1), isRangeSet and isRangeClr tell whether all bits of the range are 0 or 1. len, width, maxval, numbering and order report the configuration; indices lists the position numbers from the leftmost to the rightmost bit, lsb and msb are the numbers of the least and most significant bit; repr shows all width bits in binary, most significant first. None of them changes the contents.",
 ['inputs','configurations'],"all widths 1..64, numberings, orders, contents, legal positions and ranges",
 "isRange/isRangeClr are exercised on one value; indices/lsb/msb/repr are not tested at all.",
 [B],[('predicates','BitField.isBit..isRangeClr'),('self description','BitField.indices/lsb/msb/maxval/__len__/__repr__')])
W='h800/word.py'
p('C05','A word is 48 bits; an instruction word is four independent 12-bit groups',
 "A memory word holds any integer from 0 to 2**48-1, gives back exactly that, numbers its bits 1 (most significant) to 48, and rejects anything else with ValueError, keeping its contents. In an instruction word the command, A, B and C groups are bits 1-12, 13-24, 25-36 and 37-48: each can be given at construction or later and read back, writing one never changes the other three, and the word's value is always their concatenation. A group value outside 0..4095 is rejected with ValueError and changes nothing.",
 ['inputs','histories'],"all 48-bit contents, all group values, all sequences of group writes",
 "Tests set each group once from zero; they cannot cover all combinations of old contents and new values.",
 [W,B],[('range check','Word.__init__/value'),('group slices','InstructionWord properties')],[('data','48-bit MSB-1 bit-field','Word')],['Word.value','Word.data','InstructionWord.command/a/b/c'])
M='h800/memory.py'
p('C06','Memory locations are independent and bad accesses have no effect',
 "A bank has addresses 0 to 2047, all initially zero; reading an address returns the last value written to it (singly or by slice) and writing it changes no other address, bank, module or object. A slice [i:j] reads the values of, or assigns one value to, the addresses i to j-1. An address outside 0..2047 or a value outside 0..2**48-1 raises ValueError and leaves every location unchanged, even when only part of a slice is outside.",
 ['inputs','histories'],"all addresses, slices, 48-bit values and sequences of reads and writes",
 "The tests only look at the initial zeros; no test writes two different locations.",
 [M,W],[('storage','MemoryBank.__getitem__/__setitem__'),('address check','MemoryBank._checkAddress')],[('_data','address to Word map','MemoryBank')],['MemoryBank.__getitem__','MemoryBank.__setitem__'])
p('C07','Memory iteration, clearing and sizes cover every word, every time',
 "len of a bank is 2048 and its width 48; each iteration over a bank, also a second, nested or interrupted one, yields its 2048 words in address order with their current contents, and repr shows them all in octal; clear() makes every location zero and keeps the bank usable. A main module consists of 4 and an expansion module of 8 distinct banks, reachable by number or slice, with len 4 or 8 and size() 8192 or 16384 words; no other bank number is accepted.",
 ['inputs','histories'],"all contents and all sequences of writes, iterations (complete or abandoned) and clears",
 "The tests iterate a fresh bank once; a second loop used to see nothing.",
 [M],[('iteration','MemoryBank.__iter__'),('clear','MemoryBank.clear'),('module shape','MemoryModule/ExpansionMemoryModule')])
R='h800/registers.py'
p('C08','A register holds 16 or 24 bits and nothing else',
 "A register is 16 (default) or 24 bits wide; any other width, a name that is neither a register name nor an alias, or an initial or assigned value outside 0..2**width-1 raises ValueError and leaves the contents unchanged. Its value is what was last stored; its bits are numbered 1 (most significant) to width, and reading or writing bits or inclusive ranges touches exactly those bits; clear() makes it zero; len and width report the width and repr shows the value in octal.",
 ['inputs','histories'],"all values, widths, positions, ranges and operation sequences",
 "Tests store a few values; loops such as range(2**16, 16) in them are empty.",
 [R,B],[('checks','Register.__init__/value'),('bit access','Register.__getitem__/__setitem__')],[('_data','16/24-bit MSB-1 bit-field','Register')])
p('C09','Register names, aliases and numbers correspond one to one',
 "The 32 register names of the manual have the numbers 0 to 31 (AU1, AU2, SC, CSC, SH, CSH, UTR, MXR, X0-X7, R0-R7, S0-S7 in this order) and the aliases RAC, DRAC, WAC, DWAC stand for 28 to 31. registerName and registerNumber are inverse to each other on them, registerNumber also takes aliases, and registerAlias prefers the alias. Any other name or number raises ValueError.",
 ['inputs'],"all names and all integers",
 "No test calls the three lookup functions.",
 [R],[('tables','REGISTERS/ALIASES'),('lookups','registerName/registerAlias/registerNumber')])
p('C10','Register groups are complete, independent, and clear and iterate fully',
 "A register group has 32 registers of the requested width, each carrying its own name, and a register set has 8 groups; a register is the same object by name and by number, and writing one changes no other register, group or set. Assigning a register to a name or number, or a group to a number, replaces exactly that one; slices and unknown names or numbers raise ValueError without effect. clear() zeroes every register in place however often it is called and whatever was iterated before, and every iteration yields all 32 registers (or, for the set, 8 groups) in number order.",
 ['inputs','histories'],"all names, numbers, widths, and all sequences of writes, iterations and clears",
 "Tests loop once over a fresh object; repeated loops are silently empty in one of them.",
 [R],[('groups','RegisterGroup'),('set','Registers')],[('_registers','number to register/group','RegisterGroup, Registers')])
I='h800/instruction.py'; J='h800/instructions.py'
p('C11','Every legal instruction encodes to the 12-bit command of its format',
 "For each machine mnemonic and every legal operand combination the instruction's command code is: sequence in bit 1, bits 8-12 the operation; masked: the mask in bits 2-6 and bit 7 one; unmasked, inherent-mask and scientific: the two designating bits in 2-3, A, B, C activity in 4, 5, 6 and bit 7 zero; peripheral: the peripheral address in bits 1-6 and bit 7 one; print: A, B, C in 4-6 and bit 7 one; simulator: sequence and operation only. Operands not given contribute zero bits, and no bit outside these fields is ever set.",
 ['inputs'],"all 64 mnemonics x all legal sequence, mask, A, B, C and peripheral address values, given or omitted",
 "Tests encode one or a few operand combinations per mnemonic.",
 [I,J],[('field assembly','Instruction.__init__'),('per-mnemonic constructors','classes of instructions.py')],(),['Instruction.value','Instruction.data'])
p('C12','Illegal operand combinations are rejected, legal ones are not',
 "Creating an instruction with a mask outside 0..31, a mask for an instruction that is not maskable, a mask together with A, B, C or a peripheral address, a peripheral address outside 0..63 or together with a sequence, mask, A, B or C, or a sequence, A, B or C that is not 0 or 1 raises ValueError. So does an opcode whose designating bits, bit 7 or operation do not fit 2, 1 and 5 bits. Every other combination the constructor accepts as arguments succeeds.",
 ['inputs'],"all integers (or absence) for every operand, for every opcode type",
 "Tests contain a few rejected combinations for single values.",
 [I],[('validation','Instruction._check')])
p('C13','The opcode table is the one in the programmers reference manual',
 "For each of the 64 machine instructions the table gives the mnemonic, type, bits 2-3, bit 7 and operation bits of the manual's instruction list, under a key equal to its mnemonic. Instructions that can be told apart by the manual have different codes: the only coincidences are PRA/PRD/PRO and FNN with unmasked NA. Building or encoding instructions never changes the table.",
 ['inputs','histories'],"all entries, all fields, all pairs of entries",
 "Tests compare the code with values computed from the same table, so a wrong entry passes.",
 [J],[('table','OPCODES'),('defaults','namedtuple_defaults')])
p('C14','All instruction encoders and the opcode list agree',
 "For every mnemonic and legal operands, the stand-alone encoders for masked, unmasked, peripheral and print opcodes give the same command code as the instruction object of that mnemonic. The printed instruction list contains, in ascending order, each command code that a maskable instruction can have with a mask and that any other machine instruction can have, once, together with one mnemonic that has it (PRA, PRD and PRO share theirs), and the opcode list stored in the repository is that list.",
 ['inputs'],"all mnemonics and operand values; all 1890 lines of the list",
 "Tests compare the two encoders on chosen operands; the list is never checked.",
 [J,'h800/opcodes.txt'],[('encoders','make_*_opcode'),('list','print_instructions'),('stored list','h800/opcodes.txt')])
p('C15','The instruction vocabulary is complete, disjoint and linked to its classes',
 "The instruction vocabulary is exactly the union of the machine opcodes and the control, data constant, control constant, extended, miscellaneous and ARGUS mnemonics of the assembler manual, each once. Each machine mnemonic names in the table the class that encodes it, and that class encodes that mnemonic and no other.",
 ['inputs'],"all 110 mnemonics and all instruction classes",
 "Tests never enumerate the vocabulary or the classes; the link for TS was in fact wrong.",
 [J],[('categories','OPCODES, *_INSTRUCTIONS, *_CONSTANTS, INSTRUCTIONS'),('classes','classes of instructions.py')])
p('C16','Assembled constants are 48-bit words holding exactly their value',
 "Every data and control constant class accepts exactly the integers 0 to 2**48-1 and is then a word whose value and bits are that integer; any other integer raises ValueError.",
 ['inputs'],"all integers, all 16 constant classes","Tests use a few values for some of the classes.",
 [I,J,W],[('range check','Constant.__init__')])
C='h800/punchcard.py'; A='h800/arguscard.py'
p('C17','A punch card preserves its columns',
 "For every text line, a card's line is the text without newlines, and its fields are the substrings of it at the layout's columns, each from its start column up to the next field's start (the last up to the card width), so that the fields joined are the line up to the card width; for custom layouts likewise. The stripped fields and the record hold each field with surrounding blanks removed, or None if nothing remains, under the field names in order, plus the line number when it is not zero; file name and line number are kept as given. A line starting with '#' is a comment card, whose comment is its text; other cards have none.",
 ['inputs','configurations'],"all lines, all increasing layouts, names and widths","One well-formed line is tested.",
 [C],[('layout and slicing','PunchCard.__init__')],(),['PunchCard.line/layout/fields/strippedFields/record/isComment/comment'])
p('C18','ARGUS cards decode to the fields of the coding form',
 "Every non-comment card gives column 1, log number (2-7), column 8, location (9-19), operation (20-32), addresses A, B, C (33-46, 47-60, 61-75), sequence column (76-80) and remarks (81-120), each stripped or None. On P, R and L cards location, operation, addresses and sequence are None and the remarks are the stripped text from column 9 on. The instruction is the operation up to its first comma, stripped, or None if there is no operation; the alternative names of a field always agree with it.",
 ['inputs'],"all card texts","The test only prints the decoded records.",
 [A,C],[('decoding','arguscard.Card.__init__ and properties')])
p('C19','A deck built from lines has one card per line, in order, with its number',
 "A deck built from a list of lines has exactly one card for each line not starting with '#', in order, each with the 1-based number of its line; the deck's fields, stripped fields and records are those of its cards in the same order, its text is the card texts joined by newlines, and lines is the list given. An ARGUS deck's log section and column 8 come from its first L card (stripped text of columns 9-81, and column 8) and are None without one. Building a deck changes neither the list nor another deck.",
 ['inputs','histories'],"all sequences of lines","One sample deck is built and two values are compared.",
 [C,A],[('construction','punchcard.Deck.__init__'),('log section','arguscard.Deck.__init__')])
p('C20','A deck built from a file has its includes expanded in place',
 "A deck built from a file has, in order, one card for each line that starts with neither '#' nor '$', and in place of each line '$name ...' the cards of the named file, to any depth; each card carries the name of the file it came from and its line number in that file. The deck's lines are the texts of its cards. A missing file, an include of a missing file, or a file that includes itself directly or indirectly ends the program with an error, and so does a deck with neither lines nor file; no file is written.",
 ['inputs','configurations'],"all file contents and include graphs","No test reads a deck from a file.",
 [C],[('reading','punchcard.Deck._readSource')])
S='h800/symbol_table.py'
p('C21','Every labelled card is entered in the symbol table or reported, exactly once',
 "For every source file, each card with a location field that is not marked '*' in column 8 is either entered in the symbol table, or repeats an EQUALS with the same three addresses in the same place (and is ignored), or produces exactly one error report on the error stream, for exactly one of these reasons: lower case, more than one comma, unknown or unsupported tag prefix, no operation, already defined. The returned error count is the number of reports. Unlabelled and '*' cards are neither entered nor reported.",
 ['inputs','histories'],"all source files and all symbol tables built before","There are no tests of the symbol table.",
 [S],[('classification','buildSymbolTable')],(),['return value of buildSymbolTable','stderr'])
p('C22','Symbol definitions are filed where they belong and never overwritten',
 "An accepted definition is filed under its name (blanks removed, without tag prefix), its segment (the file name up to the first dot), the subsegment in force (\"1\" before the first SETLOC, then the text after that card's comma, or \"0\") and its kind (complex for ASSIGN, otherwise simple), with the file, line, log number, tag prefix (a blank if none) and card. No later card or file changes or removes it, and the table passed in is the one extended and returned.",
 ['inputs','histories'],"all source files, SETLOC sequences and symbol tables built before","There are no tests of the symbol table; duplicates used to replace the first definition silently.",
 [S],[('filing','buildSymbolTable')],[('symtab','name -> segment -> subsegment -> kind -> entry','buildSymbolTable')])
p('C23','Symbol queries agree with the table and do not change it',
 "For every symbol table the check returns, sorted, exactly the symbols that have a complex but no simple definition when asked to treat these as errors (otherwise none) and reports each once on the error stream; the list of absolute symbols has, sorted and once each, exactly those with a simple definition. An exact search returns the definitions of the name if it exists (with a kind: if some definition has that kind), otherwise None with one error report; begin and end searches return, sorted, all names with that prefix or suffix. No query changes the table.",
 ['inputs'],"all symbol tables, names and option combinations","There are no tests of the symbol table.",
 [S],[('queries','checkSymbolTable/getAbsoluteSymbols/findSymbolDef')])
p('C24','The assembler symbol table keeps first definitions and tracks undefined symbols',
 "Adding a new name stores an entry with the given value, kind, file, line, segment and subsegment, and lists the name as undefined exactly when no value is given; adding an existing name reports an error and changes nothing. Updating an existing entry gives it the new value and kind and an unknown name is reported and changes nothing; lookup returns the entry or None, and the counts are the numbers of entries and of undefined names; an entry keeps the references added to it, in order. Pruning and resolving remove exactly the names that have received a value from the undefined list, keep the order of the rest, and resolving stops when none is left or no progress is made.",
 ['inputs','histories'],"all sequences of add, update, lookup, prune and resolve","There are no tests of the class.",
 [S],[('table','SymbolTable'),('entries','SymbolTableEntry')])
p('C25','The character set is the high-speed printer set of the manual',
 "The character table has exactly the codes 0 to 63 with the high-speed printer characters of the manual's table: digits at 0-9, A-I at 17-25, J-R at 33-41, S-Z at 50-57, the special characters at their codes, code 44 undefined, 61 end of line, and every other code a blank. No two codes stand for the same character other than the blank.",
 ['inputs'],"all 64 codes","There are no tests of the table.",
 ['h800/charset.py'],[('table','CHARSET')])
p('C26','Tools and library write only the files they are for',
 "No tool or library function creates, changes or removes files, except that the listing tool writes the listing file (source name with its extension replaced by .lst, never the source itself) and the page generator appends to the file it is given, and only after all its checks have passed. Everything else only reads sources and prints.",
 ['inputs','programs'],"all functions of the package and tools, all command lines","The tools have no tests; absence of an effect on all paths cannot be sampled.",
 ['tools/','h800/'],[('file access','open() calls in tools/listing.py, tools/genpages.py, h800/punchcard.py, h800/assembler.py')])
p('C27','Tools report every error and the right totals',
 "For every set of source files, check-instructions reports each card (not marked '*' in column 8) whose instruction is not in the vocabulary, with file and line, and its final total is the number of reports; its counts of source lines and of instructions cover all cards, and with --count the frequency of an instruction is the number of its cards that are not starred. check-symbols and parse print for each file the number of symbol errors in it, and their final total is the sum over all files plus the symbols that fail the table check, or the invalid instructions, respectively.",
 ['inputs'],"all source files, any number of them, all options","The tools have no tests; parse lost all but the last file's errors.",
 ['tools/check-instructions.py','tools/check-symbols.py','tools/parse.py'],[('totals','main of each tool')])
p('C28','Every name, attribute, import and call in the code resolves',
 "On no path does the code refer to a variable, module attribute, instance attribute or method that is never defined, import something that does not exist in the project or its declared dependencies, call a project function with arguments it does not take, format with the wrong number of values, or read a command line option the tool does not declare. Unfinished modules are listed individually as known findings.",
 ['programs'],"all statements of the package and tools, executed or not","Tests run only some of the code; an unresolved name is found only when its line runs.",
 ['h800/','tools/'],[('definitions','all modules')])
p('C29','Shared tables and defaults are never modified, instances share nothing',
 "No function, method or tool modifies a module-level table, a class-level constant or a default argument value of the package, and no two objects created by separate calls share mutable state, so that what is done with one card, deck, register, word, bank or symbol table never shows in another.",
 ['programs','histories'],"all functions and all sequences of operations on any number of objects","Aliasing shows only in particular operation sequences on several objects, which no test has.",
 ['h800/','tools/'],[('module tables','OPCODES, REGISTERS, ALIASES, CHARSET, card layouts'),('constructors','all classes')])
p('C30','Line and page generators number without gaps or overruns',
 "The line generator prints one line for each of start, start+step, ... that does not pass end, in order: the number zero-filled to the widest of 4 digits, the digits of end and the length end was written with, indented to the start column and followed by the blanks that fill a number of that width up to one column past the end column; more than 6 digits is an error. The page generator appends the log section card and, for each page of the file's page range in order, one page heading with the page number and the running user page number from 1, and fails without writing when the log section or page range is missing or reversed.",
 ['inputs'],"all start, end, step and column arguments; all files","The tools have no tests; the last line used to overrun.",
 ['tools/genlines.py','tools/genpages.py'],[('numbering','main of both tools')])
p('C31','Listings show exactly the matching cards or entries, in order',
 "For every set of sources, the listing tool writes one line per card, in deck order, with file name, line number and card text; list-instructions prints exactly the cards not marked '*' whose operation, blanks removed and without the mask part unless one was asked for, is the given opcode (an opcode ending in a comma matches any mask); list-symbols prints every symbol, segment, subsegment and definition of the table, sorted, each once. find-symbols refuses conflicting options and otherwise prints what the search of the table returns, or nothing and one error report.",
 ['inputs'],"all sources and command lines","The tools have no tests.",
 ['tools/listing.py','tools/list-instructions.py','tools/list-symbols.py','tools/find-symbols.py'],[('selection and printing','main of each tool')])
p('C32','Fuzzy symbol suggestions are the best matches',
 "When a symbol is searched approximately, the suggestions are the existing absolute symbols that resemble it most, best first.",
 ['inputs'],"all tables and names","No tests; the ranking is done by a third-party string metric.",
 [S],[('ranking','findSymbolDef(fuzzy) through fuzzywuzzy')])
p('C33','Assembly resolves every symbol that can be resolved',
 "Repeated resolution passes of the assembler end with every record complete or with every incomplete record reported as an error.",
 ['inputs','histories'],"all programs","No tests; the assembler module is unfinished and cannot be imported.",
 ['h800/assembler.py','h800/context.py'],[('pass loop','Assembler.resolve')])
import sys
for q in P:
    assert len(q['title'])<=80,q['title']
    import re
    n=len(re.findall(r'\.(?:\s|$)',q['statement']))
    if n>3: print(q['id'],n,'sentences')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(q,ensure_ascii=False)+'\n' for q in P))
