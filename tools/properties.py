TESTS = 'The tests run a handful of fixed programs and values; '
prop('C01', 'A stack is last-in first-out, and its queue and invert modes do what they say',
 'For every history of pushes, pops, peeks and clears, a stack returns the cells in last-in first-out order, yields 0 when empty, and reports its size and its cells at every depth correctly. In queue mode cells come out at the other end and in invert mode they go in at the other end, and switching modes never loses, adds or reorders cells.',
 ['histories', 'inputs'], 'every sequence of stack operations and mode switches up to the bound, every 64-bit cell', TESTS + 'the interplay of modes, depth and underflow is a matter of all histories.',
 ['src/Stack.cpp', 'src/include/Stack.h'], [('push/pop/peek/get', 'src/Stack.cpp'), ('mode flags', 'src/Stack.cpp')], [('stack', 'the cells, oldest first', 'src/include/Stack.h')])
prop('C02', 'The stack of stacks keeps its stacks apart, in order, and is copied deeply',
 'Creating, removing, selecting and inserting stacks affects only the stack concerned: the others keep their place and their cells. A copy of a stack of stacks has the same stacks in the same order and shares no cell with the original.',
 ['histories', 'inputs'], 'every sequence of stack-stack operations up to the bound', TESTS + 'order and isolation must hold for every nesting history.',
 ['src/StackStack.cpp', 'src/include/StackStack.h'], [('push/pop/insert/remove/select', 'src/StackStack.cpp'), ('copy constructor', 'src/StackStack.cpp')])
prop('C03', 'Vectors form a consistent value type in any number of dimensions',
 'Vectors of different lengths that differ only in trailing zeros are equal, and equal vectors have equal hashes and are unordered by the comparison. Addition, subtraction, reversal and turns act component by component on 64-bit values, with missing components reading as 0; a left turn undoes a right turn.',
 ['inputs'], 'every component value and every length up to the bound', TESTS + 'equality, order and hash must agree for every pair, or fungespace loses cells.',
 ['src/Vector.cpp', 'src/include/Vector.h'], [('operators, hash, normal form', 'src/Vector.cpp')])
prop('C04', 'Fungespace returns the last value written to a cell, and a space elsewhere',
 'Reading any cell after any history of writes yields the last value written at that position, however the position is spelled, and a space if it was never written or was erased. Cells configured as one byte keep exactly the low byte; watchers of the space see every write once, with position and value.',
 ['histories', 'inputs'], 'every sequence of writes at arbitrary 64-bit positions', TESTS + 'far and negative positions and aliasing of positions need all values.',
 ['src/Field.cpp', 'src/include/Field.h', 'src/Vector.cpp'], [('sparse map of cells', 'src/Field.cpp')])
prop('C05', 'The bounds of fungespace enclose every cell that is not a space, tightly',
 'After any history of writes and erasures the reported bounds enclose every cell that is not a space. Each bound is the coordinate of such a cell, or 0.',
 ['histories', 'inputs'], 'every sequence of writes and erasures up to the bound', TESTS + 'wrapping and the size report of programs that modify themselves depend on every history of writes.',
 ['src/Field.cpp', 'src/include/Field.h'], [('bounds kept by each write, rescanned on erasure', 'src/Field.cpp')])
prop('C06', 'Iterating over a box of fungespace visits every cell exactly once',
 'Iterating over the box between two corners visits every cell of the box exactly once and nothing outside it, in any number of dimensions and whatever the corners are.',
 ['inputs'], 'every pair of corners and dimension count up to the bound', TESTS + 'two ranges are iterated today; corner order and degenerate boxes are not.',
 ['src/VectorRange.cpp', 'src/include/VectorRange.h'], [('iterator increment with carry', 'src/VectorRange.cpp')])
prop('C07', 'Loading a program text puts every character into its cell',
 'Loading any text puts each character at its column, line and plane, where LF, CR and CRLF end a line, form feeds and vertical tabs start a plane (one line end right after them belonging to it) when the program has that many dimensions, and every other cell is a space. The number of dimensions is the one asked for, or else the one the text uses. Inserting text at a position elsewhere shifts all of this by that position; in binary mode line ends are cells.',
 ['inputs'], 'every byte string up to the bound', TESTS + 'the tests load well-formed files only.',
 ['src/Field.cpp'], [('text parser', 'src/Field.cpp')])
prop('C10', 'The instruction pointer moves by its delta and wraps as the topology says',
 'One move adds the delta to the position if that stays inside the program; otherwise the IP re-enters at the opposite end of the line it travels on, for any delta. On the Befunge-93 torus coordinates wrap at 80 and 25 cells. Reflecting and turning change the delta and nothing else, and a stopped IP does not move.',
 ['inputs', 'configurations'], 'every position inside the program and every delta, in 1 to 3 dimensions', TESTS + 'fast and diagonal deltas through corners are countless.',
 ['src/InstructionPointer.cpp'], [('Lahey backtracking and torus wrap', 'src/InstructionPointer.cpp')])
prop('C11', 'Arithmetic and comparison are total 64-bit operations',
 'Addition, subtraction, multiplication, division, remainder, comparison and negation replace their operands by the 64-bit result for every pair of cells, with missing operands reading as 0. Division and remainder by zero give 0, and no operand pair traps.',
 ['inputs'], 'all pairs of 64-bit cells', TESTS + 'extreme operands (division of the smallest cell by -1) are not among them.',
 ['src/Unefunge93Strategy.cpp'], [('arithmetic instructions', 'src/Unefunge93Strategy.cpp')])
prop('C12', 'Literals and stack manipulation have exactly their stack effect',
 'Each digit pushes its value, and discard, duplicate, swap and clear have their standard effect for every stack, an empty one reading as zeros. They change nothing else, and the IP goes on to the next cell.',
 ['inputs', 'configurations'], 'every stack up to the bound, in both standards', TESTS + 'underflow and the untouched part of the stack are not looked at.',
 ['src/Unefunge98Strategy.cpp'], [('instruction table', 'src/Unefunge93Strategy.cpp')])
prop('C13', 'Direction instructions set the delta the standard prescribes',
 'Each direction, conditional and turning instruction sets exactly the delta the standard prescribes from the previous delta and its operands, pops exactly its operands and leaves the position alone. The random direction is always one of the cardinal directions of the program\'s dimensions and each of them can occur; the option that inverts high and low exchanges just those two.',
 ['inputs', 'configurations'], 'every delta, every operand, every random draw, 1 to 3 dimensions', TESTS + 'random draws and arbitrary deltas are sampled at best.',
 ['src/Befunge93Strategy.cpp', 'src/Befunge98Strategy.cpp', 'src/Trefunge98Strategy.cpp', 'src/Unefunge98Strategy.cpp'], [('movement instructions', 'src/Befunge98Strategy.cpp')])
prop('C14', 'Blocks move cells between stacks and save and restore the storage offset',
 'Opening a block moves the requested number of cells in order to a fresh stack (or leaves that many zeros below when negative), saves the storage offset and sets it to the next position; closing it moves cells back, or drops them, and restores the offset. Transfers between the top two stacks move one cell at a time, reversing them. Without an open block, closing and transferring fail and leave the stacks alone.',
 ['inputs', 'histories'], 'every stack content and count up to the bound, any storage offset', TESTS + 'counts beyond the depth, negative counts and their mixture are not covered.',
 ['src/Unefunge98Strategy.cpp', 'src/StackStack.cpp', 'src/util/FungeUtilities.cpp'], [('block instructions', 'src/Unefunge98Strategy.cpp')])
prop('C15', 'A program reads back from fungespace exactly what it wrote',
 'A value stored at an address is read back unchanged, all 64 bits of it, from the same address under the same storage offset, for every address, in any number of dimensions, and no other cell changes. The instructions that read or write the next cell do so with the whole cell and step over it. Programs configured for byte cells get the low byte.',
 ['inputs', 'configurations'], 'every address, storage offset and value, 1 to 3 dimensions', TESTS + 'they use small values at small addresses.',
 ['src/Unefunge98Strategy.cpp', 'src/Field.cpp', 'src/util/FungeUtilities.cpp'], [('get/put/fetch/store', 'src/Unefunge93Strategy.cpp')])
prop('C16', 'Blanks take no time, jumps land where they say, unknown cells reflect',
 'Spaces and comments are passed within the tick of the next instruction; the trampoline skips one cell, a jump n cells forwards or backwards, and the iterator executes the next instruction n times from where it stands and skips it for 0. A cell that is no instruction of the standard reflects the IP and changes nothing else. Stop ends one IP and quit the whole program with the popped exit code.',
 ['inputs', 'programs'], 'all rows of a small alphabet, all jump and repeat counts up to the bound, every 64-bit cell value', TESTS + 'cells outside the character set and combinations of blanks and comments are not.',
 ['src/FungeRunner.cpp', 'src/FungeStateNormal.cpp', 'src/Unefunge98Strategy.cpp', 'src/Unefunge93Strategy.cpp'], [('tick loop', 'src/FungeRunner.cpp'), ('error handler', 'src/Unefunge93Strategy.cpp')])
prop('C17', 'String mode pushes the cells of the string as the configured style says',
 'Between quotes every cell is pushed, one per tick; the SGML style pushes one white-space cell for a run of them, the C style translates escapes (so that a quote can be escaped), and multispace pushes everything. The closing quote returns to normal execution behind it, and one string has no effect on the next.',
 ['inputs', 'configurations'], 'every string of arbitrary cells up to the bound, all three styles', TESTS + 'a few fixed strings are tried, none with cells outside the character set.',
 ['src/FungeStateString.cpp'], [('string state', 'src/FungeStateString.cpp')])
prop('C18', 'System information is what the standard lists; picking yields its n-th cell',
 'The system-information instruction reports capabilities, cell size, paradigm, dimensions, IP id, position, delta, storage offset, bounds, date, time, stack sizes, arguments and environment, each in its standard place and true. With a positive n it leaves exactly the n-th of those cells (or, beyond them, a cell of the stack, or 0).',
 ['inputs', 'configurations'], 'every n, every position, delta and offset, every combination of capabilities', TESTS + 'the layout shifts with dimensions, stacks and arguments.',
 ['src/Unefunge98Strategy.cpp', 'src/util/FungeUtilities.cpp'], [('pushing of system information', 'src/Unefunge98Strategy.cpp')])
prop('C08', 'Output writes exactly the area asked for, and input reads it back',
 'File output writes exactly the cells of the requested area, row by row, with trailing spaces left out in text mode only; file input puts the bytes of a file at the requested position, spaces leaving cells as they are, and leaves size and position as output takes them. Both honour the storage offset, so that what was written reads back unchanged. A file that cannot be read reflects the IP and changes nothing.',
 ['inputs', 'configurations'], 'every area, position, storage offset and content up to the bound, text and binary mode, one and two dimensions', TESTS + 'one file at one position is copied.',
 ['src/Unefunge98Strategy.cpp', 'src/Field.cpp'], [('file instructions', 'src/Unefunge98Strategy.cpp'), ('dump and parse', 'src/Field.cpp')])
prop('C09', 'Funge-lib and BeQunge files load into the planes and coordinates they name',
 'Each section of a funge-lib file is loaded into the plane of its letter and each section of a BeQunge file at its origin and coordinates, in any number of dimensions; no other cell is set. The dimension count is three for funge-lib, and for BeQunge the one asked for, or declared, or used. Malformed directives cause no memory error.',
 ['inputs'], 'every byte string and every coordinate up to the bound', TESTS + 'a few well-formed files are loaded.',
 ['src/Field.cpp'], [('parseBeq, parseFungeLib', 'src/Field.cpp')])
prop('C19', 'Input and output instructions transfer exactly one character or number',
 'Printing a number writes all 64 bits of the cell in decimal and one space, and printing a character writes its low byte. Reading a character yields the next byte, and reading a number the next digits in the input, skipping what precedes them and leaving the character after them to be read. At the end of the input they reflect.',
 ['inputs'], 'every cell and every input up to the bound', TESTS + 'numbers at the end of the input or beyond 32 bits are not among them.',
 ['src/Unefunge93Strategy.cpp'], [('input and output instructions', 'src/Unefunge93Strategy.cpp')])
prop('C20', 'What the command line does not allow, no program can do',
 'Without the option for threads, commands, files or fingerprints, every instruction that needs it, built in or from a fingerprint, reflects, leaves the stack alone and creates no IP, runs no command and touches no file or directory. With the option the instruction works, independently of the other options.',
 ['configurations', 'inputs'], 'every combination of the options, every gated instruction, any stack', TESTS + 'nothing is run with its option turned off.',
 ['src/Unefunge98Strategy.cpp', 'src/StarfishStrategy.cpp', 'src/fingerprint/FingerprintDIRF.cpp', 'src/fingerprint/FingerprintPERL.cpp', 'src/FungeUniverse.cpp'], [('capability checks', 'src/Unefunge98Strategy.cpp')])
prop('C21', 'Fingerprints give letters a meaning when loaded and give it back when unloaded',
 'Loading a fingerprint pushes its identifier and 1, gives exactly its own instructions a new meaning and keeps that of all other letters; unloading restores the meanings from before, for any nesting of fingerprints that share letters. Unknown fingerprints reflect, and an unloaded letter is no instruction. A new IP has the same instructions as its parent. FING exchanges, drops and copies the meaning of single letters.',
 ['histories', 'inputs'], 'every pair of built-in fingerprints, every history of loads and unloads up to the bound, every letter and operand', TESTS + 'overlapping and nested loads are countless.',
 ['src/FingerprintStrategy.cpp', 'src/Fingerprint.cpp', 'src/FungeStateNormal.cpp', 'src/fingerprint/FingerprintFING.cpp', 'src/fingerprint/FingerprintDBUG.cpp', 'src/Unefunge98Strategy.cpp'], [('load and unload', 'src/FingerprintStrategy.cpp'), ('stack of meanings per letter', 'src/FungeStateNormal.cpp')])
prop('C22', 'The integer arithmetic fingerprints compute on whole cells and never trap',
 'BOOL, BITW, CPLI and the integer part of FIXP replace their operands by the exact 64-bit result for all operands, including shift counts beyond the cell size and division by zero; random numbers stay within their limit. NFUN moves along the dimension asked for, which the program then has, and refuses negative dimensions.',
 ['inputs'], 'all pairs of 64-bit cells, every random draw, every dimension up to the bound', TESTS + 'shift counts, zero divisors and negative limits are not among them.',
 ['src/fingerprint/FingerprintBOOL.cpp', 'src/fingerprint/FingerprintBITW.cpp', 'src/fingerprint/FingerprintCPLI.cpp', 'src/fingerprint/FingerprintFIXP.cpp', 'src/fingerprint/FingerprintNFUN.cpp'], [('fingerprint instructions', 'src/fingerprint/FingerprintBITW.cpp')])
prop('C23', 'The string, stack, cell and number-base fingerprints do what their manuals say',
 'FRTH picks and rolls any cell of the stack; STRN joins, compares, cuts, finds, stores, fetches, reads, prints and converts strings of any bytes, and reflects on what lies outside the string; JSTR transfers cells along any vector; ORTH reads and writes cells and moves the IP by its coordinates; BASE prints numbers in any base and reads back what it printed. Each pops exactly its operands.',
 ['inputs'], 'every string, stack, operand and vector up to the bound', TESTS + 'empty strings, bytes above 127, missing terminators and negative numbers are not among them.',
 ['src/fingerprint/FingerprintFRTH.cpp', 'src/fingerprint/FingerprintSTRN.cpp', 'src/fingerprint/FingerprintJSTR.cpp', 'src/fingerprint/FingerprintORTH.cpp', 'src/fingerprint/FingerprintBASE.cpp', 'src/util/FungeUtilities.cpp'], [('fingerprint instructions', 'src/fingerprint/FingerprintSTRN.cpp'), ('strings on the stack', 'src/util/FungeUtilities.cpp')])
prop('C24', 'TOYS does what its manual says for any operand',
 'The TOYS instructions compute on whole cells: sums, products, shifts by any count, increments and pairs of results. Copying, moving, filling and reading areas of fungespace touches exactly the cells of the area, including areas of size zero, in any number of dimensions. Movement instructions set the delta as described, refuse dimensions that the program does not have, and pop exactly their operands.',
 ['inputs'], 'every operand, every stack, areas up to the bound at any place', TESTS + 'shift counts, empty areas and refused dimensions are not among them.',
 ['src/fingerprint/FingerprintTOYS.cpp'], [('fingerprint instructions', 'src/fingerprint/FingerprintTOYS.cpp')])
prop('C25', 'Subroutines return to their call, and references come back as they went in',
 'A call with SUBR saves the position and delta below the arguments it carries over and goes on at the address it was given; a return restores both and carries its results over, so that a call and its return leave the IP behind the call. A reference made by REFC of a vector gives back that vector, and different references stay apart. Negative counts reflect.',
 ['inputs', 'histories'], 'every position, delta, address, count and stack up to the bound, absolute and relative', TESTS + 'no call with arguments in three dimensions or with a storage offset is among them.',
 ['src/fingerprint/FingerprintSUBR.cpp', 'src/fingerprint/FingerprintREFC.cpp'], [('call, jump, return', 'src/fingerprint/FingerprintSUBR.cpp'), ('table of references', 'src/fingerprint/FingerprintREFC.cpp')])
prop('C26', 'IPs take turns, one instruction each, and share nothing but fungespace',
 'Splitting adds a copy of the IP with the reversed delta, its own stacks and a new id, which is executed before its parent. In every tick each IP executes one instruction in a fixed order; an IP that ends leaves the others alone, and quitting ends all of them with its exit code. With IIPC an IP reads and adds to the stack of the IP it names and sleeps until another wakes it.',
 ['inputs', 'schedules', 'histories'], 'every stack, storage offset and id operand, all program lengths up to the bound', TESTS + 'they compare the output of a few programs, not which IP does what when.',
 ['src/FungeUniverse.cpp', 'src/FungeRunner.cpp', 'src/Unefunge98Strategy.cpp', 'src/fingerprint/FingerprintIIPC.cpp'], [('list of runners and their turns', 'src/FungeUniverse.cpp'), ('cloning of an IP', 'src/FungeRunner.cpp')])
prop('C27', 'MODE switches exactly its mode, and FISH instructions do what their manual says',
 'Each MODE instruction toggles its own mode and no other, and the mode governs movement, strings, and every stack of the IP, including those opened later and those of a new IP. The FISH fingerprint jumps, mirrors, rotates and selects stacks, dives and keeps its register as its manual says, each popping exactly its operands.',
 ['inputs', 'histories', 'configurations'], 'every sequence of toggles up to the bound, every delta, stack and operand', TESTS + 'modes are tried singly, on one stack.',
 ['src/fingerprint/FingerprintMODE.cpp', 'src/fingerprint/FingerprintFISH.cpp', 'src/StackStack.cpp', 'src/InstructionPointer.cpp'], [('mode instructions', 'src/fingerprint/FingerprintMODE.cpp'), ('fish instructions', 'src/fingerprint/FingerprintFISH.cpp')])
prop('C28', '><> instructions work on floating-point cells, and every fault ends the program',
 'Arithmetic and comparison in ><> programs are floating-point operations on the top cells; stack, register and nested-stack instructions rearrange cells and lose none; mirrors, jumps and skips move the IP as ><> says; put and get, strings, input and output transfer cells and characters unchanged. A missing operand, division by zero or unknown instruction ends the program with exit code 1 and nothing after it happens.',
 ['inputs', 'histories'], 'every operand, delta and stack up to the bound, every sequence of stack instructions up to the bound, all short rows of an alphabet', TESTS + 'faults, registers and empty stacks are not among them.',
 ['src/FishStrategy.cpp', 'src/util/include/FishUtil.h', 'src/FungeRunner.cpp'], [('instruction table', 'src/FishStrategy.cpp'), ('error handler', 'src/FishStrategy.cpp')])
prop('C29', 'Starfish routines, dives, time, files and naps do what the Starfish manual says',
 'In *><> programs a call goes to the popped address with the rest of the stack and a return comes back to the call whatever routines it made itself; instructions that make, select, join or remove stacks keep every stack in place and fault when the stack they need is missing; the fisherman, dive, time, file, sleep and dive-directed instructions behave as the manual states, a file written holds the cells given and a file read arrives byte by byte.',
 ['inputs', 'histories'], 'every address, position, delta and cell, every sequence of stack instructions up to the bound, every file contents up to the bound', TESTS + 'a routine is called once, on one stack.',
 ['src/StarfishStrategy.cpp', 'src/FishStrategy.cpp', 'src/StackStack.cpp'], [('Starfish instruction table', 'src/StarfishStrategy.cpp'), ('nested stacks', 'src/StackStack.cpp')])
prop('C30', 'Under every thread schedule a program ends once, completely, with its exit code',
 'Waiting for a program returns when, and only when, every IP of every universe has ended, whatever the schedule of its threads and with funge or native threads; no schedule deadlocks, loses or repeats an instruction, or uses an IP that is gone. q and a kill from outside end all IPs of a universe with the exit code given, and the exit code of the interpreter is that of the first universe. An IP that moves to another universe is executed by exactly one of the two at any time.',
 ['schedules', 'histories'], 'every schedule within the preemption bound, every exit code', TESTS + 'each runs under one schedule, native threads and moves between universes under none (the only test of MVRS fails at random and is not among the stable ones).',
 ['src/FungeUniverse.cpp', 'src/FungeMultiverse.cpp', 'src/FungeRunner.cpp', 'src/util/include/FungeSem.h'], [('list of runners, threads and mutex', 'src/FungeUniverse.cpp'), ('waiting for all universes', 'src/FungeMultiverse.cpp')])
prop('C31', 'Universes have unique names, and MVRS makes, names, enters, copies them exactly',
 'Every universe is known by a unique name, the one asked for or one derived from it. MVRS makes universes of the dimensions, language and modes given or fails without making one, counts and names them, moves the IP to the universe, position and delta given, and copies exactly the area given between two universes, changing no other cell; a name that does not exist is an error that changes nothing.',
 ['inputs', 'histories'], 'every operand, position, area up to the bound and contents, every sequence of colliding names up to the bound', TESTS + 'the only test of MVRS is not stable; it makes two universes and copies one area.',
 ['src/FungeMultiverse.cpp', 'src/fingerprint/FingerprintMVRS.cpp', 'src/VectorRange.cpp'], [('table of universes', 'src/FungeMultiverse.cpp'), ('multiverse instructions', 'src/fingerprint/FingerprintMVRS.cpp')])
prop('C32', 'The debugger stops where asked, shows what is there and changes nothing else',
 'With -g, the commands that look (peek, delta, storage, position, thread, backtrace, get, list, read, universe) leave every stack, IP, cell and the further run of the program as they are, whatever their arguments. A step executes exactly one instruction; run goes on until an IP comes to a breakpoint, before the instruction there is executed, or until a watched cell is written, and not otherwise; setpos and setdelta set just that of the selected IP. What is printed is what is there: the cell of the stack, the cell of fungespace, the vectors and the latest ten positions. Quit, and the end of the input, end all IPs with exit code 1 and execute nothing more. No text, and no command after IPs have ended or gone to another universe, makes the debugger hang or touch what is gone. DBUG switches the debugger and sets breakpoints and watchpoints.',
 ['inputs', 'histories'], 'every stack, cell and place up to the bound, every pair of commands, all short texts byte by byte', TESTS + 'none runs the debugger.',
 ['src/Defunge.cpp', 'src/FungeDebugger.cpp', 'src/fingerprint/FingerprintDBUG.cpp', 'src/Vector.cpp', 'src/FungeRunner.cpp'], [('command loop', 'src/Defunge.cpp'), ('breakpoints, watchpoints, states of IPs', 'src/FungeDebugger.cpp'), ('reading of vectors', 'src/Vector.cpp')])
prop('C33', 'The command line and multiverse files configure exactly the programs they name',
 'Every option sets what the manual says it sets and nothing else, and of options that contradict each other the last one counts. A value that is not listed, a value or file that is missing and a file that cannot be opened (or is a directory) end the interpreter with EINVAL or EIO before anything is run. What follows the program on the command line, and the environment, are given to it unchanged; -l names any fingerprint; the extension decides the language unless -std does, and BeQunge programs have NFUN. Every line of a multiverse file that names a file makes one universe with the arguments of that line after those of the command line, wherever the file is and however it ends; the first universe gives the exit code.',
 ['inputs', 'configurations'], 'every sequence of options up to the bound, every value, fingerprint and argument up to the bound byte by byte, every short multiverse file', TESTS + 'each uses at most one or two options; no invalid value is among them.',
 ['src/Funge.cpp', 'src/FungeMultiverse.cpp', 'src/include/FungeConfig.h'], [('reading of the command line', 'src/Funge.cpp'), ('multiverse files', 'src/Funge.cpp')])
prop('C34', 'No instruction can crash or hang the interpreter, whatever the stack holds',
 'Any instruction of any standard and of the fingerprints, executed on a stack of any depth with any cells on it, in any mode, ends: it has its effect or reflects. It does not read or write memory that is not its own, divide by zero, throw out of the interpreter or loop without end, and afterwards the interpreter executes the next instruction. A block or a roll of more cells than the stack of a thread can hold works like any other.',
 ['inputs'], 'every instruction on every stack up to the bound', TESTS + 'the operands are those of ordinary use.',
 ['src/Unefunge98Strategy.cpp', 'src/FungeRunner.cpp', 'src/fingerprint/FingerprintFRTH.cpp', 'src/fingerprint/FingerprintFISH.cpp', 'src/fingerprint/FingerprintTOYS.cpp'], [('execution of an instruction', 'src/FungeRunner.cpp'), ('blocks', 'src/Unefunge98Strategy.cpp')])
prop('C35', 'PERL hands its code to perl unchanged, and HRTI measures time exactly',
 'The command PERL runs, read as a POSIX shell reads it, is perl with exactly the code given, whatever bytes that has: nothing is expanded or executed by the shell. E pushes the result as a string, I as a number, S that perl is run through the shell. HRTI counts the whole microseconds since the last mark, fails without a mark, forgets a mark erased, and gives the microseconds since the last second; no other cell changes.',
 ['inputs', 'histories'], 'every code up to the bound byte by byte, every result, every sequence of timer instructions at every time', TESTS + 'they run one perl program without quotes, and cannot control the clock.',
 ['src/fingerprint/FingerprintPERL.cpp', 'src/fingerprint/FingerprintHRTI.cpp'], [('quoting', 'src/fingerprint/FingerprintPERL.cpp'), ('timer mark', 'src/fingerprint/FingerprintHRTI.cpp')])
prop('C36', 'Fingerprints written in Funge run on the stack of their caller as documented',
 'A fingerprint for which there is a file in the directory fing defines exactly the letters the file has a plane for, in place of a fingerprint built in of the same name, and unloading it removes them. An instruction runs its plane on the stacks of its caller, whose position, delta and storage offset stay as they are, unless the plane changes them with the instructions of dynamicf, each of which affects the caller and its space as it says and nothing else. The fingerprints that come with the interpreter compute what their manuals say for every operand: the modulo with the sign of the divisor, the remainder of C and the modulo that is not negative, and zero for a divisor of zero (MODU), roman digits and numerals (ROMA), reflection (NULL), control sequences for the terminal (TERM).',
 ['inputs', 'histories'], 'every pair of operands, stack, cell and place up to the bound', TESTS + 'one of them prints numerals; MODU, NULL, TERM and dynamicf are not among them.',
 ['src/fingerprint/FingerprintFungeLib.cpp', 'src/fingerprint/FingerprintDynamic.cpp', 'src/FingerprintStrategy.cpp', 'fing/MODU.fl', 'fing/ROMA.fl', 'fing/TERM.fl', 'fing/NULL.fl'], [('execution of a plane', 'src/fingerprint/FingerprintFungeLib.cpp'), ('instructions on the caller', 'src/fingerprint/FingerprintDynamic.cpp')])
prop('C37', 'Floating point is IEEE arithmetic on cells, and a format is applied or refused',
 'A FPDP number is a double in one cell, a FPSP number a single in the lower half of one. A S M D N V Q compute what IEEE arithmetic gives for any two bit patterns, B C T E H G K L X Y apply the function they are named for to their operands in the order of the manual, F and I convert from and towards integers, P prints six decimals, and R reads the longest prefix of a text that is a number and reflects when there is none. FPRT formats its operand, the whole 64-bit cell, as the format says and pushes the text; a format that asks for anything but one conversion that suits the operand reflects, and never makes the interpreter read or write memory that is not its own. What lies below the operands stays as it was.',
 ['inputs'], 'every bit pattern of the operands, every text and every format up to the bound', TESTS + 'none of them uses these fingerprints.',
 ['src/fingerprint/include/FingerprintFloat.h', 'src/fingerprint/FingerprintFPRT.cpp', 'src/util/FungeUtilities.cpp'], [('floating-point instructions', 'src/fingerprint/include/FingerprintFloat.h'), ('formatted print', 'src/fingerprint/FingerprintFPRT.cpp')])
prop('C38', 'A program has the effects of its instructions one after another, and no others',
 'Executing any sequence of core instructions, blanks, comments, strings and unknown cells, in a program that may modify itself, changes the stacks, the position, delta and storage offset of the IP, fungespace and the output exactly as a reading of the Funge-98 standard says step by step: no instruction leaves anything behind that changes what a later one does, and every cell written is the one executed later.',
 ['inputs', 'histories'], 'every program of a few cells, with every initial stack', TESTS + 'they run some dozens of fixed programs.',
 ['src/FungeRunner.cpp', 'src/FungeStateNormal.cpp', 'src/FungeStateString.cpp', 'src/Unefunge93Strategy.cpp', 'src/Unefunge98Strategy.cpp', 'src/Befunge93Strategy.cpp', 'src/Befunge98Strategy.cpp'], [('one tick', 'src/FungeRunner.cpp'), ('core instructions', 'src/Unefunge98Strategy.cpp')])
