#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so the long statements stay readable)."""
import json, os
PS="PlatformSupport/PlatformSupport.cpp"; PH="PlatformSupport/PlatformSupport.h"
LS="DotNetLibrarySupport/DotNetLibrarySupport.cpp"; LH="DotNetLibrarySupport/DotNetLibrarySupport.h"
D="DotNetLibrary/src/"; H="DotNetLibrary/include/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":" ".join(statement.split()),
      "quantifier":{"over":over,"text":" ".join(text.split())},"why_tests_cant":" ".join(why.split()),"anchors":a})

p("C01","Every run starts afresh, whatever happened in earlier runs",
"""In one process, a run of a program behaves exactly like that program's first run, however many runs came before it
and however each of them ended: normally, by an exception at any point, by running out of memory, or by a foreign C++
exception passing through. It sends the same messages, computes the same results and can obtain the same amount of memory
(only platform data the earlier runs wrote may differ). The platform is asked for the working memory once, and further runs take nothing more from it.""",
["histories","crash_points","fault_sequences"],
"all sequences of runs, all programs, all points at which a run can be cut short, all memory budgets",
"""The tests never start a run at all (they use the allocator's malloc fallback); the integration program does one run.
A history of runs with abnormal ends is never exercised.""",
[PS,PH,LS,LH],
[("PlatformSetup resets the pool before each run",PS),("Run performs setup, executes, contains exceptions",LS)],
[("memoryUsed/currentMemory","how far the current run has consumed its pool",PS),("memory","the pool, obtained once",PS)],
["messages on stdout","results of library calls","bytes obtainable in a run","requests to the platform heap"])

p("C02","Memory grants are zeroed, aligned, disjoint and refused exactly when full",
"""Within a run every block handed to the program is zero-filled, aligned for every scalar type, at least as large as asked,
inside the run's fixed budget, and shares no byte with any other block handed out in that run, deleted blocks included.
A request is refused exactly when what remains of the budget cannot hold it, for every size up to the largest representable one,
and a refused request changes nothing for later requests. Before the first run blocks come zero-filled and disjoint from the platform heap, and a request is
refused only when the platform refuses it.""",
["histories","inputs","fault_sequences","configurations"],
"all sequences of allocations and deletions of all sizes, in all runs of a process, all budgets, all platform refusals",
"""No test allocates from the run pool; sizes near the end of the budget or near the integer limits and refusals are never tried.""",
[PS,PH],[("bump allocation with alignment, zeroing and a capacity test",PS),("global operator new/delete replaced by the pool",PH)],
[("memorySize/memoryUsed","budget and consumption",PS)],["addresses and contents of granted blocks","refusals"])

p("C03","Running out of memory at any allocation is contained and reported",
"""At whichever allocation memory is refused, because the budget is used up or the platform has none, the run ends without touching any memory that is
not the program's: the messages sent before appear, a message reporting that the run ended is sent, and control returns to the host normally.
The next run then works as if nothing had happened. Outside a run the failing call raises an exception to its caller and leaves the objects it was given usable.""",
["crash_points","fault_sequences","programs","histories"],
"every allocation made by any library operation in any program, budget exhaustion and platform refusal alike",
"""No test ever refuses an allocation. The unit tests run with an unlimited heap, so no out-of-memory path is ever entered.""",
[PS,PH,LS]+[D+x for x in("StringBuilder.cpp","StringDotNet.cpp","Array.cpp")],
[("allocator signals refusal",PH),("Run contains what escapes the program",LS)],None,
["messages on stdout","return of Run","guard bytes around every block","memory-error detector"])

p("C04","An exception escaping the program ends the run and is reported once",
"""Whenever an exception escapes the translated program, at any point and from any library call or thrown by the program itself, with or without a message text,
the statements after it do not execute, everything sent before is delivered, the exception's message text is then sent exactly once, and control returns normally to the host,
which can run again. An exception the program catches is not reported and the program continues with the objects it had.""",
["crash_points","programs","histories"],
"all programs, all points of failure, all library exceptions, all message texts including none, nested and repeated",
"""The integration program sends one message and raises nothing; no test lets an exception leave a run.""",
[LS,H+"Exception.h"],[("Run's catch clause sends the message",LS),("every library error is an Exception with a text",H+"Exception.h")],None,
["messages on stdout","order of program steps","return of Run"])

p("C05","Messages are delivered whole, in order and exactly once",
"""Every message a program sends appears on the platform's output as one line holding exactly its text, exactly once and in sending order, interleaved correctly with what
the host itself prints; a character the output encoding cannot represent costs only that character. While the output fails or accepts only part of the data, sending neither disturbs
the program's computation nor ends it nor duplicates or reorders anything, and messages sent after the output has recovered are delivered whole.""",
["histories","fault_sequences","inputs","configurations"],
"all sequences of messages (any length, any characters but NUL), buffering modes, output encodings, and output failures at any byte",
"""Nothing tests Send. The integration program prints two short ASCII lines to a healthy console.""",
[LS,LH],[("Send writes text and newline to stdout",LS)],None,["bytes reaching stdout","program state after Send"])

p("C06","Clock readings correspond to an instant during the call",
"""Reading the UTC time, the local time or the local date returns, to the millisecond, the reading of the platform clock in the configured time zone at some single instant between the start
and the end of the call, however the clock advances, stalls or jumps meanwhile and whatever the zone is at that moment.""",
["schedules","configurations","histories"],
"all clock schedules including jumps and midnight/new-year crossings inside the call, all zones, zone changes between calls",
"""The tests compare a reading with the host clock within a tolerance at the instant the tests happen to run, in one zone.""",
[D+"DateTimeValue.cpp"],[("one clock read broken down by the platform's calendar",D+"DateTimeValue.cpp")],None,["returned date-time values","clock reads made by the library"])

p("C07","UTC/local conversion uses the rule in force at the converted instant",
"""Converting a UTC date-time to local time, or a local date-time to UTC, applies the offset the configured zone has at that instant, to the second and across date boundaries,
for every zone (half-hour and negative offsets, daylight saving of either hemisphere) and every representable instant. The result does not depend on the current clock or on zones configured earlier,
and the two conversions undo each other wherever local time is unambiguous.""",
["inputs","configurations","schedules"],
"all zones, all instants from year 2 to 9998, all current clock values, all histories of zone changes",
"""The tests convert only 'now' in the sandbox's zone (and one fixed zone), where a wrong offset rule is invisible.""",
[D+"DateTimeValue.cpp"],[("zone offset lookup and addition",D+"DateTimeValue.cpp")],None,["returned date-time values"])

p("C08","The daylight-saving flag depends only on the value and the zone",
"""Asking whether a local date-time falls into daylight saving answers according to the configured zone's rules at that local time, for every unambiguous local time,
independently of earlier calls, of the current clock, of zones configured earlier and of leftover memory contents.""",
["inputs","configurations","histories"],
"all zones, all unambiguous local times, all histories of calls and memory contents",
"""One summer and one winter date in one zone are tested, with whatever the stack happens to hold.""",
[D+"DateTimeValue.cpp"],[("platform calendar asked for the daylight-saving flag",D+"DateTimeValue.cpp")],None,["returned flag"])

p("C09","Elapsed times and deadlines follow the platform clock",
"""For any two UTC clock readings, their difference, its total in milliseconds, seconds, minutes, hours or days, and comparisons between readings equal what elapsed on the platform clock between
the two reads, to the millisecond and also when the clock was set back. A program that waits until a deadline computed from a reading sees it expire at the first reading at or after it, and not before.""",
["schedules","histories"],
"all clock schedules (advance, stall, jump forward and back), all spans from milliseconds to centuries, all polling schedules",
"""The tests add and subtract constants; none follows a clock through time.""",
[D+"DateTimeValue.cpp",D+"TimeSpanValue.cpp"],[("date-time subtraction, addition and comparison in ticks",D+"DateTimeValue.cpp"),("time-span totals",D+"TimeSpanValue.cpp")],None,["elapsed values","iteration at which a deadline expires"])

p("C10","A string builder behaves as a character sequence under any history",
"""After any history of appends, inserts, removals, replacements, length and capacity changes on string builders, every text, length and character read back equals that of a plain character sequence given the same operations,
and characters exposed by growing the length are NUL. Always length <= capacity <= maximum capacity; an operation with out-of-range arguments, or one that would exceed the maximum capacity, raises a library exception.
An operation that raises an exception, or during which memory is refused, leaves the builder exactly as it was, and builders never affect one another or strings taken from them.""",
["histories","fault_sequences","inputs"],
"all histories of operations with all argument values on all builders, with memory refused at any allocation",
"""The tests apply one or two operations to short texts with roomy capacity; growth in the middle of a history, boundaries at multiples of the growth step, maximum capacities and refusals are not reached.""",
[D+"StringBuilder.cpp",H+"StringBuilder.h"],[("capacity management and buffer moves",D+"StringBuilder.cpp")],
[("buffer/length/capacity","current text and room",H+"StringBuilder.h")],["text, length, capacity, characters"])

p("C11","Strings are immutable and string operations match the reference",
"""A string's text never changes, whatever operations are applied to it, to strings derived from it, to arrays or builders made from it, and wherever memory is refused meanwhile.
Each operation (search forwards and backwards, containment, prefix/suffix, comparison, concatenation, joining, substring, insertion, removal, replacement, padding, trimming, case mapping, character access, copying) returns what the
same operation on a plain character sequence returns, and raises a library exception when an index or count lies outside the string.""",
["histories","inputs","fault_sequences"],
"all histories over sets of strings sharing memory (literals, substrings, self-results), all arguments, memory refused at any allocation",
"""The tests call each operation on a few literals; empty and longer-than-subject arguments, matches straddling a limit, sharing and refusals are absent.""",
[D+"StringDotNet.cpp",H+"StringDotNet.h",D+"StringBuilder.cpp"],[("operations build a new string through a temporary builder",D+"StringDotNet.cpp")],None,["text and results of every live string"])

p("C12","Arrays keep their elements and their bounds",
"""After any history of element writes, copies (overlapping ones included), clears and initialisations on arrays of any element type and of one to three dimensions, each element read back is the last one written to that position.
An access, copy, clear or dimension query that reaches outside an array, whatever the integers passed, raises a library exception and changes no element of any array; an array of impossible size cannot be created.""",
["histories","inputs","fault_sequences"],
"all histories of operations on all arrays, all element types and ranks, all index and count values, memory refused at any allocation",
"""The tests touch in-range positions of small arrays and a few just-out-of-range ones; integer extremes, overlap and rejected clears are not covered.""",
[D+"Array.cpp",H+"Array.h"],[("index computation and range verification",D+"Array.cpp")],None,["elements of every array","guard bytes around element storage"])

p("C13","Byte views of arrays agree with memory and stay inside it",
"""Reading or writing single bytes of an array, copying bytes between arrays (overlapping ones included) and converting values to and from byte arrays act exactly like the same operations on the arrays' little-endian memory image,
and every value converts to bytes and back unchanged. Every offset, count or index that would reach outside an array raises a library exception, whatever the integers passed, and changes nothing.""",
["histories","inputs","fault_sequences"],
"all histories of byte operations over sets of primitive arrays, all offsets and counts, memory refused at any allocation",
"""The tests convert a few constants and copy between distinct small arrays; negative and extreme indexes, empty arrays and overlap are missing.""",
[D+"Buffer.cpp",D+"BitConverter.cpp"],[("byte-range checks and memory moves",D+"Buffer.cpp"),("byte extraction and assembly",D+"BitConverter.cpp")],None,["array bytes","converted values"])

p("C14","Wrapped platform data is shared live, never copied, owned or overrun",
"""When platform memory is exposed to the program as an array, program and platform see each other's writes to every element immediately, in every interleaving, during a run, between runs and after runs that failed; exposed scalars are read live as well.
The program can never write outside the exposed elements, a write changes only its element, and destroying the wrapper or ending the run leaves the platform's memory in place and unchanged.""",
["schedules","histories","crash_points"],
"all interleavings of program accesses, platform writes, wrapping and unwrapping, run ends of every kind, all element types and ranks",
"""The integration program reads the example array once; no test wraps platform memory, writes it from both sides or destroys the wrapper.""",
[LS,LH,D+"Array.cpp"],[("array object over external memory",D+"Array.cpp"),("data access accessors",LS)],None,["platform memory and guard bytes","elements read by the program","requests to the platform heap"])

p("C15","Results never depend on leftover memory, layout or history",
"""The same call with the same arguments and object states gives the same result whatever garbage the stack and released or never-used memory hold, whether memory comes from the run's pool or from the platform heap, where blocks lie,
and which calls, failed ones included, came before. This holds for every operation of the library except clock readings, including parsing of malformed text and formatting of any value.""",
["histories","configurations","inputs"],
"all calls and argument values, all residual contents of stack and heap, all placements, all preceding histories",
"""A test run has one particular stack and a heap that is mostly zero; reading an uninitialised byte usually yields the expected value there.""",
["DotNetLibrary/src","DotNetLibrary/include","PlatformSupport"],[("every value written before it is read",D+"DoubleValue.cpp"),("zero-filled grants",PS)],None,["result of every call"])

p("C16","No call sequence crashes, hangs or escapes the program's memory",
"""Any sequence of library operations on existing objects with arbitrary numbers, texts and indexes, memory being refused at any allocation, finishes each call in bounded time with a value, a library exception or an out-of-memory exception.
No call ever reads or writes memory outside the objects involved, kills the process or fails to return.""",
["histories","inputs","fault_sequences","crash_points"],
"all call sequences over the whole library with all argument values (object arguments not null), memory refused at any allocation, pool and heap operation",
"""The tests use well-formed arguments chosen by the author and an unlimited heap.""",
["DotNetLibrary/src","DotNetLibrary/include","PlatformSupport","DotNetLibrarySupport"],[("argument validation in every operation",D+"StringDotNet.cpp"),("range verification",D+"Array.cpp")],None,["process state","memory-error detector","guard bytes"])

p("C17","String enumerators are independent and follow one protocol",
"""An enumerator yields exactly the characters of its string in order, each once per pass; before the first step, after the last, and after a reset it has no current character and says so with a library exception, and a reset starts the pass again.
Any number of enumerators over the same or different strings progress independently in any interleaving, and neither other operations nor refused allocations disturb them.""",
["schedules","histories","fault_sequences"],
"all interleavings of any number of enumerators, resets and other operations, all strings including empty ones",
"""The tests walk one enumerator over one string.""",
[D+"CharEnumerator.cpp",H+"CharEnumerator.h"],[("position kept in the enumerator",D+"CharEnumerator.cpp")],[("index","position: before first, on an element, after last",H+"CharEnumerator.h")],["current characters and step results"])

# ---- properties that hold (or should) but have no schedule, clock, fault or history for a simulator to drive
p("C18","Numbers survive being printed and parsed",
"""Formatting any integer, floating-point, boolean or character value and parsing the text returns the value (to the printed precision), and parsing accepts exactly the valid texts within the type's range.""",
["inputs"],"all values of all primitive types, all texts","Tests sample a handful of values per type.",
[D+"UInt64Value.cpp",D+"DoubleValue.cpp",D+"Int32Value.cpp"],[("text conversion",D+"UInt64Value.cpp")])
p("C19","Calendar and time-span arithmetic follow the proleptic Gregorian calendar",
"""Date parts, leap years, month lengths, additions of days, months and years, and time-span parts and operations agree with the proleptic Gregorian calendar for every value, and overflow raises a library exception.""",
["inputs"],"all tick values from year 1 to 9999 and all spans","Tests sample some dates.",
[D+"DateTimeValue.cpp",D+"TimeSpanValue.cpp"],[("date part arithmetic",D+"DateTimeValue.cpp")])
p("C20","Math operations return the .NET results",
"""Rounding, clamping, division, logarithms and the other mathematical functions return the results .NET documents for every argument, special values included.""",
["inputs"],"all arguments","Tests sample some arguments.",[D+"DotNetMath.cpp"],[("wrappers over the C library",D+"DotNetMath.cpp")])
p("C21","Boxed values convert, compare and order consistently",
"""Conversion between boxed primitive types follows C# casts, equality is an equivalence and comparison a total order consistent with it, for every pair of values.""",
["inputs"],"all pairs of values of all types","Tests compare a few small values.",[D+"Int64Value.cpp",D+"UInt32Value.cpp",D+"Object.cpp"],[("virtual conversion and comparison methods",D+"Object.cpp")])
p("C22","Translated C++ means what the C# source means",
"""For every C# program in the supported subset the translated C++ compiles and computes the same results and messages as the C# program.""",
["programs"],"all programs of the supported subset","Feature tests translate a fixed list of snippets.",["CppTranslator","CppTranslatorFeatureTest","CppTranslatorSupport"],[("visitor that prints C++ for each syntax node","CppTranslator")])
p("C23","Programs outside the supported subset are rejected",
"""A C# construct or type the translator does not support is reported rather than silently translated to something else.""",
["programs"],"all C# programs","Feature tests contain only supported constructs.",["CppTranslator"],[("list of valid types","CppTranslator")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
