import json
P=[]
def p(id,title,stmt,over,otext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=stmt,quantifier={"over":over,"text":otext},why_tests_cant=why,anchors=a))
BAR=["src/Barrier.cxx","include/Barrier.hxx"]; MB=["include/MailBox.hxx"]; FM=["src/Format.cxx","include/Format.hxx"]; OP=["src/Options.cxx","include/Options.hxx"]; UT=["src/Split.cxx","include/Utils.hxx"]; PT=["src/PropertyTree.cxx","include/PropertyTree.hxx"]; PY=["src/PropertyTreeYAML.cxx","include/PropertyTreeYAML.hxx"]
bst=[("waiting","threads that have arrived in the current round","Barrier.hxx"),("barrier_count","round number","Barrier.hxx"),("corrupted","a waiter timed out","Barrier.hxx")]
mst=[("message_queues","one queue of waiting messages per subscriber id","MailBox.hxx"),("subscription_counter","next id to hand out","MailBox.hxx")]
p("B01","A barrier releases a thread only when its whole round has arrived",
 "A thread waiting at a barrier returns normally only after as many threads as the barrier was built for have arrived in the same round the thread itself joined. The arrival that completes a round releases every thread waiting in it and leaves the barrier empty for the next round, so it can be reused any number of times.",
 ["schedules","histories"],"every interleaving of any number of threads over any number of rounds, including more callers than the barrier was built for, and spurious wake-ups",
 "BarrierTest runs one timing-driven mix with exactly as many threads as waiters and only checks that nobody times out; an early release is not observed at all.",
 BAR,[("arrival count compared with the configured number, round number bumped and all waiters notified under the lock; waiters wait for the round number they read under the lock to change","Barrier::wait")],bst,["return of Barrier::wait"])
p("B02","A barrier timeout is never mistaken for a completed round",
 "When a waiter's timeout expires before its round completes, the first such waiter gets a Timeout exception, and every other thread then waiting or arriving later gets a Corrupt exception instead of returning normally. A timeout of zero waits effectively forever (no less than 1000 days), and any other timeout (up to 1000 days) is honoured as given.",
 ["schedules","histories","inputs"],"every interleaving of timeouts, arrivals and wake-ups, every timeout value",
 "The timeout test passes as soon as one message appears on stderr; nothing checks what the other waiters or later arrivals see.",
 BAR,[("the corrupted flag is set and everybody woken by the first timeout, and tested by every arrival and after every wake-up","Barrier::wait")],bst,["exception or normal return of Barrier::wait"])
p("C01","Mailboxes and barriers are race-free and every operation is indivisible",
 "Any number of threads may use one mailbox or one barrier at the same time: all access to its shared state happens inside that object's own critical section, and each operation's effect is one critical section, never split in two. No operation returns or throws with the object still locked, and none waits for a lock it already holds.",
 ["schedules"],"every interleaving of operations by any number of threads",
 "The tests sample a handful of schedules on one machine; a missing lock shows only in rare interleavings.",
 MB+BAR,[("a lock guard opens every public operation","MailBox<T>, Barrier::wait"),("waiters release the lock only through the condition variable","Barrier::wait")],bst+mst)
p("M01","A message reaches every subscriber exactly once, and only the sender is skipped",
 "A message put into a mailbox is queued exactly once for every current subscriber; if the sender passes its own subscription, that subscriber and no other is left out. Every subscriber receives the very message object that was put.",
 ["inputs","histories"],"any number of subscribers, any history of subscribing, unsubscribing and putting, with and without a sender",
 "MailBoxTest compares sums of message values for a fixed set of never-leaving subscribers; lost-and-duplicated combinations, or loss after an unsubscribe, escape it.",
 MB,[("loop over all queues, skipping the key of the given subscription","MailBox::put")],mst,["what MailBox::get later returns to each subscriber"])
p("M02","Each subscriber takes its own messages in order, each exactly once",
 "Taking a message returns the oldest message still waiting for that subscriber and removes that one message only; it reports that there is none exactly when nothing is waiting. Taking or clearing one subscriber's messages never changes what waits for any other subscriber, and clearing removes all of the caller's.",
 ["inputs","histories"],"any history of put, get and clear by any subscribers",
 "MailBoxTest only sums the values it gets, so order, duplication-with-loss and cross-subscriber effects are invisible, and clear is never called.",
 MB,[("front and pop of the caller's own queue","MailBox::get"),("the caller's queue drained","MailBox::clear")],mst)
p("M03","Subscriptions are unique, checked, and end without a trace",
 "Every subscription to a mailbox gets an identity that mailbox has never used before, and starts with nothing waiting. Using a subscription with a mailbox it does not belong to, or taking, counting, clearing or ending messages for an identity the mailbox does not know, throws a mailbox exception and changes nothing. Ending a subscription removes exactly that subscriber, and only that one; ending one that was already removed by its identity is harmless.",
 ["inputs","histories"],"any history of subscribing and ending subscriptions, any mix of mailboxes",
 "No test ends a subscription while others remain in use, re-subscribes, or passes a foreign subscription.",
 MB,[("monotonic counter as identity","MailBox::subscribe"),("owner check","SubscriptionCl::getIndex"),("unknown id check","MailBox::getQueue"),("removal on destruction","SubscriptionCl destructor, MailBox::unsubscribe")],mst)
p("M04","Mailbox counts are exact and asking changes nothing",
 "The ready count of a subscriber is the number of messages now waiting for it, the minimum ready count is the smallest such number over all current subscribers (the largest unsigned value if there are none), and the subscriber count is the number of current subscriptions. Asking for a count changes nothing.",
 ["inputs","histories"],"any state of the mailbox",
 "The tests never look at the ready count or the subscriber count, and ignore the value of the minimum.",
 MB,[("queue sizes, minimum over all queues","MailBox::readyCount, minReadyCount, subscriberCount")],mst)
p("M05","An untyped mailbox converts only to its own message type",
 "Converting an untyped mailbox pointer yields the same mailbox when it carries the requested message type, and throws a mailbox exception for any other mailbox; it never yields a null or wrongly typed pointer. A null pointer given to the conversion is refused with the same kind of exception.",
 ["inputs","programs"],"every pair of stored and requested type, and the null pointer",
 "One good and one bad pair are tested; null is not.",
 MB,[("dynamic cast and throw on null","MailBoxBase::convert")])
p("N01","Barriers and mailboxes cannot be duplicated",
 "No program can copy, move or assign a barrier or a mailbox, nor any class built on the no-copy base, and no program can copy a subscription: every such attempt fails to compile.",
 ["programs"],"every program that uses the headers",
 "A test can only contain code that compiles; that something does not compile is outside its reach.",
 ["include/NoCopy.hxx","include/Barrier.hxx","include/MailBox.hxx"],[("deleted copy construction and assignment in the base class","NoCopy"),("unique_ptr subscription","MailBox::Subscription")])
p("E01","Every library failure can be caught as the library's documented exception",
 "Everything the barrier, mailbox, format and property-tree code throws is derived from the library's base exception, which is itself a standard runtime error; each documented specific exception is also derived from its component's own exception type. Errors of the underlying YAML reader never escape as foreign exceptions.",
 ["inputs","programs"],"every throw site and every call into the YAML reader, for every input",
 "Tests reach two of the throw sites; a foreign exception escapes only for inputs they never try (malformed files, odd keys).",
 ["include/Exception.hxx"]+BAR+MB+FM+PT+PY,[("class hierarchy under SoDa::Exception","Exception.hxx"),("translation of YAML exceptions","PropertyTreeYAML::readFile")])
p("E02","Every message the library composes is complete",
 "In every message, exception text or help line that the library itself composes from a format string and values, each placeholder has a value and each value has a placeholder, so no fact is dropped and no raw placeholder is shown.",
 ["programs","inputs"],"every place in the library that composes a message",
 "The texts of most exceptions and messages are never produced or compared by any test.",
 BAR+MB+PT+OP+FM,[("format strings and their chains of values","Format(...).addX(...) chains in the library")])
p("F01","The k-th value fills every placeholder numbered k and nothing else",
 "Each value added to a format goes into every placeholder that carries the number of values added before it, however often and wherever that placeholder occurs, and into no other place. Every add operation uses up exactly one number, whatever the value and the formatting options.",
 ["inputs","histories"],"every format string, every sequence of add operations with every argument",
 "Tests use each placeholder once or twice, in order, and only a few combinations of add operations and options.",
 FM,[("all segments with the current number are filled, then the number advances by one","Format::insertField"),("every add method inserts once on every path","Format::addI, addU, addF, addS, addC, addB")],[("cur_arg_number","number of the next value","Format.hxx"),("format_string_segments","literal and placeholder pieces","Format.hxx")])
p("F02","A format string is read as text, %% and numbered placeholders, losing nothing",
 "In a format string, % followed by one or more digits is a placeholder with that decimal number (as far as it fits an unsigned integer), %% stands for one percent sign, and every other character, including a lone % and the character after it, is literal text kept in order. Placeholders may touch each other and stand at either end.",
 ["inputs"],"every format string",
 "A few fixed strings are tested; adjacent, trailing, multi-digit and malformed placeholders are not checked.",
 FM,[("scanner over the characters with three modes","Format::initialScan")])
p("F03","Inserted values are literal and rendering is pure concatenation",
 "The rendered text is exactly the pieces of the format in their order, with filled placeholders shown as the inserted value, never read again as format text (even if the value contains %), and unfilled ones shown as % and their number. Rendering, by string or by stream, does not change the format.",
 ["inputs","histories"],"every value (including text that looks like a placeholder) and every order of rendering and adding",
 "No test inserts text containing % or renders before all values are added.",
 FM,[("filled segments become literal","Format::insertField"),("concatenation of segments","Format::str, operator<<")])
p("F04","Reset restores the original format; the strict check reports unfilled ones",
 "Resetting a format restores exactly the state it had when it was created from its original format string, whatever was added since. Asking for the text with the strict check throws BadFormat exactly when some placeholder is still unfilled, and asking without it never throws.",
 ["histories","inputs"],"every sequence of add, render and reset",
 "No test calls reset or the strict check.",
 FM,[("rescan of the saved original and numbering back to zero","Format::reset"),("unfilled count","Format::str")])
p("F05","Width is a minimum: values are never cut and are padded on the documented side",
 "For integers and strings the inserted field contains the whole value and is never shorter than the requested width; a positive string width pads on the left and a negative one on the right. Integers are padded on the left with the fill character if one is given.",
 ["inputs"],"every value, width and fill",
 "A dozen fixed width and value pairs are tested, and string width not at all.",
 FM,[("stream width, explicit padding loops","Format::addI, addU, addS, toHex, toOct")])
p("F06","No call loops forever on any input",
 "Formatting any number (including the largest, the smallest subnormal, infinities and NaN, with any precision and width), scanning, splitting or squashing any text, parsing any command line and walking any property path always finishes. Only a barrier wait may block.",
 ["inputs"],"every input of every operation other than a barrier wait",
 "Tests format values within 1e-18 to 1e22 and never the extremes; a hang appears only for particular inputs.",
 FM+UT+OP+PT,[("every loop makes progress toward its bound on every path","all loops of the library"),("NaN and infinity dealt with before the normalising loops","Format::addF")])
p("F07","Engineering notation: exponent a multiple of three, sign and radix kept",
 "A number rendered in engineering notation always has an exponent that is a multiple of three and shows a minus sign exactly when the number is negative. The configured radix separator is the one that appears in floating point output. Infinities keep their sign.",
 ["inputs","configurations"],"every finite double, every precision, every configured separator",
 "Tests read the text back as a number with the default separator and positive values, so 12.3e4, a lost sign, or the wrong separator would pass.",
 FM,[("exponent changes in steps of three","log1k"),("sign character and separator","Format::addF")])
p("F08","Digit grouping only inserts separators between digits",
 "Removing the separators from a grouped number gives the same text as formatting it without grouping. Separators stand only between digits, never next to the sign, counted in groups (three for signed numbers, the requested positive size for unsigned) from the least significant digit.",
 ["inputs"],"every integer, separator and group size",
 "Two positive five-digit numbers and a few hexadecimal ones are tested; negative numbers are not.",
 FM,[("reverse, insert, rebuild","Format::addI, addU")])
p("F09","An extended format class behaves exactly like the plain one",
 "Every add operation on a class built on the extension template takes the same arguments, with the same ranges and defaults, and inserts the same text as on the plain format class, and returns the extended object itself for chaining.",
 ["programs","inputs"],"every program that extends the class, every argument value",
 "No test uses the extension template.",
 FM,[("shadowing methods forward to the base","Format_ext<T>")])
p("F10","Formatted floating point values are numerically correct",
 "The text produced for a floating point value reads back as that value to the requested number of significant digits, for every notation.",
 ["inputs"],"every double, precision and notation",
 "Tests sample about 30,000 values.",
 FM,[("rounding and digit extraction","log1k, fractionate, addF")])
p("F11","Each format letter gives its documented notation of the unchanged value",
 "An unsigned number appears in hexadecimal, with 0x in front, for the letters x, X, h and H (upper-case digits for X and H only), in octal with a leading zero for o and O, and in decimal otherwise; hexadecimal and octal are filled with zeros and hexadecimal has at least as many digits as the width asks for. Signed numbers are decimal. Floating point numbers use fixed notation for f, scientific for s and the default one otherwise (except e), each with the requested precision and the value itself. A character is inserted as itself, a truth value as T or F.",
 ["inputs"],"every value, format letter, width and precision",
 "FormatTest compares a few dozen fixed texts; most combinations of letter, width, precision and extreme value never occur.",
 FM,[("stream manipulators chosen by the format letter","Format::addU, Format::toHex, Format::toOct, Format::addF")],None,["Format::str()"])
p("O01","A bad command line is reported by the return value, never by a throw or silence",
 "Parsing returns false exactly when help was requested, an option name is unknown, or a value is unacceptable to its option's type or test; otherwise it returns true (a value missing at the end of the line is accepted). No exception of the option parser escapes from parsing, whatever the tokens.",
 ["inputs"],"every token list, every set of registered options",
 "OptionsTest parses one valid line and always exits 0.",
 OP,[("unknown name and bad value exceptions thrown inside and caught in parse","Options::parse, setVal")])
p("O02","An option's target receives only accepted values, and only its own",
 "A value on the command line is converted to the option's type and checked by its test before the option's variable is changed: a rejected value leaves the variable as it was. An accepted value sets exactly the variable the option was registered with; a vector option appends accepted values in order. An option of a signed type takes a following token that begins with '-' as its value; an option without a default takes whatever token follows; one with a default does not take a switch.",
 ["inputs"],"every option type, test function and value",
 "No test gives a bad value or checks a target after a failure.",
 OP,[("conversion, test, then assignment or append","Opt<T>::setVal, OptVec<T>::setVal, setValBase")])
p("O03","Presence is reported for exactly the options that appeared",
 "After parsing succeeds, an option counts as present, by its long and by its short name alike, exactly if it appeared on a command line, with or without a value and in any position including the last. A presence flag is set exactly if its option appeared, and unknown names are never present.",
 ["inputs","histories"],"every token list",
 "No test asks for presence.",
 OP,[("present flag set when a value is stored or the option is passed over","Options::parse, setPresent, isPresent")])
p("O04","One parse never disturbs the next",
 "How a token list is interpreted depends only on its tokens and the registered options, not on earlier parses of the same object, even if those failed or ended with an option that still awaited a value. In particular an option switch is never taken for a value or a positional argument because of an earlier call.",
 ["histories"],"every sequence of parses",
 "No test parses twice with one object.",
 OP,[("the parser's mode is set afresh by each parse","Options::parse, isSwitch")],[("waiting_for_signed","next token is a signed value","Options.hxx")])
p("O05","Positional arguments are kept in order and read safely",
 "Tokens that are neither switches nor option values become the positional arguments, each exactly once, in command-line order; the count, the list and the indexed access agree. Asking for an index that does not exist gives the empty string.",
 ["inputs"],"every token list and every index",
 "The one test reads three existing positions.",
 OP,[("append in parse","Options::parse"),("bounds test","Options::getPosArg")])
p("O06","A command string is cut into tokens by blanks and quotes, losing nothing",
 "A string of options is cut at white space outside double quotes; a closing quote ends the token; quoted text, including blanks and the empty text, becomes part of one token without its quotes. No other character is lost, added or reordered, and the last token is kept even without trailing white space or closing quote.",
 ["inputs"],"every string",
 "No test parses a string.",
 OP,[("scanner with an in-quote mode","Options::buildTokenList")])
p("O07","Every key=value item sets its own key to its whole value",
 "In a key=value list, spaces are squashed and items are separated by commas; the text before the first = names the option and all the text after it, even if that contains further = signs, is its value. An empty or malformed item never crashes and never takes a value from elsewhere.",
 ["inputs"],"every key=value list",
 "No test uses a key=value list.",
 OP+UT,[("split at commas, then at the first =","Options::parseKeyValue")])
p("O08","Registering an option sets its default and makes both its names work",
 "Registering an option gives its variable the stated default at once (the type's zero value if none is stated; false for a presence flag; a vector is left as it is), and from then on the long name and the one-letter name refer to that same option. The help text lists every registered option.",
 ["inputs","programs"],"every option kind, name and default",
 "Only defaults of zero are exercised, and help is never printed.",
 OP,[("target assigned in the option's constructor","Opt<T>, OptPresent"),("both maps point to one object","Options::registerOpt"),("loop over the long names","Options::printHelp")])
p("U01","Splitting cuts exactly at delimiters and keeps everything between them in order",
 "Splitting a text gives the pieces between delimiter characters (of the text with spaces squashed), in order and unchanged; with empty pieces suppressed only the empty ones are missing, otherwise an empty piece is kept for each pair of neighbouring delimiters and for a leading one. The vector form gives the same pieces as the list form.",
 ["inputs"],"every text and delimiter set",
 "One string with one delimiter is tested, and the result's length is not even compared.",
 UT,[("search loop over delimiters","split"),("copy of the list","splitVec")])
p("U02","Squashing removes only redundant spaces",
 "Squashing spaces removes the leading and trailing spaces and reduces every inner run of spaces to one; all other characters are kept in order. It works for every text, including the empty one and one made only of spaces.",
 ["inputs"],"every text",
 "No test calls it directly; texts with runs of spaces and empty texts are not tried.",
 UT,[("trim loops and run-collapsing loop","squashSpaces")])
p("T01","A property path leads to exactly the node it names",
 "Looking up a path of names separated by colons walks down one level per name, starting from the node asked, and yields the node so reached; if any name on the way is missing, nothing is found. Looking something up never changes the tree.",
 ["inputs"],"every tree and every path",
 "No test looks anything up.",
 PT,[("recursive descent through the dictionaries","PropNode::getProp, getPropRecursive")])
p("T02","Property reads fail the way the caller asked for",
 "Reading a value returns true and sets the variable when the property exists and its text converts to the type asked. When it does not exist or does not convert, the read throws the corresponding exception if the caller asked for exceptions, and otherwise returns false without throwing.",
 ["inputs"],"every tree, path and type, both failure modes",
 "No test reads a value.",
 PT,[("not found and not convertible branches","PropertyTree::get, PropNode::get")])
p("T03","A string property is read whole",
 "Reading a property as a string yields its complete text, blanks included.",
 ["inputs"],"every property text",
 "No test reads a value.",
 PT,[("string specialisation of the read","PropNode::get")])
p("T04","Every entry of a YAML file is in the tree under its own name",
 "After a file is loaded, every key of every mapping in it that has a value, at any depth, is an entry of the node for that mapping, holding the scalar's text or the nested mapping; the elements of a sequence are kept, in order, in the list of the node under the sequence's own key. Loading a file that cannot be opened throws FileNotFound, and one that cannot be parsed throws a library exception.",
 ["inputs"],"every YAML file",
 "The test loads one file and only dumps it.",
 PY+PT,[("recursive fill by node kind","PropertyTreeYAML::fillRecurse"),("exception translation","PropertyTreeYAML::readFile")])
p("T05","A node shows exactly what it holds, and its path name leads to it",
 "getKeys gives every name in a node's dictionary exactly once, in order; getList gives every element of its list, in order. dump writes every name and every text at or below the node, whole and each in its place: the elements of a node's list in order, then every name in its dictionary followed by what the name stands for. The path name of a node reached by names is those names, from the root down, joined by colons.",
 ["inputs"],"every tree",
 "The test dumps one tree and does not look at what was written; nothing lists a node or asks for its path name.",
 PT,[("keys, list and path name","PropNode::getKeys, getList, getPathName"),("recursive writing of lists and dictionaries","PropNode::dump")])
p("G01","No call reads outside a container, whatever its arguments",
 "Whatever text, token list, index, key or path it is given, no operation of the formatting, option, splitting, mailbox and property code takes the first or last element of an empty container, indexes past the end, dereferences a past-the-end position, or follows a lookup that found nothing.",
 ["inputs"],"every argument of every public operation",
 "The tests use well-formed, non-empty inputs.",
 UT+OP+FM+MB+PT,[("emptiness, bounds and lookup tests before every access","all element accesses of the library")])
p("H01","Every public header works alone, repeatedly and in many source files",
 "Any public header can be included first, on its own, more than once and in any combination, in any number of source files of one C++11 program, and the program compiles and links.",
 ["programs"],"every program that includes the headers",
 "Each test includes a few headers in one order, in one source file.",
 ["include/Barrier.hxx","include/Exception.hxx","include/Format.hxx","include/MailBox.hxx","include/NoCopy.hxx","include/Options.hxx","include/PropertyTree.hxx","include/PropertyTreeYAML.hxx","include/Utils.hxx","include/UtilsBase.hxx"],[("include guards, own includes, no non-inline definitions","all headers")])
p("V01","The reported version is the version that was built",
 "The version and source identification that any library object reports are those of the build configuration, unchanged.",
 ["configurations"],"every build configuration",
 "No test asks for the version.",
 ["src/UtilsBase.cxx","include/UtilsBase.hxx","version.hxx.in"],[("configured constants returned","UtilsBase::getVersion, getGitID")])
p("R01","Storage is reclaimed: every object has an owner, and taken messages are let go",
 "Every object the library allocates (property tree nodes, subscriptions, option objects, mailboxes, the buffers of conversion errors) has exactly one chain of owners that destroys it, also on failing paths: nodes live as long as a tree that holds them and no longer. A mailbox holds a message only while a subscriber has yet to take it: once taken, cleared or unsubscribed it keeps no reference. Objects can be deleted through the library's polymorphic base classes.",
 ["histories"],"every history",
 "MailBoxTest counts live messages at the end of one run; property trees are never destroyed in a way that would show a leak.",
 PT+PY+MB,[("shared pointers to messages","MailBox"),("node ownership","PropertyTree::newNode, PropertyTreeYAML::fillRecurse"),("demangled names","MailBoxBase::convert")])
p("B03","A barrier wait makes progress under every schedule",
 "If enough threads keep arriving, every waiting thread eventually returns, under any fair scheduling and any load.",
 ["schedules"],"every fair schedule",
 "Schedules cannot be enumerated by a test.",
 BAR,[("notification on release","Barrier::wait")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
