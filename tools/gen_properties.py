#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mech],
        observe_at=list(observe), hook_needed=hook)))

T4 = "The 4 repository tests load two small directories and look up one singular message each, judged by exit status only; "

prop("C01", "A PO text loads to exactly the entries it denotes",
 "Parsing a well-formed PO text (entries separated by blank lines) leaves the dictionary with exactly the entries the text denotes: each message keyed by its context (an empty context is distinct from no context) and source text, with every documented escape decoded, every other byte and unknown escape kept verbatim, and continuation lines joined. Plural forms land at the index written in the file whatever their order, entries whose translations are all empty are left out, a repeated message is governed by its last occurrence, and only the entry with empty source text and no context is the header. Nothing else appears in the dictionary, however long the strings or however many entries there are.",
 ["inputs"], "all well-formed PO texts: every string content, entry shape, order and size",
 T4 + "no test reads contexts, plurals, escapes, continuations or duplicates, and no sample of files covers all strings and shapes.",
 ["src/po_parser.cpp", "src/dictionary.cpp"],
 [("line-oriented recursive parse of comments, msgctxt, msgid, msgid_plural, msgstr[N]", "src/po_parser.cpp parse()"),
  ("string and escape decoding", "src/po_parser.cpp get_string()/get_string_line()"),
  ("storing entries", "src/dictionary.cpp add_translation() x4")],
 [("current_line / line_number / eof", "parser cursor", "src/po_parser.cpp")],
 ["POParser::parse", "Dictionary::foreach", "Dictionary::foreach_ctxt"])

prop("C02", "Parsing any bytes terminates and never corrupts memory",
 "For every byte sequence given as a PO file, including truncated, binary, empty or unterminated ones, parsing finishes, does no invalid memory access, and stores no more text than the input can account for. The only exception it may raise is the standard runtime error for a character set that cannot be converted. Cutting a file anywhere keeps every entry that ended, blank line included, before the cut exactly as in the whole file.",
 ["inputs", "crash_points"], "all byte sequences and all truncation points",
 T4 + "malformed and truncated input is never fed to the parser by a checked test (po_parser_test's result is not asserted).",
 ["src/po_parser.cpp", "src/iconv.cpp"],
 [("end-of-input and end-of-line tests while scanning", "src/po_parser.cpp next_line(), get_string(), get_string_line()"),
  ("recovery by exception to the entry loop", "src/po_parser.cpp error(), parse()")],
 [("eof/current_line", "what is left of the input", "src/po_parser.cpp next_line()")],
 ["POParser::parse", "Dictionary::foreach"])

prop("C03", "A malformed entry never harms its neighbours",
 "When a PO file contains malformed entries, every well-formed entry separated from them by blank lines is loaded exactly as if the malformed entries were absent, including its own flags, the character set and the plural rule in force. This holds wherever the malformed entry stands (first, between, last, several in a row) and whatever its fault. Each entry that breaks the grammar is reported through the error or warning log, and a file without faults reports no error.",
 ["inputs"], "all malformed blocks, positions and neighbours",
 T4 + "no test contains a malformed entry whose neighbours are checked; recovery behaviour depends on which line the fault is noticed on.",
 ["src/po_parser.cpp"],
 [("resynchronisation at the next blank line", "src/po_parser.cpp error()"),
  ("per-entry state reset at the top of the entry loop", "src/po_parser.cpp parse()")],
 [], ["POParser::parse", "Log callbacks"])

prop("C04", "Layout and comments never change what a file means",
 "Changing only the layout of a well-formed PO file leaves the loaded dictionary unchanged: a leading UTF-8 byte-order mark, LF or CRLF line ends, a missing final line end, extra blank or whitespace-only lines between entries, comment lines of any kind before an entry, trailing white space, other white space between keyword and string or before continuation strings, and splitting a string over any number of continuation lines. This holds for any combination of such changes.",
 ["inputs"], "all combinations of layout changes on all well-formed files",
 T4 + "the sample files use one layout.",
 ["src/po_parser.cpp"],
 [("BOM skip", "src/po_parser.cpp parse()"), ("blank/comment line test", "src/po_parser.cpp is_empty_line()"),
  ("white-space tolerant string start and continuation", "src/po_parser.cpp get_string()")],
 [], ["POParser::parse", "Dictionary::foreach"])

prop("C05", "Fuzzy entries are used exactly when fuzzy use is enabled",
 "With use of fuzzy translations switched off, dictionaries obtained from the manager contain every entry except those whose own flag comment carries the fuzzy flag; with it on (the default) they contain all entries. Only a flag comment directly in front of the entry counts, not other kinds of comment nor another entry's flags, and the header is honoured either way. A change of the setting takes effect on the next dictionary obtained, whatever was loaded before.",
 ["inputs", "histories"], "all placements of flag and other comments, and all histories of setting changes and lookups",
 T4 + "no test switches the setting or has a fuzzy entry whose absence is checked.",
 ["src/dictionary_manager.cpp", "src/po_parser.cpp"],
 [("fuzzy flag detection per entry", "src/po_parser.cpp parse()"), ("setting clears the cache and reaches the parser", "src/dictionary_manager.cpp set_use_fuzzy(), get_dictionary()")],
 [("use_fuzzy", "whether fuzzy entries load", "DictionaryManager, POParser")],
 ["DictionaryManager::set_use_fuzzy", "DictionaryManager::get_dictionary"])

prop("C06", "Every message is converted exactly and on its own",
 "Each translation is stored as the exact conversion of its bytes from the character set the file declares (UTF-8 if none is declared) to the dictionary's character set: complete, in order, whatever the growth in size, including stateful and combining encodings. The result for one message never depends on the messages converted before it. When the two sets differ, bytes invalid in the declared set are reported as an error, cost at most the rest of that one message, and never crash the program or affect other messages; when they are the same, the bytes are kept as they are.",
 ["inputs", "histories"], "all pairs of character sets, all message contents and all orders of messages",
 T4 + "all sample directories are read without any conversion taking place or with single-byte text whose result is not asserted.",
 ["src/iconv.cpp", "include/tinygettext/iconv.hpp", "src/po_parser.cpp"],
 [("conversion with sized output buffer and reset", "src/iconv.cpp IConv::convert()"), ("charset taken from the header", "src/po_parser.cpp parse_header()"),
  ("two-byte aware scanning for Big5", "src/po_parser.cpp get_string_line()")],
 [("cd", "conversion descriptor with shift state", "IConv")],
 ["POParser::parse", "IConv::convert", "Dictionary::foreach"])

prop("C07", "The plural form follows the declared rule for every count",
 "For every supported plural rule the form chosen for a count n >= 0 is the value of the C expression written in the Plural-Forms header, and the reported number of forms is the one declared there; for every int count, negative ones included, the chosen index is below that number. Recognition of a rule does not depend on white space inside the header line or on a closing semicolon. A rule that is not supported is reported as unknown rather than mistaken for another.",
 ["inputs"], "all supported rules, all spellings by white space and terminator, all int counts",
 T4 + "no test selects a plural form; 25 rules times 2^32 counts cannot be sampled by hand.",
 ["src/plural_forms.cpp", "include/tinygettext/plural_forms.hpp"],
 [("table from normalised header to function", "src/plural_forms.cpp PluralForms::from_string()"), ("one function per rule", "src/plural_forms.cpp plural*")],
 [], ["PluralForms::from_string", "PluralForms::get_plural", "PluralForms::get_nplural"])

prop("C08", "A dictionary answers like a last-write-wins catalogue",
 "After any sequence of additions and rule changes, every lookup returns what a plain catalogue would: the latest translation of that message in that context, for plurals the form the rule selects for the count, and messages in different contexts (or without one) never influence each other. A message with no usable translation (absent, empty, or lacking the selected form) yields its source text, singular exactly when the count is 1 and plural otherwise, never an empty string for a non-empty source. Lookups and listings change nothing, and listings visit every entry exactly once.",
 ["histories", "inputs"], "all sequences of additions, rule settings, lookups and listings",
 T4 + "additions are never interleaved or repeated in a test and defaults are never asserted.",
 ["src/dictionary.cpp", "include/tinygettext/dictionary.hpp"],
 [("hash maps per context", "Dictionary::entries, ctxt_entries"), ("lookup and English default rule", "src/dictionary.cpp translate*, translate_plural*"), ("overwrite on collision", "src/dictionary.cpp add_translation()")],
 [("entries/ctxt_entries", "the catalogue", "Dictionary")],
 ["Dictionary::translate*", "Dictionary::foreach*"])

prop("C09", "Regional dictionaries fall back to the base language, same context",
 "When a message has no usable translation in the dictionary of a regional language, the lookup continues in the dictionary it falls back to (the base language, for dictionaries made by the manager), for plain, plural, contextual and contextual plural lookups alike. The fallback is asked for the same context and uses its own plural rule, and only when the whole chain has no usable translation is the source text returned by the English rule. A translation from another context, or without context, is never returned in its place.",
 ["inputs", "configurations"], "all contents of the regional and base dictionaries and all lookups",
 T4 + "de_AT.po in the sample directory is never requested.",
 ["src/dictionary.cpp", "src/dictionary_manager.cpp", "include/tinygettext/dictionary.hpp"],
 [("fallback pointer", "Dictionary::addFallback, translate()"), ("manager wires country -> base", "src/dictionary_manager.cpp get_dictionary()")],
 [("m_fallback", "next dictionary to ask", "Dictionary")],
 ["Dictionary::translate*", "DictionaryManager::get_dictionary"])

prop("C10", "Locale strings and names resolve to the right language",
 "Splitting a locale string LANGUAGE[_COUNTRY][.CODESET][@MODIFIER] selects the known language with exactly those parts when there is one, whatever the codeset says, and otherwise the best-ranked known variant of that language code; an unknown language code gives the undefined language. Printing any known language as a locale string and reading it back gives the same language, as does rebuilding it from its parts. The traditional language-name aliases resolve, without regard to letter case, to the language they name, and every language reports its own code, country, modifier and names.",
 ["inputs"], "all locale strings and all combinations of known and unknown codes",
 T4 + "only the strings Deutsch, deutsch and de are parsed.",
 ["src/language.cpp", "include/tinygettext/language.hpp"],
 [("split of the locale string", "src/language.cpp Language::from_env()"), ("language table and best match", "src/language.cpp languages[], Language::from_spec()"), ("alias table", "src/language.cpp resolve_language_alias()")],
 [], ["Language::from_env", "Language::from_name", "Language::from_spec", "Language::str"])

prop("C11", "Language match scores rank candidates consistently",
 "The match score of two languages is 0 exactly when their language codes differ and otherwise between 1 and 9; it is the same in both directions and is 9 exactly for identical languages. Calling the agreement of two countries (and of two modifiers) same, open (only one side has one) or different, the combinations country/modifier score in strictly falling order: same/same, same/open, open/same, open/open, same/different, different/same, open/different, different/open, different/different. Equality, ordering and hashing of languages agree with each other.",
 ["inputs"], "all pairs (and triples) of known languages",
 T4 + "scores are never examined.",
 ["src/language.cpp", "include/tinygettext/language.hpp"],
 [("3x3 score table", "src/language.cpp Language::match()"), ("comparison operators and hash", "include/tinygettext/language.hpp")],
 [], ["Language::match", "operator==", "operator<", "Language_hash"])

prop("C12", "The manager's caches are never visible in its answers",
 "After any sequence of setting languages, adding and removing directories, changing the character set or the fuzzy setting, and obtaining dictionaries, the dictionary obtained next answers every lookup exactly as one from a new manager brought directly to the same configuration. The current language survives every configuration change, a dictionary stays valid and unchanged until the configuration changes, no language set gives an empty dictionary, and no sequence leaks, double-frees or reads freed memory.",
 ["histories"], "all sequences of manager operations",
 T4 + "every test performs a single lookup on a new manager.",
 ["src/dictionary_manager.cpp", "include/tinygettext/dictionary_manager.hpp"],
 [("cache by language, cleared on configuration change", "src/dictionary_manager.cpp clear_cache(), get_dictionary()"), ("current dictionary pointer reset", "src/dictionary_manager.cpp set_language(), clear_cache()")],
 [("dictionaries", "cache", "DictionaryManager"), ("current_dict", "cached current dictionary", "DictionaryManager")],
 ["DictionaryManager::*"])

prop("C13", "Best-matching file of each directory loads; directory order decides",
 "For a requested language each search directory contributes the translations of exactly one file, one whose name denotes a language with the highest match score for the request, or of none if no name matches; names that do not end in .po, unknown languages and letter case of the country never disturb the choice. When directories disagree about a message the directory of higher priority wins (earlier added first, one added with precedence before all others), and messages only a lower directory has remain available. Adding a directory twice changes nothing and removing one removes exactly its influence.",
 ["configurations", "histories"], "all directory contents, listing orders, requested languages and sequences of additions and removals",
 T4 + "directories of three files and a single search path entry are all the tests use.",
 ["src/dictionary_manager.cpp"],
 [("scan and score of file names", "src/dictionary_manager.cpp get_dictionary(), convertFilename2Language()"), ("reverse traversal of the search path", "src/dictionary_manager.cpp get_dictionary()"), ("push_front / push_back / erase", "src/dictionary_manager.cpp add_directory(), remove_directory()")],
 [("search_path", "directories by priority", "DictionaryManager")],
 ["DictionaryManager::get_dictionary", "FileSystem::open_directory", "FileSystem::open_file"])

prop("C14", "The list of available languages is exact",
 "The set of available languages reported by a manager is exactly the set of known languages denoted by the .po file names in its current search directories, read with the same rules as when loading (letter case of the country included). It never contains an undefined language, every member can be requested and is served from such a file, and asking changes nothing.",
 ["configurations", "histories"], "all directory contents and search path histories",
 T4 + "language-dir is not among the tests.",
 ["src/dictionary_manager.cpp"],
 [("scan of the search path", "src/dictionary_manager.cpp get_languages()")],
 [], ["DictionaryManager::get_languages"])

prop("C15", "File system failures never crash or poison the manager",
 "Whatever the file system answers (a directory listing that fails, a file that cannot be opened, a stream that breaks or throws at any byte, an error in any call of any sequence), the manager does not crash and at most passes the file system's own exception to the caller. A request that ended in an exception leaves no trace: repeating it once the fault is gone gives the full dictionary. A file that cannot be opened, read to its end or parsed is reported as an error and affects neither other directories nor other languages.",
 ["fault_sequences", "histories"], "all placements of one or two faults in all short sequences of requests, and every byte at which a stream can break",
 T4 + "no test injects a fault.",
 ["src/dictionary_manager.cpp", "src/po_parser.cpp", "src/unix_file_system.cpp"],
 [("catch and log around a file", "src/dictionary_manager.cpp get_dictionary()"), ("cache insertion", "src/dictionary_manager.cpp get_dictionary()")],
 [("dictionaries", "cache that must not keep a half-loaded dictionary", "DictionaryManager")],
 ["DictionaryManager::get_dictionary", "FileSystem stand-in"])

prop("C16", "Independent objects can be used from several threads",
 "Threads that each work on objects of their own (resolving languages, reading plural rules, parsing into their own dictionary, using their own manager), or that only perform lookups on a shared, fully built dictionary, never race on shared memory, never crash or hang, and each obtain the result they would obtain alone. This holds from the first use in the process on, under every interleaving.",
 ["schedules"], "all interleavings of two or three threads making their first and later calls",
 T4 + "every test is single-threaded.",
 ["src/language.cpp", "src/plural_forms.cpp", "src/dictionary.cpp", "src/po_parser.cpp", "src/iconv.cpp"],
 [("tables built on first use", "src/language.cpp from_spec(), resolve_language_alias(); src/plural_forms.cpp from_string()"), ("const lookups", "src/dictionary.cpp translate*")],
 [("language_map / language_aliases / plural_forms", "process-wide lookup tables", "function-local statics")],
 ["Language::from_*", "PluralForms::from_string", "POParser::parse", "Dictionary::translate*"])

prop("C17", "Diagnostics reach the right callback and never alter results",
 "Every diagnostic is delivered once, as one complete message, to the callback installed for its severity at that time: lookups of unknown messages as information, redefinitions and questionable input as warnings, malformed entries and unreadable files as errors. A severity whose callback is null is silent, and no choice of callbacks changes what is loaded or returned. Parser diagnostics name the file and the number of the line at fault, counted from 1.",
 ["inputs", "configurations", "histories"], "all callback configurations, event sequences, and positions of faulty lines",
 T4 + "log output is not examined.",
 ["src/log.cpp", "include/tinygettext/log.hpp", "include/tinygettext/log_stream.hpp", "src/po_parser.cpp", "src/dictionary.cpp"],
 [("one Log object per message flushed in its destructor", "src/log.cpp"), ("null test in the log macros", "include/tinygettext/log_stream.hpp"), ("line counter", "src/po_parser.cpp next_line(), warning(), error()")],
 [("log_*_callback", "installed callbacks", "Log")],
 ["Log::set_log_*_callback"])

prop("C18", "Conversion descriptors are never misused or leaked",
 "In any sequence of configuring, reconfiguring and using converters, parsing files and dropping objects, including when opening a conversion or converting fails at any point, every system conversion descriptor that was opened is closed exactly once, and none is used before it was successfully opened or after it was closed. After a failed configuration a converter can be configured again and used normally. A converter's output depends only on its latest successful configuration and its input.",
 ["histories", "fault_sequences"], "all short sequences of converter operations with faults at any system call",
 T4 + "the tests never reconfigure a converter nor make the system conversion fail.",
 ["src/iconv.cpp", "include/tinygettext/iconv.hpp", "src/po_parser.cpp"],
 [("descriptor ownership in constructor, set_charsets and destructor", "src/iconv.cpp"), ("one converter per parser", "src/po_parser.cpp")],
 [("cd", "the descriptor", "IConv")],
 ["iconv_open/iconv/iconv_close interposed at link time", "IConv::convert"])

prop("C19", "Real directories are listed and read faithfully",
 "For the default file system, listing a directory yields the name of every entry exactly once, without path and whatever its characters or number, and opening a file yields exactly its bytes. A default manager over real directories serves the same translations as one given the same files in memory. A missing directory or file is signalled by an exception, an empty list or a failed stream and never by a crash or by stale content.",
 ["configurations", "inputs"], "all directory populations over a small name alphabet and all file sizes around buffer boundaries",
 T4 + "two fixed directories are listed.",
 ["src/unix_file_system.cpp", "src/dictionary_manager.cpp"],
 [("directory iteration", "src/unix_file_system.cpp open_directory()"), ("ifstream", "src/unix_file_system.cpp open_file()")],
 [], ["UnixFileSystem::open_directory", "UnixFileSystem::open_file", "DictionaryManager"])

prop("C20", "Catalogues merge: later files override, each read in its own charset",
 "Loading several PO files one after another into one dictionary gives the union of their entries, a message defined in several files taking the definition of the last one, with each file read in the character set its own header declares. The plural rule is the first supported one declared and later files never change it. A file that fails with an exception leaves everything loaded before intact and the dictionary usable, and files carry no state into each other.",
 ["histories", "inputs"], "all sequences of files over an alphabet of charsets, plural rules, overlapping messages and faults",
 T4 + "every test loads at most one file per dictionary.",
 ["src/po_parser.cpp", "src/dictionary.cpp"],
 [("parser object per file", "src/po_parser.cpp POParser::parse()"), ("set plural rule only if none", "src/po_parser.cpp parse_header()"), ("overwrite on collision", "src/dictionary.cpp add_translation()")],
 [], ["POParser::parse", "Dictionary::foreach", "Dictionary::get_plural_forms"])

prop("C21", "Results are independent of locale and surroundings, and leave them alone",
 "What the library loads, returns and reports depends only on its inputs and configuration: not on the C or C++ locale in force (Turkish letter case, digit grouping, multibyte encodings) nor on when it changes, not on environment variables, errno, working directory, umask, rounding mode, closed standard input, or the settings of the standard streams and of the stream a file is read from. Conversely no use of the library changes any of these, installs handlers, or leaves files open.",
 ["configurations", "histories"], "all combinations of ambient settings and scenarios, from the first use in a process and changing in between",
 T4 + "the tests run in the C locale of the build machine.",
 ["src/iconv.cpp", "src/language.cpp", "src/po_parser.cpp", "src/dictionary_manager.cpp", "src/log.cpp", "src/plural_forms.cpp", "src/unix_file_system.cpp"],
 [("letter case of character set names", "src/iconv.cpp set_charsets(), src/po_parser.cpp parse_header()"), ("letter case of aliases and countries", "src/language.cpp resolve_language_alias(), src/dictionary_manager.cpp convertFilename2Language()"), ("numbers in diagnostics", "src/log.cpp Log::Log()")],
 [], ["setlocale / std::locale::global / uselocale", "the public API"])

prop("C22", "The library can be used from inside its own callbacks",
 "Log callbacks, file systems and streams may use the library themselves while it is calling them: looking up messages (also in the dictionary or manager at work), resolving languages, reading plural rules, converting, parsing into other dictionaries, asking the same manager for dictionaries or available languages, including the dictionary being loaded. Every such nested use ends with a valid answer, possibly that of a dictionary not complete yet, and changes neither the result of the call it interrupts nor any later answer; nothing is loaded over and over, lost or leaked, also when the interrupted call ends in an exception.",
 ["histories", "schedules"], "all placements of nested uses at the points where the library calls out",
 T4 + "no test installs a callback or a file system that uses the library.",
 ["src/dictionary_manager.cpp", "src/dictionary.cpp", "src/po_parser.cpp", "src/log.cpp", "src/iconv.cpp"],
 [("dictionary known while it is loaded", "src/dictionary_manager.cpp get_dictionary()"), ("state per parser object", "src/po_parser.cpp"), ("message delivered when complete", "src/log.cpp Log::~Log()")],
 [("dictionaries", "loaded and loading dictionaries", "DictionaryManager"), ("current_dict", "dictionary of the current language", "DictionaryManager")],
 ["Log callbacks", "FileSystem::open_directory / open_file", "std::streambuf::underflow"])

prop("C23", "Work and memory stay in proportion to the input; lookups do not depend on sizes",
 "Parsing a file, converting a text, resolving a locale string, name or plural rule, filling or listing a dictionary, loading a dictionary from directories and listing the available languages take work and peak memory at most in proportion to the size of what they are given - number and length of lines, strings, header lines, comments, messages, contexts, files and directories - whatever it looks like, well-formed or not. Looking up, adding or redefining a message takes work that does not depend on how many messages the dictionary or its fallbacks hold, a chain of fallbacks is walked once, and asking for a dictionary that is already loaded does not depend on what was loaded. Not counted: the text of diagnostics, and the list of candidates of a plural lookup of an absent message.",
 ["inputs", "configurations"], "repetitions of all short sequences of input elements, at two sizes",
 T4 + "the tests' inputs are tiny and nothing is measured.",
 ["src/po_parser.cpp", "src/iconv.cpp", "src/dictionary.cpp", "src/dictionary_manager.cpp", "src/language.cpp", "src/plural_forms.cpp"],
 [("strings are collected once", "src/po_parser.cpp get_string()"), ("output grows geometrically", "src/iconv.cpp convert()"), ("hashed entries", "src/dictionary.cpp"), ("one pass over a listing", "src/dictionary_manager.cpp get_dictionary()")],
 [], ["POParser::parse", "IConv::convert", "Dictionary", "DictionaryManager", "Language::from_env", "PluralForms::from_string"])

prop("C24", "Files are touched only as far as requests need them, and are let go of",
 "A manager reads lazily and only through the file system it was given. Creating and configuring it (directories, character set, fuzzy use, language) accesses no file or directory, and get_languages opens no file. A request for a dictionary lists only directories of the search path and opens at most one file per directory - one more for the base language of a regional one - each a listed .po file whose name fits the requested language or its base. Until the configuration changes, further requests for that language, by argument or as the current language, and all lookups access nothing. Every stream is released by the end of the call. Real files are only read: nothing is opened for writing, created or changed. The rest of the library (parsing a stream, whatever file name is given for messages; conversion; languages; plural rules) touches no files of its own accord.",
 ["histories", "inputs"], "all operation sequences of a manager with a recording file system, all small listings, and real directories with every call to the C library recorded",
 T4 + "no test observes file access.",
 ["src/dictionary_manager.cpp", "src/unix_file_system.cpp", "src/po_parser.cpp"],
 [("cached dictionaries", "src/dictionary_manager.cpp get_dictionary()"), ("best file of each directory", "src/dictionary_manager.cpp get_dictionary()"), ("opened for reading", "src/unix_file_system.cpp open_file()")],
 [("dictionaries", "loaded dictionaries", "DictionaryManager"), ("search_path", "directories", "DictionaryManager")],
 ["FileSystem::open_directory / open_file", "DictionaryManager"])

prop("C25", "The library works at any moment of the life of a process",
 "Languages, plural rules, parsing, conversion, dictionaries and managers give the same answers and diagnostics whenever in the life of a process they are used, first used or used again: in constructors of static objects and constructor functions, in main, in threads and their thread_local destructors, in a forked child, in exit and quick_exit handlers, in destructors of static objects and in destructor functions; whichever way the process ends (return from main, exit in main or in a thread, quick_exit), and whatever was used before. Objects created at one moment can be used, changed and destroyed at any later one. No such use crashes, hangs, keeps the process from ending, or writes or reads anything beyond what it was asked to; no descriptor or child-visible state is left behind.",
 ["histories", "schedules"], "all moments of a process x uses of the library, alone and in pairs, for four ways to end it",
 T4 + "every test uses the library from main only.",
 ["src/language.cpp", "src/plural_forms.cpp", "src/log.cpp", "src/dictionary_manager.cpp"],
 [("tables are never destroyed", "src/language.cpp from_spec()"), ("plural rules", "src/plural_forms.cpp from_string()"), ("constant-initialised callbacks", "src/log.cpp")],
 [("language_map, language_name_map", "known languages", "language.cpp"), ("plural_forms", "known rules", "plural_forms.cpp"), ("log_*_callback", "callbacks", "Log")],
 ["Language", "PluralForms", "POParser::parse", "IConv", "DictionaryManager", "Log"])

prop("C26", "Every public function has an answer for every argument",
 "Every function of the public interface either gives its documented answer or, where documented (an unknown character set, a file or directory that cannot be read), throws a std::runtime_error with a text, for every argument of its type: empty, very long, containing NUL or bytes of no character set, any count including negative and extreme ones, any order of calls. No argument crashes it, reads or writes outside the argument, makes it throw anything else, or changes what later calls with other arguments give. In particular: convertFilename2Language, Language from any strings (always a known language or none, with consistent texts, comparison and rank), messages, contexts, character sets, plural rules (a known rule or none, always a form below the number of forms), converters (refusing exactly what iconv does not know), streams in any state, file names of any form in listings and on the real file system, and log callbacks set or not. Excluded are requests for the dictionary of no language, null pointers, and chains of fallbacks that form a circle.",
 ["inputs"], "all short strings over alphabets of meaningful and hostile characters, and all combinations of odd arguments, for every public function",
 T4 + "the tests call few functions, with ordinary arguments.",
 ["include/tinygettext", "src/dictionary_manager.cpp", "src/dictionary.cpp", "src/language.cpp", "src/plural_forms.cpp", "src/iconv.cpp", "src/po_parser.cpp", "src/unix_file_system.cpp", "src/log.cpp"],
 [("suffix test", "src/dictionary_manager.cpp convertFilename2Language()"), ("strings as keys", "src/dictionary.cpp"), ("checks of the rule's result", "src/dictionary.cpp translate_plural()"), ("refused character sets", "src/iconv.cpp set_charsets()")],
 [], ["all public functions"])

prop("C27", "Running out of memory is reported and leaves everything usable",
 "When an allocation fails in any call - one, several, or all from some point on - the call throws std::bad_alloc or gives its ordinary answer (a manager may report the file as unreadable and give what the other files hold, and a message to a callback may be lost or cut short); the process is not ended, nothing is leaked. Afterwards every object can still be used and destroyed: messages, languages, directories and settings not concerned by the call are as before, those concerned hold the old or the new text or none, a load that was cut off by an exception is not kept as if it were complete, and the same call made again with memory available gives its ordinary answer. This includes the first use of the library in a process, whose tables are filled then.",
 ["fault_sequences", "histories"], "every allocation of every call fails: alone, with all later ones, by size, in pairs, and in pairs of calls",
 T4 + "no test lets an allocation fail.",
 ["src/dictionary_manager.cpp", "src/dictionary.cpp", "src/language.cpp", "src/plural_forms.cpp", "src/iconv.cpp", "src/po_parser.cpp", "src/unix_file_system.cpp", "src/log.cpp"],
 [("load is forgotten on an exception", "src/dictionary_manager.cpp get_dictionary()"), ("message lost rather than the process", "src/log.cpp ~Log()"), ("tables filled before they are published", "src/language.cpp")],
 [("dictionaries", "loaded dictionaries", "DictionaryManager"), ("entries", "messages", "Dictionary")],
 ["all public functions"])

prop("C28", "What is done with one object never shows in another",
 "Dictionaries, managers and converters keep to themselves: whatever is done with one object - files read, translations added, rules, languages, directories and settings changed, failures met, the object destroyed and made anew - no answer, contents, or report of another object depends on it, in whatever order the calls come. Two managers whose directories bear the same names, two dictionaries of different character sets, two converters set to the same or other character sets, files read into one dictionary after files read into another, and the functions that need no object (languages, plural rules, matching, logging) all answer as they would alone in a process. Excepted are what is global by name (POParser::pedantic, the callbacks of Log) and dictionaries explicitly linked by addFallback.",
 ["histories"], "all short sequences of operations on several objects and all interleavings of longer scripts, every answer compared with the object alone",
 T4 + "each test works on one object in a process of its own.",
 ["src/po_parser.cpp", "src/dictionary.cpp", "src/dictionary_manager.cpp", "src/iconv.cpp", "src/plural_forms.cpp", "src/language.cpp", "src/log.cpp"],
 [("all state in members", "include/tinygettext/dictionary_manager.hpp"), ("a parser per file", "src/po_parser.cpp parse()"), ("a descriptor per converter", "src/iconv.cpp")],
 [("entries", "messages", "Dictionary"), ("loaded dictionaries", "dictionaries", "DictionaryManager"), ("charsets", "from_charset, to_charset, cd", "IConv")],
 ["all public functions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
