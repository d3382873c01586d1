REL = "path-sensitive value-numbering dataflow over SSA, compared with a reference definition"
RELNOTE = ("Covers every path of the named functions with everything of the module inlined; loops by one arbitrary iteration. "
           "Trusted: SSA construction, the effect tables for the standard library and the reference definition in specs/. ")

PROPS = [
 dict(id="C03", title="Every lookup asks for exactly what the caller named",
  statement="Every text lookup of a localizer, in every variant (with or without domain, context, plural form, formatting, by message or by key), searches the domain it was given (otherwise the default domain of the localizer) with exactly the given context, message id, plural id and number, and formats the found text with exactly the given arguments. It searches the language of the localizer first, then the fallback language if it is a different one, and finally uses the source text, where the plural text is used if the plural rule does not choose the first form and a plural text exists. Every miss is reported once to the missing-translation callback, if there is one.",
  over=["inputs", "configurations"], quant="all lookup methods, all domains, contexts, ids, numbers, arguments, catalogues and language configurations",
  why="The tests call each method with a few messages of one catalogue; whether an argument is swapped or dropped in a rare combination of missing domain, fallback and plural rule is not sampled.",
  files=["localizer.go", "locale.go"],
  mech=[("lookup methods", "localizer.go Localizer.*Get*, KeyLocalizer.*Get*"), ("language chain", "localizer.go lookupSingularTranslation, lookupPluralTranslation"), ("one language", "locale.go")],
  observe=["Localizer.*Get*", "KeyLocalizer.*Get*"], technique=REL, note=RELNOTE),
 dict(id="C04", title="Localizing messages and errors reports success truthfully",
  statement="Localizing a message uses the domain it names (even the empty one), its context, ids, number and arguments; the returned error is nil only if the language of the localizer itself supplied the text, otherwise it is the error of that language (or the missing-locale error). Localizing an error returns a wrapper with the translated text around the original error if a translation exists in the language of the localizer, and the original error unchanged otherwise; nil stays nil.",
  over=["inputs", "configurations"], quant="all messages and errors, localizable or not, all catalogues and language configurations",
  why="The tests sample messages that are present or absent; the combination of message kind, fallback hit and error result is not enumerated.",
  files=["localizer.go", "locale.go", "localize/types.go", "localize/error.go"],
  mech=[("message translation", "localizer.go LocalizeWithError, Localize"), ("error translation", "localizer.go LocalizeError")],
  observe=["Localizer.LocalizeWithError", "Localizer.LocalizeError"], technique=REL, note=RELNOTE),
]

PROPS += [
 dict(id="C12", title="The built-in CLDR rules are the rules of CLDR for every number",
  statement="For every language with a built-in CLDR rule set (and for every tag whose parents or whose base language, known with high confidence, has one), the rule set lists exactly the categories of CLDR in the order Zero, One, Two, Few, Many, Other and chooses, for all operands of every number (integers of any size, any visible fraction digits, any compact exponent), the category that the CLDR rules of the language specify. A tag for which there is no such rule set gets the English one and is reported as not found.",
  over=["inputs"], quant="all languages of the table, all language tags, all combinations of operands",
  why="The tests sample a few numbers per language, mostly below 1000; wrong residues of large numbers, decimal digits or compact exponents are not sampled.",
  files=["catalog/cldrplural/builtin_gen.go", "catalog/cldrplural/evaluation.go", "catalog/cldrplural/cldr.go"],
  mech=[("rule sets", "catalog/cldrplural/builtin_gen.go"), ("range helpers", "catalog/cldrplural isFloatInRange, isFloatOneOf"), ("search", "catalog/cldrplural ForLanguage")],
  observe=["cldrplural.ForLanguage", "RuleSet.Categories", "RuleSet.FormFunc"],
  technique="decision trees extracted from SSA by path-sensitive dataflow, compared with the frozen CLDR table over a finite partition of the operands; search by relational comparison",
  note="Complete for conditions that are thresholds or residues of the operands (anything else is reported as undecided); fraction digits up to 3 visible digits exhaustively, beyond by their residues. Trusted: specs/cldr_plurals.txt. "),
 dict(id="C13", title="The built-in gettext plural rules agree with their formulas for every number",
  statement="For every language with a built-in plural rule and for every Plural-Forms header for which a built-in rule is used instead of the header, the built-in rule has the number of forms of the formula and computes for every n >= 0 the form that the formula computes, and this form exists. The rule for a tag is the one of the tag, of its base language if that is known with high confidence, or of its nearest parent that has one; otherwise the English rule is used and reported as not found.",
  over=["inputs"], quant="all languages of the table, all built-in headers, all language tags, all numbers",
  why="The fixtures cover n up to 1000 for some headers; rules with a period of a million and the combination of tag, base and parent are not covered.",
  files=["catalog/poplural/builtin_gen.go", "catalog/poplural/builtin.go"],
  mech=[("rules", "catalog/poplural/builtin_gen.go"), ("search", "catalog/poplural/builtin.go")],
  observe=["poplural.ForLanguage", "Rule.NPlurals", "Rule.FormFunc"],
  technique="decision trees extracted from SSA by path-sensitive dataflow, compared with the formulas over one period and all thresholds; search by relational comparison",
  note="Complete for conditions that are thresholds or residues of n (anything else is reported as undecided). Trusted: specs/gettext_plurals.txt. "),
]

PROPS += [
 dict(id="C05", title="A catalogue returns exactly the stored text or says what is missing",
  statement='A lookup in a gettext or JSON catalogue returns the text stored for exactly the given context, identifier and plural form, if it exists and is not empty. Otherwise it returns the identifier together with the error that names what is missing: the context, the message or the translation of the form, with the language, domain, context, identifier and form of the lookup. The form of a plural lookup is the one the plural rule of the catalogue chooses for the number (the error of the rule is returned unchanged); singular lookups use the first form (gettext) or the category Other (JSON); messages of JSON catalogues with a context are found under the identifier followed by an underscore and the context.',
  over=["inputs"], quant="all catalogues, contexts, identifiers and numbers",
  why="The tests look up a few messages of small catalogues; the combination of empty texts, missing forms and context suffixes is not sampled.",
  files=["catalog/po.go", "catalog/json.go", "catalog/catalog.go"],
  mech=[("gettext lookup", "catalog/po.go GettextCatalog.Lookup, LookupPlural"), ("JSON lookup", "catalog/json.go jsonCatalog.Lookup, LookupPlural")],
  observe=["Catalog.Lookup", "Catalog.LookupPlural"], technique=REL, note=RELNOTE),
 dict(id="C06", title="A catalogue holds exactly the messages and the plural rule of its file",
  statement="A catalogue built from a po or mo file holds every message of the file with a non-empty identifier that is not fuzzy, with its translations; its plural rule is the one of the Plural-Forms header, unless there is none, the header X-spreak-use-CLDR is true (in any case), or a CLDR decoder is used and a CLDR rule exists for the language; then the forms are the CLDR categories of the language in their order; parsing errors and invalid plural rules fail the decoding. A JSON catalogue holds a deep copy of every message; messages without a key, without content, without an 'other' text or whose key does not end with an underscore and their context fail the decoding, and a message with more than the category Other has exactly the categories of the language. Messages, translations and clones that catalogues hand out are deep copies.",
  over=["inputs"], quant="all parsed files, messages, languages and decoder variants",
  why="The tests decode a few files; the interplay of headers, decoder options, fuzzy flags, contexts and categories has many combinations.",
  files=["catalog/po_decoder.go", "catalog/json.go", "catalog/json_decoder.go", "catalog/po.go"],
  mech=[("gettext", "catalog/po_decoder.go poDecoder, moDecoder"), ("JSON", "catalog/json.go NewJSONCatalogWithMessages, UnmarshalJSON"), ("copies", "catalog Messages, Translations, Clone")],
  observe=["Decoder.Decode", "JSONCatalog.Messages", "GettextCatalog.Messages"], technique=REL, note=RELNOTE + "The parsers of po and mo files and of JSON are not part of this property. "),
]

PROPS += [
 dict(id="C17", title="Catalogue files are searched in order, read once and always closed",
  statement='The file system loader tries its extensions in the order of its decoders (by default .po, .mo, .json) and loads the first file that exists with the decoder of its extension; the default resolver tries the names of the language (the tag, base, region and script variants, longest first) and for each of them, in this order: language/category/domain, language/LC_MESSAGES/domain, language/domain, domain/language, language, category/language, LC_MESSAGES/language; without search only the first. Only a missing file lets the search continue: every other error of resolving, opening, reading or decoding ends the loading with this error; every opened file is closed on every path, an error of closing is reported; if no file exists the error says which language and domain is missing; loader options that are nil or set twice fail.',
  over=["inputs", "faults", "configurations"], quant="all languages, domains, file systems, faults of every file operation, loader and resolver options",
  why="The tests load a few well-formed trees; unreadable files, failing reads and closes, and trees with several candidates are not sampled.",
  files=["loader.go", "utils.go"],
  mech=[("loader", "FilesystemLoader.Load"), ("resolver", "defaultResolver.Resolve"), ("names of a language", "utils.go ExpandLanguage")],
  observe=["FilesystemLoader.Load", "Resolver.Resolve", "ExpandLanguage"], technique=REL, note=RELNOTE),
 dict(id="C18", title="A bundle loads exactly the configured languages or fails",
  statement="Creating a bundle applies the options in order and then loads the languages in the order of their options; for each language, except the source language, every domain is loaded with its loader; a missing catalogue is reported to the missing-translation callback and fails the creation if the language is required (fallback language, required language), while an optional language is used with the domains that were found, or is reported as missing and skipped if there are none. Every other error of a loader, every invalid language name and every failing or nil option fails the creation; language names are cut at ':', '@' and '.'. The bundle lists a domain once if a catalogue of it was loaded, negotiates among the loaded languages, uses the locale of the source language as source locale (creating it if necessary) and the locale of the fallback language as fallback, or the source locale if there is none.",
  over=["inputs", "faults", "configurations"], quant="all option lists, loaders, languages and loader errors",
  why="The tests create bundles with a few options; combinations of required and optional languages, several domains and failing loaders are not sampled.",
  files=["bundle.go", "locale.go", "utils.go"],
  mech=[("creation", "bundle.go NewBundle"), ("languages", "bundle.go preloadLanguages, createLocale"), ("options", "bundle.go With*")],
  observe=["NewBundle", "Bundle.Domains", "Bundle.CanLocalize", "Bundle.IsLanguageSupported"], technique=REL, note=RELNOTE),
 dict(id="C21", title="A localizer uses the best supported language that was asked for",
  statement="A localizer asks the matcher of the bundle once for all given tags and all languages of all given Accept-Language strings, in their order; strings that cannot be parsed and values of other types are ignored. If the matcher finds a language, the locale of that language of the bundle is used, otherwise the fallback locale, and HasLocale, Language, HasDomain and DefaultDomain describe this selection. The default domain is the one of the bundle if none is given.",
  over=["inputs", "configurations"], quant="all language arguments and all bundles",
  why="The tests create localizers for a few single languages; lists, headers with several languages and unsupported or invalid entries are hardly sampled.",
  files=["localizer.go"],
  mech=[("creation", "localizer.go NewLocalizerForDomain, NewKeyLocalizerForDomain")],
  observe=["NewLocalizer", "NewKeyLocalizer", "Localizer.Language", "Localizer.HasLocale"], technique=REL, note=RELNOTE + "How well languages match is decided by golang.org/x/text and not part of this property. "),
]

PROPS += [
 dict(id="C14", title="Plural formulas of headers are parsed and evaluated like C expressions",
  statement='A Plural-Forms header has the form nplurals=N; plural=EXPR; ended by the semicolon and followed by nothing else; the operators of EXPR are, from weak to strong, ?: (right associative), ||, &&, == and !=, the comparisons and %, over n, decimal numbers and parentheses; equalities, comparisons and remainders are not chained; everything else, including numbers that do not fit, is an error and not a formula. A formula is evaluated like C over 64-bit integers: comparisons and logical operators yield 1 or 0, every value other than 0 is true, a remainder by zero yields 0; the form of a number is the value of the formula for the number converted to an integer; numbers that cannot be converted are errors; a built-in rule replaces the formula only if the text without spaces is the one of the built-in rule.',
  over=["inputs"], quant="all header texts and all numbers",
  why="The tests parse well-known headers and evaluate them for small n; unusual operators, nesting, malformed texts and large numbers are not sampled.",
  files=["catalog/poplural/rule.go", "catalog/poplural/ast/scanner.go", "catalog/poplural/ast/parser.go", "catalog/poplural/builtin.go"],
  mech=[("grammar", "catalog/poplural/ast scanner.go, parser.go"), ("evaluation", "catalog/poplural/rule.go")],
  observe=["ast.Parse", "poplural.Parse", "Rule.Evaluate"], technique=REL, note=RELNOTE + "The recursion of the parser and of the evaluation is closed by induction over their own calls. "),
]

PROPS += [
 dict(id="C15", title="Numbers of every type select the plural form of their value",
  statement='The number of a value is found by following its pointers; nil and nil pointers are errors; values of all integer and float types are converted by value, complex numbers by their real part, texts are parsed, other values are formatted as decimal integer and, if this is no number, as text, and parsed; everything else is an error. A gettext rule evaluates the absolute value, rounded to the nearest even integer; a CLDR rule evaluates the operands: n is the absolute value and i its integer part; v and f are the number and the value of the visible fraction digits, w and t the same without trailing zeros; they are those of the text, or of the shortest decimal text of a float (a float32 as float32); values of type int and int64 have no fraction digits. A compact exponent cK with K from 0 to 308 moves the decimal point K places to the right and is the operand c; other exponents are errors.',
  over=["inputs"], quant="all values of all types; numbers up to the precision of float64",
  why="The tests convert a few small numbers per type; unusual types, nil pointers, large unsigned numbers, fraction digits with zeros on both sides and compact exponents are not sampled.",
  files=["internal/cast/number.go", "catalog/poplural/rule.go", "catalog/cldrplural/cldr.go"],
  mech=[("numbers", "internal/cast/number.go ToNumber, Indirect"), ("gettext", "catalog/poplural/rule.go Rule.Evaluate"), ("operands", "catalog/cldrplural/cldr.go NewOperands")],
  observe=["Rule.Evaluate", "RuleSet.Evaluate", "cldrplural.NewOperands"], technique=REL, note=RELNOTE + "Numbers whose integer part does not fit an int64 are converted as the platform does. "),
]

PROPS += [
 dict(id="C22", title="CLDR rules given as text mean what the CLDR defines",
  statement="A CLDR plural rule is a list of relations joined by 'and' and 'or', where 'and' binds stronger; a relation compares an operand (n i v w f t c e, in any case), or its remainder by a number other than 0 (% or mod), by = or != with a list of numbers and ranges; samples may follow; everything else, including numbers that do not fit, is an error. A relation with = holds if the value equals one of the numbers or is an integer within one of the ranges, with != if it does not; the rule set has the categories of the rules in their order and Other; the first category other than Other whose rule holds is chosen, and Other if none does; a rule without relations always holds.",
  over=["inputs"], quant="all rule texts and all operands",
  why="The tests only use the rules of the CLDR, which do not use all operands, remainders and forms of lists, and well-formed texts.",
  files=["catalog/cldrplural/evaluation.go", "catalog/cldrplural/ast/parser.go", "catalog/cldrplural/ast/scanner.go", "catalog/cldrplural/ast/walk.go"],
  mech=[("grammar", "catalog/cldrplural/ast scanner.go, parser.go"), ("evaluation", "catalog/cldrplural/evaluation.go")],
  observe=["cldrplural.ParseRules", "RuleSet.Evaluate"], technique=REL,
  note=RELNOTE + "The recursion of the parser is closed by induction over its own calls. The evaluation is compared for all operands and numbers, but lists with at most three elements and conditions with at most four relations. "),
]

PROPS += [
 dict(id="C01", title="Lookups, formatting and parsing change nothing that existed before",
  statement="No function of the API writes to memory that existed before the call: neither package variables nor anything reachable from its receiver, its arguments or the variables captured by a function returned earlier; this holds for lookups and formatting (bundles, localizers, catalogues, plural rules, printers and the functions they return, humanizers), for parsing and loading and for creating bundles and collections. Excepted are only functions whose purpose is to fill an object: UnmarshalJSON, ApplyPluralCategoriesToJSONMessage, readers and writers that are consumed, a printer that is initialised by its bundle, and the po.File data model of catalog/po. Hence one bundle, localizer, catalogue, rule or humanizer may be used by any number of goroutines, calls do not influence each other, and the caller's slices, maps and locale data stay as they were.",
  over=["schedules", "histories", "inputs"], quant="all API functions, all call paths, all interleavings",
  why="Tests call the functions one after the other; a cache, a scratch buffer or a sorted argument only shows under concurrency or after a particular history.",
  files=["bundle.go", "localizer.go", "locale.go", "loader.go", "catalog/po_decoder.go", "catalog/json.go", "catalog/poplural/rule.go", "catalog/cldrplural/cldr.go", "humanize/humanizer.go", "utils.go"],
  mech=[("lookups", "localizer.go, locale.go"), ("formatting", "utils.go, humanize"), ("rules", "catalog/poplural, catalog/cldrplural")],
  observe=["Localizer.*", "Catalog.*", "Printer", "Humanizer.*"],
  technique="interprocedural mod-ref and escape analysis over SSA with access paths",
  note="The functions of other packages are analysed from their source as well or, for a small set of packages (sync, reflect, time, x/text and similar), described by a table. Writes inside sync.Once.Do count as synchronised. Interface calls reach all implementations in the module; implementations by the user are not part of the property. "),
 dict(id="C02", title="Results and catalogues are not shared with others",
  statement="What the API hands out shares no memory that can be changed with its receiver, its arguments or package variables: the slices, maps and messages of Bundle.Domains, Bundle.SupportedLanguages, Localizer.Domains, Messages, Translations and Clone of catalogues, ExpandLanguage, and the catalogues, rules, rule sets and operands that are decoded or created. Changing a result, or the messages a catalogue was created from, changes neither later results nor other catalogues.",
  over=["histories"], quant="all results of the listed functions and all later changes of them",
  why="Tests do not change results and then look again; sharing only shows in such a history.",
  files=["bundle.go", "localizer.go", "utils.go", "catalog/po.go", "catalog/json.go", "catalog/po_decoder.go", "catalog/poplural/builtin.go", "catalog/cldrplural/cldr.go"],
  mech=[("copies", "catalog/po.go, catalog/json.go"), ("lists", "bundle.go, localizer.go")],
  observe=["Bundle.Domains", "Bundle.SupportedLanguages", "Localizer.Domains", "Catalog.Messages", "Catalog.Translations"],
  technique="interprocedural escape analysis over SSA with access paths",
  note="Values of types without a way to change them (functions, strings, x/text languages) may be shared. "),
]

PROPS += [
 dict(id="C23", title="PO files are read completely and exactly",
  statement="Reading a po file yields exactly its content: every entry becomes one message with its context, id, plural id and the translation of every index, each being the concatenation of its lines; a text is what stands between the first and the last quote of a line, with the escapes of C (\\a \\b \\f \\n \\r \\t \\v \\\\ \\\" \\' \\/ and \\xHH below 0x80) resolved, unknown escapes kept and bytes that are not UTF-8 replaced; comments, flags, references and previous ids belong to the entry that follows them; the entry with the empty id becomes the header, whose fields are found without regard to case; flags are kept if comments are ignored. A line of unknown form, a continuation line without a line before, an invalid index, a second header, a message that occurs twice and an error of the reader are errors; nothing is skipped silently. Adding a message to a file merges it with an existing one of the same context and id.",
  over=["inputs"], quant="all po texts and all readers",
  why="The tests read a few well-formed files; long lines, unusual escapes, malformed UTF-8, unusual order of lines and failing readers are not sampled.",
  files=["catalog/po/parser.go", "catalog/po/scanner.go", "catalog/po/po_string.go", "catalog/po/file.go", "catalog/po/comment.go"],
  mech=[("lines", "catalog/po/scanner.go"), ("entries", "catalog/po/parser.go"), ("texts", "catalog/po/po_string.go DecodePoString")],
  observe=["po.Parse", "po.ParseString", "Parser.Parse", "po.DecodePoString", "File.GetMessage", "File.AddMessage", "Header.Get", "Header.Set"], technique=REL,
  note=RELNOTE + "The meaning of regular expressions and of the functions of package strings is taken from their names and arguments. "),
 dict(id="C24", title="MO files are read completely and exactly",
  statement="Reading a mo file yields exactly its messages: the byte order follows from the magic number, major and minor version have to be 0 or 1, the tables and texts are read from the offsets and with the lengths the file states; the part of an id before \\x04 is the context, the part after \\x00 the plural id, the translations of a plural message are separated by \\x00 and numbered in their order; the message with the empty id is the header. A wrong magic number, an unknown version, a position or length outside of the file and every error of the reader are errors.",
  over=["inputs"], quant="all mo files and all readers",
  why="The tests read one file of one byte order; other byte orders, versions, layouts, truncated files and failing readers are not sampled.",
  files=["internal/mo/parser.go"],
  mech=[("layout", "internal/mo/parser.go parseHeader, parseMessageData"), ("messages", "internal/mo/parser.go parseMessages")],
  observe=["catalog.NewMoDecoder"], technique=REL, note=RELNOTE),
]

PROPS += [
 dict(id="C10", title="Written PO files contain everything the file contains",
  statement="Encoding a PO file writes the header (unless disabled, or empty and empty headers are disabled) with all its fields, including those without a name of their own, and every message with its comments, references (unless disabled), flags, context, id, plural id (also when only several translations exist) and every translation under its own index. Quotes, backslashes and control characters are escaped so that decoding the text gives the same text; invalid bytes become the escape for the replacement character; wrapping a text only chooses where quoted lines end and neither drops nor moves a character. The output depends only on the content of the file and the settings, never on the order of a map, and an error of the writer is returned.",
  over=["inputs", "configurations"], quant="all files, messages, texts, wrap widths and encoder settings",
  why="The tests encode a handful of files and texts; rare characters, spaces at the places where a line is wrapped, sparse plural forms and header fields without a name of their own are not sampled.",
  files=["catalog/po/encoder.go", "catalog/po/po_string.go", "catalog/po/wrap.go", "internal/util/string_buffer.go"],
  mech=[("encoder", "catalog/po/encoder.go Encoder.Encode"), ("escaping and wrapping", "catalog/po/po_string.go EncodePoString, catalog/po/wrap.go")],
  observe=["po.Encoder.Encode", "po.Marshal", "po.EncodePoString"], technique=REL, note=RELNOTE),
]

PROPS += [
 dict(id="C11", title="JSON catalogues are written and read completely",
  statement="Encoding a JSON catalogue writes one JSON object that contains every message under its key, sorted by key, and each message with its comment, its context and the text of every CLDR category it has (also empty ones), in the order of CLDR; only a message that consists of the category other and nothing else is written as a plain text. Everything is escaped as JSON, nil is written as an empty object, and errors of the writer are returned. Decoding a message accepts a text, which becomes the category other, or an object whose names (comment, context, zero, one, two, few, many, other) are recognised in any case; further names are ignored, existing texts of the message are kept, and anything else is an error.",
  over=["inputs"], quant="all catalogues, messages, keys, texts and JSON documents",
  why="The tests use a few messages with plain ASCII texts; single categories other than other, special characters in keys, names in another case and failing writers are not sampled.",
  files=["catalog/json.go", "catalog/json_encoder.go"],
  mech=[("messages", "catalog/json.go JSONMessage.MarshalJSON, UnmarshalJSON"), ("catalogue", "catalog/json.go jsonCatalog.MarshalJSON, catalog/json_encoder.go")],
  observe=["catalog.JSONEncoder.Encode", "json.Unmarshal of a JSONMessage"], technique=REL, note=RELNOTE),
]

PROPS += [
 dict(id="C20", title="Humanized numbers, sizes, durations and relative times",
  statement='Every number, size, period and moment is shown with the text that belongs to it: Intcomma shows at most six decimal places, in the style of the language; Apnumber spells out exactly one to nine; Ordinal chooses the ending by the last digit, except for values that end with 11, 12 or 13; negative values are shown as plain integers; Intword shows values from one million on (also negative ones) with one decimal place and the largest unit that is not exceeded a thousandfold; FilesizeFormat uses bytes below 1024 and then the largest of KB, MB, GB, TB and PB that fits, with at most one decimal place and the sign. NaturalDay compares the calendar dates in the location of the value; NaturalTime shows now, seconds, minutes, hours, and from 24 hours on the period in the texts for past or future; TimeSince and TimeUntil deduct leap days, show the largest unit and up to depth adjacent units (all units without the check), of which one counts as complete if less than half a thousandth is missing, and 0 minutes for everything else; each option changes only what it is named after, the last one counts. What cannot be interpreted as a number or a time is shown as an error text; every number that can be interpreted gives a text without a wrapped-around value.',
  over=["inputs", "configurations"], quant="all values of all types, all moments and options",
  why="The tests sample some numbers and periods; the boundaries of every unit, leap years, negative, huge and invalid numbers and the combinations of options are not covered.",
  files=["humanize/numbers.go", "humanize/helper.go", "humanize/date.go", "internal/calendar/calendar.go", "internal/cast/time.go"],
  mech=[("numbers", "humanize/numbers.go"), ("sizes", "humanize/helper.go FilesizeFormat"), ("periods", "humanize/date.go TimeSince, NaturalTime, NaturalDay"), ("leap years", "internal/calendar/calendar.go")],
  observe=["Humanizer.Intcomma", "Humanizer.Intword", "Humanizer.Apnumber", "Humanizer.Ordinal", "Humanizer.FilesizeFormat", "Humanizer.NaturalDay", "Humanizer.NaturalTime", "Humanizer.TimeSince", "Humanizer.TimeUntil"],
  technique=REL, note=RELNOTE + "The methods of Localizer, package time, package math and golang.org/x/text/number are taken as given; sort.Search is taken as a linear search, which is the same for the descending table of units. "),
]

PROPS += [
 dict(id="C19", title="Times are shown as their format says",
  statement="Formatting a time with one of the names DATE_FORMAT, TIME_FORMAT, DATETIME_FORMAT, YEAR_MONTH_FORMAT, MONTH_DAY_FORMAT, SHORT_DATE_FORMAT and SHORT_DATETIME_FORMAT uses the format of the language, every other text is the format itself, and every letter of a format is replaced by the part of the time Django defines for it (days d j D l w z S, weeks W o, months m n M b F E N t, years y Y L, times g h G H i s u a A f P, zones e I O T Z, complete times c r U), for every moment and location, with names in the language of the humanizer (a month in its alternative or abbreviated form under the context \"alt. month\" or \"abbrev. month\"); a backslash keeps the next character, every other character stays as it is and in its place. Now, Date and Time show the current moment in the format of the same name.",
  over=["inputs", "configurations"], quant="all moments, locations, formats and languages",
  why="The tests format a few moments; the last days of months, leap years, midnight and noon, zones with and without summer time, negative or large years and letters next to others are not sampled.",
  files=["humanize/date.go", "humanize/dateformat.go", "humanize/dates.go"],
  mech=[("letters", "humanize/dateformat.go"), ("names of formats", "humanize/date.go Humanizer.FormatTime")],
  observe=["Humanizer.FormatTime", "Humanizer.Now", "Humanizer.Date", "Humanizer.Time"], technique=REL,
  note=RELNOTE + "The methods of package time are taken as given, with their ranges of values; the last day of a month is taken from the calendar. "),
 dict(id="C25", title="A collection loads its locales and humanizes in the chosen language",
  statement='Creating a collection applies every option in the given order; a nil option, a nil locale and every error of an option or of the bundle is returned (MustNew panics with it); the collection knows exactly the languages of the given locales, each once and in the given order, and loads its texts from the file <domain>.po of the locale of that language, where the last locale of a language counts; a language that was not given or has no file is reported as not found, an invalid file as error. English is the source language and django the default domain, whatever the options for the bundle say; a format a locale leaves empty is replaced by the predefined English one, and the locale that was given stays unchanged. CreateHumanizer chooses the language like a localizer and shows times in the formats of the same language its texts have; LanguageName translates the given name, LanguageNameByCode the name of the code (nothing for unknown codes).',
  over=["inputs", "configurations"], quant="all options, locales, languages and file systems",
  why="The tests create a collection with a few complete locales; locales without formats, duplicates, failing options and missing files are not covered.",
  files=["humanize/humanizer.go", "humanize/locale.go"],
  mech=[("collection", "humanize/humanizer.go New, Collection.CreateHumanizer"), ("loader", "humanize/locale.go")],
  observe=["humanize.New", "humanize.MustNew", "Collection.CreateHumanizer", "Humanizer.LanguageName", "Humanizer.LanguageNameByCode"], technique=REL, note=RELNOTE),
 dict(id="C26", title="Every supplied locale is consistent and matches its language",
  statement="New of every package below humanize/locale returns the language the package is named after, its embedded django.po, which states the same language, and formats for dates and times that consist of known letters and show exactly the parts their name promises: day, month and year for dates, hour and minute (with the half of the day exactly if the hour has twelve) for times, each once; the first day of the week is between 0 and 6. Every translated text of a catalogue is one that package humanize asks for, written with the same placeholders as the original and, if it has plural forms, with a valid plural formula and a text for every form the formula can choose; a form may leave out the placeholder of the number only if it is chosen for a single number. The table of languages names every supplied language once, under its own code, with a name that is translated by the catalogues.",
  over=["configurations"], quant="all supplied locales, formats, texts and plural forms",
  why="The tests use a handful of the 97 locales; a wrong language, format or placeholder in another one is not noticed.",
  files=["humanize/helper_table.go", "humanize/locale/de/locale.go", "humanize/locale/ar/main.go"],
  mech=[("locales", "humanize/locale/*"), ("table of languages", "humanize/helper_table.go LocaleInfos")],
  observe=["New of the locale packages", "humanize.LocaleInfos"],
  technique="abstract evaluation of the constructors over SSA, query over their formats and the embedded catalogues",
  note="The forms a plural formula chooses are decided over its classes of numbers, not by samples. Whether a translation or an order of day and month is the customary one is not decided. "),
]

PROPS += [
 dict(id="C16", title="The same input always gives the same result",
  statement="Whatever the module is asked to do with equal inputs, it produces equal results, equal output, equal errors and the same sequence of callbacks and file accesses on every run: nothing depends on the order in which a map is iterated, on chance, on concurrently running goroutines or on the environment of the process. Only the lists of supported languages and loaded domains are sets without an order. Only relative times, the current time, durations that are converted to moments and the dates of a placeholder header depend on the clock.",
  over=["inputs", "schedules"], quant="all inputs of all functions, all iteration orders of maps",
  why="A test sees one iteration order of small maps per run; an order that matters only if a map has several entries of a certain kind makes a test fail rarely or never.",
  files=["bundle.go", "catalog/json.go", "catalog/po/encoder.go", "catalog/po_decoder.go", "catalog/cldrplural/evaluation.go", "humanize/humanizer.go"],
  mech=[("sorted iterations", "catalog/po/encoder.go Encoder.Encode, catalog/json.go jsonCatalog.MarshalJSON, bundle.go createLocale"), ("order-free iterations", "catalog/po_decoder.go buildGettextCatalog")],
  observe=["po.Encoder.Encode", "catalog.JSONEncoder.Encode", "spreak.NewBundle", "Decoder.Decode", "cldrplural.ParseRules"],
  technique="map-order and effect analysis over SSA: commutation of the effects of every map iteration, and a query for other sources of nondeterminism over the whole module",
  note="Covers every function of the module except the generators. A map iteration is accepted if its effects commute for different keys or everything it collects is sorted before use by a total order; anything else is reported. Trusted: SSA construction and that the standard library and the loaders, decoders and callbacks of the caller are deterministic. "),
]

PROPS += [
 dict(id="C27", title="Merging messages of a PO file loses nothing",
  statement="Merging a comment into another one leaves every line of the translator and extracted comments and every flag of both, each once and those of the receiver first, and every reference of both, where references with the same path, line and column are one; afterwards flags are sorted, and references by path, line and column. Adding a flag keeps it once, adding a reference keeps all of them sorted; merging a message merges the comments (also if the message has none), takes over the plural id only if the message has none and leaves everything else, and merging nil changes nothing. A reference is shown as path:line:column, or as the path if it has no line; new comments and messages are empty, and a placeholder header states the given package, copyright holder and address, the current date and the fixed fields of gettext.",
  over=["inputs"], quant="all messages, comments, flags, references and texts",
  why="The tests merge a few small comments; equal lines within one comment, references that differ only in one part, comments that are nil and unsorted lists are not sampled.",
  files=["catalog/po/comment.go", "catalog/po/message.go", "catalog/po/file.go"],
  mech=[("comments", "catalog/po/comment.go Comment.Merge, AddFlag, AddReference"), ("messages", "catalog/po/message.go Message.Merge"), ("placeholder", "catalog/po/file.go PlaceholderHeader")],
  observe=["po.Comment.Merge", "po.Comment.AddFlag", "po.Comment.AddReference", "po.Message.Merge", "po.PlaceholderHeader"], technique=REL,
  note=RELNOTE + "Where several forms of a loop mean the same, the definition has several forms. Orders are compared for two arbitrary elements. "),
 dict(id="C28", title="Texts are formatted in the language that was asked for",
  statement="The default printer formats a text that has arguments with the message printer of the language it was asked for, whether or not it was initialised with this language; a text without arguments is returned as it is, with all its % signs. The print function of WithPrintFunction is used unchanged for every language.",
  over=["inputs", "configurations"], quant="all languages, texts and arguments",
  why="The tests format a few texts in two languages; languages the printer was not initialised with and texts with % signs but without arguments are not sampled together.",
  files=["utils.go"],
  mech=[("default printer", "utils.go defaultPrinter.Init, GetPrintFunc, defaultPrintFunc"), ("single function", "utils.go printFunctionWrapper")],
  observe=["Localizer.Get and the other lookups", "spreak.NewDefaultPrinter", "Printer.GetPrintFunc"], technique=REL,
  note=RELNOTE + "The formatting of golang.org/x/text/message is taken as given. "),
 dict(id="C29", title="Errors and messages state exactly what they were made of",
  statement="The errors for a missing language, domain, context, message, translation or item have the language, domain, context, message id, form, type and identifier they were created with, and Error and String give the same text, which names all of them that are not empty, quoted, in this order. A localized error shows its translation and unwraps to the original error. A localize.Message returns the texts, context, arguments and number it was given and names no domain.",
  over=["inputs"], quant="all errors, texts and numbers",
  why="The tests create a few errors with plain names; names with quotes, empty names and every combination of them are not sampled.",
  files=["utils.go", "catalog/catalog.go", "localize/error.go", "localize/types.go"],
  mech=[("errors of the bundle", "utils.go ErrNotFound, ErrMissingLanguage, ErrMissingDomain"), ("errors of catalogues", "catalog/catalog.go"), ("localized errors and messages", "localize/error.go, localize/types.go")],
  observe=["Error and String of the error types", "errors.Is, errors.As and errors.Unwrap on a localize.Error", "Localizer.Localize of a localize.Message"], technique=REL, note=RELNOTE),
]

PROPS += [
 dict(id="C08", title="No input makes the library panic",
  statement="No text, file of translations (po, mo, JSON), plural formula, plural rule, language, time, number or argument of any type, and no option, loader, message, error or argument that is nil where the function reports or accepts that, makes a function of the library panic: it returns a result or an error. Only the functions named Must… panic, with the error the function without Must returns. (Calling a method on a nil pointer, on a zero value that needs a constructor, and callbacks of the caller that panic are not covered.)",
  over=["inputs"], quant="all inputs of the functions that have a reference definition",
  why="A panic needs the one text that ends too early, the one table entry that lies outside the file or the one option that is nil; the tests feed a few broken inputs per parser.",
  files=["catalog/po/parser.go", "catalog/po/po_string.go", "internal/mo/parser.go", "catalog/cldrplural/ast/parser.go", "humanize/dateformat.go", "localizer.go", "bundle.go"],
  mech=[("parsers", "catalog/po, internal/mo, catalog/cldrplural/ast, catalog/poplural/ast"), ("arguments", "internal/cast, humanize"), ("nil arguments", "bundle.go options, localizer.go Localize, LocalizeError")],
  observe=["po.Parse", "mo.ParseBytes", "cldrplural.ParseRules", "poplural.Parse", "Humanizer.FormatTime", "Localizer.LocalizeError", "NewBundle"],
  technique="abstract interpretation over SSA: proof of every index, part, division, assertion, map write and dereference from the path conditions, relative to a reference definition",
  note="A function that panics where its definition does not is reported; so is an access that cannot be proved and that the definition does not make, if the function also does something else than the definition there. Packages of the standard library and golang.org/x are taken not to panic. Stack overflow on deeply nested formulas is not covered. "),
]

PROPS += [
 dict(id="C09", title="Every loop and every recursion ends",
  statement="For every text, file of translations (po, mo, JSON), plural formula, plural rule, language, time, number or argument, every function of the library returns: each pass of a loop and each recursive call visits one of finitely many elements, counts towards a fixed bound, shortens a text, goes on to the parent of a language or to a part of a value, or consumes input, and the end of the input leaves it. A file that ends in the middle of a comment, text or formula is not read again and again. (Values that contain themselves through pointers, readers without an end, functions of the caller that do not return, and the memory and time that a huge but finite input takes, such as a range of samples with many digits, are not covered.)",
  over=["inputs"], quant="all loops and all cycles of the call graph in the functions of the library, for all inputs",
  why="An endless loop needs the one text that ends or continues at the wrong place, or the one language whose parents are not reached; a test suite feeds a few broken inputs per parser and hangs rather than fails.",
  files=["catalog/po/parser.go", "catalog/po/scanner.go", "catalog/po/po_string.go", "catalog/poplural/ast/scanner.go", "catalog/poplural/ast/parser.go", "catalog/cldrplural/ast/parser.go", "catalog/cldrplural/ast/scanner.go", "catalog/cldrplural/builtin.go", "catalog/poplural/builtin.go", "internal/cast/number.go", "internal/mo/parser.go", "humanize/date.go"],
  mech=[("parsers of translations", "catalog/po, internal/mo, catalog JSON decoder"), ("parsers of plural formulas and rules", "catalog/poplural/ast, catalog/cldrplural/ast"), ("parents of languages", "catalog/cldrplural, catalog/poplural, humanize"), ("conversion of numbers", "internal/cast")],
  observe=["po.Parse", "mo.ParseBytes", "cldrplural.ParseRules", "cldrplural.ForLanguage", "poplural.Parse", "poplural.ForLanguage", "po.EncodePoString", "Humanizer.FormatTime", "Localizer.NGet with any number"],
  technique="termination analysis over SSA: ranking arguments for every natural loop and every strongly connected component of the call graph, abstract exploration of parser states for loops that consume input",
  note="A loop or recursion without an argument of its own is accepted if the function and everything that consumes input for it does the same as its reference definition (method B). Functions of the standard library and golang.org/x are taken to return. "),
]

NOT_APPLICABLE = []
