PROPS = []
NOTAPP = {}


def P(id, title, statement, over, quant, why, files, mech, observe, technique, design, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      observe=observe, technique=technique, design=design, note=note))


LDML = "lib/sldr/ldml.py"

P("L01", "Saving a document and reading it back yields the same data",
  "Whatever document is loaded, or built up in memory, what is saved is well-formed, namespace-correct UTF-8 XML, and any XML reader that "
  "parses it sees exactly the elements, attributes, text and comments the document held. The only permitted difference is the "
  "documented treatment of draft marks (a draft equal to the document default, or on a non-leaf, is dropped) and of white space around "
  "lines. Both placements of namespace declarations satisfy this.",
  ["inputs", "histories"],
  "every DTD-shaped document (any legal text, attribute value, namespace, comment), every in-memory edit, both namespace placements, drafts on or off",
  "The tests save two fixed files and look for a few strings; escaping, namespaces and white space only break for particular characters, nestings and save sequences.",
  [LDML, "lib/sldr/py3xmlparser.py"],
  [("serialisation with protection of markup and namespaces", LDML), ("event driven load with parent links", LDML)],
  ["bytes written by save / serialise", "in-memory tree after load"],
  "runtime monitor: written bytes re-read by an independent parser (libxml2) and compared with the loaded model",
  "Random DTD-shaped documents (hostile text: markup, `]]>`, NBSP, CR, astral, multi-line; foreign prefixes nested and re-declared; comments) are "
  "written by the harness, loaded, optionally edited in memory, saved, and the bytes parsed with libxml2; the tree is compared with the reference tree. "
  "Also the corpus files of the repository.",
  "Trusts libxml2 and the harness' own writer/reader; explores randomly generated documents up to about 150 elements (thorough: more of them).")

P("L02", "Saved form is canonical: a fixed point that depends on content only",
  "Loading and saving a document that was itself produced by saving changes nothing, byte for byte, and neither does normalising again or saving twice; so it is too for a document to which "
  "proposals were added or in which they were promoted. Two "
  "documents with the same content, whatever their sibling order (other than in ordered lists), attribute order, quoting, character "
  "references or insignificant white space, save to identical bytes.",
  ["inputs", "histories"],
  "every document and every permutation of its unordered siblings, attributes and lexical presentation",
  "A test has one file in one order; canonicalisation has to hold for every permutation, including ties in the sort keys.",
  [LDML], [("sorting of siblings and attributes", LDML), ("draft-aware packing of alternates", LDML)], ["bytes written"],
  "runtime monitor: recorded output bytes of permuted presentations and of repeated load/save/normalise histories compared",
  "Each abstract document is rendered 2-3 ways and run through load+save, save again, normalise+save, reload+save; all outputs must be equal. Workloads "
  "include sibling tables with case ties, numeric, enumerated and zone attributes.",
  "Random documents; equality is bytewise so no oracle model is needed. Documents contain no exact ties (same key, same draft, different content) outside ordered lists.")

P("L03", "Output order follows the LDML DTD and the time zone table",
  "In saved output, sibling elements appear in the order the DTD declares for their parent, attributes in the order the DTD declares for their element, and "
  "repeated elements are ordered by their attribute values, using the DTD's enumeration order, the time zone table's order, or "
  "case-insensitive alphabetical order otherwise. Elements and attributes the DTD does not know come last.",
  ["inputs"], "every document over the DTD's vocabulary",
  "The DTD has hundreds of content models and enumerations; tests look at a couple of them.",
  [LDML, "lib/sldr/sil.dtd", "lib/sldr/tzones.csv"], [("DTD and table driven ordering", LDML)], ["bytes written"],
  "runtime monitor: offline order checker over written bytes, against orders read independently from the DTD",
  "An offline checker walks the written bytes and judges each adjacent pair of siblings and attributes against orders parsed from sil.dtd (lxml DTD reader + regex) and tzones.csv.",
  "Trusts libxml2's DTD reader. Pairs whose order the DTD does not determine are not judged.")

P("L04", "Loading keeps every entry; repeated entries are resolved by draft status",
  "Loading a document and saving it again keeps every distinct entry: nothing is lost except an entry that has the same key and the same alternate "
  "name as another with a better or equal draft status, and lists whose order is data keep their members and their order. The entry visible at a path is the one "
  "without an alternate name, or, if there is none, the one with the best draft status; the others stay available as alternates.",
  ["inputs"], "every combination of keys, alternate names, draft states, default draft, positions and ordered lists",
  "The number of combinations of draft, alternate, default and position is far beyond the handful of tested documents.",
  [LDML], [("packing of alternates by draft rank", LDML), ("ordered (serial) elements exempt from packing and sorting", LDML)],
  ["in-memory primary and alternates", "bytes written"],
  "runtime monitor: conservation ledger reconciling every input leaf value with the loaded tree and the written bytes",
  "Every leaf in a generated document carries a unique value; the monitor computes which must survive by the stated rule and reconciles it with memory and output.",
  "One recorded finding: old-style collation rules with mixed element kinds are regrouped on load.")

P("L05", "Path lookup, creation and removal behave like a tree edited by path",
  "Finding by path returns exactly the elements matching every step's name and attribute tests, ensuring a path returns the existing match or creates only the "
  "missing steps with exactly the requested attributes (and is idempotent), removing deletes exactly the matches, and the path given for an element finds it. No other part of the document changes, "
  "and the result survives a save and reload.",
  ["histories", "inputs"], "every sequence of find, find-all, ensure, ensure-with-text, insert-before, remove and save+reload on any document",
  "Tests do one or two operations on a fixed document; errors appear in sequences, in predicates with special characters and in what else was changed.",
  [LDML], [("path parsing and tree unification", LDML)], ["return values and whole tree after each operation"],
  "runtime monitor: whole-tree comparison with a sequential model after every operation of a random history",
  "Histories of 8-40 operations; a sequential model of the tree (plain lists) predicts the returned nodes and the whole tree after every operation.",
  "Model covers path forms used by the scripts (names, attribute tests with either quote, '.', sil: prefix, relative bases).")

P("L06", "Competing proposals: best status is visible and no proposal is lost",
  "When values are proposed for an item with draft statuses, the visible value is always one of the best status proposed so far and a "
  "worse proposal never displaces it. Every displaced or losing proposal stays retrievable as an alternate under its proposer's name "
  "until that proposer replaces it with one at least as good, and changing or improving statuses, normalising, saving and reloading loses no proposal.",
  ["histories"], "every sequence of proposals, status changes, improvements and save+reload cycles over all statuses and proposers",
  "The tests try single proposals; loss and misplacement of proposals only show over several steps.",
  [LDML], [("alternates kept on the primary node, promotion and demotion", LDML)], ["visible value, set of alternates, saved bytes"],
  "runtime monitor: primary + alternates compared with a sequential model over random proposal histories",
  "Histories of 5-30 proposals/improvements/changes/reloads on one item, each value unique; visible value and retained set are compared with a sequential model after every step.",
  "Model written from the documented intent; the defaults used are stated in the check.")

P("L07", "Documents are isolated from one another and from earlier work",
  "The result of working with a document (loading, editing, saving, merging) depends only on that document and the operations applied to it, never on "
  "which other documents were loaded, saved or merged earlier in the same process.",
  ["histories", "schedules"], "every interleaving of programs over several documents in one process",
  "Tests use one document per process step; leakage through class-level or default-argument state needs an interleaving of several documents.",
  [LDML, "lib/sldr/ldml_merge.py"], [("per-instance namespaces, drafts and uid", LDML)], ["recorded results of every step"],
  "runtime monitor: event logs of interleaved programs compared with the same programs run alone in a pristine process",
  "Two or three programs are interleaved in a long-lived process; their logs must equal those of each program alone in a process freshly forked from a zygote that has never loaded a document.",
  "A pristine process is forked per program; interleavings are random.")

P("L10", "Any XML spelling of a document reads as the same document",
  "However a well-formed UTF-8 LDML file is written (comments between entries, inside or around their text or after the root; processing instructions; CDATA; "
  "character and internal entity references; DOCTYPE declarations; other namespace prefixes; attribute quoting and layout; line endings) and in whatever pieces it arrives, "
  "loading it gives the same entries, attributes and texts, and every comment is kept, one standing before an entry staying before it. A file which is not well formed is refused, never partly read.",
  ["inputs", "schedules"], "every spelling of every document and every way its bytes are delivered",
  "Test files are written in one style and read whole; text cut by comments or by the parser's buffers, and damaged files, are never sampled.",
  [LDML, "lib/sldr/py3xmlparser.py"], [("expat driven tree builder with comment events", "lib/sldr/py3xmlparser.py"), ("loading loop", LDML)],
  ["loaded documents as saved, raised errors, parsed trees"],
  "runtime monitor: loads of equivalent spellings compared with the document meant and with two independent parsers",
  "A document is written with random equivalent spellings and delivered as a file, whole or in pieces of 1 to 1000 bytes (with padding to the parser's block sizes); what is loaded must equal the document, with the same comments in the same places. Damaged copies which both libxml2 and expat reject must be refused. The library's own parser must build the tree the standard library builds, fed in any pieces.",
  "Encodings other than UTF-8 are not claimed: LDML files are UTF-8 and the loader says so to expat.")

P("L08", "Resolving aliases puts the content they point to in their place, and ends",
  "Resolving the aliases of a document, by itself or while flattening, replaces every alias with a path by a copy of what its target holds in the resolved document "
  "(including what the target inherits, and what aliases anywhere inside the target stand for, lists in their order), drops those whose target does not exist, and keeps every other entry where it was. "
  "It ends for any document, including one whose aliases form loops, leaves no alias with a path behind, and doing it again changes nothing.",
  ["inputs"], "every document and every way its aliases refer to each other",
  "No test resolves an alias; chains, aliases deep inside targets and loops depend on the order in which the document happens to be walked.",
  [LDML, "lib/sldr/ldml_merge.py"], [("alias resolution", LDML), ("flattening with aliases resolved", "lib/sldr/ldml_merge.py")],
  ["documents after resolution", "flattened documents"],
  "runtime monitor: every group of a resolved document compared with its content worked out on demand by an independent model",
  "Random calendars full of aliases (chains, nesting, loops, missing targets, targets inherited from root) are resolved in memory and by flattening, and each group is compared with what the model says it stands for.",
  "What the groups of an alias loop hold, and targets which can only be reached through another alias, are not judged beyond loss, termination and idempotence.")

P("L09", "Flattening a collation replaces every import by the rules it names",
  "When collations are flattened, each [import LOCALE-u-co-TYPE] in the rules of a locale is replaced, in place, by the rules of that type (by its BCP 47 or its LDML name) in that very locale's file, "
  "und being root and the locale itself its own flattened document, with the imports in those replaced alike to any depth. An import of what does not exist leaves nothing, imports which form loops end, "
  "a locale's own rules all stay in their order, and no import is left.",
  ["inputs"], "every family of locale files and every way their collations import each other",
  "No test flattens an import; names that end alike, region and script subtags, empty rules, chains and loops are exactly what samples leave out.",
  ["lib/sldr/ldml_merge.py", LDML], [("finding the collation imported", "lib/sldr/ldml_merge.py"), ("replacement of import statements", LDML)],
  ["collations of flattened documents"],
  "runtime monitor: rules of every flattened collation compared with an independent expansion of its imports",
  "Random families of collations importing each other are written to one or two search directories, and every locale is flattened or copied; the rules of each type must be the model's, token by token.",
  "Imports in a loop are judged for termination and for the locale's own rules only; an import of a type which the named locale would itself inherit is not judged, nor imports inside comments.")

P("L11", "A locale's file is found where the layout of its directories puts it",
  "Given a language tag (with hyphens or underscores) and a list of directories, looking up a locale's document gives the file of exactly that name which stands directly in one of the directories, the earliest first, "
  "or else the one in the directory named by the tag's first letter in lower case in one of them, or nothing when there is neither. For merging and flattening, where the name has underscores, the first directory which has "
  "either serves, the direct one before the one by letter. Listing a directory's files of an extension gives each of them at any depth once, sorted, and no others. Nothing is written.",
  ["inputs"], "every tree of directories, order of directories and tag",
  "Which of several files a lookup takes depends on the whole layout; no test has two directories, or files whose names nearly match.",
  [LDML, "lib/sldr/ldml_merge.py"], [("finding a locale's file", LDML), ("finding what a locale inherits from", "lib/sldr/ldml_merge.py")],
  ["documents returned", "files listed", "state of the directories"],
  "runtime monitor: documents found, recognised by the mark each file carries, compared with a model of the layout",
  "Random trees of one to four directories with locales in, beside and below the places looked in, and names which nearly match, are searched in random orders for locales which are and are not there.",
  "Runs on a case-sensitive file system.")

MERGE = "lib/sldr/ldml_merge.py"

P("M01", "Flattening gives each locale its nearest ancestor's values and nothing else",
  "Flattening a locale against a set of directories yields its own entries plus, for every entry it does not state, the entry of the nearest locale in its "
  "fallback chain (truncation, the declared parent table or a fallback element, root last) that exists, is not marked for inheritance and does not declare a different script. "
  "Identity stays its own, each collation type and each font role is inherited as a whole only where the locale has none, and locales outside a given changed set are left alone.",
  ["inputs"], "every family of locale files, fallback declarations, scripts, inherit marks, fonts, collations and directory layouts",
  "Tests flatten a couple of sample files; the inheritance rules interact over chains, missing files, scripts and marks.",
  [MERGE, LDML], [("overlay of the fallback chain", MERGE), ("fallback chain from supplemental data", LDML)], ["written flattened documents"],
  "runtime monitor: every entry of the flattened output compared with an independent inheritance model",
  "Random families over real language tags (including declared parents such as en_150, zh_Hant_HK, es_MX) are written in the supported layouts and every member is flattened; each entry is judged by a model that walks the chain.",
  "The parent table is read independently with libxml2; the chain model follows LDML inheritance as the code documents it.")

P("M02", "Unflattening removes only what the parent says and flattening restores it",
  "Unflattening a flat locale removes an entry only if the nearest existing parent has that entry with the same value, and removes it then. What the parent "
  "lacks or says differently, competing alternates included, and the identity stay. Flattening the unflattened files again gives the same flat data.",
  ["inputs", "histories"], "every family of flat locale files and every flatten / unflatten / flatten cycle over it",
  "The tests round trip one or two files; losing an entry needs particular overlaps between a locale and its parent.",
  [MERGE], [("difference against the nearest parent", MERGE)], ["written unflattened and re-flattened documents"],
  "runtime monitor: conservation ledger over recorded flatten/unflatten/flatten histories",
  "Families are flattened to files, every flat file is unflattened against them and the result flattened again; a ledger says for each entry whether it had to go, had to stay and came back.",
  "Locales in a chain do not declare conflicting scripts. Entries of which only alternates are stated are not judged.")

P("M03", "A three way merge applies both sides' changes and records conflicts",
  "Merging two edited versions of a base document gives, for each item, the changed value if only one side changed, added or removed it, and the common value if they agree. "
  "An edit wins over a removal (unless the other side is declared the winner), different edits keep ours and record a clash comment naming the values, and "
  "lists whose order is data keep their order. Nothing else changes, and the other and base documents are neither modified nor shared with the result, and a merge that says it changed nothing has not. Where comments are copied from the base or the other document, whatever all three hold has the comments it has there. "
  "The ldmlmerge tool writes just this merge of its three files, to a file or to standard output.",
  ["inputs", "histories"], "every base document and every pair of edit scripts on it, with or without drafts, base, default draft and winner",
  "The existing tests merge a few single edits; alignment, hashing and deletion errors show only for particular combinations of edits at different depths.",
  [MERGE, LDML], [("alignment by content and key hashes, recursive merge", MERGE)], ["merged document, other documents, clash comments"],
  "runtime monitor: per-item three way merge model over recorded merge executions",
  "Documents of up to 90 keyed items are edited independently on two sides (text, attributes, removals, additions, whole sections, ordered lists), merged by the real code, and every item is judged; operands are saved before and after, and after scribbling over the result.",
  "Items carry no competing proposals here (M04 covers them); a conflict between two attribute edits under a text clash is not judged.")

P("M04", "Merging never silently loses an edit or a proposal",
  "When merged documents carry draft statuses and proposals, a value that either side changed is in the result as the visible value, as a retained proposal "
  "or in a recorded clash. A proposal that only one side made or changed is retained (unless that makes its status worse), of two proposals by the same proposer the one with the best "
  "status is kept, and what nobody changed stays. The other documents are not modified.",
  ["inputs"], "every combination of values, statuses and proposals in base, ours and theirs, and every default draft",
  "There are thousands of combinations of status, proposer and edit per item, and tests sample two or three.",
  [MERGE], [("merging of alternates by draft rank", MERGE)], ["merged document's values, alternates and comments"],
  "runtime monitor: conservation ledger of every edited value and proposal over recorded merges",
  "Items with unique values per side, random statuses and up to three proposers are merged; each edit and proposal is looked up in the written result.",
  "Does not judge which of two equally ranked proposals by one proposer survives, nor a change of status alone.")

US = "lib/sldr/UnicodeSets.py"
EX = "lib/sldr/ldml_exemplars.py"

P("U01", "A list of strings written as a Unicode set reads back as the same strings",
  "Whatever strings (in NFC) are written as a Unicode set, reading the set back gives exactly those strings, both with the library's own reader and with ICU's. This includes "
  "set syntax characters, backslashes, white space, isolated marks, invisible and private use characters and supplementary planes. White space (other than the separating space), "
  "default ignorable, format and private use characters and marks without a base are always written as visible escapes.",
  ["inputs"], "every list of NFC strings", "Tests write a dozen chosen characters; quoting fails for particular characters and neighbours in a space of a million characters.",
  [US], [("escaping and bracing of set members", US), ("parsing of Unicode sets", US)], ["set text written", "members read by the library and by ICU"],
  "runtime monitor: written sets re-read by the library and by ICU and compared with the input",
  "Random lists over hostile character pools, backslash runs, and (fixed) every assigned BMP character alone and after a base plus a sample of the other planes.",
  "Trusts ICU's UnicodeSet parser.")

P("U02", "Unicode set notation is read as the Unicode standard defines it",
  "Reading a set gives exactly the members it denotes: literal characters, every escape notation (\\uXXXX, \\UXXXXXXXX, \\xXX, \\u{...}, \\x{...}, control escapes, and a backslash before "
  "any other character), ranges, {strings}, nested sets, complements ([^...], at any depth), and difference, intersection and union (written | or not at all) applied left to right, with ASCII white space ignored between tokens. A sequence of sets, characters and strings "
  "is read as that sequence, and a requested normal form is applied to every member; flattening it gives each string that takes one member of each set in turn, once for each way of making it. A string's escapes are read likewise, and references in it stand for the strings they are given.",
  ["inputs"], "every set expression without properties or variables", "The grammar is recursive and its escapes interact; tests read a few sets.",
  [US], [("recursive descent over tokens", US)], ["members read"],
  "runtime monitor: members read compared with those computed during generation, cross-checked with ICU",
  "Random expressions are generated together with their meaning; ICU must agree with the generator on single sets or the case is skipped.",
  "Properties and variables are not claimed, nor what the complement of a string is.")

P("E01", "Every character of a text is accounted for in its exemplars",
  "When texts are analysed, the graphemes reported are exactly the base-plus-marks clusters of the lowercased text in its most frequent script, with their true counts; every letter and mark is covered by the main or auxiliary exemplars, "
  "every number by the digits, every punctuation mark by the punctuation. The sets contain nothing that is not in the text, no capitals, no other script, are in NFC, sorted, without repeats, "
  "no exemplar is in both main and auxiliary, ignorables are never main, and the index is the uppercase of main without isolated marks.",
  ["inputs"], "every text in every script, including malformed and invisible sequences, with every threshold",
  "The tests process a few short words each; conservation over splitting, classification and case mapping needs all kinds of characters together.",
  [EX], [("clustering of text, splitting of marks, classification", EX)], ["all exemplar sets, graphemes, frequencies, script"],
  "runtime monitor: ledger reconciling recorded results with the clusters of the text (independent ICU based clustering)",
  "Random texts over 14 script profiles and arbitrary characters are processed, and a ledger reconciles each cluster with the sets, both ways.",
  "Digits may also occur in main or auxiliary when they carry marks. Order within a set is judged only for text without ambiguous nukta sequences.")

P("E02", "Exemplars depend on the text only",
  "The exemplars found do not depend on the order of the words, on how the text is divided into pieces, on its Unicode normal form, on every word occurring twice rather than once, nor on the process (hash seed): the sets are identical as written.",
  ["inputs", "histories"], "every text, every permutation and division of it, every normal form, every hash seed",
  "A test has one order in one process; set and dictionary iteration order only shows across many.",
  [EX], [("ordering of analysis passes and of the written sets", EX)], ["all exemplar sets as written, script, counts"],
  "runtime monitor: recorded results of permuted, re-divided, renormalised and re-seeded executions compared",
  "Each text is processed several ways in one process, and in four persistent processes with different PYTHONHASHSEED; all recorded results must agree.",
  "Texts in which two scripts are equally frequent are skipped.")

P("E03", "Exemplars follow the rules for marks, frequency and listed exemplars",
  "A mark is separated from its bases if it is an Indic matra or virama (not a nukta and not a combining diacritic U+0300-036F) or ignorable, if another mark occurs on exactly the same bases, if it occurs on more bases than the "
  "threshold, or if it follows another mark of the same combining class; a separated mark is separated everywhere. Exemplars more frequent than the given percentage of the mean count are main, others (and tatweel) auxiliary. "
  "Multigraphs that the document already lists are found as units unless a mark follows them.",
  ["inputs"], "every text and every setting of both thresholds and every list of preset exemplars",
  "Each rule is tested alone; their interaction in a fixed point over a text is not.",
  [EX], [("mark separation rules and frequency parcelling", EX)], ["all exemplar sets"],
  "runtime monitor: sets compared with an independent implementation of the documented rules",
  "Random texts and settings are analysed by the real code and by a separate implementation written from the documentation; the sets must be the same.",
  "A nukta after another mark or on a digit, texts without a dominant script, and counts exactly at the threshold are not judged.")

P("E04", "Letters of one case only and multigraph candidates are reported as they occur",
  "After a text is analysed, the letters reported as occurring in one case only are just the clusters whose every occurrence with a cased letter is of that case. When candidates for multigraphs are asked for, "
  "each string of one to four characters starting where a cluster starts is counted once for each time it occurs, and the exemplars found are the same as without. "
  "Normalising the exemplars gives each set just the normal forms of what it held.",
  ["inputs"], "every text, listed exemplars, and normal form",
  "No test looks at candidates or normal forms, and one at case; counts err at the ends of texts and beside listed multigraphs.",
  [EX], [("reports of case and of multigraphs", EX)], ["letters reported, candidates and their counts, sets before and after"],
  "runtime monitor: reports compared with an independent recount of the text",
  "Texts in capitals, title and lower case are processed with and without counting, recounted by a separate implementation, and their sets compared before and after normalising by ICU.",
  "A nukta after another mark or on a digit is not judged.")

COLL = "lib/sldr/collation.py"

P("R01", "ldmlflatten writes each locale as that locale alone would be written",
  "Whatever locales are requested and however the work is spread (one process, a pool of workers, another interpreter run), ldmlflatten writes for each locale one file, "
  "byte for byte what flattening (or unflattening, or copying) that locale alone gives with the same options, with the requested or last committed revision in it, and nothing else; a locale which is missing or damaged is reported "
  "and disturbs no other, stubs are left out when asked, and the files read are not changed.",
  ["inputs", "schedules", "faults"], "every family of files, selection of locales, options, distribution over workers and set of damaged files",
  "No test runs the tools. What a worker did before, which worker got which locale and which file fails varies from run to run.",
  ["scripts/ldmlflatten", "lib/sldr/ldml_merge.py"], [("per locale worker, pool and single mode", "scripts/ldmlflatten"), ("flattening of one locale", "lib/sldr/ldml_merge.py")],
  ["files written, standard output and exit status of the tool; the input directory before and after"],
  "runtime monitor: recorded runs of the tool in several modes compared with each other and with single library calls",
  "The tool runs on random families as a pool, as one process, for single locales and in a fresh interpreter with another string hash seed; files are compared byte by byte with the library called for that locale, and damaged inputs must be reported without touching the rest.",
  "Damaged inputs are not judged in one-process mode, which stops at the first failure by design.")

P("R02", "ldmlnormalize rewrites each LDML file as itself and touches nothing else",
  "Normalising a file or a directory, in place or into another place, writes every LDML file (.xml or .ldml, at the top or one folder down, or the file named) as the same document in normal form, as it would be alone, "
  "so that doing it again changes no byte. A file which cannot be read is reported and left as it is with nothing written for it, and all other files are neither touched nor copied.",
  ["inputs", "faults", "histories"], "every directory of documents and other files, every set of damaged ones",
  "No test runs the tool; directories with stray or damaged files and hostile documents are not sampled.",
  ["scripts/ldmlnormalize", LDML], [("listing of inputs and outputs", "scripts/ldmlnormalize"), ("loading and saving", LDML)],
  ["files written, standard output and exit status of the tool"],
  "runtime monitor: recorded runs of the tool on generated directories judged against the documents meant",
  "The tool runs twice on random directories; each file written is compared with the document generated, with a single load and save, and with the second run, and everything else must be as before.",
  "Validation against the schema (-v) needs a file which is not in the repository.")

P("R03", "Tools that add to locale files add what their sources say, once, no more",
  "sldraddkeymans gives each locale file every keyboard listed for one of its tags, by its id, with its download address (none on a dry run), and reports each keyboard and language in its order. "
  "sldrautonames gives each file that is not from CLDR the English and the local name of its tag where it has none, apostrophes in the latter as the main exemplars write them. sldraddfonts gives each the fonts of "
  "the sheet (by script and region, else by script) and of the style sheet with address, features (less those a font has built in, none for Noto), the first as default and Noto Sans for ui. "
  "All else in these files stays, other files are not touched, and doing it again adds nothing.",
  ["inputs", "histories"], "every set of locale files and tags, every list of keyboards, names and fonts",
  "No test runs the tools, which write into every file of the repository of locale data without anybody reading what they wrote.",
  ["scripts/sldraddkeymans", "scripts/sldrautonames", "scripts/sldraddfonts", LDML],
  [("keyboards", "scripts/sldraddkeymans"), ("names", "scripts/sldrautonames"), ("fonts and features", "scripts/sldraddfonts"), ("making of paths", LDML)],
  ["files before and after each of three runs, the report"],
  "runtime monitor: recorded runs of the tools judged against the documents meant plus a model of the additions",
  "The tools run on random directories with random tag tables, keyboard lists, sheets and style sheets; each file must be the document generated plus what a model says its sources add, and a second and third run must add nothing.",
  "Looking for addresses in the network is not run: each font has an address given. Locale files with several top level specials or with competing proposals for the items added are not claimed; what was added may be put in its place only when the file is next saved.")

P("R04", "cldrimport joins the parts of each locale and removes only what is gone",
  "Importing writes, for each locale of the source, the union of its main, collation, casing and segmentation parts, alternates included, with the identity of the first, its source (cldr, or cldrseed as unconfirmed), script and default region marked, and no references. "
  "With -r it removes the files of locales which are no longer in the source. It touches nothing else, does the same in one process or several and when done again, and it fails, removing nothing, when a part cannot be read.",
  ["inputs", "faults", "schedules"], "every set of parts and earlier results, every option, every damaged part, every sharing out of the work",
  "No test runs the tool, and one process or several, damaged parts, alternates and references are not sampled.",
  ["scripts/cldrimport", MERGE, LDML], [("joining, identity, references, removal", "scripts/cldrimport"), ("overlaying", MERGE)],
  ["files written and removed, exit status of the tool"],
  "runtime monitor: recorded runs of the tool in one and several processes judged against the union of the parts",
  "The tool runs twice on random sources, once with one and once with several processes; each file is compared with the union of the documents generated, and everything else must be as before.",
  "Parts that give the same item, and revisions from a repository (--hg), are not claimed.")

P("R05", "icubreaktext cuts each line at its language's breaks and loses nothing",
  "Breaking a text with icubreaktext -l writes one line for each line, in order: its text, without the white space around it, as it is but for a | at each place where ICU breaks such text in the language given "
  "- line, character, word or sentence breaks as asked, lines by default - and nowhere else, whatever scripts and characters the text has; to a file or to standard output.",
  ["inputs"], "every text, each of the four kinds of break, every language",
  "No test runs the tool; where text breaks depends on the characters, their encoding and the language.",
  ["scripts/icubreaktext"], [("cutting of lines", "scripts/icubreaktext")],
  ["lines written by the tool"],
  "runtime monitor: recorded runs of the tool on generated texts judged line by line against ICU's breaks",
  "The tool runs on random texts of many scripts with marks, emoji and supplementary characters; each line is compared with the breaks ICU gives for it, taken in UTF-16, and must hold the same text.",
  "Breaking by the rules of a locale file (-d) is not judged: no locale file has rules in the form the tool needs.")

P("R06", "zonetab lists every zone of zone.tab once, with its place, in order",
  "The table made from a zone.tab has one row for each zone of it, under the name locale data has for it, with its country, latitude and longitude in degrees (minutes and seconds counted, south and west negative), "
  "ordered by country, then latitude, longitude and name; comments and further columns are left out. A library which reads the table puts the zones of a document in its order.",
  ["inputs"], "every zone.tab",
  "No test runs the tool; positions in every quadrant, with and without seconds, and ties are not sampled.",
  ["scripts/zonetab", "lib/sldr/ldml.py"], [("reading and ordering of zones", "scripts/zonetab"), ("order of zones", LDML)],
  ["rows written by the tool, zones of documents saved with its table"],
  "runtime monitor: recorded runs of the tool on generated tables judged against positions worked out exactly",
  "The tool runs on the zone.tab of the system and on random ones; rows are compared with exact fractions, their order with that of exact positions, and documents are saved with the table.",
  "Rows for zones which are not in zone.tab (Etc) are not judged, nor is the renaming of Pacific/Honolulu.")

P("C01", "A tailoring means the same after it is read and written",
  "A collation tailoring (ICU rule syntax: resets to a single element or to an element tailored before, [before 1], the four strengths, expansions, comments, backslash and \\u escapes, any white space) which is parsed and written back "
  "orders all strings exactly as before, at the same levels, in its written order, and also in the default order when its chains are independent, with or without wrapping. In the latter case the library's own sort keys agree. "
  "Escaping any string for a tailoring and unescaping it gives the string back. The icupretty tool writes such a tailoring, to a file or to standard output, and with --adddot adds rules which make a dot below before a final asat sort as after it and change nothing else.",
  ["inputs"], "every tailoring in the syntax, every pair of strings",
  "The tests compare a few written tailorings as text; whether two tailorings order all strings alike needs an implementation of collation.",
  [COLL], [("parsing, sort key calculation, chain and reset placement in writing", COLL)], ["the rule text written and sort keys"],
  "runtime monitor: ICU's rule based collator as the oracle of recorded rule texts",
  "Random tailorings are read and written by the real code; ICU compiles the original (an independent spelling of the same rules) and the output, and all pairs of a string sample must compare alike, neighbours at the same level.",
  "Resets to untailored sequences of several collation elements are not judged, nor sort keys of tailorings with expansions.")

P("C02", "A simple alphabet becomes a tailoring with just that order",
  "Converting an alphabet given as a simple list (one letter a line; letters that differ at the second level separated by spaces, at the third by slashes; x, x X and ng/NG standing for all their case forms) gives a tailoring in which every "
  "neighbouring pair sorts in the order and at the level given, wherever the letters are in the default order. The simple list written for the tailoring reads back as the same alphabet.",
  ["inputs"], "every alphabet starting with a letter or a sequence, of letters, sequences and their accented and case forms, in any order",
  "Tests hold a few alphabets and their expected text.",
  [COLL], [("conversion of simple lists, insertion before, simple output", COLL)], ["rule text and simple list written"],
  "runtime monitor: ICU's rule based collator judges the recorded rule text against the alphabet",
  "Random alphabets are spelled as simple lists and converted; ICU must find each neighbouring pair at exactly the listed level.",
  "The list is judged for reading back only when the tailoring needs neither before nor expansions.")

P("C03", "Minimising the tailoring of an alphabet keeps its order",
  "Minimising the tailoring of an alphabet only takes elements out, changes none, and leaves every pair of neighbours of the alphabet in the order and at the level given; the tailoring of single letters in default order becomes empty.",
  ["inputs"], "every alphabet whose first letter also sorts first by default among its letters",
  "Tests hold a few alphabets and their expected text.",
  [COLL], [("comparison with the default order and removal", COLL)], ["elements before and after, rule text written"],
  "runtime monitor: ICU's rule based collator judges the recorded rule text, and a recorded before/after comparison of elements",
  "Random alphabets are converted and minimised; elements before and after are compared and ICU compiles the result.",
  "Alphabets that start with a sequence are skipped.")

P("C04", "Sort keys follow the DUCET and order strings consistently",
  "Both readers of the DUCET file hold exactly its entries. The sort key of any string is the one the Unicode Collation Algorithm forms from them: longest matching entries, derived weights for characters with none, zero weights not counted. "
  "Comparing sort keys is a total order (antisymmetric, transitive) giving the level of the first difference; operators, equality and hash agree with it; adding and copying keys concatenates them level by level and shares nothing with them.",
  ["inputs"], "every string, every pair and triple of sort keys",
  "Tests compare three pairs of one letter strings.",
  [COLL, "lib/sldr/ducet.py"], [("reading of the DUCET, key forming, key comparison", COLL)], ["sort keys of strings, results of comparisons, entries held"],
  "runtime monitor: recorded keys compared with an independent implementation of the key forming rules, and algebraic laws on recorded comparisons",
  "Random strings over the repertoire are given keys by the real code and by an independent reading of the file; laws are checked on triples; every entry of the file is compared.",
  "Tangut and compatibility ideographs are not judged.")

SHEET = "lib/sldr/sheet.py"

P("S01", "A data entry sheet becomes a document with exactly what the sheet says",
  "Converting a data entry sheet (tab separated, or any of the named pages of a spreadsheet) gives an LDML document holding, for every single entry, attribute-only entry and "
  "one or two dimensional table of the sheet, the text of each filled in cell at the path its row, column and table say, and nothing else: blank cells, labels, headings, "
  "notes, cells beyond the headings and other pages add nothing. How the spreadsheet stores the text (runs of equal cells, styled pieces, spaces, line breaks, numbers) does not matter.",
  ["inputs"], "every sheet: any arrangement of entries and tables, any cell texts, any way of storing the cells",
  "There are no tests of sheets; losses depend on how rows end, how cells are stored and what stands next to what.",
  [SHEET, LDML, "scripts/sheetldml"], [("row interpreter", SHEET), ("spreadsheet reader", SHEET)], ["written LDML documents"],
  "runtime monitor: the document written is compared entry by entry with an independent reading of the sheet",
  "Random sheets are built together with the entries they state, stored as TSV or as hand written ODS files, and converted through the class or the script; the document's leaves (read with libxml2) must be exactly those entries. The shipped sheet is filled in at random too.",
  "Quoting of TSV is that of Python's excel-tab dialect, as the code declares. Blank rows inside a table with a column per path are left out: the code ends the table there or not depending on the width of the row.")

P("S02", "Filling a sheet from a document shows its values and changes nothing else",
  "Filling a spreadsheet from an LDML document puts the value the document has for an entry into the cell of that entry, leaves every other cell of every page as it was "
  "(also where the document has no value), and converting the filled spreadsheet gives those same entries back.",
  ["inputs"], "every spreadsheet and every document",
  "There are no tests of sheets; a value lands in the wrong cell or destroys a neighbour only for particular ways of storing a row.",
  [SHEET, LDML, "scripts/sheetldml"], [("cell writer", SHEET)], ["written spreadsheets, documents converted from them"],
  "runtime monitor: the full grid of the written spreadsheet, read independently, is compared with the expected grid, then converted back",
  "Random spreadsheets (prefilled, with runs, short rows, styled text, numbers and formulas' values) are filled from random documents holding some of their entries and others; every cell of every page is read back from the file with libxml2 and compared, and the file converted to LDML again.",
  "Cell styles, annotations and formulas are outside the claim.")

TAGS = "lib/sldr/langtags_full.py"

P("T01", "A language tag is its parts, whatever its spelling",
  "Reading any well-formed language tag (a 2 or 3 letter language with at most one extended language, or a private one like x-abc with a script; script; region; variants; extensions; private use), in any case and with either separator, "
  "gives exactly its parts. The full form printed has them in the usual case, variants and the subtags of an extension in the order given, extensions by singleton and private use last; it reads back as the same tag. "
  "The length is the number of subtags (an extended language counts with its language). The forms of a tag are those which leave out parts marked as implied, and no others. "
  "A copy equals the tag and shares nothing with it; two tags match if and only if their parts do, and are ordered as their full forms.",
  ["inputs"], "every well-formed tag, every pair",
  "There are no tests of language tags; which parts a subtag is taken for depends on its length, its first character and all that went before.",
  [TAGS], [("tag parser, printing, forms", TAGS)], ["attributes, printed forms, lengths, comparisons"],
  "runtime monitor: recorded readings and printings compared with the parts the tag was made from",
  "Random tags are made from parts and spelled at random; the real code reads them and everything it says about them is compared with the parts.",
  "Grandfathered tags and reserved languages of 4 to 8 letters are not judged.")

P("T02", "Equivalent language tags resolve to one tag, whose forms are those tags",
  "In a table of equivalent tags (the one shipped, or any in its format) every tag of a line resolves to one and the same tag, whose full form is the last of the line and whose short form and other forms are tags of that line "
  "- all of the line, where its tags differ only in whether the script and the region are given. Analysing a tag of the table gives that tag; with variants or an extension added it keeps what it says, takes the script and region of the full form "
  "(when it says one of them, and nothing else than the full form does), and its short form is equivalent to it; "
  "a tag of a language which is not in the table stays as it is, and so does a tag when merging a conflicting one into it is refused, and when one is accepted the tag keeps what it said. A table built from a subtag registry, likely subtags, a list of extra ones and supplemental data resolves each likely subtag to its full tag, leaves out suppressed scripts, "
  "fills in the only region of a language, knows the variants of each prefix, and lists every form of every tag in it.",
  ["inputs"], "every tag of every table, every tag derived from one",
  "There are no tests of the table; which parts are implied is found line by line, by merging tags whose order and number vary.",
  [TAGS, "lib/sldr/langtags.txt"], [("merging of equivalent tags, table reader, analysis", TAGS)], ["tags the table resolves to and their forms"],
  "runtime monitor: what the table built by the real code resolves to is compared with the lines it was read from",
  "The shipped table is judged in full in every run, with derived tags; so are random tables and tables built from random registries, likely subtags and supplemental data which agree with each other.",
  "Variants which imply a script (fonipa, fonapa, fonupa) are not added in analysing; lines of two languages are judged only for resolving.")

P("T03", "The subtag registry is read record by record",
  "Reading a language subtag registry (record-jar format) gives, for each type and subtag, tag or range, exactly the fields of its record: one value as it is, repeated fields as a list in order, folded lines joined by a space, "
  "whatever the fields contain and in whatever order types come, and nothing of any other record.",
  ["inputs"], "every registry",
  "There are no tests of the registry reader; repeated and folded fields and records of grandfathered tags decide where a line goes.",
  ["lib/sldr/iana.py"], [("registry reader", "lib/sldr/iana.py")], ["records held after reading"],
  "runtime monitor: the records held are compared with an independent reading of the registry",
  "The shipped registry and random ones (all types, folded and repeated fields, colons in folded lines) are read by the real code and by an independent reader following RFC 5646, and compared record by record.",
  "Registries which break the format are not judged.")

P("D01", "What is written depends on the input alone, not on the process writing it",
  "Saving a document, flattening and unflattening a family of locales, a three way merge, writing, minimising and simplifying a tailoring, making one from an alphabet, converting a sheet, building and listing a table of language tags, "
  "and writing a set of strings give the same bytes in every process: whatever the seed of Python's string hashing, and whatever the process handled before.",
  ["inputs", "histories", "schedules"], "every input, every hash seed, every history of a process",
  "Tests run in one process with one hash seed; an order taken from a set or a value left in a cache shows only in another.",
  [LDML, MERGE, COLL, TAGS, SHEET], [("orders taken from sets, caches of modules and classes", LDML), ("minimising", COLL)], ["bytes written by processes with different hash seeds and histories"],
  "runtime monitor: the same requests recorded in parallel processes which differ in hash seed and history, and compared byte by byte",
  "Four persistent processes with different hash seeds get each request, in one order; a fifth which has done nothing before gets some. All must write the same.",
  "What fails in every process is left to other checks. Exemplars have the same done in E02, the tools in R01.")

KBD = "lib/sldr/ldml_keyboard.py"

P("K01", "A key gives the text its map has for the modifiers held",
  "Typing a sequence of keys shows, after each key, the text so far with the text of that key added: that of the key map whose modifiers list the combination held. A list of modifiers is alternatives separated by spaces, "
  "each naming modifiers joined by +, where one followed by ? may be held or not; neither case nor order matters, and a map without modifiers is for none held. A key with no text adds nothing. Escapes in the text "
  "(\\uXXXX, \\UXXXXXXXX, \\x{...}, \\u{... ...}) stand for their characters, maps in imported files count as if they were written there, and each sequence starts afresh.",
  ["inputs"], "every keyboard of key maps, every sequence of keys",
  "There are no tests of keyboards; optional modifiers and alternatives multiply into combinations.",
  [KBD], [("reading of key maps and modifiers, key strokes", KBD)], ["text shown after each key"],
  "runtime monitor: text shown after each key compared with a table of every key and combination of modifiers computed while generating",
  "Random keyboards (up to five maps, any modifiers, some in imported files) are typed on by the real code, which is given the keys as text, and each state shown is judged.",
  "Two maps for the same combination are not judged, nor are names of modifiers that stand for several (ctrl for either ctrl).")

P("K02", "Transforms replace the longest match, however the text is typed",
  "What a keyboard shows after each key is what one pass over all the text typed so far gives: from left to right, the longest string of the simple transforms that matches there, in its context (before: the text typed before it; after: what follows), is replaced "
  "by its text, any other character stays; then the final transforms do the same to the result. A match in a context is preferred to one of the same length without, and when no context allows a longer match a shorter one counts. A sequence of sets (of characters or strings, or of everything but some characters) matches every string of it, whatever the order of the rules; "
  "rules of several elements or files add up. With transformPartial=hide, text at the end that could become the start of a longer match is not shown until that is decided. A key that leads to an error rule is refused: it is reported and has no effect, then or later.",
  ["inputs", "histories"], "every keyboard with simple and final transforms, every sequence of keys",
  "There are no tests of keyboards; what has been shown may be final or may still change with the next key, which a simulator working key by key must know exactly.",
  [KBD, US], [("matching of rules, what is kept between keys", KBD)], ["text shown and error state after each key"],
  "runtime monitor: incremental output after each key compared with a batch model of the transforms applied to all the text typed",
  "Random rule sets over small alphabets (so that rules overlap), with sets and contexts, are typed on for up to 14 keys; a model which knows nothing of keys gives the text expected at each point.",
  "Negated sets, references to groups, strings inside sets, transformFailure and fallback settings, and two different contexts matching the same text are not claimed.")

P("K03", "Reordering sorts each cluster; backspace removes from what is shown",
  "With reorders, the text after the simple transforms is shown as clusters: prefixed characters (prebase), one character of order 0, and what follows. Each cluster is sorted by order, characters of one order stay in the order they were typed, "
  "a tertiary character follows the last character of order 0 or marked tertiary_base before it in its cluster (in the order of tertiary), a cluster without a base is given a dotted circle as its base, and characters before the first base or prefixed character of the text are left alone. "
  "Nothing else is added or lost, and clusters keep their order, whatever was typed key by key. The longest string a reorder rule matches gives the orders of its characters. Backspace replaces the longest end of the text shown that a backspace rule matches "
  "(an error rule refuses it), otherwise removes its last character; what is left is not changed by keys typed later.",
  ["inputs", "histories"], "every keyboard with reorders, transforms and backspace rules, every sequence of keys",
  "There are no tests of keyboards; clusters grow while they are typed and may be sorted again or for good.",
  [KBD], [("sorting of clusters, backspace", KBD)], ["text shown and error state after each key"],
  "runtime monitor: incremental output after each key compared with a batch model of clusters, with deletions between",
  "Random orders over small alphabets, with sequences which have orders of their own, transforms before and after and backspace rules, are typed on for up to 16 keys.",
  "Prebase characters of order 0 or with tertiary, backspace while text is hidden, and rules that start in one cluster and end in the next with a prebase are not claimed.")

P("K04", "Keyboard tests report exactly the keys that went wrong",
  "kbdtest types each test event of a file (virtual key and shift states, on the ISO positions of a US keyboard) on the keyboard and reports, by its number among all the events, each whose text after the key differs from the text given, and no other. "
  "Its exit status is zero only when none differs. Events without a key are not typed, and no file is changed.",
  ["inputs"], "every keyboard and file of tests",
  "There are no tests of the tool, which decides whether a keyboard is right.",
  ["scripts/kbdtest", KBD], [("events, names of keys and shift states", "scripts/kbdtest")], ["reports, exit status, files"],
  "runtime monitor: reports and exit status of the tool run as a process compared with a model of the keyboard",
  "Random keyboards over all keys and shift states; the expected texts are those of a model, some of them changed, and the tool must find just those.",
  "Events with a key but no text are not claimed; keys outside the table stop the tool.")
