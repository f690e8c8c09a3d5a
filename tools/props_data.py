prop("C12", "Lists keep kind, nesting and order of their items",
     "Every line of wikitext list markup becomes exactly one item of a list of the kind given by its last prefix character, nested by the length of its prefix under the nearest preceding item it continues, and in the order of the text. A plain or blank line ends all open lists; in a definition list the part behind the first colon of a term line becomes its description.",
     ["inputs"], "all sequences of list lines over every prefix of * # : ; up to the stated length and depth",
     "The tests sample about fifteen fixed lists; which list a line continues depends on the whole history of preceding prefixes, so the claim is over all sequences.",
     ["src/parser/list.go", "src/generator/html.go"], [("recursive list tokenizing by prefix", "parser/list.go tokenizeList"), ("list rendering", "generator/html.go expandListItem")],
     observe=["generated HTML of an article"],
     technique="exhaustive enumeration of line sequences, real parser+generator compared with an explicit prefix-stack model at every trace",
     note="Exhaustive up to 4 lines/prefix length 2 (quick); trusts the independent stack model of MediaWiki's prefix rule and golang.org/x/net/html for reading the output.")
prop("C01", "The book holds every article once, in the order of the list",
     "The generated book (or statistics) contains exactly one entry for every position of the article list, with the content of the article named there, in the order of the list. This holds for every number of worker threads, every order in which the articles get finished, and lists that name an article several times.",
     ["schedules", "inputs"], "all schedules of the worker threads within the stated preemption bound, for all article lists up to length 3 (selected lists up to 5) and 1 to 5 workers",
     "Tests never run the worker pool; the order in which workers finish is decided by the network and the Go scheduler.",
     ["src/main.go", "src/generator/epub.go", "src/generator/stats.go"],
     [("worker pool writing results by article position", "main.go generateBookFromArticles"), ("source files passed to pandoc in order", "generator/epub.go GenerateEpubWithPandoc")],
     observe=["input files of the book generator", "combined statistics"],
     technique="stateless model checking of the real main() under a controlled scheduler (preemption-bounded DFS over all interleavings at HTTP, lock and file operations)",
     note="Exhaustive within the preemption bound on the real code; steps between scheduling points run atomically; pandoc is an in-process stand-in.")
prop("C02", "Parallel processing gives the result of sequential processing",
     "For every schedule of the worker threads a run ends (no deadlock, no crash) and produces the same book and the same cached files as processing the articles one after the other, also when articles share templates, images and formulas. No worker ever uses a half-written shared file.",
     ["schedules"], "all interleavings of 2-3 workers up to 3 preemptions at HTTP, lock, file-operation and external-program granularity, and up to 1 preemption at every function entry",
     "Existing tests are single threaded; races need particular interleavings around shared cache entries.",
     ["src/main.go", "src/cache/cache.go", "src/http/http.go", "src/wikipedia/wikipedia.go", "src/image/image.go"],
     [("cache mutex", "cache/cache.go cacheWriteMutex"), ("temporary file plus rename", "cache/cache.go CacheToFile"), ("per-article tokenizer state", "main.go processArticle")],
     observe=["book contents", "cache directory"],
     technique="stateless model checking of the real main() under a controlled scheduler, every execution compared with the sequential run",
     note="Exhaustive within the preemption bound; cooperative scheduling, so word-level data races without any scheduling point in between are not visible; image processing stand-in is idempotent.")
prop("C03", "A cached file is complete or absent at any moment",
     "Whatever happens during a run - the process dies at any point, a write is torn or fails, the disk is full, a server answers with an error or breaks off, an image tool fails or dies half-way - every file of the cache outside the temporary folder has the complete content an undisturbed run (or a completely answered request) gives it, or does not exist. Error pages never enter the cache.",
     ["crash_points", "fault_sequences"], "every operation of the run times every kind of fault, and all pairs of faults in two consecutive runs",
     "The tests mock the file system and never interrupt it; the claim is about every point at which a run can break off.",
     ["src/cache/cache.go", "src/http/http.go", "src/image/image.go", "src/wikipedia/wikipedia.go", "src/main.go"],
     [("write to temporary file, then rename", "cache/cache.go CacheToFile"), ("only status 200 without API error reaches the cache", "http/http.go doRequest"), ("image tools write to a temporary file", "image/image.go executeCommandTemplate")],
     observe=["cache directory after the process died"],
     technique="exhaustive fault injection: the real main() is run once per (operation, fault) and per pair in consecutive runs; every state of the cache is compared with the complete contents",
     level="fault_enumeration",
     note="Process death model (completed writes survive); power loss without sync is out of scope; external tools, Wikipedia and pandoc are in-process stand-ins.")
prop("C04", "An interrupted run can simply be repeated",
     "After a run that died or failed at any point, an undisturbed repetition produces exactly the book (chapters, pictures, statistics) that a run in a fresh directory produces and leaves no temporary files. A run that reports success despite a fault has produced that book, too.",
     ["crash_points", "fault_sequences", "histories"], "every operation times every kind of fault followed by an undisturbed run; all pairs of faults in consecutive runs followed by an undisturbed run",
     "No test runs the program twice; whether leftovers of an interrupted run poison later ones depends on the exact point of interruption.",
     ["src/main.go", "src/cache/cache.go", "src/wikipedia/wikipedia.go", "src/image/image.go", "src/http/http.go"],
     [("clearing the temporary folder at start", "main.go ensurePathsAndClearTempDir"), ("reuse of cached files", "http/http.go DownloadAndCache"), ("processing of freshly downloaded pictures", "wikipedia/wikipedia.go postProcessImage")],
     observe=["the book and the pictures it refers to"],
     technique="exhaustive fault injection (all single faults, all pairs in consecutive runs) on the real main(), final book compared with the undisturbed reference run",
     level="fault_enumeration",
     note="One known finding: a picture cached but not yet processed when the process dies stays unprocessed. Process death model as in C03.")
prop("C06", "Valid cache entries are reused, everything else is fetched anew",
     "A run requests exactly those resources (article, template, picture, picture page, formula, formula images) whose cache entry is missing or older than the configured maximum age, each once; all others are taken from the cache without any request. The book shows the current content of what was fetched, including pictures derived from it by conversion, and the cached content of everything else. With the lru strategy using an entry makes it young, otherwise its age counts from its download.",
     ["histories", "inputs"], "all combinations of valid, outdated and deleted entries of nine resources; all histories of four (thorough: six) runs with time steps between them, for all three eviction strategies",
     "Tests check single look-ups with mocked time stamps; whether outdated content survives somewhere depends on combinations and on the history of runs.",
     ["src/cache/cache.go", "src/http/http.go", "src/wikipedia/wikipedia.go", "src/main.go"],
     [("age check and removal", "cache/cache.go GetFile"), ("download only when not cached", "http/http.go DownloadAndCache"), ("conversion of pictures", "wikipedia/wikipedia.go postProcessImage")],
     observe=["HTTP requests", "the book and its pictures"],
     technique="explicit enumeration of all cache entry states and run histories on the real main(), every run compared with a reference model of entry ages and versions",
     note="One known finding (html/<article>.html in the working directory). Ages within a minute of the limit are not explored.")
prop("C05", "The cache keeps its size limit and evicts in the order of the strategy",
     "After any sequence of storing and looking up files the cache (without temporary files) is not larger than the configured maximum size, unless a single file alone is. To make room exactly the necessary files are deleted, in the order of the strategy (largest first, or least recently used first - look-ups count as use); the file just stored is always there with its content, a look-up finds exactly the files that are there, and with the strategy none nothing is ever deleted. Storing never fails for lack of room.",
     ["histories", "inputs"], "all sequences of up to 4 (thorough: 5-6) operations over several names and sizes, for each strategy",
     "The unit tests replace the file system by mocks that return fixed sizes, so neither real sizes nor sequences are covered.",
     ["src/cache/cache.go", "src/util/files.go"],
     [("eviction loop", "cache/cache.go deleteFilesFromCacheIfNeeded"), ("victim selection", "util/files.go FindLargestFile, FindLruFile"), ("touching used files", "cache/cache.go GetFile")],
     observe=["cache directory after each operation"],
     technique="explicit-state enumeration of all operation sequences on the real cache and file system, compared step by step with a reference model",
     note="Totals never equal the limit exactly; operations are sequential (their serialisation is C02's subject).")
prop("C07", "Every name has its own file inside its cache folder",
     "Every article, picture or template name, whatever characters it contains, is stored directly in its folder of the cache - never outside of it - under a file name no other name shares, and is found there again with its content.",
     ["inputs"], "all names up to length 4 (thorough: 5) over 17 characters: path separators, the characters that get escaped, the escape character and hex digits, dot, space, non-ASCII",
     "The tests check three names; injectivity of an escaping scheme and containment are statements about all names (and pairs of names).",
     ["src/util/files.go", "src/cache/cache.go"],
     [("escaping of special characters", "util/files.go SanitizeFilename"), ("path composition", "cache/cache.go GetFilePathInCache")],
     observe=["paths returned and files created"],
     technique="exhaustive enumeration of all names over a critical alphabet on the real functions and file system, injectivity decided over the complete set",
     note="Names '.', '..' and the empty name are excluded (no wiki title or file can have them).")
prop("C08", "Requests are repeated when throttled, and only good answers count",
     "A request answered with status 429 is sent again unchanged (same method, address, body and headers) after at least the number of seconds given in the Retry-After header (or a short pause when there is none), as often as necessary, until another answer comes. Only a complete answer with status 200 and without MediaWiki's error header counts as success: its exact bytes are stored in the cache and used. With every other answer the operation fails and nothing is stored, so that a later call asks the server again; what has been stored is never requested again. Every request carries the configured user agent.",
     ["fault_sequences", "histories"], "all sequences of up to 3 (thorough: 4) server answers out of 19 kinds, for five kinds of operations, each performed twice",
     "Tests mock the client with one fixed answer; retry behaviour is about arbitrary sequences of answers.",
     ["src/http/http.go", "src/wikipedia/wikipedia.go", "src/cache/cache.go"],
     [("retry loop", "http/http.go doRequest"), ("download and caching", "http/http.go DownloadAndCache"), ("formula look-up", "wikipedia/wikipedia.go getMathResource")],
     observe=["HTTP requests and waiting times", "results", "cache directory"],
     technique="exhaustive enumeration of server answer scripts against the real HTTP and Wikipedia services, compared with a reference state machine",
     note="Virtual time; HTTP transport is an in-process server stand-in below Go's HTTP client.")
prop("C09", "Pictures come from the first configured source that has them",
     "The configured source hosts are asked in their order for a picture's page and then for its file (under the name the page redirects to, in the storage path of that host); the first file found is stored under the name used in the article, and later sources are not asked. When no source has it the download reports an error. The address of a file is correct for every file name.",
     ["inputs", "fault_sequences"], "all orders of up to 4 (thorough: 5) hosts times 5 states per host; all names up to 3 (4) characters out of 18",
     "The tests use one source; the fall-back order is a statement about all combinations of sources having a page, a redirect, a file or an outage.",
     ["src/wikipedia/wikipedia.go"],
     [("fall-back over sources", "wikipedia/wikipedia.go downloadImageUsingAllSources"), ("file address", "wikipedia/wikipedia.go downloadImage")],
     observe=["HTTP requests", "image cache"],
     technique="exhaustive enumeration of source availability and names against the real service, compared with a reference model of the fall-back",
     note="One known finding (pages cached without host). File names contain no colon and no slash (not possible in MediaWiki).")
prop("C20", "No wikitext makes the program crash or hang",
     "Whatever text an article consists of (broken, unclosed or oddly nested markup included) and whatever text its templates evaluate to: reading it and generating HTML and statistics ends, either with a result or with an ordinary error - never with a crash and never in an endless loop. Only text that spells the program's own internal token placeholders is excepted.",
     ["inputs"], "all sequences of wikitext fragments up to a length, all pairs (thorough: triples) in all contexts, all triples of nested contexts, repetitions",
     "Tests contain well-formed wikitext of a few lines; which combinations of unclosed or adjacent markup run out of bounds can only be found by going through all of them.",
     ["src/parser", "src/generator", "src/util/string.go"],
     [("search for closing marks", "parser/util.go findCorrespondingCloseToken"), ("tokenizing until nothing changes", "parser/tokenizer.go tokenizeContent"), ("search for bold and italic text", "parser/formatting.go tokenizeBoldAndItalic"), ("expansion of tokens", "generator/expand.go")],
     observe=["result, error, panic or time limit"],
     technique="exhaustive enumeration of token sequences (bounded input space) against the real tokenizer and generators with crash and hang monitoring",
     note="A case counts as hanging after 10 s; templates and formulas are evaluated by a stand-in.")
prop("C19", "The book contains the article's text and structure, unchanged and in order",
     "For well-formed wikitext the generated HTML contains every piece of the article's text exactly once, unchanged (every character, whatever its script or meaning in Go, HTML entities or regular expressions) and in its order, with the inline markup (bold, italic, links, external links with their address, HTML tags, references, icons, formulas) around exactly the text it was written around, within the block (heading of the same level, paragraph, nested list, table cell, caption, gallery, picture, reference list) it was written in, and nothing else. Lines separated by a blank line are separate paragraphs. Comments and categories vanish without a trace. The markup of the result is balanced.",
     ["inputs"], "all nestings, all sequences of inline elements and all sequences of blocks up to a size",
     "The pipeline rewrites one string in twenty passes, each of which can capture text meant for another one; the tests run single passes on single examples, but loss or reordering appears in combinations.",
     ["src/parser", "src/generator/html.go", "src/generator/expand.go"],
     [("order of the passes", "parser/tokenizer.go tokenizeContent"), ("clean-up", "parser/cleaner.go"), ("HTML of tokens", "generator/html.go"), ("expansion", "generator/expand.go")],
     observe=["generated HTML", "requested formulas", "pictures of the article"],
     technique="exhaustive enumeration of documents over a bounded grammar, the real tokenizer and generator compared with the tree the document was written from",
     note="Ambiguous combinations (neighbouring apostrophe marks, links in links, colons in terms) are not generated; a line that consists only of bold text counts as a heading.")

prop("C13", "Tables keep their rows, entries, types and spans",
     "A table of the wikitext becomes one table of the book with the same rows (rows without entries do not count) and in each row the same entries in the same order - whether entries are written on one line (separated by || or, on lines with header entries, also !!), on lines of their own or over several lines; whether the first row is announced by |- or not, whatever follows |- on its line, with or without blank lines and indentation. Each entry has its type (header or data), its colspan and rowspan, its text alignment (text-align in a style ended by a semicolon) - and no other attribute -, and exactly its content, of whatever kind (words like -5 or +5, lists, pictures, further tables, references, formulas with bars). The caption (|+, with or without attributes, at any position) appears once, as the caption. Text behind the end of the table stays behind the table, and an indented table stays indented.",
     ["inputs"], "all pairs of entries, all tables up to 3 rows over the kinds of rows and row starts, captions at all positions, nestings up to depth 3",
     "The tests hold about ten tables; how one entry is cut off from the next depends on what stands in both, on their line breaks and on what is nested.",
     ["src/parser/table.go", "src/generator/html.go", "src/parser/tokenizer.go"],
     [("splitting into rows and entries", "parser/table.go tokenizeTable, tokenizeTableRow"), ("attributes", "parser/table.go tokenizeTableEntry"), ("nested tables", "parser/table.go tokenizeTables"), ("HTML", "generator/html.go expandTable...")],
     observe=["generated HTML"],
     technique="exhaustive enumeration of tables over a bounded grammar, the real tokenizer and generator compared with the tree the table was written from",
     note="Attribute values are written name=number, name=\"number\" or style=\"...text-align:...;\".")
prop("C14", "Bold and italic text is exactly the text between its marks",
     "Two apostrophes switch italic, three switch bold, five switch both; when all marks are closed on their line and marks are separated by text (also only blanks), then exactly the words between opening and closing mark have that style in the book - including all orders of opening and closing (an inner style closed after the outer one as well), several styled passages per line, lines below each other, links inside, and inside all blocks (headings, lists, table entries, captions, references ...). No apostrophe of a mark remains, single apostrophes stay, and the markup is balanced.",
     ["inputs"], "all sequences of up to 6 (7) pieces in 20 kinds of blocks, up to 11 (13) words and marks",
     "Tests try about thirty sequences; pairing of marks is a language problem over all sequences, and the search had exponential cost.",
     ["src/parser/formatting.go", "src/parser/cleaner.go", "src/generator/html.go"],
     [("pairing of marks", "parser/formatting.go tokenizeBoldAndItalic"), ("expansion of the marks", "generator/html.go expandMarker")],
     observe=["generated HTML"],
     technique="exhaustive enumeration of mark sequences against the real tokenizer and generator, compared with a toggle automaton",
     note="Neighbouring marks without text between them, four apostrophes and marks unclosed on their line are ambiguous and not covered here (C20 covers that they are harmless). The nesting order of b and i elements does not matter, the style of each word does.")
prop("C18", "Formulas and nowiki text are taken verbatim",
     "The text between math tags reaches the formula renderer exactly as written - once per formula, in order - and the picture stands where the formula stood, with the size of the rendered formula; the text of a nowiki area appears as literal text (entities decoded, nothing interpreted, no tag generated from it). This holds whatever characters they contain - brackets, braces, apostrophes, bars, dollar signs, line breaks, comment and template marks, markup tags - wherever they stand: in paragraphs, headings, list entries, table entries, captions, references, links or template parameters' results. A comment hides formulas and nowiki areas inside it; nothing is taken for a comment inside of them.",
     ["inputs"], "all sequences of up to 3 (4) special fragments inside a formula or nowiki area, in every block and nested in markup, two areas next to each other",
     "Verbatim areas must be opaque to every one of the tokenizer's passes; tests contain only formulas without any other markup.",
     ["src/parser/verbatim.go", "src/parser/math.go", "src/parser/nowiki.go", "src/parser/cleaner.go", "src/parser/tokenizer.go", "src/generator/html.go"],
     [("order of the passes", "parser/tokenizer.go Tokenize, tokenizeContent"), ("formulas", "parser/math.go parseMath"), ("nowiki", "parser/nowiki.go parseNowiki"), ("clean-up", "parser/cleaner.go clean")],
     observe=["formulas requested", "generated HTML"],
     technique="exhaustive enumeration of verbatim contents in all contexts against the real tokenizer and generator, compared with the written tree",
     note="The formula renderer is a recording stand-in.")

prop("C15", "References are numbered consistently and listed completely",
     "Each use of a reference shows the number [n] of its reference: counted from 1 within its group by first occurrence, the same number for all uses of the same name in the same group, different numbers for different references. Each list (<references/> or <references>...</references> with definitions inside) shows exactly the references of its group that were defined so far and not listed before, each once, in the order of their numbers, with number and content. This holds for all interleavings of definitions, uses (also in front of the definition) and lists, for all notations of the attributes (quotes, apostrophes, none, blanks around =, either order, further attributes, upper-case tags), for all names (blanks, slashes, brackets ... in quotes), and for formatted contents; nothing of the tags remains and the text around stays.",
     ["inputs"], "all sequences of up to 5 (6) of 16 events, all pairs of 10 notations x 12 names x 2 groups x 4 arrangements, 14 contents in 3 surroundings and 5 arrangements",
     "Numbers depend on everything that stands in front of a reference and in the lists; the tests hold a handful of articles.",
     ["src/parser/reference.go", "src/generator/html.go"],
     [("definitions and lists", "parser/reference.go parseReferences, parseReferenceDefinition"), ("names and groups", "parser/reference.go getRefToken..."), ("HTML", "generator/html.go expandRefDefinition, expandRefUsage")],
     state=[("reference lists", "references of a group by number, not listed yet", "parser/reference.go")], observe=["generated HTML"],
     technique="exhaustive enumeration of event sequences, the real tokenizer and generator run along a model of numbering and listing",
     note="Every used name is defined before the list of its group, not with two contents and not again behind its list. References within references and the order of formulas inside of references are not covered.")
prop("C16", "Links show their text, foreign links vanish, nothing else does",
     "An internal link shows exactly its text, or, without a text, the name of the article (for a section of the same article the section with its #); an external link becomes a link with exactly its address and exactly its text; a bracketed address without text and one standing in the text stay as written; links with other schemes keep their text. Links with foreign prefixes (other languages, categories) vanish without a trace - however the prefix is capitalised, with or without text -, those with an allowed prefix or a leading colon do not. Brackets that are no links stay as text. The text and markup around each link stay unchanged and in order, wherever the link stands: headings, lists, tables, captions, references, templates.",
     ["inputs"], "all sequences of up to 4 (5) of 22 pieces, all of 30 targets and 24 addresses with 22 texts in 20 blocks, all vanishing links",
     "Single brackets, bars, colons and apostrophes have meanings in several passes; tests cover a few links outside of other blocks.",
     ["src/parser/link.go", "src/parser/cleaner.go", "src/generator/html.go", "src/generator/expand.go"],
     [("links", "parser/link.go parseInternalLinks, parseExternalLinks, parseLink"), ("removal of foreign links", "parser/cleaner.go"), ("HTML", "generator/html.go expandExternalLink, expandInternalLink")],
     observe=["generated HTML"],
     technique="exhaustive enumeration of link sequences against the real tokenizer and generator, compared with the tree they were written from",
     note="Article names without a colon that follows other text than an allowed prefix (those links are taken for foreign ones by design). Pictures and links inside of links, and closing brackets in texts of external links are ambiguous.")

prop("C11", "Template calls are replaced by their results, inner calls first",
     "The book shows for an article with template calls what it shows for the article in which each call is replaced by the text Wikipedia evaluates it to - nested calls in parameters or names are evaluated first and their results take part in the outer call -, and the text around the calls stays unchanged. Calls without nested calls are requested with name and parameters as written (links, markup, braces and equals signs in parameters included), with at most one request per call. Results may be anything: empty, text, markup, lists, tables, headings, references, formulas, comments, categories. When a request fails, no article is generated from the incomplete text but the error is reported.",
     ["inputs", "fault_sequences"], "all sequences of up to 4 (5) of 27 pieces, all nestings of these pieces in 2 (3) levels of 9 outer calls in all blocks, every single request failing",
     "Placeholders, nesting and the position of the search interact; the tests hold a few calls without results that hold markup.",
     ["src/parser/template.go", "src/parser/tokenizer.go", "src/parser/util.go"],
     [("search and placeholders", "parser/template.go replaceTemplateByPlaceholders"), ("substitution of the results", "parser/template.go evaluateTemplates"), ("order of the passes", "parser/tokenizer.go Tokenize")],
     observe=["requests to the service", "generated HTML"],
     technique="exhaustive enumeration of call trees; the real tokenizer and generator compared with their own result for the text expanded by an independent evaluator",
     note="Balanced braces; white space in a request counts as one blank; calls inside link targets with colons are not covered.")
prop("C17", "What is excluded leaves no trace, and nothing else is removed",
     "Comments, categories, links to other languages, ignored templates (any capitalisation, parameters, nested calls) and __NOTOC__ can be inserted anywhere - within words, lines, cells, captions, references, template parameters; a comment's line vanishes with it when nothing else is on it - without changing anything else in the book. The calls {{BS-table}} and the |} belonging to them vanish, what stands between stays. Trailing templates (with their parameters) appear exactly once each, in order, as if they stood at the end of the article. List entries without text and sections without text and subsections vanish; every heading with text in its section and every text stays, in order, each with its level.",
     ["inputs"], "12 articles x all positions x 28 removed things and 7 trailing templates, all pairs of positions; all sequences of up to 5 (6) of 12 lines; all sequences of up to 4 (5) of 13 pieces with railway tables",
     "Removal works on raw text by index arithmetic, so what stands around the removed part decides; the tests remove things from a few fixed texts.",
     ["src/parser/cleaner.go", "src/parser/verbatim.go"],
     [("comments", "parser/cleaner.go removeComments"), ("categories and foreign links", "parser/cleaner.go removeUnwantedInternalLinks"), ("templates", "parser/cleaner.go handleUnwantedAndTrailingTemplates"), ("railway tables", "parser/hacks.go hackGermanRailwayTemplates"), ("empty parts", "parser/cleaner.go removeEmptyListEntries, removeEmptySections")],
     observe=["generated HTML", "requested templates"],
     technique="exhaustive enumeration of insertions, the real tokenizer and generator compared with their own result for the article without them; enumeration of line sequences against a model of sections",
     note="Templates whose name only begins with an ignored or trailing one are not covered (removed by design). A line with only bold text counts as a heading. A section with subsections but no text may stay or vanish.")
prop("C27", "Pictures keep their file, size, caption and place",
     "Each picture of the wikitext - as a link, in a gallery or an imagemap - appears once at its place with the file of its name (blanks as underscores, first letter in upper case, any configured prefix), in the size given (width, height or both), as a figure when it is a thumbnail, in a gallery or at least 100 pixels wide or 50 high, otherwise within the text. A thumbnail's caption is the option that is no thumbnail mark, size or ignored parameter, wherever it stands among them and whatever it begins or ends with; it appears completely under the picture. Media of ignored types (unless converted) vanish without a trace. The text around galleries and imagemaps stays, also when it shares a line with the tags. Exactly these pictures are requested.",
     ["inputs"], "all sequences of up to 4 (5) of 42 options, 28 names x 6 prefixes x 8 option lists in all blocks, all galleries of up to 3 (4) of 15 lines x 12 notations of the tags, 23 types x 8 conversions x 3 configurations",
     "Options are recognised by what they look like, so each caption, name and order is a new case; tests have about 20.",
     ["src/parser/image.go", "src/generator/html.go"],
     [("options", "parser/image.go parseImages"), ("galleries", "parser/image.go parseGalleries"), ("imagemaps", "parser/image.go parseImageMaps"), ("names and types", "parser/image.go escapeImages"), ("HTML", "generator/html.go expandImage, expandInlineImage, expandSizeTemplate")],
     observe=["generated HTML", "pictures of the article"],
     technique="exhaustive enumeration of pictures over a bounded grammar, the real tokenizer and generator compared with the tree they were written from",
     note="One size and one caption per picture; captions of pictures without thumbnail mark are dropped by design.")
prop("C21", "The statistics count what is in the articles and the book",
     "The statistics of an article hold the number of its words, internal links (per linked article; a link to a section counts for the article, one to a section of the same article for this one), external links, pictures, formulas and reference uses, wherever they stand: in paragraphs, headings, lists on any level, tables, captions, references, template results, nowiki text. The statistics of a book are the sums over its articles; they name as not covered exactly the linked articles that are not part of it, with their number of links, and as the most linked ones of these the ones with the most links. The estimated reading time of an article is the number of its words divided by the reading speed (words per minute) of the language of its Wikipedia instance (183 when none is known for it), rounded down, that of a book the sum. The text form lists the articles in the order of the book. The same articles give the same statistics, byte by byte.",
     ["inputs"], "all sequences of up to 3 (4) of 16 pieces in 21 blocks, all triples of blocks; all books of up to 3 of 7 articles in all orders; 810 books with up to 30 linked articles",
     "Counting walks the token tree by type, so each kind of nesting can be lost; ties and map order make the result differ between runs, which a test with one link per article cannot see.",
     ["src/generator/stats.go", "src/generator/expand.go"],
     [("counting", "generator/stats.go StatsGenerator.expand*"), ("book", "generator/stats.go GenerateCombinedStats"), ("text form", "generator/stats.go generateTxtStatsContent")],
     observe=["statistics files"],
     technique="exhaustive enumeration of articles over a bounded grammar and of books of them, the real statistics compared with numbers counted in the tree the article was written from",
     note="Pieces separated by blanks; HTML tags and entities count as words by design; words within formulas do not count.")
prop("C22", "Command line beats project beats configuration file beats default",
     "Each setting the program works with is the one given on the command line, else the one of the project file, else the one of the configuration file, else the documented default - also when the given value equals the default, when lists only differ in their order, and whatever else is set. All requests of a run go to the hosts, and use the user agent, that result from these settings.",
     ["inputs", "configurations"], "all assignments of up to 8 values of each of the 34 entries to the three places in the three modes; all pairs of entries in all pairs of places (thorough: triples); all combinations of 3 values of the seven settings for requests",
     "Values are merged entry by entry with a comparison against the default; tests sample one value per entry, so a forgotten entry, a comparison that is too weak or a value equal to the default goes unnoticed.",
     ["src/config/config.go", "src/config/project.go", "src/main.go"],
     [("merging", "config/config.go MergeExplicitlySetIntoCurrentConfig, MergeIntoCurrentConfig"), ("set entries of a project", "config/project.go IsSet"), ("command line", "main.go initCli")],
     observe=["effective configuration", "requests"],
     technique="exhaustive enumeration of assignments of values to the places for settings, the real main() run on each of them and compared with the precedence rule",
     note="Values are valid at each level; lists from the command line are not empty.")
prop("C23", "Relative paths belong to where they were written",
     "A relative path in the configuration file is relative to the directory of this file, one in a project file to the directory of the project, one on the command line to the working directory; absolute paths stay. This holds for cache, style, cover, data directory, fonts, pandoc and the output, wherever these files are and however they are named.",
     ["inputs", "configurations"], "7 entries x 3 places x 8 notations x 9 locations of the configuration file x 8 of the project in the three modes; all triples of entries",
     "The program changes its working directory for a project and merges the levels at different times; tests use absolute paths or one directory.",
     ["src/config/config.go", "src/util/files.go", "src/main.go"],
     [("configuration file", "config/config.go makePathsAbsolute"), ("project and command line", "config/config.go MakePathsAbsoluteToWorkingDir"), ("order", "main.go initialize, generateProjectEbook")],
     observe=["paths handed to pandoc", "cache directory", "output file"],
     technique="exhaustive enumeration of locations and notations, the real main() run on each of them, the paths it used compared with the rule",
     note="No symbolic links.")
prop("C24", "Unusable settings are rejected before anything happens",
     "A run ends with an error, before the first request, without starting external programs and without touching an existing book, if and only if its settings are not usable: unknown or incompatible output types and drivers, unknown converters or eviction strategies, numbers out of range, commands without placeholders, style, cover, font or data files that do not exist, configuration or project files that are missing or no complete JSON of the right types, wrong arguments.",
     ["inputs", "configurations"], "7 to 12 values of each of the 13 restricted settings in each place and all pairs of places and modes; all pairs of output type and driver; all proper prefixes and suffixes of the JSON files; missing files in all places (thorough: all pairs of settings)",
     "Validation happens once per level on merged values; tests check some values of some entries on the structure itself, not that the program stops.",
     ["src/config/config.go", "src/main.go"],
     [("values", "config/config.go AssertValidity, VerifyOutputAndDriver"), ("files", "config/config.go AssertFilesAndPathsExists"), ("JSON", "config/config.go LoadConfig, config/project.go LoadProject")],
     observe=["exit", "requests", "external programs", "existing output"],
     technique="exhaustive enumeration of settings, files and arguments, the real main() run on each of them and compared with an independent predicate of validity",
     note="Settings that are unusable in a lower place and replaced by usable ones above are not judged.")
prop("C25", "External programs get exactly the configured command",
     "Each external program is called with the words of its template, the placeholders replaced by the whole path of an existing input and of the output, as one argument however many blanks, quotes or shell characters the path contains. The picture used in the book is the result of the configured conversion followed by the configured processing, each done once; no program is called for a command that is not set. Pandoc gets type, metadata, table of contents, style, cover, fonts, data directory and output each as one argument with the exact value, and the articles in order.",
     ["inputs", "configurations"], "all templates of up to 4 (5) of 8 words for each of the five commands; all sets of commands; 20 cache directories x 23 picture names; 5 metadata entries x 30 values and pairs; depths, types and 9 file names for each setting",
     "Command lines are assembled from templates and paths; a test sees one path without special characters and mocks the call.",
     ["src/image/image.go", "src/util/cmd.go", "src/generator/epub.go", "src/wikipedia/wikipedia.go"],
     [("templates", "image/image.go executeCommandTemplate"), ("conversion and processing", "wikipedia/wikipedia.go postProcessImage"), ("pandoc", "generator/epub.go GenerateEpubWithPandoc")],
     observe=["arguments of external programs", "pictures of the book"],
     technique="exhaustive enumeration of templates, paths and metadata, the real main() run on each of them with recording stand-ins for the programs",
     note="Paths with characters the program refuses with an error (%, <, >, :) are not part of the enumeration; formulas are not processed further, unconverted PDF and SVG files not at all (by design).")
prop("C26", "The output is where it was asked for, and nothing else changes",
     "A successful run writes the complete book or statistics to exactly the file given on the command line, else in the project, else the default one in the working directory; a given directory means the default name in it, missing directories are created, an existing file is replaced completely. Outside the cache nothing else is created, changed or removed, and the temporary folder of the cache is gone. A run that fails or dies before the output is generated leaves an existing output file as it was.",
     ["inputs", "configurations"], "3 modes x 4 output types x 31 notations of the output file in the command and in projects at 4 places, existing files and directories or not, first and second run",
     "Where the output lands depends on mode, type, working directory changes and what exists; tests do not run the program with output arguments.",
     ["src/main.go"],
     [("output file", "main.go ensurePathsAndClearTempDir, generateProjectEbook"), ("default name", "main.go initCli")],
     observe=["all files below the scratch directory"],
     technique="exhaustive enumeration of notations and existing files, the real main() run on each of them, the complete file tree before and after compared",
     note="A file name for statistics that does not end with json or txt means the default one (by design); no symbolic links.")
prop("C10", "Every picture of the book exists and is the right one",
     "Each picture and formula in the HTML handed to pandoc refers - decoded the way a reader of HTML and URLs does - to an existing file, whose content is this picture of Wikipedia, converted and processed as configured. This holds for every file name Wikipedia allows (percent signs, question marks, quotes, backslashes, other scripts, names that differ only in blanks, capitalisation or ending), for every combination of conversions, for every place of the picture, and for names similar to each other within one book.",
     ["inputs", "configurations"], "all names of up to 3 (4) of 24 characters x 2 types; 14 types x 16 sets of conversions x 3 math converters x 3 cache directories and pairs of types; 38 names in 11 places; all pairs of names in one and in two articles",
     "The name goes through tokenizer, sanitizer, cache, converters and URL encoding in different packages, which have to agree for each name; tests check each of them alone with harmless names.",
     ["src/parser/image.go", "src/generator/html.go", "src/generator/expand.go", "src/cache/cache.go", "src/util/files.go", "src/wikipedia/wikipedia.go"],
     [("reference in the HTML", "generator/html.go expandImage"), ("name in the cache", "util/files.go SanitizeFilename"), ("conversion", "wikipedia/wikipedia.go postProcessImage")],
     observe=["HTML files handed to pandoc", "files they refer to"],
     technique="exhaustive enumeration of picture names, types and configurations, the real main() run on each of them and every reference of its HTML resolved and compared with the picture of the world",
     note="Names with two apostrophes in a row and blanks written as %20 are not covered.")
prop("C28", "Drawings and formulas have the right size",
     "With svg-size-to-viewbox a drawing whose width or height is relative gets the size of its viewBox (in any notation, with any prolog, comments and order of attributes) and its root element and everything else stay the same; drawings with absolute size or without usable viewBox, and all drawings without this setting, stay byte for byte. This happens before a conversion. Formulas are shown in the size and alignment of the drawing rendered for them, with each converter.",
     ["inputs", "configurations"], "6 widths x 6 heights x 13 viewBoxes x 4 prologs x 10 orders of attributes x 4 notations, types, setting, conversion; 7 widths x 7 heights x 6 styles x 4 prologs x 3 converters of formulas",
     "The file is rewritten as text; what counts as the root element and its attributes depends on everything before and around it. Tests hold one drawing.",
     ["src/image/svg.go", "src/wikipedia/wikipedia.go", "src/generator/html.go"],
     [("resizing", "image/svg.go MakeSvgSizeAbsolute"), ("size of formulas", "image/svg.go ReadSimpleAvgAttributes, generator/html.go expandMath")],
     observe=["pictures of the book", "generated HTML"],
     technique="exhaustive enumeration of drawings over a bounded grammar, the real main() run on each of them and its picture compared with the document written from the same description",
     note="Well-formed documents; missing width or height attributes stay missing.")
prop("C29", "The internal driver puts the same book together",
     "With output driver internal the output file is a readable EPUB (each file of its manifest exists once, and vice versa for chapters, styles, fonts and pictures). Its chapters are exactly the articles in the given order, also repeated ones, each with the content pandoc would get and with every picture and formula pointing to a file within the book which has the content of that picture. The table of contents has the titles of the articles; cover image, style file and fonts are in the book exactly if they are configured; title, author and language are those of the project. Pandoc is not started, an older output file is replaced and nothing else is written next to it.",
     ["inputs", "configurations"], "all lists of up to 3 (4) of 6 articles x 3 covers x style x 5 sets of fonts; 6 sets of metadata; 3 modes; 2 working directories; existing and new output file",
     "Names, references and order within the book result from the interplay of the cache, the generated HTML and the EPUB library for a whole list of articles with shared pictures; no test generates a book with this driver.",
     ["src/generator/epub.go", "src/main.go", "src/generator/html.go"],
     [("building the book", "generator/epub.go GenerateEpubWithGoLibrary"), ("pictures", "generator/epub.go embedImages")],
     observe=["output file", "files next to it"],
     technique="exhaustive enumeration of article lists and configurations, the real main() run on each of them with both drivers and the EPUB file read back and compared with what the pandoc stand-in got",
     note="What readers make of the HTML within the chapters is not considered; license and date are not passed on by this driver.")
