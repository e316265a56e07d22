# ruff: noqa: F821
TRUST = ("Random search against an independent oracle; never establishes absence. Trusts the "
         "compiler, the sanitizers, and the oracle in /verif/harness. ")

prop("C01", "The text of a PDF is output completely, once, and in reading order",
     "The plain text output of a PDF file consists of exactly the characters on its pages (except "
     "those in figures), each as often as it is shown; nothing is lost, repeated or invented, "
     "whatever the layout. For documents with running text (one or two columns, with or without "
     "title, headings, indented or spaced paragraphs, justified or ragged, also continued in the "
     "next column), the text is exactly the paragraphs in reading order, divided by blank lines, "
     "with the words divided by single spaces and hyphenated words merged, no matter how the text is "
     "encoded in the content streams (by lines, words or characters, with or without spaces, in any "
     "order of the paragraphs).",
     ["inputs"], "All PDF files with any text on any pages; all articles with running text, in all encodings.",
     "The tests compare the text of a handful of fixed documents; each new layout or encoding is another "
     "combination of the decisions of eleven modules.",
     ["src/PdfToTextPlusPlus.cpp", "src/PdfParsing.cpp", "src/WordsDetection.cpp", "src/PageSegmentation.cpp",
      "src/TextLinesDetection.cpp", "src/TextBlocksDetection.cpp", "src/ReadingOrderDetection.cpp",
      "src/WordsDehyphenation.cpp", "src/serializers/PlainTextSerializer.cpp"],
     [("the pipeline", "src/PdfToTextPlusPlus.cpp: process"),
      ("plain text", "src/serializers/PlainTextSerializer.cpp: serializeToStream")],
     "property-based testing: generated PDF files, against the text they were typeset from and against the "
     "multiset of the characters shown",
     TRUST + "The semantic roles come from a stand-in of the neural network. For arbitrary layouts only the "
     "multiset of characters is judged (in canonical decomposition, without white space and hyphens).")

prop("C02", "Characters, words, lines and blocks form a consistent hierarchy",
     "After processing, each character of a page (unless in a figure, or a diacritic mark merged with "
     "its base) is in exactly one word, each word in exactly one line, each line in exactly one block, and each word "
     "in exactly one page segment; parts and wholes are linked with each other, are on the same page, "
     "and belong to the document. The text of each whole is the concatenation of the texts of its parts; the "
     "lines of a page are those of its blocks in reading order; the links between neighboring lines and blocks are "
     "mutual; ids are unique; the parts of a word share their direction.",
     ["inputs"], "All PDF files.",
     "The tests look at single links of single elements; consistency is a relation over all elements of a document.",
     ["src/PdfToTextPlusPlus.cpp", "src/WordsDetection.cpp", "src/PageSegmentation.cpp", "src/TextLinesDetection.cpp",
      "src/TextBlocksDetection.cpp", "src/ReadingOrderDetection.cpp", "src/Types.h"],
     [("words", "src/utils/WordsDetectionUtils.cpp: createWord"),
      ("lines", "src/TextLinesDetection.cpp: createTextLine, mergeTextLines"),
      ("blocks", "src/utils/TextBlocksDetectionUtils.cpp: createTextBlock"),
      ("lines in reading order", "src/PdfToTextPlusPlus.cpp: process")],
     "property-based testing: invariants over all elements of generated PDF files after the whole pipeline",
     TRUST + "The preliminary blocks that segments keep are not judged.")

prop("C03", "The box of each element is the smallest one around its parts",
     "After processing, the box of each word is the smallest one around its characters, that of each line "
     "around its words, of each block around its lines, of each page segment and figure around "
     "their elements; whatever the rotation of text and page.",
     ["inputs"], "All PDF files.",
     "The tests check boxes of few upright elements.",
     ["src/utils/WordsDetectionUtils.cpp", "src/TextLinesDetection.cpp", "src/utils/TextBlocksDetectionUtils.cpp",
      "src/utils/PageSegmentationUtils.cpp", "src/PdfParsing.cpp"],
     [("words", "src/utils/WordsDetectionUtils.cpp: createWord"),
      ("lines", "src/TextLinesDetection.cpp: computeTextLineProperties"),
      ("blocks", "src/utils/TextBlocksDetectionUtils.cpp: createTextBlock"),
      ("segments", "src/utils/PageSegmentationUtils.cpp: createPageSegment")],
     "property-based testing: invariants over all elements of generated PDF files after the whole pipeline",
     TRUST + "Words and segments with upside-down characters are not judged (known finding of C04).")


prop("C04", "Each visible character of a PDF is recorded with its text and layout",
     "For each page, each non-white character shown by the PDF is recorded exactly once, in the "
     "order in which it is shown, with the text and code points given by its font (by a name that "
     "is known to pdftotext++ like 'summationdisplay', or else by the font's Unicode map; "
     "ligatures are split into separate characters), its name, font, font size (as displayed), "
     "stroke color, opacity, writing mode, direction of reading, baseline, and the box spanned by "
     "its advance width and the ascent and descent, under any transformations, spacings, "
     "scalings and rises, and any media box and rotation of the page.",
     ["inputs"], "All PDF files built from simple, Type 3, CID and vertical fonts with any text and "
     "transformation matrices, text parameters, clip paths, media boxes and page rotations.",
     "The tests parse a handful of upright documents and look at few of their characters.",
     ["src/PdfParsing.cpp", "src/utils/CharMap.h", "src/utils/PdfFontInfoParser.cpp"],
     [("event 'draw character'", "src/PdfParsing.cpp: drawChar"),
      ("event 'start page', 'update font'", "src/PdfParsing.cpp: startPage, updateFont"),
      ("known names of characters, ligatures", "src/utils/CharMap.h")],
     "property-based testing: generated PDF files against an independent model of the text state",
     TRUST + "Boxes of vertical text and of characters of embedded fonts are not judged (the "
     "latter by C20). Coordinates are compared with a tolerance of half a tenth.")

prop("C05", "Shapes, graphics and figures are recorded with the boxes of their visible parts",
     "Each painted path is recorded as a shape with the smallest box around its points inside of "
     "the current clip box, unless there is no such point; each image within the clip box is recorded "
     "as a graphic with the box of its area under the current transformation (also if rotated or "
     "flipped). Elements (also characters) shown within a clip box other than that of the page "
     "are members of a figure, one figure per clip box of a page, and only of it; its box is the "
     "smallest box around its members. Everything is recorded in the order of drawing.",
     ["inputs"], "All sequences of paths, images and characters under any nested transformations "
     "and clip paths, media boxes and page rotations.",
     "No test looks at shapes, graphics or figures.",
     ["src/PdfParsing.cpp"],
     [("events 'stroke' and 'fill'", "src/PdfParsing.cpp: stroke, fill"),
      ("events 'draw image'", "src/PdfParsing.cpp: drawGraphic"),
      ("clip box and figures", "src/PdfParsing.cpp: drawChar, stroke, drawGraphic")],
     "property-based testing: generated PDF files against an independent model of the graphics "
     "state",
     TRUST + "Points within 0.25 of the border of the clip box, images that are cut off at the "
     "left or right, and even-odd fills are not judged.")


prop("C06", "The XY-cut divides elements exactly at the admissible cuts",
     "Cutting a set of page elements yields groups that partition the set, in order from left to "
     "right (or top to bottom), and that are separated exactly at the chosen candidates. The "
     "candidates are exactly the gaps that are at least as wide as the given minimum and that are "
     "overlapped by no more elements than allowed, each positioned in the middle of its gap, "
     "spanning the extent of all elements, and reported together with the elements around and over "
     "it. The recursive cut alternates between both directions until no group can be divided "
     "further.",
     ["inputs", "configurations"],
     "All sets of boxes (any coordinates), all minimum gaps, all numbers of allowed overlapping "
     "elements, and all choices among the candidates.",
     "The tests cut no elements at all; page segmentation and reading order are only exercised end "
     "to end on a few documents.",
     ["src/utils/XYCut.cpp", "src/utils/XYCut.h", "src/utils/FixedCapacityPriorityQueue.h"],
     [("sweep over the sorted elements with a bounded queue of the rightmost edges",
       "src/utils/XYCut.cpp: xCut"),
      ("sweep with the lowest edge seen so far", "src/utils/XYCut.cpp: yCut"),
      ("alternating recursion", "src/utils/XYCut.cpp: xyCut")],
     "property-based testing against an interval reference model",
     TRUST + "Positions are compared on a grid of tenths; elements with equal sort keys may be in "
     "any order.")

prop("C07", "Characters are grouped into words exactly at the gaps",
     "The characters of a page are divided, in their given order, into consecutive words; a new "
     "word starts exactly where the rotation or writing mode changes, where the vertical overlap "
     "with the current word is too small, or where the horizontal gap exceeds the configured "
     "fraction of the font size. Each character (merged diacritical marks aside) belongs to exactly "
     "one word; the word's text is the text of its characters, its box the smallest box around "
     "them, its font the most frequent one. The limits stacked above and below an operator (sums, "
     "products, integrals, lim, ...) are attached to it, each word to at most one operator and "
     "never to itself.",
     ["inputs"], "All sequences of characters at any coordinates (also negative ones), sizes, fonts, "
     "gaps and rotations.",
     "The tests look at the words of a few well-behaved documents.",
     ["src/WordsDetection.cpp", "src/utils/WordsDetectionUtils.cpp"],
     [("division into words", "src/WordsDetection.cpp: process, startsWord"),
      ("creation of words", "src/utils/WordsDetectionUtils.cpp: createWord"),
      ("stacked symbols", "src/WordsDetection.cpp: mergeStackedMathSymbols")],
     "property-based testing against a reference model",
     TRUST + "For rotated text, the places of the divisions are not judged.")

prop("C08", "Words are grouped into text lines, with the documented line hierarchy",
     "The words of each page segment are divided into text lines: each word (also the limits of "
     "operators) belongs to exactly one line, words on the same baseline to the same line, and "
     "consecutive lines are united as long as their vertical overlap is large enough, the limit "
     "depending on the horizontal gap between them. A line's words are in order from left to right, "
     "its text joins their texts with single spaces, its box is the smallest box around them, its "
     "font, size and baseline are the most frequent ones; lines are in order from top to bottom and "
     "know their neighbours and rank. The trim box of a segment ends at the right edge shared by at "
     "least half of its lines. Parents and siblings of lines are exactly those of the documented "
     "definition by indent and distance.",
     ["inputs"], "All segments of words at any coordinates (also negative ones), any gaps, overlaps "
     "and indents.",
     "The tests look at the hierarchy and trim boxes of a few lines of one document.",
     ["src/TextLinesDetection.cpp", "src/utils/TextLinesDetectionUtils.cpp"],
     [("clustering and merging of lines", "src/TextLinesDetection.cpp: process"),
      ("properties of a line", "src/TextLinesDetection.cpp: computeTextLineProperties"),
      ("parents and siblings", "src/utils/TextLinesDetectionUtils.cpp: computeTextLineHierarchy"),
      ("trim box", "src/utils/TextLinesDetectionUtils.cpp: computeTrimBox")],
     "property-based testing against a reference model",
     TRUST + "For rotated text, only that each word is in exactly one line of its rotation, and the "
     "order of lines and words, is judged.")

prop("C09", "Document statistics are the actual averages and most frequent values",
     "The average character width and height are the averages over all characters; the most "
     "frequent font, font size, word height, word distance (between consecutive words of the same "
     "line in the most frequent font size) and line distances (estimated from words, measured "
     "between the base boxes of consecutive lines of a segment, and per font size) are values "
     "that occur most often, up to the precision of the coordinates, regardless of the order of pages "
     "and of rounding errors.",
     ["inputs"], "All documents with any number of characters, words and lines, at any coordinates.",
     "No test compares any statistic.",
     ["src/GlyphsStatisticsCalculation.cpp", "src/WordsStatisticsCalculation.cpp",
      "src/TextLinesStatisticsCalculation.cpp"],
     [("character statistics", "src/GlyphsStatisticsCalculation.cpp: process"),
      ("word statistics", "src/WordsStatisticsCalculation.cpp: process"),
      ("line statistics", "src/TextLinesStatisticsCalculation.cpp: process")],
     "property-based testing against a direct computation with exact numbers", TRUST)

prop("C10", "Diacritical marks are merged with their base characters without losing text",
     "Each diacritical mark that stands close to a character is merged with the character it "
     "overlaps most, searched among its neighbours in reading order; the text of the character then "
     "is its own text combined with its marks, as composed characters where Unicode has them, and "
     "no character's text is lost or duplicated. Characters that are no marks are never merged, and "
     "marks without a close character are left alone.",
     ["inputs"], "All sequences of characters and marks, spacing or combining, at any coordinates, "
     "including several marks on one character and code points that cannot be composed.",
     "The tests look at a few documents with one mark per character.",
     ["src/DiacriticalMarksMerging.cpp"],
     [("merging", "src/DiacriticalMarksMerging.cpp: process")],
     "property-based testing against a reference model", TRUST)

prop("C11", "Pages are divided into segments exactly at the documented column boundaries",
     "The words, figures, shapes and graphics of each page are partitioned into segments, none of "
     "them empty, each with the smallest box around its elements. A gap between columns is used "
     "exactly if it passes all documented rules: text that crosses it is tolerated only on large "
     "pages and away from the top and the bottom, small gaps in low groups are ignored, the word "
     "before the gap is not torn from its successor on the same line, and neither of the resulting "
     "groups is slim. A gap between rows is used exactly if it borders a run of rows that can be "
     "divided into columns.",
     ["inputs", "configurations"], "All pages with any arrangement of elements, also at negative "
     "coordinates, and any word distance and size of characters.",
     "The tests create one segment from one list of elements.",
     ["src/PageSegmentation.cpp", "src/utils/PageSegmentationUtils.cpp", "src/utils/XYCut.cpp"],
     [("choice of x-cuts", "src/PageSegmentation.cpp: chooseXCuts"),
      ("choice of y-cuts", "src/PageSegmentation.cpp: chooseYCuts"),
      ("creation of segments", "src/utils/PageSegmentationUtils.cpp: createPageSegment")],
     "property-based testing against a reference implementation of the documented rules", TRUST)


prop("C12", "Text lines are divided into text blocks exactly by the layout rules",
     "The lines of each segment are divided, in order, into consecutive blocks, each line belonging "
     "to exactly one block; the links between lines and between blocks, the text, box, trim box, "
     "most frequent font and emphasis of a block, and the margins of its lines follow from its "
     "lines. Lines in the same figure stay together; otherwise a change of rotation, writing mode "
     "or font size, a distance larger than usual, or a considerably increased distance starts a "
     "block. Within such a block, centered lines stay together (unless an item starts), each item "
     "and footnote starts a block and keeps its continuation lines, emphasized lines of the same "
     "font stay together, and otherwise the hanging indent of the block, or else indented lines and "
     "lines ending early, decide. Footnote labels are exactly the superscripted alphanumerics and "
     "special label characters that follow a word.",
     ["inputs"], "All sequences of lines with any text, fonts, indents, distances, item labels, "
     "hierarchy, and surrounding figures, on any number of pages.",
     "The tests of the blocks look at a few lines of three documents (and cannot be built here).",
     ["src/TextBlocksDetection.cpp", "src/utils/TextBlocksDetectionUtils.cpp", "src/Config.h"],
     [("preliminary and final blocks", "src/TextBlocksDetection.cpp: process, startsPreliminaryBlock, "
       "startsBlock"),
      ("alignment, items, footnotes, hanging indents, creation of blocks",
       "src/utils/TextBlocksDetectionUtils.cpp")],
     "property-based testing against a reference implementation of the documented rules", TRUST)


prop("C13", "Blocks are put into the natural reading order",
     "The blocks of each page are permuted (none gets lost) such that rotated text is separated "
     "first, then titles, author information, marginals and wide figures separate what is above "
     "from what is below, and the rest is read column by column, from left to right, each from top "
     "to bottom, where text over the whole width separates the columns above from those below. In "
     "particular, on a page with a title, columns of blocks, and a footer, the blocks are read "
     "in exactly this order, however they are ordered in the file.",
     ["inputs", "configurations"], "All pages with any arrangement of blocks, figures and shapes, any "
     "roles, and any initial order of the blocks.",
     "No test covers the reading order.",
     ["src/ReadingOrderDetection.cpp", "src/utils/XYCut.cpp"],
     [("primary cuts", "src/ReadingOrderDetection.cpp: choosePrimaryXCuts, choosePrimaryYCuts"),
      ("recursive cuts", "src/ReadingOrderDetection.cpp: chooseXCuts, chooseYCuts")],
     "property-based testing against a reference implementation, and metamorphic testing "
     "(generated layouts with a known order, shuffled)", TRUST)


prop("C14", "Hyphenated words are merged without losing text",
     "A word that is the last of its line, consists of more than a hyphen, and ends with a hyphen is "
     "merged with the first word of the next non-empty line in reading order (across lines, blocks "
     "and pages, but only between blocks of the same role): in the output, the text of all parts, "
     "without the hyphens at the ends of the lines, stands in place of the first part, also if a "
     "word is divided into more than two parts. All other words are output unchanged, and no text "
     "is lost or output twice.",
     ["inputs"], "All sequences of blocks, lines and words, including empty and one-word lines.",
     "No test checks the dehyphenation.",
     ["src/WordsDehyphenation.cpp", "src/serializers/PlainTextSerializer.cpp"],
     [("merging", "src/WordsDehyphenation.cpp: process")],
     "property-based testing against a model of the output", TRUST)


prop("C15", "Text output is the text of the requested blocks, and nothing else",
     "The plain output consists of the texts of all blocks with a requested role, in order, with "
     "blank lines between them: of each block the words in order, separated by single spaces, each "
     "given by its characters with the marks merged into them, where a hyphenated word is written "
     "once, as a whole. The extended output adds the role in front of each block, a control "
     "character in front of each emphasized block, and a form feed after each page. It is written "
     "to the standard output, or to a file of any name, created with its directories and replacing "
     "any existing file; writing has no other effect, and fails with an error.",
     ["inputs", "configurations"],
     "All documents, with any texts, roles, hyphenated words and marks; all non-empty sets of roles; "
     "all names of files and directories.",
     "No test writes a document.",
     ["src/serializers/Serializer.cpp", "src/serializers/PlainTextSerializer.cpp",
      "src/serializers/PlainTextExtendedSerializer.cpp", "src/PdfDocumentSerialization.cpp"],
     [("plain text", "src/serializers/PlainTextSerializer.cpp: serializeToStream"),
      ("extended text", "src/serializers/PlainTextExtendedSerializer.cpp: serializeToStream"),
      ("output file", "src/serializers/Serializer.cpp: serialize")],
     "property-based testing against a reference serializer", TRUST)

prop("C16", "JSONL output is valid JSON and lists the requested elements completely",
     "Each line is a valid JSON object; for each page, figure, shape, and each block, word and "
     "character (except merged marks) of a block with a requested role, there is exactly one line "
     "if its type is requested, in order, with its id, rank, page, box, font, size, text (whatever "
     "characters it contains), and the ids of the word and block it belongs to; and for nothing "
     "else.",
     ["inputs", "configurations"],
     "All documents with any texts and font names, all sets of roles and types.",
     "No test writes a document.",
     ["src/serializers/JsonlSerializer.cpp", "src/utils/TextUtils.cpp"],
     [("one function per type of elements", "src/serializers/JsonlSerializer.cpp"),
      ("escaping", "src/utils/TextUtils.cpp: escapeJson")],
     "property-based testing with an independent strict JSON parser", TRUST +
     "The serializer is not yet offered by the command-line program; its class is tested. Lines "
     "of text are not serialized by it, and not judged.")


prop("C18", "The command-line program does what its options say, and reports failures",
     "For all options and in any order, the program writes exactly the text that follows from the "
     "configuration they describe (format, roles, skipped modules), to the given file or the "
     "standard output; debug output, verbosity, page filters and running times do not change it; a "
     "visualization is written exactly if a path is given. The exit code is 0 exactly if everything "
     "was written; otherwise it is positive, an error is printed to the standard error, and no "
     "output file is touched before the text was extracted. Help and version are printed without "
     "processing anything. The PDF file is never changed.",
     ["inputs", "configurations", "faults"], "All combinations and orders of the options, all PDF files, "
     "and all kinds of failures (invalid options, unreadable PDF files, unwritable outputs).",
     "No test runs the program.",
     ["src/pdftotext++.cpp", "src/serializers/Serializer.cpp", "src/utils/PdfElementsUtils.cpp"],
     [("options and exit codes", "src/pdftotext++.cpp: main"),
      ("writing", "src/serializers/Serializer.cpp: serialize"),
      ("names of roles, types, formats", "src/utils/PdfElementsUtils.cpp")],
     "property-based testing of the program (built with sanitizers): differential against the "
     "library under the configuration meant by the options, and fault injection", TRUST +
     "The options --no-scripts, --control-characters and --semantic-roles have no effect (known "
     "findings). The neural network is replaced by a deterministic function in both.")

prop("C19", "Any input is processed or rejected: no crash, no endless loop, no invalid output",
     "Whatever the bytes of the file and the operators of its content streams (extreme numbers, "
     "unbalanced or missing operators, broken objects, truncated files, broken fonts), and whatever "
     "modules are disabled, the program neither crashes nor accesses memory out of bounds nor runs "
     "forever: it rejects the file with a positive error code and without pages, or processes it, "
     "and then all output formats are well-formed (valid UTF-8, valid JSON) and the visualization "
     "can be written.",
     ["inputs", "configurations", "faults"], "All files, valid or not, and all subsets of disabled modules.",
     "No test processes an unusual file.",
     ["src/PdfToTextPlusPlus.cpp", "src/PdfParsing.cpp", "src/PdfDocumentVisualization.cpp"],
     [("pipeline", "src/PdfToTextPlusPlus.cpp: process"),
      ("parsing of operators", "src/PdfParsing.cpp"),
      ("visualization", "src/PdfDocumentVisualization.cpp")],
     "structure-aware fuzzing of whole documents under ASan and UBSan, with invariants of the output",
     TRUST + "The PDF library (Poppler) is not instrumented.")

prop("C20", "Embedded Type 1 fonts give the boxes of their glyphs; malformed ones do no harm",
     "For each glyph of an embedded Type 1 font (binary, PFB or hexadecimal), the recorded box is "
     "the smallest one around all points of its charstring, including the origin and the control "
     "points; the font matrix, weight and italic style are those of the font file. A character "
     "whose glyph reaches above the ascent or below the descent has the box of the glyph, and its "
     "lower end as baseline. A malformed font file, whatever its bytes, neither aborts nor delays "
     "the extraction, nor leads to any access out of bounds, and the text is extracted as without "
     "the font file.",
     ["inputs", "faults"], "All fonts of glyphs drawn with any operators of the Type 1 format, and all "
     "changes of the bytes of a font file, encrypted or not.",
     "No test reads an embedded font with known glyphs, let alone a malformed one.",
     ["src/utils/PdfFontInfoParser.cpp", "src/PdfParsing.cpp"],
     [("font file: clear text, decryption, charstrings", "src/utils/PdfFontInfoParser.cpp"),
      ("boxes of characters", "src/PdfParsing.cpp: drawChar")],
     "property-based testing: generated fonts against an independent model of the outlines; "
     "structure-aware fuzzing of font files under ASan and UBSan",
     TRUST + "Accented glyphs composed by 'seac', and fonts without subroutines or with other names "
     "for RD, are not judged.")


prop("C21", "The result depends on the content of the PDF only",
     "Processing a PDF file again, from another path or after other files in the same process, gives "
     "the same elements with the same properties (except their random ids), and does not change the file. So does "
     "another encoding of the same document: the content divided into several streams, within form XObjects, "
     "compressed; shared, inherited or renamed resources; another page tree, object order, white space, or "
     "notation of numbers and strings.",
     ["inputs", "histories", "configurations"],
     "All PDF files, all histories of processed files, all encodings of the same content.",
     "The tests process each file once, in one encoding.",
     ["src/PdfToTextPlusPlus.cpp", "src/PdfParsing.cpp", "src/utils/PdfFontInfoParser.cpp",
      "src/SemanticRolesPrediction.cpp"],
     [("state per document", "src/PdfToTextPlusPlus.cpp: process; src/PdfParsing.cpp: startPage, updateFont"),
      ("unordered containers, random ids", "src/TextLinesDetection.cpp: process; src/utils/TextUtils.cpp")],
     "property-based testing: metamorphic relations between runs on generated PDF files (repetition, other encodings)",
     TRUST + "Semantic roles come from a deterministic stand-in of the neural network.")


prop("C22", "Text helpers are total and lose nothing",
     "Splitting a text yields exactly its maximal delimiter-free pieces; escaping a string for JSON "
     "yields a valid JSON string body that decodes to the original; stripping, shortening, joining "
     "and wrapping give, for every input including empty and whitespace-only ones, exactly the text "
     "without outer whitespace, the prefix that fits plus an ellipsis, the pieces with separators "
     "between all of them, and the same text with line breaks and indents inserted only at spaces. "
     "Random identifiers have the requested length and prefix, consist of letters of the alphabet "
     "only, and use all of them; the predicates for sentence ends, uppercase starts and letters "
     "agree with their definition.",
     ["inputs"], "All strings (byte and wide), delimiters, widths, indents, lengths and alphabets.",
     "The tests check a handful of ASCII strings per helper; none is empty, whitespace only or "
     "contains control or non-ASCII bytes where it matters.",
     ["src/utils/TextUtils.cpp", "src/utils/TextUtils.h"],
     [("tokenizers", "src/utils/TextUtils.cpp: splitIntoWords, splitIntoWordsW"),
      ("JSON escaping", "src/utils/TextUtils.cpp: escapeJson"),
      ("strip, shorten, join, wrap", "src/utils/TextUtils.cpp"),
      ("random identifiers", "src/utils/TextUtils.cpp: createRandomString")],
     "property-based testing: round trips and reference implementations", TRUST)

prop("C23", "Geometry: tolerant comparison, gaps, overlaps, rotation and orders",
     "Comparing numbers with a tolerance is exact about the boundary, and equal, smaller and larger "
     "are mutually exclusive and exhaustive; rounding to n digits gives the nearest such decimal. "
     "The edges of a box in reading direction are its edges mapped by its rotation; for upright "
     "boxes, gaps, overlap ratios (of the first and of the second box, and the larger of the two), "
     "and equalities of edges agree with interval arithmetic for all coordinates, also negative "
     "ones. Sorting elements by any of the provided orders gives a permutation ordered by the "
     "respective edge.",
     ["inputs"], "All pairs and lists of boxes with any coordinates and rotations, all tolerances.",
     "The tests use a few pairs of boxes with positive coordinates on one page.",
     ["src/utils/MathUtils.cpp", "src/utils/PdfElementsUtils.cpp", "src/utils/Comparators.h",
      "src/Types.cpp"],
     [("tolerant comparison and rounding", "src/utils/MathUtils.cpp"),
      ("gaps, overlaps, equality of edges", "src/utils/PdfElementsUtils.cpp"),
      ("orders", "src/utils/Comparators.h"),
      ("edges in reading direction", "src/Types.cpp: PdfPosition::getRot*")],
     "property-based testing against exact integer arithmetic", TRUST)

prop("C24", "Counters and bounded queues agree with simple models",
     "After any history of operations, a counter reports for each key the number of occurrences, "
     "and the most frequent key it names (one of them, if there are several), its count, the "
     "largest key and the sums agree with a plain map; keys may be negative. A queue of a fixed capacity never holds more elements than "
     "its capacity, drops its top element to make room for a new one, and lists its elements "
     "completely in any requested order.",
     ["histories", "inputs"], "All histories of operations over all keys and capacities.",
     "The tests run one short history per operation with positive keys.",
     ["src/utils/Counter.cpp", "src/utils/FixedCapacityPriorityQueue.h"],
     [("counters", "src/utils/Counter.cpp"),
      ("bounded priority queue", "src/utils/FixedCapacityPriorityQueue.h")],
     "stateful model-based testing", TRUST)

prop("C26", "Exactly the requested log messages are written",
     "A message is written if and only if its severity is at least the configured level and, when "
     "a page filter is set, the message belongs to that page or to no page; each written message "
     "carries its severity and its text unchanged, and loggers do not influence each other.",
     ["histories", "configurations"],
     "All histories of messages and reconfigurations, levels, pages and page filters.",
     "No test looks at the output of a logger.",
     ["src/utils/Log.cpp", "src/utils/Log.h"],
     [("level and page filter", "src/utils/Log.cpp: Logger")],
     "stateful model-based testing", TRUST)

prop("C27", "Byte-pair encoding and role prediction follow the model files",
     "Encoding a text merges, word by word, always the first adjacent pair of tokens that is in "
     "the vocabulary (wherever it occurs in the word) until there is none, and gives the token "
     "indices truncated or padded to the requested length; the result for a text does not depend "
     "on the texts encoded before. The model is given, for each block in order, this encoding and "
     "15 features (relative page number, box and font size; bold, italic, contains an '@', starts "
     "with a digit; shares of digits, non-ASCII, punctuation and uppercase characters and words), "
     "and each block gets the role to which the model assigns the highest probability. No role is "
     "assigned if the prediction is disabled.",
     ["inputs", "histories"],
     "All vocabularies, all texts and all histories of texts encoded by the same encoder; all "
     "documents and outputs of the model.",
     "The tests encode a few words with one vocabulary; none predicts roles.",
     ["src/utils/BytePairEncoder.cpp", "src/SemanticRolesPrediction.cpp"],
     [("greedy merging with a cache", "src/utils/BytePairEncoder.cpp"),
      ("features", "src/SemanticRolesPrediction.cpp: createLayoutInputTensor"),
      ("best role", "src/SemanticRolesPrediction.cpp: predict")],
     "stateful model-based testing against a reference encoder; the model is replaced by a function "
     "that records its inputs and chooses the probabilities",
     TRUST + "The neural network itself (TensorFlow) is not available and not tested.")

prop("C28", "A visualization is the document plus exactly the annotations asked for",
     "The saved visualization has, on each page, besides its former annotations, exactly the ones "
     "that follow from the extracted elements: for each element of the requested kinds (characters, "
     "figures, shapes, graphics, words, lines, blocks, segments) a square with its box in the "
     "requested color, wherever the media box is and however the page is rotated; for each block "
     "its role; for the reading order the numbered centers of the blocks and the lines between "
     "them; for the cuts their lines, numbers and ids. The content of the pages, and the original "
     "file, stay unchanged.",
     ["inputs", "histories"], "All documents, and all sequences of calls with any colors.",
     "No test creates a visualization.",
     ["src/PdfDocumentVisualization.cpp"],
     [("one method per kind", "src/PdfDocumentVisualization.cpp"),
      ("transformation to user space", "src/PdfDocumentVisualization.cpp: computeUserSpacePoint")],
     "property-based testing against a model of the annotations, read back by Poppler", TRUST +
     "The positions of the texts (roles, numbers), and the appearance of the annotations, are not "
     "judged. Boxes with a side shorter than 1 may be drawn up to 1 longer.")


prop("C29", "Sub- and superscripts are exactly the small characters off the baseline",
     "A character is flagged as superscript (subscript) exactly if it is smaller than the most "
     "frequent font size and sits above (below) the baseline of its line, each by more than the "
     "configured tolerance; the base box of a line is the smallest box around all of its other "
     "characters.",
     ["inputs"], "All lines of characters with any sizes, baselines and coordinates.",
     "No test looks at the flags or the base boxes.",
     ["src/SubSuperScriptsDetection.cpp"],
     [("flags and base box", "src/SubSuperScriptsDetection.cpp: process")],
     "property-based testing against the definition", TRUST)


