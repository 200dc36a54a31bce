"""Writes properties.jsonl (kept as a script so that the wording stays in one readable place)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


MAIN = "src/pdftotext++.cpp"
SER = "src/serializers/Serializer.cpp"
ENG = "src/PdfToTextPlusPlus.cpp"
PARSE = "src/PdfParsing.cpp"
FONT = "src/utils/PdfFontInfoParser.cpp"
VIS = "src/PdfDocumentVisualization.cpp"
ROLE = "src/SemanticRolesPrediction.cpp"
RO = "src/ReadingOrderDetection.cpp"

p("C01", "Exit status zero means the complete text was delivered",
  "When a run ends with exit status zero, the complete extracted text, every byte of it, has been "
  "delivered to the place that was asked for (a file or standard output). If any part of it could "
  "not be delivered, the run ends with a non-zero exit status and says so on standard error.",
  ["fault_sequences", "inputs", "configurations"],
  "Every document, output format and destination, and every failure of the destination: directories "
  "that cannot be made, files that cannot be opened, disks that fill up after any byte, writes or the "
  "final close that fail, standard output closed or full.",
  "The tests only ever write to a healthy disk and never look at the exit status of a failed write; "
  "the failing byte, call and error code range over every output.",
  [SER, "src/serializers/PlainTextSerializer.cpp", "src/serializers/PlainTextExtendedSerializer.cpp",
   MAIN],
  [("writing the text to a file or stdout", SER), ("turning failures into exit codes", MAIN)],
  ["exit status, standard error, bytes of the output file / standard output"])

p("C02", "A PDF that cannot be read is reported and nothing is overwritten",
  "If the given PDF does not exist, cannot be opened or read to its end, needs an unknown password or is not a "
  "PDF at all, the run ends within bounded time with a non-zero exit status and a message on standard "
  "error, and delivers no text. No file is created or changed, so that the result of an earlier run "
  "at the output path survives untouched.",
  ["fault_sequences", "inputs", "configurations"],
  "Every way the input can be unreadable (missing, a directory, forbidden, empty, not a PDF, locked, "
  "opening or reading fails from any byte on), every option set, and every state of the output "
  "path.",
  "The tests read well-formed files from a healthy disk; none gives the program an unreadable input or "
  "checks what happens to an existing output.",
  [ENG, MAIN, SER],
  [("loading the PDF and returning its error code", ENG), ("aborting before serialization", MAIN)],
  ["exit status, standard error, simulated disk after the run"])

p("C03", "Nothing but the requested outputs is ever touched",
  "A run writes only the output file and the visualization file it was asked for, and creates only "
  "the missing directories that lead to them, for every path the operating system accepts: paths are "
  "taken literally, whatever characters they contain, and are never interpreted as commands or as "
  "several paths. The input PDF and every other file stay as they are, also when another process "
  "creates the same directories at the same time.",
  ["inputs", "configurations", "fault_sequences", "schedules"],
  "Every output and visualization path (absolute, relative, deep, with spaces, quotes, shell "
  "characters, non-ASCII), every state of the directories, and every race with another process that "
  "creates them first.",
  "The tests use one or two plain paths in existing directories.",
  [SER, VIS, MAIN],
  [("creating parent directories and opening the output", SER), ("saving the visualization", VIS)],
  ["simulated disk before and after, commands handed to a shell"])

p("C04", "A killed run can simply be repeated",
  "If a run is killed at any moment, running the same command again gives exactly the result, exit "
  "status and files that an uninterrupted run would have given. The interrupted run leaves nothing "
  "behind but the requested outputs (possibly incomplete) and their directories, and the PDF is "
  "intact.",
  ["crash_points", "inputs", "configurations"],
  "Every point of a run at which the process can die, including inside a write, for every document, "
  "format and output destination.",
  "No test kills the program; the crash point ranges over every I/O step of every run.",
  [SER, VIS, MAIN, ENG],
  [("output written in place", SER), ("visualization written in place", VIS)],
  ["simulated disk after the second run, exit status"])

p("C05", "Slow, interrupted and piecemeal I/O does not change the result",
  "As long as no operation finally fails, the way the operating system delivers the I/O - reads and "
  "writes that transfer fewer bytes than asked for, interrupted writes, stalls of any length - changes "
  "neither the extracted text nor the detected structure nor the exit status.",
  ["fault_sequences", "inputs", "schedules"],
  "Every pattern of short transfers, interruptions and delays on the PDF, the vocabularies, the model, "
  "the outputs and standard output, for every document.",
  "A local disk practically always transfers everything at once, so the tests never see a short read "
  "or write.",
  [PARSE, ROLE, SER, ENG],
  [("reading the PDF", ENG), ("reading the vocabularies line by line", ROLE), ("writing the output", SER)],
  ["output bytes, structure of the document, exit status"])

p("C06", "The same PDF gives the same text on every machine and every run",
  "The extracted text and the detected structure (characters, words, lines, blocks, roles, reading "
  "order, fonts and statistics) depend only on the PDF, the options and the model's answers. They do "
  "not depend on the time, the process id, random numbers, the working directory, the environment, "
  "where memory happens to be allocated, or what unused memory happened to contain.",
  ["schedules", "inputs", "configurations", "histories"],
  "Every document and every pair of environments: memory layout and reuse, residual memory contents, "
  "clock, process id, random source, directory, locale and time zone variables.",
  "A test runs once in one environment; dependence on addresses or stale memory shows only when two "
  "runs that differ in nothing else are compared.",
  [PARSE, FONT, "src/GlyphsStatisticsCalculation.cpp", "src/TextBlocksDetection.cpp", RO,
   "src/Types.h", "src/utils/Counter.h"],
  [("font table keyed by font name", PARSE), ("counters and maps over fonts and sizes", "src/utils/Counter.h"),
   ("document model members", "src/Types.h")],
  ["output bytes and dump of the document structure in two simulated environments"],
  state=[("font table", "one entry per font of the document", "src/Types.h")])

p("C07", "A document's result does not depend on what was processed before",
  "A process that extracts several documents one after the other - in any order, with different "
  "settings, some of them damaged or unreadable, their results kept or released - gets for each of "
  "them exactly the result that a fresh process gets. Processing further documents does not change "
  "results already obtained.",
  ["histories", "inputs", "configurations"],
  "Every sequence of documents, settings and releases in one process.",
  "Each test processes one document in a settled order; state that leaks from one document to another "
  "shows only in the comparison with a fresh process.",
  [ENG, ROLE, "src/utils/Log.cpp", PARSE, RO],
  [("engine entry point", ENG), ("loaded model and vocabularies", ROLE), ("library-wide globals", ENG)],
  ["dump and serialized text of every document, against a fresh process"],
  state=[("global parameters", "library-wide settings re-created per document", ENG)])

p("C08", "Damaged PDFs never crash, corrupt or hang the program",
  "Whatever bytes the PDF file contains, a run neither reads nor writes memory it does not own, nor "
  "dies of a signal or an unhandled error, nor runs without bound. It ends with an exit status: zero "
  "with a well-formed result, or non-zero with a message.",
  ["inputs", "fault_sequences", "configurations"],
  "Every damage to a PDF (flipped, missing, inserted or swapped bytes, lost tails, broken objects, "
  "streams, numbers and embedded font programs) and every read that returns wrong data or ends early.",
  "The tests parse a handful of intact PDFs; the parser of embedded fonts in particular has no test at "
  "all.",
  [FONT, PARSE, "src/GlyphsStatisticsCalculation.cpp", "src/WordsDetection.cpp",
   "src/utils/PageSegmentationUtils.cpp", "src/utils/MathUtils.cpp", VIS],
  [("embedded font program parser", FONT), ("content stream events", PARSE),
   ("statistics over possibly empty data", "src/utils/Counter.h")],
  ["exit status, signals, sanitizer reports, step and CPU bounds"])

p("C09", "Damage to one page or font does not cost the rest of the text",
  "If the content of some pages of a PDF is damaged or unreadable, every word of every other page is "
  "still extracted, once and unaltered. If an embedded font program is damaged, no word of the "
  "document is lost or altered, unless the damaged program describes other glyphs of a possible size.",
  ["inputs", "fault_sequences"],
  "Every document of several pages, every subset of pages with at least one page left intact, every "
  "kind of damage to the content of those pages, and every damage to embedded font programs.",
  "No test contains a damaged page or font.",
  [PARSE, FONT, ENG, "src/WordsDetection.cpp", "src/TextBlocksDetection.cpp"],
  [("page-wise parsing", PARSE), ("font program parsing decoupled from text", FONT)],
  ["words of the intact pages in the extracted text, against the known text of the document"])

p("C10", "Running out of memory stops the run instead of falsifying the result",
  "If memory cannot be allocated at any moment, the run either still delivers exactly the right text "
  "or stops with a failure status. It never reports success with missing or altered text, and never "
  "touches memory it does not own.",
  ["fault_sequences", "inputs"],
  "Every allocation of every run, failing once or from then on, and every limit on the total.",
  "No test makes an allocation fail.",
  [SER, PARSE, MAIN, "src/utils/TextUtils.cpp"],
  [("streams that swallow allocation failures", SER), ("text composed through string streams",
                                                      "src/utils/TextUtils.cpp")],
  ["exit status, output bytes, signals"])

p("C11", "A failing or misbehaving role model is reported, never guessed around",
  "If the semantic roles model or its vocabularies are missing or cannot be read, or if the model "
  "fails or answers in a form that does not fit the question, the run ends within bounded time with a "
  "non-zero exit status and a message on standard error, before any output is written. Malformed "
  "vocabulary entries lead to that or to a normal result; in no case does the run crash, hang or "
  "assign a role that does not exist.",
  ["fault_sequences", "inputs", "configurations"],
  "Every failure of the model files (missing, truncated at any byte, unreadable from any read on, "
  "malformed entries) and of the model itself (does not load, fails at any consultation, wrong number "
  "of rows or columns, answers that are not numbers), for every document.",
  "The tests do not run the model at all; an external party that misbehaves cannot be sampled by a "
  "fixed model directory.",
  [ROLE, RO, MAIN],
  [("reading vocabularies and loading the model", ROLE), ("interpreting the model's answer", ROLE)],
  ["exit status, standard error, roles of the blocks, simulated disk"],
  state=[("loaded flag", "whether model and vocabularies are usable", ROLE)])

p("C12", "Every block gets the role the model rated highest for it",
  "Each text block of the document is put to the model exactly once, and gets exactly the role that "
  "the model rated highest for that block; without the model every block counts as 'other', and all "
  "else is as if the model had said so. A role filter "
  "then outputs exactly the blocks that have one of the wanted roles, in unchanged order and with "
  "unchanged text.",
  ["inputs", "configurations", "histories"],
  "Every document with any number of pages and blocks per page, every assignment of roles the model "
  "can answer with, every role filter.",
  "The tests do not consult a model; the mapping of answers to blocks depends on how blocks are spread "
  "over pages.",
  [ROLE, RO, "src/serializers/PlainTextSerializer.cpp", MAIN],
  [("composing the question and mapping answers to blocks", ROLE), ("filtering by role",
                                                                     "src/serializers/PlainTextSerializer.cpp")],
  ["questions and answers recorded by the simulated model, roles of the blocks, filtered output"])

p("C13", "Reported running times are real elapsed times, whatever the clock does",
  "The running-time report names each step that ran exactly once, never reports a negative time, a "
  "time longer than the step took or percentages that are not numbers, and its total is the sum of "
  "its parts. A delay that occurs in one step shows up in that step and in no other, also when the "
  "system clock is set forwards or backwards meanwhile.",
  ["schedules", "fault_sequences", "configurations"],
  "Every placement of delays in the steps, every clock resolution and speed, every jump of the system "
  "clock at any reading of it, every set of skipped steps.",
  "A test cannot choose what the clock reads, and no test looks at the report.",
  [ENG, MAIN],
  [("timing of the pipeline steps", ENG), ("printing the report", MAIN)],
  ["the printed report against the simulated clock"])

p("C14", "Logging, timing and visualizing never change the extracted text",
  "The extracted text and the exit status are the same for every verbosity, every combination of "
  "debug switches, every log page filter, with and without the running-time report, and with and "
  "without a visualization of any kind.",
  ["configurations", "inputs"],
  "Every document and every combination of the observation options.",
  "The combinations are exponentially many, and the code that only runs when logging is on is not run "
  "by the tests.",
  [MAIN, "src/utils/Log.cpp", ENG, "src/utils/TextBlocksDetectionUtils.cpp", VIS],
  [("log guards in every module", "src/utils/Log.cpp"), ("option wiring", MAIN)],
  ["output bytes and exit status with and without observation options"])

p("C15", "The visualization is complete or the run says that it failed",
  "When a run with a visualization ends with exit status zero, the visualization file is complete: it "
  "is a loadable PDF with the pages and the text of the original and a mark for every element that was "
  "to be visualized. If it could not be produced - the "
  "disk fills up, the file cannot be written, the PDF has vanished, changed or become unreadable "
  "meanwhile - the run "
  "ends with a non-zero exit status and a message, does not crash, and the extracted text is delivered "
  "all the same.",
  ["fault_sequences", "inputs", "configurations"],
  "Every document, every set of visualization options and every failure while the visualization is "
  "produced or written.",
  "No test visualizes at all, let alone on a failing disk.",
  [VIS, MAIN],
  [("loading the PDF again and drawing", VIS), ("saving", VIS)],
  ["exit status, standard error, text of the visualization file"])

p("C16", "No text is lost, duplicated or invented on the way to the output",
  "In every finished run, every visible character of a page belongs to exactly one word, every word "
  "to exactly one text line and every line to exactly one text block of the same page, and links "
  "between them agree in both directions, and the box of a word, line or block encloses exactly its "
  "parts, wherever on or beside the page they are, and its text is the texts of its parts in order. A "
  "word is joined with the next one exactly if a hyphen ends its line, and then is both parts without "
  "that hyphen. The delivered text consists of exactly the blocks of the "
  "document in order, each hyphenated word once; every word of a plainly typeset document comes out "
  "exactly once.",
  ["inputs", "configurations", "fault_sequences", "histories"],
  "Every document (columns, formulas, accents, rotated text, tables, footnotes, several fonts, empty "
  "pages), every answer of the model, every set of skipped steps that leaves the structure in place, "
  "damaged input included.",
  "The tests check single steps on a few hand-made structures; conservation is a statement about every "
  "document that passes through all steps.",
  ["src/WordsDetection.cpp", "src/utils/PageSegmentationUtils.cpp", "src/PageSegmentation.cpp",
   "src/TextLinesDetection.cpp", "src/TextBlocksDetection.cpp", RO, "src/WordsDehyphenation.cpp",
   "src/DiacriticalMarksMerging.cpp", "src/serializers/PlainTextSerializer.cpp"],
  [("grouping of characters", "src/WordsDetection.cpp"), ("cutting pages", "src/PageSegmentation.cpp"),
   ("grouping of words and lines", "src/TextLinesDetection.cpp"), ("ordering of blocks", RO),
   ("writing the text", "src/serializers/PlainTextSerializer.cpp")],
  ["structure of the finished document, extracted text against the known text"])

p("C17", "Runs side by side behave as each of them alone",
  "Several runs at the same time - on the same or different PDFs, with outputs in the same, possibly "
  "not yet existing, directories - each end with the exit status, messages and output they would have "
  "had alone, however their steps interleave and even if one of them is killed.",
  ["schedules", "crash_points", "inputs"],
  "Every interleaving of the I/O steps of two to four runs with distinct output files, and every point "
  "at which one of them is killed.",
  "The tests run one process; how runs interleave on the disk cannot be controlled there.",
  [SER, VIS, MAIN],
  [("creating directories and writing outputs", SER)],
  ["outputs and exit statuses of all runs against each run alone"])

p("C18", "Every accepted combination of options runs to a normal end",
  "For every combination of the options the program accepts and every well-formed document, including "
  "documents without any text, the run ends with exit status zero and a complete result; leaving out "
  "steps may coarsen the result but never crashes, hangs or invents text. Steps that are left out "
  "have no effect.",
  ["configurations", "inputs"],
  "Every subset of skipped steps and output options, every document including empty ones.",
  "There are more than 2^13 combinations; the tests run the full pipeline or single steps.",
  [MAIN, ENG, RO, "src/utils/Counter.h", "src/WordsStatisticsCalculation.cpp",
   "src/TextLinesStatisticsCalculation.cpp"],
  [("disabling steps", ENG), ("statistics of nothing", "src/utils/Counter.h")],
  ["exit status, signals, sanitizer reports, output"])

# -- pure functions of the document: listed, not claimed -------------------------------------------

p("N01", "Text comes out in the order a reader would read it",
  "The blocks of a page are output in natural reading order: column by column, titles before bodies, "
  "with footers, footnotes and captions not tearing paragraphs apart.",
  ["inputs"], "Every page layout.",
  "The tests cover a few layouts; the space of layouts is unbounded.",
  [RO, "src/utils/PageSegmentationUtils.cpp"], [("recursive XY-cut", RO)])
p("N02", "Hyphenated words are merged exactly when they should be",
  "A word split over two lines is output as one word, without its hyphen unless the hyphen belongs to "
  "the word; words that merely end a line with a dash are not merged.",
  ["inputs"], "Every pair of consecutive lines in every document.",
  "Depends on the statistics of all words of a document; the tests sample a few words.",
  ["src/WordsDehyphenation.cpp"], [("compound statistics", "src/WordsDehyphenation.cpp")])
p("N03", "Characters are decoded to the right Unicode text",
  "Ligatures, accented characters and symbols come out as the Unicode characters a reader sees, "
  "accents composed with the letter they belong to.",
  ["inputs"], "Every font encoding and every placement of combining marks.",
  "The tests cover some glyph names only.",
  [PARSE, "src/DiacriticalMarksMerging.cpp", "src/utils/CharMap.h"],
  [("glyph name map", "src/utils/CharMap.h"), ("merging of marks", "src/DiacriticalMarksMerging.cpp")])
p("N04", "Word boundaries are found for every font size and spacing",
  "Characters that a reader sees as one word form one word, and words that a reader sees as separate "
  "are separate, independent of font size, page size, position and rotation.",
  ["inputs"], "Every spacing, size, rotation and script.",
  "The thresholds are statistics over the document; the tests sample few documents.",
  ["src/WordsDetection.cpp", "src/utils/MathUtils.cpp"], [("distance thresholds", "src/WordsDetection.cpp")])
p("N05", "Predicted semantic roles are right",
  "Titles, authors, headings, paragraphs, captions and so on are recognised as what they are.",
  ["inputs"], "Every document.",
  "A question of the quality of a trained model, measured on a benchmark.",
  [ROLE], [("feature encoding", ROLE)])
p("N06", "Invalid command lines are rejected with a helpful message",
  "Unknown options, unknown option values and missing arguments end the run with a non-zero status "
  "and a message; valid ones mean what the help says.",
  ["inputs"], "Every command line.",
  "The tests do not run the command line parser.",
  [MAIN, "src/utils/TextUtils.cpp"], [("option definitions", MAIN)])
p("N07", "JSON output is valid JSON for every text",
  "Every line of the structured output is valid JSON whose strings equal the text of the elements.",
  ["inputs"], "Every text, including quotes, backslashes and control characters.",
  "No test serializes to JSON.",
  ["src/serializers/JsonlSerializer.cpp"], [("JSON composition", "src/serializers/JsonlSerializer.cpp")])
p("N08", "Released packages install and run",
  "The packages and images built by the release scripts install on the supported systems and run.",
  ["configurations"], "Every supported distribution and architecture.",
  "Needs package builds, a network and containers.",
  ["Makefile"], [("packaging targets", "Makefile")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
