import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","What is saved is exactly the document, and a failed save never lies",
"Loading a spec file with Unix line endings (no carriage returns) and saving it unmodified reproduces it byte for byte (undecodable bytes, unusual control characters, an empty file and a missing final newline included), and after every successful save (explicit, autosave when a block ends, or leaving the spec's own with-block) the file's bytes are exactly the document's text. A save or reload hit by an I/O error raises instead of reporting success and leaves the in-memory document as it was, so that repeating it once the error is gone completes it; at every instant during a save the file holds its previous text or a prefix of the new text. With autosave off, nothing but an explicit save or leaving the spec's with-block ever writes the spec file.",
["inputs","histories","fault_sequences","crash_points"],
"every spec text, every sequence of load/edit/save/reload/autosave operations with external rewrites in between, every I/O error, short write or kill at any file operation of a save or reload",
"The tests save a handful of well-formed files on a healthy disk and never look at the file between two system calls of a save, nor after a failing one.",
["specfile/specfile.py","specfile/sections.py"],
[("reading, saving and reloading the text","specfile/specfile.py: Specfile._read_lines, save, reload, __str__, __exit__"),("autosave on leaving a view","specfile/specfile.py: Specfile.lines"),("joining sections back into lines","specfile/sections.py: Section.get_raw_data")],
["bytes of the spec file after every system call","str(spec)","exceptions of save/reload"],
[("lines and trailing newline flag","in-memory document","specfile/specfile.py")])

p("C02","Parsing leaves the source directory exactly as it was",
"Whatever operation makes the library parse a spec, and however that operation ends (success, parse error, I/O error at any file operation, interruption before or during the parse), the directory of sources afterwards has the entries it had before, with the same contents: the temporary stand-ins for missing sources are gone, and no file, directory or symbolic link that was there, or that another process created before the library placed its stand-in under that name, has been modified, replaced or removed. Only a stand-in whose own removal failed may stay behind, and then only that one.",
["inputs","schedules","fault_sequences","configurations"],
"every set of sources, patches and included files, every subset of them present (as files, symlinks, dangling symlinks or directories), every I/O error at every file operation of a parse, every moment at which another process creates or removes a file in the directory",
"One unit test checks the stand-in helper on a healthy disk and with every write failing; no test fails one operation among several, interrupts a parse or lets another process act during it.",
["specfile/spec_parser.py","specfile/utils.py"],
[("creating and removing stand-ins","specfile/spec_parser.py: SpecParser._make_dummy_sources"),("two-phase parse and forced parse","specfile/spec_parser.py: SpecParser._do_parse"),("file name of a source","specfile/utils.py: get_filename_from_location")],
["directory listing and contents after every public call","every open/unlink/rename under the source directory"])

p("C03","A spec is evaluated in its own context, never in another spec's",
"Macro expansions, expanded tag values and locations, parsed content and validity flags (whether something lies outside all false condition branches) reported for a spec equal what RPM itself computes, in a fresh process, from that spec's current text, extra macros and source directory alone. This holds for every interleaving of operations on any number of specs in one process, including specs being edited, reconfigured, reloaded, copied, discarded and garbage-collected, or failing or being interrupted in the middle of a parse. (Macros are taken at their value at the end of the text; specs whose lines have lasting side effects on macros when expanded again are out of scope.)",
["schedules","histories","inputs","fault_sequences"],
"every interleaving of reads, edits, macro/sourcedir changes, copies, deletions, collections and failed or interrupted parses over several specs that define conflicting macros",
"RPM's macro context and the parse cache are process-wide; the tests drive one spec at a time in a fixed order, so stale or foreign context cannot show, and never against RPM in a clean process.",
["specfile/spec_parser.py","specfile/macros.py","specfile/specfile.py","specfile/conditions.py","specfile/tags.py","specfile/sources.py"],
[("global parse cache","specfile/spec_parser.py: SpecParser.parse, _last_parse_hash, __deepcopy__"),("macro context reset","specfile/macros.py: Macros.reinit, define, remove"),("condition processing","specfile/conditions.py: process_conditions, resolve_expression")],
["Specfile.expand, expanded_* properties, Tag.expanded_value, Source.expanded_location, valid flags, rpm_spec, parsed_sections, get_active_macros"],
[("_last_parse_hash","hash of the inputs of the last parse in the process","specfile/spec_parser.py"),("RPM global macro context and Lua tables","process-wide state inside librpm","librpm")])

p("C04","A failed operation is all-or-nothing and never poisons the instance",
"When a public operation on a spec fails because of an unparseable document or of an I/O error, a failing allocation or an interruption in any file operation or RPM call it makes, the in-memory document is afterwards either exactly what it was or exactly what the complete operation would have made it (operations that rewrite a tag through the macros it references, and edits of several changelog sections at once, may stop half-way but converge when repeated). Once the cause is gone, that operation and every other one succeed again on the same instance, at the first attempt, with the result they would have had without the failure; other instances never notice.",
["fault_sequences","histories","schedules"],
"every public operation, every I/O error / MemoryError / KeyboardInterrupt at every system or librpm call it makes, every continuation",
"No test makes a system call fail inside a parse and then goes on using the same object.",
["specfile/spec_parser.py","specfile/specfile.py","specfile/context_management.py","specfile/macros.py"],
[("parse state after an exception","specfile/spec_parser.py: SpecParser.parse"),("unwinding of views","specfile/context_management.py: ContextManager.__call__, GeneratorContextManager"),("write-back in finally blocks","specfile/specfile.py: lines, sections, tags, ...")],
["str(spec), file bytes and return values after the failure and after the retry, against a fault-free twin run"])

p("C05","Process-wide state is left as it was found",
"After every public operation, successful or not, the standard error descriptor refers to the same open file as before and what the application writes there arrives, the environment variables, working directory and umask are unchanged, and no descriptor, temporary file or child process is left over. RPM's own diagnostics never reach the application's standard error; when a parse or an expansion fails they are carried by the exception raised.",
["fault_sequences","histories","configurations"],
"every public operation and every way it can fail, every initial environment (locale variables set, unset or odd), every I/O error or exhausted descriptor table at any call",
"Tests run under pytest's own capture and do not compare descriptors, environment or temporary files around operations, least of all failing ones.",
["specfile/context_management.py","specfile/spec_parser.py","specfile/macros.py"],
[("capturing stderr","specfile/context_management.py: capture_stderr"),("sanitising LANG/LC_ALL","specfile/spec_parser.py: SpecParser._sanitize_environment"),("temporary spec copy","specfile/spec_parser.py: SpecParser._do_parse")],
["fstat(2), /proc/self/fd, os.environ, cwd, umask, temporary directory and captured stderr bytes around every call"])

p("C06","Nested views of one spec stay coherent and are written back once",
"While a view of a spec (lines, macro definitions, sections, tags, changelog, prep, sources, patches) is open, opening the same view again yields the same object. A view opened inside a coarser one (lines, then sections, then tags, changelog or prep, with sources and patches on top of the tags; or lines, then macro definitions) sees the changes made so far through that one, which in turn sees the inner view's changes as soon as it is closed; when the outermost block ends, whether normally, by an exception raised in it, or because an unentered view is discarded and garbage-collected, all changes made through any of them are in the document exactly once. Afterwards no trace of the block remains: the next access reflects the document as it is then, for this and every other spec, whose views never mix. Taking the content of a view that is not open, without a with-block, gives a snapshot whose changes are not applied (plain lines excepted). (Blocks are closed in the reverse order of opening, and the same lines are not edited through a coarser view while a finer one holding them is open.)",
["schedules","histories","fault_sequences"],
"every properly nested sequence of opening, editing, closing, abandoning and collecting views of several specs, with exceptions raised at any step and caught at any level",
"Tests nest at most two views in one order, without exceptions, discarded views or other specs alive.",
["specfile/context_management.py","specfile/specfile.py"],
[("sharing of suspended generators","specfile/context_management.py: ContextManager, GeneratorContextManager"),("write-back chain","specfile/specfile.py: lines, sections, tags, changelog, prep, sources, patches, macro_definitions")],
["identity of yielded objects, str(spec) after each close, file bytes with autosave"],
[("generators/values","suspended views keyed by their arguments","specfile/context_management.py")])

p("C07","An edit changes what it names and nothing else",
"Opening any view of a spec and closing it without changes leaves the text as it was, and after any edit through the API (setting, adding or deleting tags, macro definitions, comments, sections, changelog entries, prep macros and their options, sources and patches) every line that does not belong to the edited item is still there, verbatim and in order (blank lines around a deleted item may be merged), while reading the item back through a fresh view gives the new state. This holds for every sequence of edits interleaved with saves, reloads, failing operations and work on other specs.",
["inputs","histories","fault_sequences"],
"every spec text mixing conditions, multi-line macros, comments, odd spacing, conditional expansions and subpackages, and every sequence of edits addressed by name, index (also negative) or slice",
"The diff of an edit depends on everything around the edited item and on the edits before it; tests check single edits on a few tidy files.",
["specfile/tags.py","specfile/macro_definitions.py","specfile/sections.py","specfile/changelog.py","specfile/prep.py","specfile/options.py","specfile/sources.py","specfile/sourcelist.py","specfile/specfile.py"],
[("line-preserving parsers and serializers","parse/get_raw_section_data/get_raw_data of Tags, MacroDefinitions, Sections, Changelog, Prep, Sourcelist"),("deletion keeps neighbouring lines","__delitem__/__delattr__ of the same classes"),("option tokens","specfile/options.py")],
["str(spec) before and after each operation, line by line","fresh views after each operation"])

p("C08","Source and patch lists behave like lists and match RPM's numbering",
"Through any sequence of appending, inserting, inserting by number, relocating and removing, the sources (and patches) of a spec follow list semantics: the locations are those a plain list would hold, adding a location already present is refused without any change unless duplicates are allowed, removing a location removes every item holding it, and tags and list sections are both honoured. The numbers of those RPM sees (outside false condition branches) are unique and, together with the file names, are exactly those RPM assigns when it parses the resulting text, and a patch added without a number gets one higher than all existing ones.",
["histories","inputs","fault_sequences","schedules"],
"every mix of numbered, unnumbered and listed sources and patches, every sequence of operations, with failures in between and other specs active",
"Numbering depends on all earlier insertions and removals; tests apply one or two operations to fixed lists and rarely ask RPM.",
["specfile/sources.py","specfile/sourcelist.py","specfile/specfile.py","specfile/tags.py"],
[("numbering and renumbering","specfile/sources.py: Sources._get_tags, _get_items, _deduplicate_tag_names, _get_tag_format"),("insertion","specfile/sources.py: insert, insert_numbered; specfile/tags.py: Tags.insert"),("adding patches","specfile/specfile.py: add_patch")],
["Sources/Patches contents after each operation, RPM's source list for the text"])

p("C09","A new changelog entry carries one consistent, correctly formatted time",
"An entry added without an explicit time is stamped from the clock exactly once: weekday, day, month and year belong to the same instant, a date-only stamp is the UTC date, and the format follows the newest existing entry (date with time and zone if that one has it, in local time, otherwise date only), with the day padded the way the existing entries pad it. Whatever the clock, time zone, or a clock jump during the call, the new entry goes on top of every changelog section that is not automatic, carries the given author and e-mail once and the version and release expanded without the distribution suffix, and every earlier entry stays as it was.",
["schedules","histories","configurations"],
"every clock value, time zone and clock jump between two readings, every history of changelog entries in either format and padding, one or several changelog sections",
"Tests pass fixed timestamps; nothing runs on other days of the month, around midnight, in other zones, or twice in a row.",
["specfile/specfile.py","specfile/changelog.py"],
[("choosing the timestamp","specfile/specfile.py: add_changelog_entry"),("recognising and assembling headers","specfile/changelog.py: ChangelogEntry.extended_timestamp, day_of_month_padding, assemble")],
["text of the changelog sections after each addition, under a simulated clock"])

p("C10","Author detection keeps its precedence however the environment fails",
"The author used for a changelog entry when none is given is the first that can be determined of: the RPM_PACKAGER environment variable, the packager macro, git's configured name and e-mail, and the account's full name or user name; a name and an e-mail from git combine, and a missing git name is replaced by the account's. Any of these lookups being absent, empty, failing or erroring (no git, git failing or vanishing, no such account) only makes detection go on; if nothing is found the result is empty, and adding an entry reports a failure without changing the document.",
["configurations","fault_sequences"],
"every combination of present, empty, absent and failing lookups, including a git that disappears between the check and the call",
"Tests replace the account lookup and cover seven healthy combinations; none makes a lookup fail.",
["specfile/changelog.py","specfile/specfile.py"],
[("lookup chain","specfile/changelog.py: guess_packager, _getent_name"),("use in entries","specfile/specfile.py: add_changelog_entry")],
["return value of the detection, header of the added entry, str(spec) after a failed addition"])

p("C11","Version and release updates take effect exactly and converge",
"After a successful update of the version or of a tag that may be spread over macros, RPM evaluates that tag of the resulting text to exactly the requested value, protected macros and unrelated definitions keep their bodies, and the parts of the value that are macros of their own are updated in place, rather than replaced, when the requested value has the same shape (a commented-out pre-release macro being switched on for it); setting version and release directly stores them literally and keeps the distribution suffix, and bumping the release, in its release or baserelease macro if it is directly made of one, yields a release RPM orders after the old one. An update interrupted once by a fault and then repeated reaches the same text as one that was never interrupted, whatever other specs did in between.",
["histories","inputs","fault_sequences","schedules"],
"every layout of macros and conditions a version can be composed of, every sequence of updates, faults at any call during an update",
"The rewriting depends on macro state left by earlier updates and on a multi-step write; tests try one update per fixed layout and never interrupt it.",
["specfile/specfile.py","specfile/value_parser.py","specfile/macro_definitions.py"],
[("macro-preserving update","specfile/specfile.py: update_value, update_tag, update_version"),("matching","specfile/value_parser.py: ValueParser.construct_regex"),("release handling","specfile/specfile.py: _split_raw_release, _get_updated_release, bump_release")],
["tag values per RPM in a fresh process, text after the update"])

p("C12","Absent sources never change what a spec evaluates to",
"Whatever subset of a spec's sources and patches is present on disk, and whichever appear or vanish between operations, parsing gives the same scripts, headers and expansions as with all of them present (archives recognised by their usual extensions; macros that read the contents of files excepted). If a stand-in cannot be created the operation fails or gives that same result; only commands RPM words by looking at the file itself, such as the application of a patch, may then differ. A spec that needs absent files of its source directory just to be parsed (files it includes or loads, sources read in tags) is refused with RPM's own error unless parsing is forced; when forced it parses, is marked tainted exactly if stand-ins for such files were needed, and is evaluated normally and not tainted by a new instance once the files exist.",
["configurations","fault_sequences","histories"],
"every subset of present sources, every kind of reference that needs a file while parsing, every failure to create a stand-in",
"Tests delete all sources of one spec once; partial subsets, changing subsets and failing stand-ins are not tried.",
["specfile/spec_parser.py"],
[("stand-ins with matching signatures","specfile/spec_parser.py: SpecParser._make_dummy_sources"),("forced parse and tainting","specfile/spec_parser.py: SpecParser._do_parse, parse")],
["rpm_spec.prep and parsed text, expansions, tainted flag, against RPM in a fresh process with all files present"])

p("C17","Copies and instances of one file are specs of their own",
"Deep-copying a spec, at any moment and also while views of it are open, changes nothing about it and gives an equal spec with the same document, path, source directory, extra macros, autosave and force settings. From then on no edit, reconfiguration, open view, save, reload, failure or discarding of one is visible in the other (except what a later reload picks up from a file they share): every operation on any of them has the result it would have on a fresh instance with the same text and settings. The same holds for several instances loaded from one file, and parts deep-copied out of a spec (sections, tags, sources, comments, macro definitions, changelog entries, prep macros, or whole views) can be edited, or moved into another spec, without the original changing.",
["histories","schedules","fault_sequences"],
"every interleaving of copying, editing, reconfiguring, saving, reloading, opening views of, failing on and discarding any number of equal or related instances",
"Equal instances share one process-wide view cache, parse cache and macro context, so that mixing them up depends on the whole interleaving; tests copy an instance once and compare.",
["specfile/specfile.py","specfile/spec_parser.py","specfile/context_management.py","specfile/tags.py","specfile/sourcelist.py"],
[("copying the parser","specfile/spec_parser.py: SpecParser.__deepcopy__"),("telling instances apart","specfile/context_management.py: ContextManager.__call__; specfile/spec_parser.py: SpecParser.parse"),("copying parts","specfile/tags.py: Tag.__deepcopy__; specfile/sourcelist.py: SourcelistEntry.__deepcopy__")],
["str() and settings of every live instance and the bytes of every file after each operation"])

p("C13","Splitting a value or option string into parts and joining it is lossless",
"Parsing any value or option string into its nodes or tokens and joining them again gives the same string, and the parts are those RPM itself would recognise.",
["inputs"],"every string","Tests list examples; the space of strings is unbounded.",
["specfile/value_parser.py","specfile/options.py"],[("value parser","specfile/value_parser.py: ValueParser.parse"),("tokenizer","specfile/options.py: Options.tokenize")],["ValueParser.parse, Options.tokenize"])
p("C14","Version comparison is a total order identical to RPM's",
"Comparing epoch-version-release objects gives the order RPM gives, consistently across all comparison operators, hashing and string conversion.",
["inputs"],"every pair and triple of versions","Tests list examples.",
["specfile/utils.py"],[("comparison","specfile/utils.py: EVR, NEVR, NEVRA")],["EVR, NEVR, NEVRA"])
p("C15","The representation of every object evaluates back to an equal object",
"For every object of the public model, evaluating its representation yields an equal object, and formatting the representation over lines never changes what it evaluates to.",
["inputs"],"every object","Tests list examples.",
["specfile/formatter.py"],[("formatting","specfile/formatter.py: format_expression")],["repr()"])
p("C16","Filtering a changelog by version range keeps exactly the entries in range",
"Filtering the changelog between two versions keeps exactly the contiguous run of entries from the first at or above the lower bound to the last at or below the upper one.",
["inputs"],"every changelog and pair of bounds","Tests list examples.",
["specfile/changelog.py"],[("filter","specfile/changelog.py: Changelog.filter")],["Changelog.filter"])
import os
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(f'{HERE}/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); 
for x in P:
    n=x['statement'].count('. ')+1
    print(x['id'],n)
