#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here, readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
CMD = ["pykickstart/commands/*.py", "pykickstart/base.py", "pykickstart/options.py"]
prop("C01", "Writing a parsed command and reading it again preserves its data",
 "For every syntax version and every command, when a command line is accepted, writing the resulting command or data object as kickstart text and reading that text with the same version is accepted again and yields the same option data: nothing that was given is dropped, renamed, negated, attached to another option, or changed by being combined with other options. Values are taken to be single non-empty words without shell-special characters (quoting is a separate property), and a size, count or limit of zero or less counts as not given. Not covered are deprecated options and options that only mean something next to another one that was not given (encryption details without encryption, a pool name without a thin volume, subvolume details without a subvolume, a VNC port without a host, anything next to a disabled boot loader or firewall and the like).",
 ["inputs", "configurations"], "all versions, all commands, all subsets of options and all option values",
 "Command tests assert a few hand-picked strings per command and rarely for more than the first and last version; option combinations, falsy-but-given values and old versions are not sampled.",
 CMD, [("command parse / data object string writers", "pykickstart/commands/*.py: parse, __str__, _getArgsAsStr"), ("option tables", "_getParser in each command class")],
 ["str(handler.<command>)", "str(data object)", "KickstartParser.readKickstartFromString"])
prop("C02", "A version writes only command syntax that the same version reads",
 "Whatever values the attributes of a command or data object hold (set by parsing or by a program), every command name and option name it writes out is one that the handler of the same version reads for that command, with a value exactly when the option takes a value. An option that was removed in a version, or that only a later version knows, is never written by that version.",
 ["inputs", "configurations"], "all attribute values of all command and data objects in all versions",
 "Tests only print objects produced by parsing a handful of lines; programs such as installers fill the attributes directly.",
 CMD, [("string writers", "__str__/_getArgsAsStr of command and data classes"), ("option tables", "_getParser")], ["str(handler)"])
prop("C03", "Each released syntax version keeps its commands and options",
 "Every released syntax version recognises exactly the commands, and for each command exactly the options, that were published for it: same option spellings and aliases, same arity, value type, choices, default, requiredness, multiplicity and deprecation state. Adding or changing syntax in one version never alters what another version accepts.",
 ["configurations", "programs"], "every version, command and option of the library",
 "Tests exercise options one by one for the versions that introduced them; an inherited table that leaks into or vanishes from another release is only seen if that release's test happens to use it.",
 CMD + ["pykickstart/handlers/*.py"], [("versioned option tables", "_getParser chains, add_argument/remove_argument in pykickstart/options.py"), ("command maps", "pykickstart/handlers/*.py")], ["handler.commands[...]", "ksverdiff"])
prop("C04", "Each version's checks on option combinations stay in force",
 "For every version and command, each combination of options, arguments and previously seen commands that the version forbids (mutually exclusive options, missing required companions, wrong argument counts, malformed values, commands that exclude each other) is rejected with a kickstart parse error, and each combination it allows is accepted with the documented effect on the data. No check is lost when a newer version refines a command.",
 ["inputs", "configurations"], "every version and command, every combination of given/absent options up to the groups that checks look at",
 "A lost or weakened check in one of several hundred versioned classes is only visible on the specific combination, which tests sample for few versions.",
 CMD, [("validation in parse", "pykickstart/commands/*.py: parse"), ("inheritance of checks", "explicit superclass parse calls")], ["KickstartParser.readKickstartFromString", "KickstartCommand.parse"])
prop("C05", "Bad command input is always a kickstart parse error naming its line",
 "Whatever arguments a command line carries, processing it either succeeds or raises a kickstart parse error (never a bare Python exception and never a program exit), and that error carries the number of the line being processed. The same holds for option errors detected while parsing section headers.",
 ["inputs"], "all argument lists of all commands and section headers in all versions",
 "Robustness to every malformed argument list cannot be sampled; tests mostly assert that some KickstartParseError is raised and do not look at the line.",
 CMD + ["pykickstart/sections.py", "pykickstart/errors.py"], [("error construction", "raise KickstartParseError(..., lineno=...) sites; KSOptionParser.error/exit")], ["exception type and .lineno seen by callers"])
prop("C06", "Reported and stored line numbers are the physical line numbers",
 "The line number handed to every command, section header, stored script and data object, and carried by every parse error raised while reading, is the 1-based number of that line within the file (or included file) it stands in, however many sections, comments, blank lines, includes and unterminated sections precede it.",
 ["inputs", "histories"], "every sequence of line kinds in a kickstart file, every version",
 "Line accounting is threaded through nested loops with put-back; tests check a few fixed files.",
 ["pykickstart/parser.py", "pykickstart/sections.py", "pykickstart/base.py"], [("line counters", "KickstartParser._stateMachine / _readSection"), ("line propagation", "KickstartHandler.dispatcher, Section.handleHeader")], ["command.lineno, data.lineno, script.lineno, error.lineno"])
prop("C07", "Handlers, parsers and command objects never share mutable state",
 "Creating, filling, resetting or printing one handler, parser, command or data object never changes what any other existing or future one contains, accepts or prints, whether of the same or another version. Defaults, option tables, command maps and lists are private to each object.",
 ["histories"], "every history of creating, parsing with, calling and printing several handlers in one process",
 "Leaks appear only for particular interleavings of several objects in one process; tests build one handler at a time.",
 ["pykickstart/base.py", "pykickstart/parser.py", "pykickstart/options.py", "pykickstart/commands/*.py", "pykickstart/sections.py", "pykickstart/handlers/*.py"], [("per-instance construction", "__init__ methods, registerCommand, _registerCommands"), ("non-mutating extend actions", "pykickstart/options.py")], ["attributes and output of a second handler"])
prop("C08", "Sections end where they must and script bodies are kept verbatim",
 "Every line between a script section's header and its end reaches that script unchanged and in order, blank and comment lines included, and no line of one section ends up in another section or is run as a command. From Fedora 8 on a section that is not closed before the next header or the end of input is an error, while older versions close it implicitly; scripts keep their kind and header options. Sections of other programs (addons and the like) are written back with their header and body unchanged.",
 ["inputs", "histories"], "every sequence of line kinds inside and between sections, every section kind and version",
 "Tests feed a few fixed files; the state machine must be right for every sequence of lines.",
 ["pykickstart/parser.py", "pykickstart/sections.py"], [("section reader", "KickstartParser._readSection/_finalize"), ("script collection", "ScriptSection, NullSection")], ["handler.scripts", "str(handler)"])
prop("C09", "%packages selections: the last mention wins and nothing is lost",
 "Reading %packages content, a package, group or environment that was requested or excluded is recorded under exactly that name on the matching list, the most recent mention of a package decides whether it is requested or excluded, and excluding a group cancels an earlier request of it, as requesting one cancels an earlier exclusion. Header options of the section are stored, and writing the section and reading it again in the same version gives the same selections and options.",
 ["inputs", "histories"], "every sequence of %packages lines and header options, every version",
 "Tests check fixed package lists; the rule is about every history of mentions, possibly over several sections and includes.",
 ["pykickstart/parser.py", "pykickstart/sections.py"], [("set bookkeeping", "Packages.add / _processGroup"), ("writer", "Packages.__str__/_processPackagesContent"), ("header", "PackageSection.handleHeader")], ["handler.packages", "str(handler.packages)"])
prop("C10", "Command line tools report failure and leave no temporary files",
 "Each tool exits with status zero exactly when it succeeded: an unreadable input, an unsupported version, any parse error and (for the validator) any parse warning or deprecated syntax gives a non-zero status and a message; the interactive shell reports errors in its input and goes on. On every way out, including errors, the temporary files and directories the tool created are removed, and its output contains the result of the whole input.",
 ["inputs", "fault_sequences"], "every path through the tools, including every failing step",
 "Failures at particular steps (load, version, preprocessing, parsing) are not injected by tests and leaked files are not looked for.",
 ["tools/ksvalidator.py", "tools/ksflatten.py", "tools/ksshell.py", "tools/ksverdiff.py", "pykickstart/parser.py"], [("cleanup helper and return statuses", "tools/ksvalidator.py main/cleanup"), ("error branches", "tools/*.py main")], ["exit status, temporary directory contents"])
prop("C11", "Inputs are loaded through one checked loader",
 "Kickstart text is fetched only by the loader, which verifies TLS certificates by default, treats every HTTP status but success as an error, and turns every failure to read, decode, copy or write into a kickstart error; it never returns partial or error-page content as if it were the file.",
 ["inputs", "fault_sequences"], "every location string and every failure of the file system or the server",
 "Tests use a local server and a few missing files; each failure kind at each step is not injected.",
 ["pykickstart/load.py", "pykickstart/parser.py", "pykickstart/version.py"], [("loader", "pykickstart/load.py"), ("wrapping of loader errors", "preprocess*/readKickstart in pykickstart/parser.py")], ["return value or exception of load_to_str/load_to_file/readKickstart/preprocess*"])
prop("C12", "Version names, numbers, handlers and command classes agree",
 "Version names and numbers map one-to-one (with the development name standing for the newest), every version has exactly one handler which serves that version, and converting a version to text and back is the identity. Each version's handler uses, for each of its commands and data objects, the newest implementation of its own product line that is not newer than the version (a RHEL version also the back-ported or Fedora implementation it was published with), and hands each repeatable command the data class that fits it.",
 ["configurations"], "every version and every command of every handler",
 "Tests compare class names of one inheritance family and a few conversions; a data class older or newer than the command that fills it, or an ordering slip, shows only for one option of one version.",
 ["pykickstart/version.py", "pykickstart/handlers/*.py", "pykickstart/commands/*.py"], [("version table and conversions", "pykickstart/version.py"), ("command and data maps", "pykickstart/handlers/*.py")], ["makeVersion, stringToVersion, versionToString, handler.commands"])
prop("C13", "Deprecated syntax warns and removed syntax is refused",
 "Using a deprecated command always gives a deprecation warning and has no effect on the data or the output; using a removed command is always an error. Using a deprecated option always gives a deprecation warning naming the option, and using a removed option is always an error; current syntax gives no deprecation warning. Options are meant spelled out, and syntax that is only announced as to be deprecated later may warn and keeps working.",
 ["inputs", "configurations"], "every version, every command and option, any arguments",
 "Tests check deprecated commands without arguments, and options for a few versions only.",
 ["pykickstart/base.py", "pykickstart/options.py", "pykickstart/commands/*.py", "pykickstart/sections.py"], [("command state classes", "DeprecatedCommand/RemovedCommand and their use in class bases"), ("option deprecation", "KSOptionParser.add_argument/_parse_optional/remove_argument")], ["warnings raised, exceptions, str(handler)"])
prop("C14", "Every use of a repeatable command is kept exactly once and in order",
 "Each accepted line of a command that may be given several times adds exactly one new data object, holding that line's values and line number, at the end of that command's list and changes no earlier one; a line that is rejected adds nothing. A line that defines something already defined gives a parse warning, and a line that does not gives none; data objects that can be compared are equal exactly when they define the same thing.",
 ["inputs", "histories"], "every sequence of uses of every repeatable command in every version",
 "Tests mostly call parse on a single line outside a real handler; order, identity and duplicate detection over histories are not sampled.",
 CMD, [("dispatch and list append", "KickstartHandler.dispatcher"), ("duplicate checks", "parse methods and __eq__/__ne__ of data classes")], ["command.dataList()", "warnings"])
prop("C15", "Programs can set every option by name and removed names are ignored",
 "Constructing a command or data object with keyword arguments, or calling it with them, sets exactly the attributes named, to the values given, and leaves the others at their defaults; unknown names and names removed in that version are ignored, and a removed attribute does not exist on the object. Every attribute that reading an option fills can be set this way. Commands that are deprecated or removed as a whole hold no data, and values taken from positional arguments or deprecated options need not be settable.",
 ["inputs", "configurations"], "every command and data class of every version, every set of keyword arguments",
 "The attribute test sets all options to one sentinel at once, which hides crossed attributes, wrong defaults and attributes that are not options.",
 CMD, [("keyword constructors", "__init__ of command and data classes"), ("__call__, deleteRemovedAttrs", "pykickstart/base.py")], ["attributes after construction or call"])
prop("C16", "A handler prints every command, script and section once, in order",
 "The text of a handler contains the output of each of its command objects exactly once, in priority order so that whatever a command refers to is defined before it, followed by all scripts in input order, preserved foreign sections and the package section. Aliases of a command share one object, and resetting a command leaves exactly one current, empty object that both lookup by any of its names and printing use.",
 ["histories", "configurations"], "every history of registering, resetting, masking and parsing commands, every version",
 "Tests print a few commands in isolation; completeness and order of the whole output after resets are not checked.",
 ["pykickstart/base.py"], [("write order", "_setCommand/_insertSorted/_writeOrder"), ("aliases and reset", "registerCommand/resetCommand"), ("document writer", "KickstartHandler.__str__/BaseHandler.__str__")], ["str(handler)", "handler.commands"])
prop("C17", "Included files are read in place, relative to the including file",
 "An %include line makes the content of the named file be processed exactly where it stands, in the section that is open there, with relative names resolved against the directory of the including file when they do not exist as given; processing then continues after the include line in the same section. A file that cannot be read is an error unless missing includes are allowed, and when includes are not followed the line has no effect. Included files hold whole sections or lines of a single section.",
 ["inputs", "histories"], "every nesting and placement of includes",
 "Tests include one or two files in fixed places.",
 ["pykickstart/parser.py"], [("include handling", "KickstartParser._handleInclude/readKickstart"), ("depth and directory tracking", "_includeDepth/currentdir")], ["order of handled lines, files opened"])
prop("C18", "Preprocessing passes every line through and inlines every %ksappend",
 "Preprocessing a kickstart returns all its lines unchanged and in order, except that each %ksappend line is replaced by the complete content of the location it names (the next line still starts on a line of its own); a %ksappend line without a location or whose location cannot be loaded is a kickstart error that names the line. The file-writing variants store exactly that text in a new file and return its name (nothing is stored for an empty text).",
 ["inputs", "fault_sequences"], "every sequence of ordinary and %ksappend lines",
 "Tests use a few fixed files.",
 ["pykickstart/parser.py"], [("preprocess state machine", "_preprocessStateMachine and the four preprocess functions")], ["returned text or file"])
prop("C19", "Tolerant parsing counts every error and strict parsing stops at the first",
 "With fatal errors on, the first error in a command or section header ends the parse with that error; with fatal errors off, every such error is printed and counted, the failing line has no further effect, and all following lines are processed as if it had been absent. Nothing else changes between the two modes: a section whose header was in error is still read as that section, and an unknown section ends the parse in both unless unknown sections are allowed.",
 ["inputs", "histories"], "every sequence of good and bad lines in both modes",
 "Tests look at single errors; that no error is swallowed or miscounted holds over all paths.",
 ["pykickstart/parser.py", "tools/ksvalidator.py"], [("guarded calls", "KickstartParser._tryFunc and its uses in _stateMachine")], ["parser.errorsCount, stderr, handled lines"])
prop("C20", "Option values with blanks survive writing wherever they are quoted",
 "For the options whose values are written in quotes (boot and kernel arguments, passwords and passphrases, labels, file system options, names, certificates and similar free text), a value containing blanks is written so that reading the text in the same version gives back the same single value; this holds in every version that has the option. Options that are published without quotes around the value (part --label, user --password and the like) are not meant.",
 ["inputs", "configurations"], "all values with embedded blanks of those options, all versions",
 "Tests quote a few values in the newest versions.",
 CMD, [("quoting in writers", "__str__/_getArgsAsStr")], ["str(handler)"])
prop("C21", "A whole kickstart written and read again is the same kickstart",
 "For every version, writing the handler after reading a complete kickstart and reading that text with the same version is accepted, gives the same scripts (kind, interpreter, log file, chroot and error options, body) in the same order, and writing once more gives the same text (comments aside); commands do not override or disturb each other through what they write. Scripts that a program makes and adds from Fedora 8 on are written and read the same way. Not meant are commands that may not be used together or only in one order, two names of the same command used together, and, before Fedora 8, blank lines at the end of a script body.",
 ["inputs", "configurations"], "all combinations of commands, scripts, sections and packages; all versions",
 "Tests compare single commands and a few fixed files; the text of many commands and sections together is not read again.",
 CMD, [("KickstartHandler.__str__", "pykickstart/base.py"), ("Script.__str__", "pykickstart/parser.py")], ["str(handler)", "str(script)"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
