"""Rewrite DESIGN.md from properties.jsonl, known-findings.jsonl, seeded/ and the texts here."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rows(name):
    with open(os.path.join(HERE, name)) as f:
        return [json.loads(l) for l in f if l.strip()]


# id: (specification, what it specifies, what is observed and what it is compared with,
#      bounds quick / thorough, cost quick / thorough)
D = {
    "C01": ("JuiceWire", "The bytes of a box (headers, folded lines, length header, body) and an incremental parser of a byte stream as state; one operation sends a box, one delivers a chunk of the pending bytes, one delivers foreign bytes.",
            "A real `Juice` writes on a recording transport and another is fed by `dataReceived`; the boxes its dispatch gets, their order, and the errors raised are compared step by step.",
            "all single boxes of a table of nasty ones and all pairs of some, every way of cutting them at every byte; then random boxes with random cuts. Thorough: triples."),
    "C02": ("JuiceCalls", "Both ends: tags outstanding, two queues of bytes in flight, requests held by a responder, loss of the connection.",
            "Two real `Juice` ends over in-memory transports whose delivery (in whole or in parts) the specification schedules; the outcome of every request's Deferred, each call of a responder and every refusal are compared.",
            "2 to 3 requests from both sides, all interleavings of sending, delivering, answering in any order, losing; also requests made in an outcome handler. Thorough: 3 to 4 requests. Histories of 60 steps."),
    "C03": ("JuiceCalls", "The same specification; each command's declared and fatal errors, its namespace, versions.",
            "The type and text of each failure, and which end closes when, of two real `Juice` ends.",
            "every command with every kind of answer (ok, declared, subclass, fatal, undeclared, unknown, other namespace, versions), alone and in pairs, with and without an answer wanted, handled or not."),
    "C04": ("JuiceSwitch", "The mode of each end (Juice, locked, switched), the bytes in flight both ways, what each new protocol was given.",
            "Real `Juice` ends and recording inner protocols; bytes received by each, connections made and lost, refusals.",
            "each way of agreeing (at once, later, with a body, refused, failing) with raw chunks which look like Juice or line breaks, delivered in all chunks, losses anywhere."),
    "C05": ("JuiceTLS", "Clear, preparing, secured; what was written before and after TLS started.",
            "A transport recording writes and `startTLS` with its options, in one log.",
            "4 (thorough: 7) sends of 4 kinds of boxes in all orders with preparing and two ways of starting."),
    "C06": ("JuiceArgs", "The text each argument type has on the wire and its inverse, omission of optional ones, refusal of missing ones.",
            "A command declared for the argument types at hand is called through two real `Juice` ends; texts sent, values given to the responder and to the caller (with types), refusals; malformed texts from a peer.",
            "a table of values of each type, each direction, each malformed text; random declarations and values."),
    "C07": ("Liner", "The buffer, the mode and whether it was closed; feeding a chunk delivers lines and raw data.",
            "A real `LineReceiver` whose protocol switches mode by what it reads; the list of deliveries for each chunk.",
            "every chunk of up to 4 bytes over alphabets of the delimiter's bytes and bytes which mean 'switch' or 'close', from every short buffer; thorough: up to 6 bytes, overlapping delimiters; 900 switches in one chunk."),
    "C08": ("Router", "Routes with local and remote names, bound or not, started or not.",
            "Real `Router` and receivers, boxes in both directions; also on a real AMP connection (known findings).",
            "2 (thorough: 3) routes, names, all histories; random histories of 8 routes and 60 steps."),
    "C09": ("Router", "The same, with receivers which bind, connect, unbind or stop others while being started or stopped.",
            "Calls of `startReceivingBoxes` and `stopReceivingBoxes` of every receiver, identifiers chosen.",
            "as C08."),
    "C10": ("Auth", "Users and passwords, the latest challenge of each connection, the avatars in place.",
            "Real `CredReceiver` and `CredAMPServerFactory` with a real portal and checkers; responses computed by the protocol's own digest from challenges read on the wire; `PasswordLogin`, `OTPLogin` and `login`.",
            "2 connections, 2 users, right and wrong passwords, stale and foreign challenges, all histories up to 2 (3) challenges; random histories."),
    "C11": ("Auth", "The same, with realms which answer later or with none; logouts due.",
            "The order of avatars supplied, told of the loss and logged out.",
            "1 to 2 connections, 3 logins, answers later, losses anywhere; thorough: 3 connections."),
    "C12": ("Auth", "The same, with the pads left.",
            "Which uses of a pad give access or are denied.",
            "2 (3) connections and pads, all histories."),
    "C13": ("Extime + Calendar", "Dates from a day count, weekday, ISO weeks, offsets; the text of each format. `Calendar` is checked by itself (`Sane`: each conversion is inverted by its opposite).",
            "Each `as...` and `from...` of a real `Time`, written out character by character and read back.",
            "15 instants (first and last of the calendar, leap days, years with 53 weeks, before the epoch) by every zone and option; random instants to the microsecond."),
    "C14": ("Extime + Calendar", "A grammar of ISO 8601 texts, and the instant and period of each.",
            "`Time.fromISO8601TimeAndDate`: the instant, resolution or refusal.",
            "every form of date by every form of time and offset over chosen years, every month, day, week, ordinal at its limits and one beyond; random texts."),
    "C15": ("Extime", "Instants as integers of microseconds and durations.",
            "All six comparisons, differences, sums, containment and bounds of two real times.",
            "all pairs of 9 (15) times of all resolutions; random pairs which are near each other."),
    "C16": ("Extime", "The next minute which shows a time of day in a zone; days of the week.",
            "`Time.fromHumanly` at a given now.",
            "every hour and minute at the edges, in every spelling, by now and zone; random."),
    "C17": ("Extime", "Fields of an instant in a zone; how much of a date is shown.",
            "`asDatetime`, `asStructTime`, `asHumanly`, ISO text.",
            "pairs (time, now) by zone; random near ones."),
    "C18": ("Record", "Binding of arguments to a signature as Python's own; graphs of records and their repr with a path of those being printed.",
            "Classes made by `record()`, their construction in every way; repr of graphs built and mutated.",
            "all signatures of 3 (4) names with defaults, all argument lists over them; all graphs of 2 (3) nodes with cycles, missing attributes and failing reprs."),
    "C19": ("Views", "The sequence and the chain of slices over it.",
            "`SlicedView` length, items, iteration, mutation of the sequence in between.",
            "all starts, stops and steps around the length, views of views; random."),
    "C20": ("Caseless", "Strings as characters with an equivalence; a dictionary.",
            "`Caseless` methods, dictionary lookups.",
            "all strings over a, A, B up to 2 (3) with bounds; random longer ones."),
    "C21": ("Expose", "Classes with bodies and bases (linearised as Python does), what each exposes.",
            "Classes made with real `Exposer`s; `get` of every key, and of the method found.",
            "all hierarchies of 3 (4) classes over sets of bodies; random up to 9, with diamonds."),
    "C22": ("Modes", "The mode of each object, calls which nest and change it.",
            "`ModalType` classes; which method ran, with which self, enters and exits.",
            "2 (3) objects of 4 classes; random."),
    "C23": ("Attributes", "Values remembered, cells, required attributes.",
            "`remembered`, `attribute` and `requiredAttribute`: accesses, calls of creators, errors.",
            "1 to 2 objects, every way of creating (a value, None, 0, failing, nested); random up to 9."),
    "C24": ("Pending", "Listeners with reactions, events with results or failures.",
            "`PendingEvent`: what each Deferred hears.",
            "3 (4) listeners which wait again, fire another event, raise, or nothing; random."),
    "C25": ("React", "A reactor: not running, running, shutting down with held triggers, done; what is due in one turn.",
            "The real `ReactorBase` (with real turns, triggers and stop) runs in a thread, stepped turn by turn by the specification; calls of the function, log, end.",
            "every turn of one or two of: fire, fail, stop, shutdown trigger held or released; 2 (3) turns; random."),
    "C26": ("Scheduling", "Jobs as scripts (item, wait, fail, add another), running or stopped.",
            "`SchedulingService` and `iterateInReactor` on a controlled reactor; steps, outcomes, `running`.",
            "2 (3) jobs of 6 scripts; random."),
    "C27": ("Tracing", "A stack of services with handlers saved; whether a tracer is installed; trees of calls and the text printed.",
            "Real signals to real `SignalService`s (a default action is looked at, never triggered); a `Tracer` and a `Spewer` over real calls in this and other threads.",
            "4 services over 3 signals, every answer of a tracer, pairs of programs; random."),
    "C28": ("Hotfix", "Which defects Twisted has, which fixes were recorded.",
            "`require` with stand-ins for Twisted with or without the defect; installations counted.",
            "9 fixes in groups of 2 (3); also with the older Twisted which had `deferredGenerator`; random."),
    "C29": ("Child", "Time without a sign of life, killed, closed, outcome.",
            "`BasicProcess`/`BenchmarkProcess` on a clock with a stand-in for the process: no process is killed.",
            "2 (3) events per descriptor with every period around the limit; random."),
    "C30": ("Timing", "Measurements, acknowledgements in order, report.",
            "`BenchmarkProcess`, `Change`, `start`, `stop`, `_bench` with a controlled clock, sizes and descriptors.",
            "4 (5) events, chunks which combine messages; random."),
    "C31": ("Stats", "Tables of mounts as paths, snapshots of numbers, trees of files.",
            "`discoverCurrentWorkingDevice`, `parseDiskStatLine`, `formatResults`, `getSize` over files of a scratch directory.",
            "2 (3) mounts of 9 by 7 directories; snapshots; random."),
    "C32": ("Packages", "A tree of directories and files.",
            "`autosetup` in a scratch directory with a stand-in for distutils' `setup`.",
            "2 (3) directories and 2 files in all ways; random trees; several packages for plugins of which some do not work."),
    "C33": ("Literals", "A stack machine which builds expressions, with the value they have or none.",
            "`unrepr` of the text built; values with types; whether anything was executed.",
            "every atom, every wrapper of it; 4 (5) constructions; random nestings."),
    "C34": ("Template", "The files so far and the lines of the template.",
            "`asplode` run in a scratch directory; the tree it leaves.",
            "3 (4) lines of names and texts with placeholders, 2 runs; random."),
    "C35": ("Certificates", "Options given, files present.",
            "The command run in a scratch directory; key and certificate read with OpenSSL.",
            "each option by itself, pairs of runs; random command lines (each makes an RSA key, hence the cost)."),
    "C36": ("JuiceCalls", "The specification of C02 and C03: a wrapper changes nothing.",
            "Two real `Juice` ends with wrappers which note when they are entered and left; at each command served and each outcome exactly the wrapper of that end, once, has to be active.",
            "every command and kind of answer alone from both sides, pairs; thorough: pairs from both sides, triples; random histories as C02's."),
    "C37": ("Repairs", "A timeout (period, when due, what the protocol does on being told) on a clock; entries of a path.",
            "The hotfix's `TimeoutMixin` on a clock, `pluginPackagePaths` with a path of scratch directories.",
            "periods of 1 to 2 (3) s and 5 (8) s in all histories with four reactions; all paths of up to 3 (4) entries; random."),
    "C38": ("Process", "Directories on the import path with modules and packages placed in them, which of them are the library's; services of one parent and their connections.",
            "`spawnPythonProcess` with a stand-in for `spawnProcess` whose command line and environment are then really run, to see what it imports; `StandardIOService` in a real `MultiService` with a stand-in for `StandardIO`.",
            "2 placements and 2 paths over 5 directories, 3 services, all histories; random."),
    "C39": ("Bench", "The records of the report so far; a script as a sequence of actions (marks, growth, complaints, ways of ending), run to its end.",
            "The real command in a forked process with a real reactor, running real scripts in a scratch directory; what the script saw, the report and what is left behind.",
            "pairs of runs of 3 (9) scripts, given by relative and absolute filename; random scripts in up to 3 runs."),
}
D.update(__import__("json").load(open(os.path.join(HERE, "tools", "more.json")))
         if os.path.exists(os.path.join(HERE, "tools", "more.json")) else {})

with open(os.path.join(HERE, "tools", "costs.json")) as f:
    COSTS = json.load(f)


def props():
    out = ["## The properties", ""]
    for p in rows("properties.jsonl"):
        spec, what, seen, bounds = D[p["id"]]
        q, t = COSTS.get(p["id"], ("?", "?"))
        out += ["### %s %s" % (p["id"], p["title"]), "",
                "*Specified* (`specs/%s.tla`): %s" % (spec.replace(" + ", ".tla`, `specs/"), what), "",
                "*Bound to the code*: %s" % seen, "",
                "*Bounds*: %s *Cost*: quick %s s, thorough %s s." % (bounds, q, t), "",
                "*Beyond the tests*: %s" % p["why_tests_cant"], ""]
    return "\n".join(out)


def fixed():
    return "\n".join("* %s (`%s`): %s." % (k["property"], k["commit"], k["what"])
                     for k in rows("known-findings.jsonl") if k["status"] == "fixed")


def known():
    ks = [k for k in rows("known-findings.jsonl") if k["status"] == "known"]
    return "\n".join("* %s: %s.  %s" % (k["property"], k["what"], k["why"]) for k in ks)


def seeded():
    out = ["| change | property | needs | breaks |", "|---|---|---|---|"]
    d = os.path.join(HERE, "seeded")
    ms = []
    for s in sorted(os.listdir(d)):
        with open(os.path.join(d, s, "meta.json")) as f:
            ms.append((s, json.load(f)))
    for s, m in sorted(ms, key=lambda x: (x[1]["property"], x[0])):
        out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
    return "\n".join(out)


with open(os.path.join(HERE, "tools", "DESIGN.tmpl")) as f:
    t = f.read()
for k, v in (("PROPS", props()), ("FIXED", fixed()), ("KNOWN", known()), ("SEEDED", seeded())):
    t = t.replace("@@%s@@" % k, v)
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(t)
