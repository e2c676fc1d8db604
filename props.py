"""What each check does; used by ./check and tools/mkmanifest.py."""

HIST = "random storage root configuration (version, digests, layout with parameters, extensions, areas, directory or zip), random identifiers, and a random history of updates (mirroring or adding; files, renames, deletions, copies), under a random goroutine schedule"
TRUST = "The simulated operating system (sim/simos) is trusted to behave like a POSIX file system as far as it is used; goroutine switches happen at statements of gocfl and at blocking operations only."

PROPS = {
    "C01": dict(
        level="exploration", quick_n=5000, batch=125,
        technique="deterministic simulation: seeded histories and schedules against a reference model of the logical files, every version extracted and compared",
        rule=HIST + "; non-trivial: more than one version exists and all of them were extracted and compared",
        note="Every version of every object is extracted by a fresh process and compared byte for byte with the reference model."),
    "C02": dict(
        level="exploration", quick_n=2500, batch=100,
        technique="deterministic simulation with fault injection: ledger of committed versions checked after every successful, failing, crashing or aborted operation",
        rule=HIST + ", mixed with updates that meet I/O errors, crash, or are aborted, and with reading operations; non-trivial: at least one operation ran over a committed version and the ledger was compared afterwards",
        note="After every operation (success, error, crash, abort, validation, extraction) all files of all committed versions and what the newest inventory says about them are compared with what was committed."),
    "C07": dict(
        level="exploration", quick_n=2500, batch=100,
        technique="deterministic simulation: seeded histories, gocfl's own validation must accept every result, under every schedule and repeated",
        rule=HIST + "; non-trivial: validation walked at least one object",
        note="Validation runs in a fresh process after updates, twice and in other iteration orders; allowed warnings are computed from the configuration."),
    "C08": dict(
        level="exploration", quick_n=4000, batch=125,
        technique="deterministic simulation: seeded histories and schedules, every closed update judged by an independent reader of the OCFL format",
        rule=HIST + "; non-trivial: an object with more than one version or more than one stored content file was judged",
        note="The independent reader (sim/core/verify.go) shares no code with gocfl and recomputes every digest."),
    "C11": dict(
        level="exploration", quick_n=3000, batch=100,
        technique="deterministic simulation: seeded histories with repeated and reshuffled sources, byte comparison of the whole storage root and of stored contents",
        rule=HIST + " with deduplication; non-trivial: an unchanged source was ingested again or known bytes were offered again",
        note="An update with an unchanged source must leave the storage root as it was; bytes known to the object must not be stored again."),
    "C12": dict(
        level="exploration", quick_n=3000, batch=100,
        technique="deterministic simulation: storage roots created by one simulated process and reopened by others, against the configuration and object set of the model",
        rule=HIST + "; non-trivial: objects of a reopened storage root were listed, loaded and compared",
        note="Reopened roots are compared with an independent reading of their folder structure; repeated creation must be refused without a change."),
    "C14": dict(
        level="exploration", quick_n=2000, batch=80,
        technique="deterministic simulation: every reading operation recorded at the simulated file system, trees compared before and after, answers compared when repeated",
        rule=HIST + " followed by reading operations; non-trivial: a reading operation ran over a storage root with objects",
        note="The simulated file system records every mutating call, also those which cancel out or fail."),
    "C16": dict(
        level="exploration", quick_n=1500, batch=60,
        technique="deterministic simulation with clock faults: the same history is run with and without clock jumps, the results compared",
        rule=HIST + ", clock jumps between and during operations; non-trivial: the clock jumped and more than one version was written",
        note="The twin without jumps must be byte-identical apart from times (and what depends on them)."),
    "C03": dict(
        level="exploration", quick_n=2500, batch=100,
        technique="deterministic simulation with crash injection at every kind of change to storage, torn writes and power loss, judged by an independent reader and the reference model",
        rule=HIST + ", the last one (or the creation of the storage root) cut off by a crash at a random change of storage, sometimes with a torn write or the loss of unsynced data; non-trivial: the crash happened",
        note="The operation is first run on a copy to know how many changes it makes; the crash point is drawn among them."),
    "C04": dict(
        level="exploration", quick_n=2500, batch=100,
        technique="deterministic simulation with I/O fault injection (create, write, short write, sync, close, read, open, listing), judged by an independent reader and the reference model",
        rule=HIST + ", the last one (or the creation of the storage root) meeting one to three I/O errors on storage, source or temporary files; non-trivial: at least one error was delivered",
        note="If every step reports success the stored object must be exactly the intended one, and no failed create, write, sync or close and no failed source read may have gone unreported."),
    "C05": dict(
        level="exploration", quick_n=2500, batch=100,
        technique="deterministic simulation with I/O fault injection and random goroutine schedules; deadlocks, panics, step-budget overruns and leaked goroutines are detected by the scheduler",
        rule=HIST + ", updates and reading operations meeting single and lasting I/O errors on storage, source, target and temporary files; non-trivial: an error was delivered to an operation",
        note="An operation must end without panic or exit within the step budget, and no goroutine may remain blocked for ever."),
    "C21": dict(
        level="exploration", quick_n=3000, batch=100,
        technique="deterministic simulation with crash and I/O fault injection followed by a fault-free repetition, against the reference model and an independent reader",
        rule=HIST + ", the last update of an existing object fails, crashes or is aborted, and is then repeated (sometimes with another source) by a fresh process; non-trivial: the first attempt failed before the new version was committed",
        note="The repetition must succeed, validate, and hold exactly the intended versions."),
    "C06": dict(
        level="exploration", quick_n=4000, batch=125,
        technique="deterministic simulation with storage fault injection (bit flips, torn, lost, misplaced, exchanged and additional files, stale inventories), validation judged against what was damaged",
        rule=HIST + ", then one to three damages to one or several objects, single or piled up; non-trivial: a stored file that matters was damaged and validation ran over it",
        note="Every damage must give a finding the undamaged storage root does not have (an error if content is concerned); objects which were not damaged must give the same findings as before."),
    "C09": dict(
        level="exploration", quick_n=4000, batch=125,
        technique="deterministic simulation with damaged storage, read errors and failing writes in the target, extraction judged against the reference model",
        rule=HIST + ", stored files damaged between extractions, read errors on storage and write errors in the target during extraction of any version, area, single objects or all; non-trivial: an extraction that met damage or errors, or a complete one, was judged",
        note="An extraction which reports success must have left exactly the files of the version and area, and a manifest listing exactly them."),
    "C18": dict(
        level="exploration", quick_n=4000, batch=125,
        technique="deterministic simulation of readers over mangled storage (JSON mutations, random bytes, moved, swapped and removed files and folders, mixed storage roots), under a step budget with panic, exit and deadlock detection",
        rule=HIST + ", then one to six manglings of any stored file, folder, configuration or the container, each followed by reading operations; non-trivial: a reading operation ran over a mangled storage root",
        note="Every reading operation must end with a result or an error within the step budget."),
    "C19": dict(
        level="exploration", quick_n=4000, batch=125,
        technique="deterministic simulation of histories over area-divided content (mirroring into one area, deletions, renames, areas with prefix-related folder names), every version and area extracted and compared with the reference model",
        rule=HIST + " with areas; non-trivial: an area of an object with several areas or versions was extracted and judged",
        note="The model keeps one name space per area; the extension's mapping is restated independently in sim/core/model.go."),
    "C20": dict(
        level="exploration", quick_n=6000, batch=200,
        technique="deterministic simulation with hostile names, identifiers, areas, configurations and stored inventories; every mutating call of the simulated file system is judged against the folder of the object or the extraction target",
        rule=HIST + ", then updates and extractions with crafted names or over crafted inventories and extension configurations; non-trivial: a crafted operation ran",
        note="Container entries are compared before and after, because a zip container hides the paths of its entries."),
    "C10": dict(
        level="exploration", quick_n=1200, batch=50,
        technique="deterministic simulation: the same inputs executed under several goroutine schedules, preemption patterns and iteration orders in fresh worlds; stored trees, answers and every consumer's view of every stream compared",
        rule=HIST + " with recording consumers (which read to the end, stop early, pause or fail) and the indexer; executed two or three times under different schedules; non-trivial: streams were consumed",
        note="Times are normalised; compressed records are compared unpacked. Consumers are stand-ins registered as gocfl extensions; the fan-out of the streams is real code."),
    "C13": dict(
        level="exploration", quick_n=2000, batch=80,
        technique="deterministic simulation: one goroutine per object works on one opened storage root under a seeded statement-level schedule, compared with the same work done one after the other",
        rule="a storage root with some history and damage, then per object a sequence of updates (some of which fail), validations, extractions and metadata readings, in parallel; non-trivial: at least two workers",
        note="Preemption happens before every statement and between reading and writing of shared fields; truly simultaneous memory accesses are not simulated."),
    "C15": dict(
        level="exploration", quick_n=1500, batch=60,
        technique="deterministic simulation with fault injection: the same history in a zip container and in a directory compared; crashes and I/O errors while the container is updated and closed",
        rule=HIST + " in a zip container, a part of them with a crash or failure in the last update; non-trivial: objects exist in both and were compared, or a fault struck",
        note="Names which the zip library confuses are left out of the search and recorded as known findings; after a crash between removal and rename the complete new container may be found under its temporary name."),
    "C17": dict(
        level="exploration", quick_n=3000, batch=100,
        technique="deterministic simulation: seeded histories with the metadata extensions, everything that metadata extraction reports compared with an independent reading of the stored object and of the records",
        rule=HIST + " with the extensions indexer, filesystem and metafile in all storage types and compressions; metadata read after each update, by the same and by a fresh process; non-trivial: records of several versions were compared",
        note="The programs of the indexer are stand-ins whose records depend on all bytes they were given."),
    "C22": dict(
        level="exploration", quick_n=3000, batch=100,
        technique="deterministic simulation: storage roots seeded with objects written by an independent generator of valid OCFL objects, read and continued by gocfl under random histories and schedules, against a reference model",
        rule="random storage root configuration with objects of an independent generator (padding, content directories, digest algorithms and their change, upper case, sidecar and JSON styles, missing or older inventories, fixity, time zones, users without address), then a random history of updates, readings and validations; non-trivial: such an object was read, or continued by a new version",
        note="Everything an object said before an update is compared with what it says afterwards; the result is judged by the independent reader and by gocfl's validation."),
    "C23": dict(
        level="exploration", quick_n=3000, batch=100,
        technique="deterministic simulation with structural fault injection: objects rewritten so that exactly one rule of the standard is broken while all digests agree; validation of the whole root and of single objects judged under every schedule",
        rule="random storage root configuration with objects of gocfl and of an independent generator, then one or several objects rewritten to break one of about sixty rules or to disregard recommendations, or the storage root itself made to break one of its rules; non-trivial: a broken object or root, or one with expected warnings, was validated",
        note="Every broken object must be named by an error, every other object must have exactly the warnings its recommendations imply. A declaration with CRLF is accepted by design and left out, as are empty folders, which not every storage can represent."),
    "C24": dict(
        level="exploration", quick_n=2000, batch=100,
        technique="deterministic simulation with fault injection: migration programs are simulated processes which succeed, fail, stall, or write nothing, part or something else; storage and temporary files fail or the process stops; versions, records and metadata judged against a reference model",
        rule=HIST + " with an indexer and one to three configured migrations, in half of the cases one update with I/O faults or a crash and its repetition; non-trivial: an automated version was made or a program ran",
        note="The programs behind the migrations and the format recognition are stubs; configuration, naming, temporary files, execution with timeouts (virtual time), recording and the automated version are gocfl's code."),
    "C25": dict(
        level="exploration", quick_n=3000, batch=100,
        technique="deterministic simulation with fault injection: generated pictures and simulated thumbnail programs which succeed, fail, stall or write nothing; storage and temporary files fail or the process stops; stored thumbnails decoded and compared with their sources, records and metadata judged",
        rule=HIST + " of pictures and other files with a thumbnail extension, none to three configured programs, in half of the cases one update with I/O faults or a crash and its repetition; non-trivial: a thumbnail was made or a program ran",
        note="The native (Go) implementation is judged; the vips and imagick ones need cgo and are not built here. The programs and the format recognition are stubs."),
    "C26": dict(
        level="exploration", quick_n=2000, batch=100,
        technique="deterministic simulation with fault injection: seeded histories with METS and PREMIS configured, I/O faults and crashes; the documents of each version parsed and compared with the stored object, every reference resolved",
        rule=HIST + " with the METS extension in all storage types and other extensions, in a part of the cases one update with I/O faults or a crash and its repetition; non-trivial: documents were compared",
        note="The XML vocabulary (conformance to the schemas of METS and PREMIS) is not checked, only well-formedness, identifiers, references and told values."),
    "C27": dict(
        level="exploration", quick_n=3000, batch=100,
        technique="deterministic simulation with fault injection: seeded histories, reports of any selection with read errors and failing output, compared with an independent reader of the storage and with each other",
        rule=HIST + " and reports about the storage root and objects in between, in a part of the cases with read errors or an output which fails after some bytes; non-trivial: a successful report was compared with the storage",
        note="The wording of reports is taken as it is; their order is only compared between repetitions."),
    "C28": dict(
        level="exploration", quick_n=4000, batch=100,
        technique="deterministic simulation with fault injection: the operations of the other experiments (faults, damaged and hostile storage, programs); open files, temporary files and goroutines of the simulated process compared before and after each",
        rule="cases of the experiments of C01, C04, C05, C09, C13, C15, C17, C18 and C20 to C27, chosen at random; non-trivial: at least one operation which was not stopped was looked at",
        note="Handles of the containers themselves are not judged, their sessions stay open between operations. Other violations of these cases are the matter of the other properties."),
    "C29": dict(
        level="exploration", quick_n=6000, batch=150,
        technique="deterministic simulation: storage roots of this and of other software with any layout and parameters, identifiers at the bounds of the layouts; places compared with an independent implementation of the definitions, also after reopening",
        rule="storage roots (created here, or written as other software does: no extension manager, parameters with default values left out) with layouts 0002, 0003, 0004, 0006, 0007, clean, direct and pairtree; identifiers at their bounds; non-trivial: at least one object was created, or an identifier without a place refused",
        note="Identifiers for which a definition leaves the place open are only required to be found again. The hash functions are those of the libraries."),
}

NA = {}
