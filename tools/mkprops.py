#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so the wording stays reviewable."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

LIB = ["src/lib.rs", "src/ast.rs", "src/jsonschema.rs", "src/avro.rs", "src/bigquery.rs"]
CLI = ["src/main.rs"]

prop("C01", "Same schema and options give the same output in every process",
     "Converting one JSON Schema with one set of options yields the identical Avro schema and the identical BigQuery schema every time and in every process, including the order of fields and all names, types, modes and descriptions. The result never depends on the per-process random order in which hash tables are enumerated, on memory addresses, on the clock or on the log level.",
     ["schedules", "inputs", "configurations"],
     "All hash-table enumeration orders the runtime may pick, clock readings and heap layouts, for every schema, option set and output format.",
     "Each test converts a fixed schema once per test process under one random enumeration order; a dependence on the order shows only as an occasional flake, and only for inputs on which two orders differ.",
     LIB,
     [("fields sorted by name before they are emitted", "src/avro.rs Record fields, src/bigquery.rs fields_as_vec and Schema"),
      ("order-free merging of properties", "src/ast.rs Union::collapse, Tag::normalize_properties")],
     ["return value of convert_avro / convert_bigquery"],
     [("hash-table enumeration order", "random per thread and per table; decides the order in which properties, required names and patterns are visited", "src/ast.rs Object, src/jsonschema.rs Object")])

prop("C02", "Colliding property names resolve the same way every time",
     "When two or more properties of one object are renamed to the same column name (for example by replacing dots and dashes, by prefixing digits, or by snake-casing), which property supplies that column's type, nullability, description and sub-columns is the same on every run. It depends only on the schema and the options, not on the order in which the properties happen to be enumerated in memory.",
     ["schedules", "inputs", "configurations"],
     "All enumeration orders of the property table, for every set of colliding names at any depth, with and without case normalisation, for both formats.",
     "No test contains two properties that collide after renaming, and one run samples one enumeration order.",
     ["src/ast.rs", "src/casing.rs"],
     [("rename of properties and of required names", "src/ast.rs Tag::normalize_properties")],
     ["return value of convert_avro / convert_bigquery"],
     [("column name -> property", "the last property renamed to a name wins", "src/ast.rs Tag::normalize_properties")])

prop("C03", "Merged map and union alternatives do not depend on enumeration order",
     "When the schemas under several patternProperties (with or without additionalProperties) or several union alternatives are merged into one value type, the merged type, its nullability and the nullability of every nested column are the same on every run. The merge depends only on the schema and the options, not on the in-memory enumeration order of the patterns or of the merged objects' properties.",
     ["schedules", "inputs"],
     "All enumeration orders of the pattern table and of the property tables of merged objects, for every mix of alternatives.",
     "Only two tests use patternProperties, with at most two patterns whose merge happens to be symmetric; one run samples one order.",
     ["src/jsonschema.rs", "src/ast.rs"],
     [("union of pattern values", "src/jsonschema.rs atom_into_ast, map branch"), ("union collapse", "src/ast.rs Union::collapse")],
     ["return value of convert_avro / convert_bigquery"],
     [("alternatives of a map value", "list built by enumerating a hash table", "src/jsonschema.rs Object.pattern_properties")])

prop("C04", "Whether a schema is accepted or rejected is reproducible",
     "For one schema and one set of options, conversion either always returns a schema or always fails (panics); it never accepts on one run and rejects on another. This holds for each output format and in each resolution mode (cast, drop, panic), with and without tuple structs and maps without value.",
     ["schedules", "inputs", "configurations"],
     "All enumeration orders of the tables visited while resolving incompatible or under-specified parts, for every schema and option set.",
     "The should_panic tests use schemas with one incompatible part, so that only one order exists; each runs once.",
     LIB,
     [("resolution of incompatible parts", "handle_error in src/avro.rs and src/bigquery.rs"), ("errors of tuples and arrays", "src/jsonschema.rs atom_into_ast")],
     ["return or panic of convert_avro / convert_bigquery"])

prop("C05", "A conversion is independent of the conversions before it",
     "Within one process, the result of converting a schema (Avro, BigQuery) or of snake-casing a name equals the result the same call gives as the first call of a fresh process. Nothing carries over from earlier calls: not their schemas, options, formats, names, identifiers or addresses, whether the calls ran on the same thread or on others.",
     ["histories", "inputs", "configurations"],
     "All sequences of calls, including many similar schemas, the same schema under different options, schemas updated in place at the same address, and long sequences.",
     "Tests call the converter on unrelated schemas once or twice per process and never compare a call with the same call in a fresh process.",
     LIB + ["src/casing.rs"],
     [("options are passed by value and rebuilt per call", "src/lib.rs convert_avro, convert_bigquery, into_ast"), ("lazily built regular expressions", "src/casing.rs (oniguruma)")],
     ["return value of convert_avro / convert_bigquery / to_snake_case"])

prop("C06", "A failed conversion leaves no trace in the process",
     "After a conversion fails part-way, because its schema or options are unusable or because the application's log sink panics in the middle of it, every later conversion in the process gives exactly the result it would give in a fresh process. This holds on the failing thread and on all others; nothing stays locked, poisoned or half-updated.",
     ["crash_points", "histories", "inputs"],
     "All points at which a conversion can be cut short (bad type, bad regular expression, unresolved part in panic mode, a panic in any log call), followed by any sequence of conversions.",
     "should_panic tests end with the panic; no test makes another call after one.",
     LIB + ["src/casing.rs"],
     [("no process-global mutable state", "src/lib.rs")],
     ["return value or panic of the calls after the failed one"])

prop("C07", "Concurrent conversions give the same results as sequential ones",
     "Any number of threads may convert schemas and snake-case names at the same time; each call returns exactly what it returns when it is the only call in a fresh process, under every interleaving, also when the calls are the first ones of the process. No interleaving deadlocks or livelocks.",
     ["schedules", "inputs", "configurations"],
     "All interleavings of two or more concurrent calls with any schemas, options and formats, including the first use of lazily initialised state.",
     "The tests run in parallel only by accident of the test harness, under interleavings nobody controls, and on inputs that do not conflict.",
     LIB + ["src/casing.rs"],
     [("no shared mutable state; one lazily initialised regular expression pair", "src/casing.rs (oniguruma)")],
     ["return value of each concurrent call"])

prop("C08", "A document's JSON-column setting affects that document only",
     "The pattern in a schema's mozPipelineMetadata.json_object_path_regex decides which columns become JSON in the conversion of that schema and in no other: not in conversions that run before, after or at the same time, with or without a pattern of their own, and also when the conversion that carried the pattern failed. Conversely a schema's own pattern is always applied to it.",
     ["histories", "schedules", "inputs"],
     "All sequences and interleavings of conversions with absent, different, overlapping and invalid patterns.",
     "The two tests with a pattern convert one schema once.",
     ["src/lib.rs", "src/bigquery.rs"],
     [("pattern copied into the call's own options", "src/lib.rs into_ast"), ("match per column", "src/lib.rs Context::is_json_object_path")],
     ["return value of convert_bigquery"])

prop("C09", "The command's result does not depend on how its input is delivered",
     "For every input document and flag set, the command prints exactly the library's conversion with the corresponding options, pretty-printed and followed by one newline, and exits 0; or, if the library rejects it, prints nothing on standard output and exits non-zero. This holds whether the document comes from standard input, from - or from a file, however it is split into reads, and however many reads and writes are interrupted or short.",
     ["schedules", "fault_sequences", "inputs", "configurations"],
     "All ways to split the input and output byte streams into short, interrupted and delayed operations, over all documents, flags and input routes.",
     "No test runs the command at all; the tests call the library on values already in memory.",
     CLI + ["src/lib.rs"],
     [("reader selection and buffered parse", "src/main.rs main"), ("mapping of flags to options", "src/main.rs main")],
     ["standard output and exit status of the command"])

prop("C10", "Broken input never yields a schema",
     "If reading the input fails at any point (the file cannot be opened, a read returns an error, even after the last byte of the document), or if the bytes delivered before end of file are not one complete JSON document (cut short, torn between two versions, corrupted, followed by other data), the command exits non-zero and prints nothing on standard output. It prints a schema only for exactly the document whose bytes it received in full.",
     ["fault_sequences", "crash_points", "inputs"],
     "All points and kinds of input failure: errors at open or at any read, end of file at any byte, mixed old and new contents, altered bytes, over all documents and flags.",
     "No test runs the command or feeds it failing input.",
     CLI,
     [("whole-stream parse that must reach end of file", "src/main.rs serde_json::from_reader"), ("open error ends the run", "src/main.rs File::open")],
     ["standard output and exit status of the command"])

prop("C11", "Exit status 0 means the whole schema was written",
     "The command exits 0 only if every byte of the schema and its final newline was accepted by standard output. If standard output fails for good at any point (disk full, broken pipe, I/O error, no progress), the command exits non-zero, and what was written is an unaltered prefix of the correct output.",
     ["fault_sequences", "crash_points", "inputs"],
     "All positions and kinds of output failure, single and persistent, mixed with short and interrupted writes, over all documents and flags. A standard output closed before the start is outside (the runtime reopens it on /dev/null).",
     "No test runs the command or makes its output fail.",
     CLI,
     [("print that fails loudly and flushes at the final newline", "src/main.rs println!")],
     ["bytes accepted by standard output, exit status"])

prop("C12", "Diagnostics never change the result",
     "Standard output and the success or failure of the command are the same whatever log level is selected (RUST_LOG unset or any valid level) and whatever happens to standard error: healthy, slow, short, interrupted, full, broken or failing. No diagnostic text ever appears on standard output.",
     ["fault_sequences", "configurations", "inputs"],
     "All log levels and all failure kinds and positions on standard error, over all documents and flags.",
     "No test enables logging or runs the command.",
     CLI + LIB,
     [("logging to standard error with errors ignored", "src/main.rs env_logger::init"), ("log statements without side effects", "src/ast.rs, src/avro.rs, src/bigquery.rs")],
     ["standard output and exit status of the command"])

prop("C13", "Running out of memory never produces a wrong schema",
     "If a memory allocation fails at any point of a run, once or from then on, the command either still completes with exactly the correct output and exit status 0, or ends with a non-zero status (or a signal) having printed at most an unaltered prefix of the correct output. It never reports success with missing, shortened or altered output, and never prints output for a document it had not read completely.",
     ["fault_sequences", "inputs"],
     "All allocation indices as the point of failure, single and persistent, over all documents and flags.",
     "No test makes an allocation fail.",
     CLI + LIB,
     [("abort on allocation failure", "Rust runtime; no fallible-allocation path in src/")],
     ["standard output and exit status of the command"])

prop("C14", "The command always ends: no retry loops, bounded I/O",
     "Once interruptions stop, the command finishes after a number of read and write calls bounded by the sizes of the pieces delivered and accepted; on a persistent error or lack of progress on its input or output it ends with a non-zero status after at most a fixed number of further attempts instead of retrying forever. It never waits on a timer, and after end of file it asks for more input at most a fixed number of times.",
     ["fault_sequences", "schedules", "inputs"],
     "All finite sequences of short and interrupted operations, and persistent failures of every kind at every position, on input and output.",
     "No test runs the command, so none can hang.",
     CLI,
     [("errors other than interruption end the run", "src/main.rs")],
     ["number of I/O calls, exit status"])

prop("C15", "The command's output is byte-for-byte reproducible across environments",
     "For one document and one set of options, two runs of the command print byte-identical standard output and agree on success, whatever the process's random hash seeds, memory layout, clock, environment variables (locale, time zone, terminal, home, backtrace settings), working directory, program name, input file name, and spelling or order of the flags.",
     ["configurations", "schedules", "inputs"],
     "All combinations of process-level nondeterminism and environment, over all documents and options.",
     "No test runs the command, let alone twice in different environments.",
     CLI + LIB,
     [("result computed from the parsed value and flags alone", "src/main.rs")],
     ["standard output and exit status of the command"])

prop("C16", "The batch script leaves exactly the schemas that converted",
     "After scripts/mps-generate-schemas.sh has run over a tree of schemas, the output directory holds one file per schema whose conversion succeeded, each the command's complete output under the given flags, and nothing for schemas whose conversion failed or was cut short; the failed ones are named and the final count is right. If the script itself is killed at any point, running it again gives the same directory as an undisturbed run.",
     ["crash_points", "fault_sequences", "schedules"],
     "All orders in which the schema files are enumerated, any set of conversions failing by bad input, full disk, kill or memory exhaustion at any point, and a kill of the script before, during or after any conversion.",
     "The scripts are not covered by any test.",
     ["scripts/mps-generate-schemas.sh", "src/main.rs"],
     [("output removed when the command fails; directory rebuilt from scratch", "scripts/mps-generate-schemas.sh")],
     ["contents of the output directory, the script's standard output"])

prop("C17", "Test generation is reproducible and recovers from interruption",
     "The build step writes byte-identical generated tests and formatted resources whatever order the directory is listed in and however its reads and writes are split or interrupted, and formatting is stable when repeated. If its I/O fails it exits non-zero, and if it fails or is killed at any point, running it again gives the undisturbed result: always when formatting is off, and from the resource or its backup when formatting and backups are on.",
     ["schedules", "fault_sequences", "crash_points"],
     "All directory orders, split and interrupted I/O, output failures and kill points of the build step, followed by a rerun.",
     "CI only checks that one undisturbed build leaves the committed tests unchanged.",
     ["build.rs"],
     [("sorted resource paths", "build.rs main"), ("backup before formatting", "build.rs write_backup"), ("errors unwrap to a failed build", "build.rs")],
     ["generated files, resource files, exit status of the build step"])

prop("C18", "An interrupted run leaves nothing behind but a prefix of its output",
     "If the command is killed or terminated at any point, standard output holds an unaltered prefix of the correct output, and no byte of it was printed before the whole input had been read to its end. Whether a run completes, fails or is killed, it creates, changes or removes no file, starts no other process and opens no network connection.",
     ["crash_points", "fault_sequences", "inputs"],
     "All kill points (before, during and after each I/O call), mixed with input and output faults, over all documents and flags.",
     "No test runs the command or inspects side effects.",
     CLI,
     [("read all, convert, then print", "src/main.rs main")],
     ["standard output, file-system and process effects"])

prop("C19", "The data script leaves only complete Avro files",
     "After scripts/mps-generate-avro-data.sh has run, avro-data holds for each document set that encoded one complete Avro file with every document of the set, converted and in order, and no file for a set whose encoding failed: because its data is cut short or unreadable, a document does not fit the schema or the schema is missing, reading or writing failed, or the helper was killed. The failed sets are named and the final count is right. If the script itself is killed at any point, running it again gives the same folder as an undisturbed run.",
     ["crash_points", "fault_sequences", "inputs"],
     "Any set of helper runs failing by torn data, misfitting documents, I/O errors or full disk at any byte or a kill at any point, and a kill of the script before, during or after any of them.",
     "The scripts are not covered by any test.",
     ["scripts/mps-generate-avro-data.sh", "scripts/mps-generate-avro-data-helper.py"],
     [("file removed when the helper fails", "scripts/mps-generate-avro-data.sh"), ("conversion and write, errors end the helper", "scripts/mps-generate-avro-data-helper.py")],
     ["contents of avro-data, the script's standard output"])

prop("C20", "The load script's count is what BigQuery holds",
     "When scripts/mps-load-avro-bq.sh prints its count (a/b loaded successfully, k skipped), each data set of avro-data was either given to BigQuery, from its own uploaded object into the table of its own name, or skipped because SKIP_EXISTING is set and that very table was there; a of the b sets given to BigQuery were accepted, each of their tables holds exactly the data of the local file, and k were skipped. This holds whichever of gcloud, gsutil and bq fail, are cut short, are killed or fail after the fact, and whatever an earlier run left in the cloud; without a failure during the upload or the creation of the dataset there is a count, and a set is only counted as failed if BigQuery refused it. If the script is killed at any point, running it again gives the same.",
     ["crash_points", "fault_sequences", "inputs"],
     "Any sequence of failures of the cloud programs, any state of bucket and dataset, and a kill of the script before, during or after any program it starts.",
     "The scripts are not covered by any test.",
     ["scripts/mps-load-avro-bq.sh"],
     [("upload, then one load per data set", "scripts/mps-load-avro-bq.sh"), ("tables that exist are skipped on request", "scripts/mps-load-avro-bq.sh SKIP_EXISTING")],
     ["tables and objects of the cloud, the script's standard output"])

prop("C21", "A successful download of the schemas is complete",
     "scripts/mps-download-schemas.sh exits 0 only if every file below schemas/ of the archive is in schemas/ with exactly its content and the archive itself is removed again; whatever happens, it writes nothing outside schemas/ but that archive, and files of schemas/ that the archive does not have are not changed. It fails only if the download or the unpacking failed: cut short, refused, an error page, killed, failed after the fact. While nothing could be downloaded, the schemas of an earlier run stay as they were. After a failure, or a kill at any point, running it again gives the complete set.",
     ["crash_points", "fault_sequences", "inputs"],
     "Any archive and earlier state, any failure of curl and tar, and a kill of the script before, during or after any program it starts.",
     "The scripts are not covered by any test.",
     ["scripts/mps-download-schemas.sh"],
     [("download, unpack, remove the archive", "scripts/mps-download-schemas.sh")],
     ["files of the working folder, exit status"])

prop("C22", "A successful download of the samples is complete",
     "scripts/mps-download-sampled-data.py exits 0 only if data holds, for every schema of schemas/ that the sample has documents for, a file with exactly those of the documents, of all the parts and pages of the sample, that are valid under the schema, each whole and on a line of its own; other files of data are not changed. It does so whatever requests fail, whichever bodies are cut short, reads and writes fail or are short, and after an earlier run that failed or was killed at any point. It fails only if something failed or the sample is malformed.",
     ["crash_points", "fault_sequences", "inputs"],
     "Any sample, schemas and earlier state, any failing request, read or write, and a kill at any I/O event.",
     "The scripts are not covered by any test.",
     ["scripts/mps-download-sampled-data.py"],
     [("listing, filtering and writing of the sampled documents", "scripts/mps-download-sampled-data.py")],
     ["files of data, exit status"])

# Pure functions of the input: stated for completeness, decided by no simulation.
PURE = "Holds or fails as a pure function of the input; the tests sample a few dozen fixed schemas out of an unbounded input space."
def pure(id, title, st, text, files, mech, obs):
    prop(id, title, st, ["inputs", "configurations"], text, PURE, files, mech, obs)

pure("C30", "Every BigQuery column name is valid and unique in its record",
     "Every column name in BigQuery output consists of ASCII letters, digits and underscores, does not start with a digit, and occurs once per record; with case normalisation it is in snake case. Properties whose names cannot be made valid are omitted.",
     "Every schema and option set.", ["src/ast.rs", "src/bigquery.rs"], [("renaming", "src/ast.rs normalize_name_bigquery")], ["BigQuery output"])
pure("C31", "Avro output is a valid Avro schema",
     "Avro output parses as an Avro schema: field names are valid and unique per record, full record names are unique, no union is directly inside a union, and every null default belongs to a union whose first branch is null.",
     "Every schema and option set.", ["src/avro.rs", "src/ast.rs"], [("record names from the path", "src/ast.rs infer_name")], ["Avro output"])
pure("C32", "A column is required only if every valid document has a non-null value",
     "A column of either output is required or non-nullable only if the schema requires the property at every alternative and does not admit null for it. Every document valid under the JSON Schema can be stored under the generated schema after the documented renames and casts.",
     "Every schema, option set and valid document.", ["src/ast.rs"], [("nullability inference", "src/ast.rs infer_nullability, Union::collapse")], ["both outputs"])
pure("C33", "force-nullable leaves no required column",
     "With force_nullable every column that is not repeated is NULLABLE in BigQuery output and every field type is a union with null, with a null default, in Avro output, at every depth; everything else is as without it.",
     "Every schema and option set.", ["src/ast.rs"], [("infer_nullability(force_nullable)", "src/ast.rs")], ["both outputs"])
pure("C34", "Resolution modes: cast keeps, drop removes, panic rejects",
     "Drop output is the cast output with exactly the incompatible or under-specified parts removed; panic succeeds exactly when no such part exists and then equals both. Compatible schemas convert identically in all three modes.",
     "Every schema and option set.", ["src/avro.rs", "src/bigquery.rs"], [("handle_error", "src/avro.rs, src/bigquery.rs")], ["both outputs"])
pure("C35", "Types are translated faithfully",
     "Each JSON type maps to its documented column type (boolean, integer, number, string, date-time, bytes, object, array, map, tuple), and the union of types is the narrowest documented supertype.",
     "Every schema.", LIB, [("type tables", "src/avro.rs, src/bigquery.rs, src/ast.rs Union::collapse")], ["both outputs"])
pure("C36", "Avro and BigQuery outputs describe the same structure",
     "For one schema and option set the Avro record tree and the BigQuery column tree have the same paths, the same nullability and corresponding types, so data encoded with the Avro schema loads into the BigQuery table.",
     "Every schema and option set.", ["src/avro.rs", "src/bigquery.rs"], [("shared intermediate tree", "src/ast.rs")], ["both outputs"])
pure("C37", "JSON columns appear exactly at the configured paths",
     "A column is of type JSON exactly if its fully qualified path matches the configured pattern from its beginning and its content is under-specified or incompatible.",
     "Every schema and pattern.", ["src/lib.rs", "src/bigquery.rs"], [("is_json_object_path", "src/lib.rs")], ["BigQuery output"])
pure("C38", "Descriptions are preserved and fit BigQuery's limit",
     "A column's description is the title and description of its property joined in that order, cut to at most 1024 characters on a character boundary.",
     "Every title and description.", ["src/bigquery.rs"], [("truncation", "src/bigquery.rs")], ["BigQuery output"])
pure("C39", "Snake-casing is idempotent and the same in both implementations",
     "Snake-casing a snake-cased name returns it unchanged, and the default and the oniguruma build give the same name for every valid column name.",
     "Every name.", ["src/casing.rs"], [("two implementations behind a feature", "src/casing.rs")], ["to_snake_case"])
pure("C40", "Tuples become structs of the right width and nullability",
     "With tuple structs on, an accepted tuple schema becomes a record with one field per allowed position, in order, required exactly up to the minimum length; other tuple schemas are rejected. With it off, tuples are resolved as incompatible parts.",
     "Every tuple schema.", ["src/jsonschema.rs", "src/avro.rs", "src/bigquery.rs"], [("tuple validation subset", "src/jsonschema.rs")], ["both outputs"])
pure("C41", "Adding an optional property only adds a column",
     "Adding a property that is not required to an object changes the output only by adding that property's nullable column; existing columns keep their names, types and modes.",
     "Every pair of such schemas whose names do not collide.", LIB, [("per-property translation", "src/ast.rs")], ["both outputs"])
pure("C42", "Cast mode accepts every well-formed schema",
     "In cast mode with tuple structs off, every schema that is valid under the JSON Schema draft-4 meta-schema converts to a schema without panicking.",
     "Every well-formed schema.", LIB, [("handle_error in cast mode", "src/avro.rs, src/bigquery.rs")], ["return or panic"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
