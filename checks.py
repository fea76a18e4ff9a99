"""What each check runs, how much of it, and the rule by which its cases count."""

NOT_APPLICABLE = {}

CHECKS = {
    "C09": dict(
        pkg="rt", quick=dict(checks=3000), thorough=dict(checks=100000),
        technique="property-based testing: random error chains through generated client and proxy, oracle from the original chain",
        note="Random exploration of error chains over the fixture service (in-memory HTTP); trusts the harness's own walk of the original chain.",
        rule="a case is an error chain built from sentinels, custom types and wrappers, returned by a service over a real HTTP round trip (0-3 forwarding hops); non-trivial when it has at least one wrapper or custom type"),
    "C10": dict(
        pkg="rt", quick=dict(checks=20000), thorough=dict(checks=100000),
        technique="property-based testing: random instants in every position, round trip and wire value against independent reference",
        note="Random exploration of instants, zones and positions in both encodings over the fixture service.",
        rule="a case is a call carrying time values (or one instant in every position); non-trivial when it carries at least one non-zero time"),
    "C12": dict(
        pkg="rt", quick=dict(checks=6000), thorough=dict(checks=100000),
        technique="structure-aware fuzzing of request sequences against a protocol model",
        note="Random request sequences against the fixture's generated proxy; bodies whose decodability the model does not know are only held to the frame conditions (400 without a call, or 200 with one).",
        rule="an evaluation is one HTTP request of a sequence on one proxy; non-trivial unless it is a plainly valid call"),
}
CHECKS["C13"] = dict(
    pkg="rt", quick=dict(checks=15000), thorough=dict(checks=80000),
    technique="fault injection at the HTTP transport with generated faults, responses and cancellation points",
    note="Random faults through a stub transport, raw and generated client; responses of unknown decodability are held to the no-panic, close and error-type conditions only.",
    rule="a case is one client call with a generated response or fault; every case counts except JSON replies with error interfaces, which are outside of the protocol")
CHECKS["C14"] = dict(
    pkg="rt", quick=dict(checks=2500), thorough=dict(checks=100000),
    technique="stateful model-based testing of client configuration histories against a recorded-request model",
    note="Random histories over several clients, transports, factories, header sets and encodings; requests are recorded by stub transports.",
    rule="an evaluation is one call within a history; non-trivial when something was configured before it")
CHECKS["C16"] = dict(
    pkg="rt", quick=dict(checks=3000), thorough=dict(checks=120000),
    technique="property-based and differential testing (msgpack against JSON, any content type) with an independent peer codec",
    note="Random calls of the fixture with random content types on both sides.",
    rule="a case is one call with a content type on the request or reply; non-trivial when values travel in the encoding under test")
CHECKS["C15"] = dict(
    pkg="rt", quick=dict(checks=5000), thorough=dict(checks=80000),
    technique="stateful property-based testing of request sequences with nested calls, every record and monitor call judged against the request",
    note="Random sequences (also nested requests) against the fixture's instrumented proxy; durations are bounded by the harness's own clock readings.",
    rule="an evaluation is one request to an instrumented or plain service; each counts once per distinct content")
CHECKS["C20"] = dict(
    pkg="rt", quick=dict(checks=3500), thorough=dict(checks=20000),
    technique="stateful model-based testing: metric deltas of every request of random sequences against a model of the observations",
    note="Random request sequences over one to three instrumented services on a fresh default registry.",
    rule="an evaluation is one request (or GoRPC record) of a sequence; counted once per distinct content")
CHECKS["C21"] = dict(
    pkg="rt", quick=dict(checks=3000), thorough=dict(checks=15000),
    technique="round-trip and differential property-based testing against an independent codec handle, byte fuzzing, registration histories in child processes",
    note="Random values of some 25 types, random and mutated bytes, random registration orders of JSON and msgpack extensions.",
    rule="a case is a value, a byte string or a registration history with values; non-trivial when it is not empty")
CHECKS["C22"] = dict(
    pkg="rt", race=True, procs=4, shrink="20s", quick=dict(checks=250, workers=4), thorough=dict(checks=8000, workers=4),
    technique="property-based testing of concurrent call histories under the race detector, every result and record judged against its own call",
    note="Schedules are those the Go scheduler produces for generated goroutines, yields and gates, not enumerated; races are found by the race detector.",
    rule="an evaluation is one call made while other goroutines use the same clients, proxy, handlers or codec handles; every call counts")
CHECKS["C18"] = dict(
    pkg="rt", quick=dict(checks=1000), thorough=dict(checks=120000),
    technique="property-based testing of generated YAML documents in many spellings against the model they were written from, fuzzing of malformed ones",
    note="Random configurations, spellings, locations, working directories and go.mod files; documents of known malformedness must be refused.",
    rule="a case is one configuration file with its surroundings, or one malformed or mutated file; non-trivial when it contains anything")
CHECKS["C11"] = dict(
    pkg="rt", quick=dict(checks=8000), thorough=dict(checks=80000),
    also=[dict(pkg="gen", shrink="15s", quick=dict(checks=16, budget=60), thorough=dict(checks=350))],
    technique="property-based testing of unions in every position against the reference JSON of their active member, also in random generated programs, with generated TypeScript unions against independently stated types",
    note="Random union values through generated proxies, of fixed and of generated programs.",
    rule="an evaluation is one reply (or argument list) with unions, or one TypeScript union compared with its reference; non-trivial when a union occurs in it")
CHECKS["C01"] = dict(
    pkg="gen", quick=dict(checks=28, budget=110), thorough=dict(checks=400),
    technique="property-based testing of generated programs: random services and types, generated, compiled and called with random values, oracle from the values themselves",
    note="Random programs of the supported type system; the transport is in memory.",
    rule="an evaluation is one call of a method of a generated program through its generated Go client in one encoding; non-trivial when it has arguments or results")
CHECKS["C17"] = dict(
    pkg="gen", quick=dict(checks=28, budget=110), thorough=dict(checks=400),
    technique="property-based testing of generated programs called through their generated GoRPC clients with random values and faults",
    note="Random programs of the types gob transports, over loopback TCP.",
    rule="an evaluation is one GoRPC call of a method of a generated program; non-trivial when it has arguments or results")
CHECKS["C02"] = dict(
    pkg="gen", shrink="15s", quick=dict(checks=34, budget=110), thorough=dict(checks=350),
    technique="property-based testing of generated programs: their TypeScript clients run in node against the generated Go proxies with random values",
    note="Random programs of the supported type system; the transport is a recording one over loopback HTTP.",
    rule="an evaluation is one call of a method through its generated TypeScript client; non-trivial when it has arguments or results")
CHECKS["C03"] = dict(
    pkg="gen", shrink="15s", quick=dict(checks=26, budget=110), thorough=dict(checks=350),
    technique="property-based testing of generated programs: generated TypeScript against independently stated types under tsc --strict, wire JSON of random calls against the declared types",
    note="Random programs of the supported type system.",
    rule="an evaluation is one exported type, client method or client compared with its reference, or one argument or result on the wire judged by its declared type; all count")
CHECKS["C04"] = dict(
    pkg="gen", quick=dict(checks=220, budget=110), thorough=dict(checks=1500),
    technique="property-based testing of generated programs: run-time values of generated enums against the constants of random packages",
    note="Random constant declarations in all spellings and groupings of literal values.",
    rule="an evaluation is one scalar type that reaches TypeScript; non-trivial when it has constants")
CHECKS["C19"] = dict(
    pkg="gen", quick=dict(checks=90, budget=110), thorough=dict(checks=1200),
    technique="property-based testing of generated programs: the generated Go code is compiled with type assertions stating the API from the program's own description",
    note="Random programs of the supported type system.",
    rule="an evaluation is one service method of a generated program whose proxy and clients are compiled against the stated signatures; all count")
CHECKS["C06"] = dict(
    pkg="gen", quick=dict(checks=32, budget=110), thorough=dict(checks=400),
    technique="property-based testing of generated configurations: files, declarations, exports and default endpoints against what the configuration states",
    note="Random configurations of random programs.",
    rule="an evaluation is one configured file, proxy, client or exported type that is looked for where the configuration puts it; all count")
CHECKS["C05"] = dict(
    pkg="gen", quick=dict(checks=64, budget=110), thorough=dict(checks=1500),
    technique="stateful property-based testing: random histories of runs, edits, moves and damage; every run compared with a clean run and with the files before it",
    note="Random histories over random programs and configurations.",
    rule="an evaluation is one run of the generator within a history, compared with a clean run; all count")
CHECKS["C07"] = dict(
    pkg="gen", quick=dict(checks=220, budget=110), thorough=dict(checks=5000),
    technique="property-based testing of random layouts of modules, replacements, module cache, vendor and GOPATH directories; differential against the go command's own resolution",
    note="Random layouts; every directory declares the same type names with distinguishing fields.",
    rule="an evaluation is one mention of a type in a method or field whose generated fields are compared with those in the directory the go command resolves; all count")
CHECKS["C08"] = dict(
    pkg="gen", quick=dict(checks=500, budget=110), thorough=dict(checks=5000),
    technique="property-based testing with fault injection into random programs and configurations, and mutation fuzzing of their files; oracle: exit status, messages and files",
    note="Known fatal faults must be reported; mutated input must neither panic nor hang the generator nor be accepted without writing all files.",
    rule="an evaluation is one run of the generator with at least one fault that makes a complete output impossible, or one run on mutated files; all count")
