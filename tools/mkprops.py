#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that it stays easy to review and edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": list(files),
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": list(observe), "hook_needed": hook}})

DOMAIN = ("Supported Go: exported services (an interface, or methods on a pointer to a struct) whose methods take an optional leading "
  "(http.ResponseWriter, *http.Request) pair plus named parameters and return named or unnamed results, built from bool, string, every int/uint/float width, "
  "[]byte, time.Time, slices, maps with string/number/named-scalar keys, pointers to scalars and structs, structs (tags, omitempty, ignored, inline, nested, recursive, anonymous), "
  "named scalars/slices/maps/enums, unions, interface{} and error results, spread over one or more packages.")

prop("C01", "Generated Go HTTP clients behave like direct calls",
 "Calling a service method through its generated Go HTTP client, with either wire encoding (msgpack or JSON), runs exactly that method of the service once with arguments equal to the ones passed, in their positions, and hands back the method's results equal and in order, with a nil client error. "
 "Equality is up to what an encoding can represent (JSON: times to the millisecond, nil and empty collections distinguished, strings as valid UTF-8, no errors other than nil). "
 "Methods that take the HTTP response writer and request get the live pair and, if they do not write a non-200 status themselves, answer like any other method.",
 ["programs", "inputs", "configurations"],
 "For every supported service declaration, every argument and result value of its types, and both client encodings. " + DOMAIN,
 "Tests call the few methods of the checked-in examples with one or two literal values; the guarantee ranges over all service declarations the generator accepts and all values of their types.",
 ["go.go", "servicereader.go", "typereader.go", "client.go", "gotsrpc.go", "transport.go"],
 [("generated proxy: dispatch on the last path element, argument pointers in declaration order, results in order", "go.go renderTSRPCServiceProxies"),
  ("generated client: same argument and result order", "go.go renderTSRPCServiceClients, newMethodSignature"),
  ("codec handles for both encodings", "transport.go init"), ("argument loading and replying", "gotsrpc.go LoadArgs, Reply"), ("client call", "client.go bufferedClient.Call")],
 observe=["arguments the service receives", "values and errors the generated client returns"])

prop("C02", "Generated TypeScript clients behave like direct calls",
 "Calling a method of a generated TypeScript client class sends one transport call naming exactly that Go method with the arguments in declaration order, so that the service receives arguments equal to the values the caller passed. "
 "The promise resolves to nothing for a method without results, to the bare result for one result, and to an object keyed by the results' names (or ret, ret_1, ret_2, ... when unnamed) for several. "
 "Methods are named like the Go methods with a lower-case first letter, HTTP writer/request parameters are not part of the TypeScript signature, and the class carries the configured endpoint as its default.",
 ["programs", "inputs", "configurations"],
 "For every supported service declaration with TypeScript output and every argument and result value. " + DOMAIN,
 "The example clients are only type-checked by tsc, never run against a server by a test; wrong argument order or a swapped result name of the same type compiles.",
 ["typscriptclient.go", "typescript.go", "servicereader.go", "go.go", "gotsrpc.go"],
 [("client class rendering", "typscriptclient.go renderTypescriptClient"), ("result object mapping", "typscriptclient.go responseObject"), ("proxy on the Go side", "go.go renderTSRPCServiceProxies")],
 observe=["method name and argument list handed to the transport", "value the promise resolves to", "arguments received by the Go service"])

prop("C03", "Generated TypeScript types describe the JSON on the wire",
 "The generated TypeScript files compile under tsc --strict, and every argument and result the Go side encodes as JSON is a value of the TypeScript type generated for it: same property names, no undeclared properties, each property's value admitted by its declared type (null included where Go can be nil), optional exactly where omitempty can drop it. "
 "The types are precise: scalar kinds, element, key and value types, references to other generated types across packages, inlined fields, overridden types and ignored fields correspond one to one to the Go declaration, never widened to any except for interface types.",
 ["programs", "inputs", "configurations"],
 "For every supported Go type reachable from a service of a target with TypeScript output, every value of it, and every layout of packages and mappings. " + DOMAIN,
 "The golden files cover only the shapes that the six examples happen to use, and compare text, not meaning: that a nil slice nested in a map value is admitted by the type is nowhere checked.",
 ["typescript.go", "typereader.go", "servicereader.go", "build.go", "transport.go", "timeext.go"],
 [("type mapping", "typescript.go Value.tsType, renderTypescriptStruct, renderStructFields"), ("struct tags", "typereader.go extractJSONInfo, readFieldList"), ("cross-file references", "build.go commonJSImports, deriveCommonJSMapping"), ("type collection", "servicereader.go collectTypes, DepsSatisfied")],
 observe=["tsc diagnostics for the generated files", "tsc diagnostics for wire values assigned to the generated types", "type-level equality with a reference rendering"])

prop("C04", "Generated TypeScript enums mirror the typed Go constants",
 "For every named string, number or bool type that reaches TypeScript, the generated declaration is an enum with one member per constant explicitly declared with that type and a literal value, or a plain alias of the underlying kind when it has none. "
 "A member is named after the constant (camel-cased, without a leading type name) and its run-time value equals the Go constant's value, independent of how the constants are grouped, ordered or spread over files.",
 ["programs", "inputs"],
 "For every named scalar type reachable through parameters, results, fields, slices, map keys and map values or listed in the mapping, and every set of explicitly typed literal constants (strings with any content, integers in any notation, floats) in any grouping and file layout.",
 "Examples declare a handful of string constants; other literals, layouts and names are untested.",
 ["servicereader.go", "typescript.go"],
 [("constant collection", "servicereader.go loadConstantTypes, Read, loadFlatStructs"), ("enum rendering", "typescript.go renderTypescriptStructsToPackages")],
 observe=["run-time content of the compiled enum objects", "type-level equality of aliases"])

prop("C05", "Generation is deterministic, idempotent and self-cleaning",
 "The files a generator run leaves behind depend only on the sources and the configuration: repeated runs, a second run over its own output, another working or checkout directory, stale or corrupt generated files from earlier runs, and the debug flag all yield byte-identical output. "
 "A TypeScript file whose content would not change is not rewritten, and a generated Go file the configuration no longer asks for is removed. "
 "A run touches no file other than the outputs the configuration names.",
 ["programs", "configurations", "histories"],
 "For every supported program and configuration and every history of generator runs, source/config edits and damage to generated files in between.",
 "The example test generates each checked-in example once into a clean directory; map iteration order makes a single comparison inconclusive and no test runs a history.",
 ["build.go", "go.go", "typescript.go", "servicereader.go", "typereader.go", "code.go"],
 [("removal of stale Go outputs", "build.go Build"), ("write only when changed", "build.go updateCode"), ("sorted names, methods, enum members, imports", "build.go, servicereader.go, typescript.go")],
 observe=["tree of files (content, mtime) before and after runs"])

prop("C06", "A target generates exactly what its configuration asks for",
 "For every target the generator writes the HTTP proxies and clients for exactly the services listed under tsrpc (clients unless skipped), the GoRPC proxies and clients for exactly those listed under gorpc, and a TypeScript client for exactly the tsrpc services (all services when the list is empty) at the target's output path. "
 "Every service is bound to the endpoint it is configured under as the default of its Go proxy, Go client and TypeScript client, every Go file lands in the target's package directory, and every referenced type is written to the output file of its package's mapping, together with the extra structs and scalars the mapping lists. "
 "Several targets sharing mappings each get their own files and contribute to the union of the types.",
 ["configurations", "programs"],
 "For every configuration: numbers of targets and services, endpoints, any subset of services in the rpc lists, the skip flag, output paths, module name/path forms, and mapping extras.",
 "Each example configuration names one target with one or two services; subsets, several targets and shared mappings are not exercised.",
 ["build.go", "config/config.go", "go.go", "typescript.go", "typscriptclient.go", "servicereader.go"],
 [("service selection", "config.Target.IsGoRPC / IsTSRPC and render loops"), ("paths", "build.go getPathForTarget, updateCode"), ("mapping extras", "build.go missingTypes / missingConstants")],
 observe=["set and location of written files", "declarations in them", "default endpoints at run time"])

prop("C07", "Types are resolved in the package Go itself would use",
 "A type mentioned in a service is looked up in the package its import denotes for the Go toolchain: the module under generation, a directory or version given by a replace directive, the module cache for a required version, a vendor directory, GOPATH or the standard library, under the name the file's import (alias or not) gives it. "
 "Packages sharing a base name, modules whose path is a prefix of another's, and same-named types in different packages are never confused with each other.",
 ["programs", "configurations"],
 "For every layout of packages over the module, replaced and required modules (nested, sibling and prefix-sharing module paths), vendor, GOPATH and GOROOT, and every import spelling a file may use when the package name equals the last path element or is aliased.",
 "All examples live in a single module and reference one or two of its packages.",
 ["gotsrpc.go", "servicereader.go", "build.go", "config/config.go"],
 [("directory resolution", "gotsrpc.go parseDir, parsePackage"), ("import table", "servicereader.go getFileImports, getPackagePath"), ("go.mod loading", "config/config.go LoadConfigFile")],
 observe=["fields of the generated TypeScript type (each candidate package declares a distinguishing field)"])

prop("C08", "Generation never succeeds silently with an incomplete result",
 "When the sources or configuration do not determine a complete output - an unknown package, a type or constant that cannot be found, a package without a mapping, source that does not parse, a target without services, an unusable config or output path - the generator exits with a non-zero status and a message on its output. "
 "It never panics or hangs, and a run that exits zero has written every file that the configuration asks for.",
 ["programs", "configurations", "fault_sequences"],
 "For every supported program and configuration with one or more faults injected: deleted/renamed types, packages, mappings, constants, syntax errors, missing or malformed config, unwritable outputs.",
 "Tests cover successful generation plus one config parse; no test asserts an exit status of a failing generation.",
 ["build.go", "servicereader.go", "typereader.go", "gotsrpc.go", "typescript.go", "cmd/gotsrpc/gotsrpc.go", "config/config.go"],
 [("exit codes", "build.go Build; cmd/gotsrpc/gotsrpc.go main"), ("unresolved type detection", "servicereader.go collectTypes"), ("missing mapping errors", "typescript.go renderTypescriptStructsToPackages")],
 observe=["exit status, output and files of the generator process"])

prop("C09", "Service errors survive the wire",
 "An error a service returns arrives at the msgpack Go client as an error with the same text, recognised by errors.Is for every sentinel in the original chain (sentinels are told apart by type and text) and decodable by errors.As into the concrete struct or scalar error types of the chain with their exported data, and as nil exactly when the service returned nil. "
 "Errors never match sentinels that differ in type or text from every error of the chain, nor types (including same-named types of other packages) that the chain does not contain, a struct-typed error result is restored in its own type, and converting or re-sending an already transported error changes nothing.",
 ["inputs", "histories"],
 "For every finite single-cause error chain built from stdlib and pkg/errors sentinels, stack/message wrappers, fmt %w wraps and exported custom error types (struct, scalar, pointer or value), nil and typed nil, over any number of forwarding hops.",
 "The error example's main is not a test; the few combinations it lists do not cover chains, forwarding or negative matches.",
 ["error.go", "transport.go", "client.go"],
 [("error flattening", "error.go NewError"), ("matching", "error.go Is, As, Unwrap, Error"), ("reply hooks", "transport.go msgpackClientHandle")],
 state=[("Error{Msg,Pkg,Type,Data,ErrCause}", "transportable image of one link of the chain", "error.go")],
 observe=["error value returned by the generated client", "errors.Is / errors.As / errors.Unwrap on it"])

prop("C10", "Points in time survive the wire",
 "Every time value - as argument, result, field, pointer, slice element or map value - arrives as the same instant: to the millisecond as a JSON number of milliseconds since the Unix epoch, to the nanosecond in msgpack. "
 "This holds before 1970, far in the past and future, for the zero time and in every time zone, and a nil time pointer stays nil.",
 ["inputs"],
 "For every instant in years 1 to 9999 and beyond the 64-bit nanosecond range, every location, and every position of a time in a supported type, in both encodings.",
 "The time example is only generated and compiled; no test sends a time.",
 ["timeext.go", "transport.go"],
 [("millisecond extension", "timeext.go ConvertExt / UpdateExt"), ("registration", "transport.go init")],
 observe=["JSON text on the wire", "time value received by service and client"])

prop("C11", "Unions are sent as their active member",
 "A union value is encoded in JSON as exactly the JSON of its first non-zero member and as null when all members are zero, wherever it occurs - result, field, slice element, map value, pointer or nested union. "
 "Every union type reachable from a target, in whatever package, is registered by the generated code alone, and its TypeScript type is the union of its members' types (for scalar unions: the merged constants).",
 ["programs", "inputs"],
 "For every set of union declarations (struct and scalar unions, any number of members, several packages) and every value with any set of members populated.",
 "The union example is only generated and compiled; no test encodes a union.",
 ["unionext.go", "go.go", "build.go", "typescript.go", "typereader.go"],
 [("first non-zero member", "unionext.go ConvertExt"), ("generated registration", "go.go renderInit; build.go unions"), ("TypeScript union", "typescript.go renderTypescriptStruct")],
 observe=["JSON reply bytes", "TypeScript type equality"])

prop("C12", "HTTP proxies follow their protocol for every request",
 "A generated HTTP proxy answers OPTIONS with an empty 200, any other non-POST method with 405, an unknown method path with 404, a body that does not decode into the argument list with 400, and everything else by running the addressed method exactly once and replying 200 with its results; in none of the refused cases does any service method run. "
 "If a method taking the response writer sends its own non-200 status, that response goes out unaltered and no results are appended. "
 "No request - method, path, headers, body bytes of any shape or truncation - makes the proxy panic or corrupts later calls.",
 ["inputs", "histories"],
 "For every HTTP method, path under and outside the endpoint, content type, and body: valid, mutated, truncated, with missing or surplus arguments, or arbitrary bytes, in both encodings, in any sequence on one proxy.",
 "Tests cover one helper and a few happy-path calls; malformed bodies are never sent.",
 ["go.go", "gotsrpc.go", "responsewriter.go", "transport.go"],
 [("method and path dispatch", "go.go renderTSRPCServiceProxies; gotsrpc.go GetCalledFunc"), ("refusals", "gotsrpc.go Error* helpers"), ("status tracking", "responsewriter.go")],
 observe=["status, headers and body of the response", "invocation counters of the service"])

prop("C13", "Go clients report every failure and nothing else",
 "A client call returns nil exactly when a 200 response arrived in full and decoded into the result variables. "
 "Otherwise it returns a client error whose chain exposes the cause: the status code and body text of a non-200 response, the context's error on cancellation or deadline, the transport's error, or the encoding or decoding failure; the generated client adds which call failed. "
 "The response body is always closed, result variables are untouched unless a 200 response is decoded, and no response bytes make the client panic.",
 ["inputs", "fault_sequences"],
 "For every response status, header set and body (valid, truncated, mutated, arbitrary bytes), every transport fault (connection failure, failure while reading the body), context cancellation point and unencodable argument, in both encodings.",
 "Tests use a friendly server; no test injects a fault into the transport or a non-200 answer.",
 ["client.go", "clienterror.go", "httperror.go", "go.go"],
 [("error wrapping", "client.go Call; clienterror.go; httperror.go"), ("call context message", "go.go renderTSRPCServiceClients")],
 observe=["returned error chain", "result variables", "Close on the response body"])

prop("C14", "Go clients send exactly one well-formed request per call",
 "Every client call issues a single POST to base URL + endpoint + / + method name, carrying the default headers, the content type and accept header of the client's current encoding, the service-to-service marker, and a body that is the encoded argument list (empty when the method takes none). "
 "Default headers and encodings set on a client take effect for the following calls, are never altered by calls, and never leak between calls or clients; an explicit HTTP client, a later replaced one, or the current default factory is the one used.",
 ["histories", "inputs", "configurations"],
 "For every history of configuring clients (default headers, encoding, transport client, default factory) and calling through them, for any URL, endpoint, header set and arguments.",
 "One test asserts the headers of a single new request; histories and isolation are untested.",
 ["client.go", "http.go", "transport.go"],
 [("request construction", "client.go newRequest, Call"), ("header cloning", "client.go Call"), ("factories", "http.go; client.go NewClientWithHttpClient")],
 observe=["requests recorded by a stub transport"])

prop("C15", "Call statistics and the monitor report every call once and truthfully",
 "For each call answered with its results an instrumented service hands its stats callback exactly one record naming package, service and method, with the sizes of the request (of methods with arguments) and the response bodies as sent, non-negative durations that bound the service's execution, and the error code, type and message of a returned trailing error (zero and empty otherwise). "
 "The monitor hook sees each executed call exactly once with the response writer, the request, pointers to the decoded arguments (nil for an argument sent as null) and the service's own results. "
 "Calls to unknown methods yield no record, and records of different requests are never mixed.",
 ["inputs", "histories", "schedules"],
 "For every sequence and interleaving of calls (both encodings, succeeding, failing with any error, refused) to instrumented and plain services.",
 "One test checks that the callback is invoked with a zero record.",
 ["instrumentation.go", "stats.go", "monitor.go", "gotsrpc.go", "go.go"],
 [("stats in request context", "gotsrpc.go RequestWithStatsContext, GetStatsForRequest, ClearStats"), ("filling", "gotsrpc.go LoadArgs, Reply; go.go"), ("monitor call", "go.go")],
 observe=["records given to the stats handler", "arguments given to the monitor"])

prop("C16", "Replies use the encoding the request was made in",
 "A proxy decodes a request by its content type and answers in that same encoding, announcing it in the Content-Type header with a Content-Length equal to the body's length; any unknown or missing content type is treated as JSON. "
 "A Go client decodes a reply by the content type the response announces, whatever encoding it used for sending, so that both encodings of the same call are observably equivalent.",
 ["inputs", "configurations"],
 "For every content type header (both supported ones, missing, other, differently spelled), every argument list and result list, and every pairing of client encoding and server reply encoding.",
 "Tests use the default encoding on both sides.",
 ["transport.go", "gotsrpc.go", "client.go"],
 [("handle selection", "transport.go getHandlerForContentType, getHandleForEncoding"), ("reply headers", "gotsrpc.go Reply")],
 observe=["response headers and bytes", "decoded values on both sides"])

prop("C17", "GoRPC clients behave like direct calls",
 "Calling a service method through its generated GoRPC client runs exactly that method once with equal arguments (nil in place of HTTP writer and request) and returns its results equal and in order with a nil client error, up to what gob distinguishes. "
 "If a stats handler is set it gets exactly one record per request, naming package, service and request and a non-negative execution time; an unreachable server or expired call is reported as the client error.",
 ["programs", "inputs", "histories"],
 "For every supported service declaration listed under gorpc whose types gob can transport, every value of them, and every sequence of calls through one connection.",
 "Only the basic example has GoRPC code and it is merely compiled.",
 ["go.go", "gorpc.go"],
 [("generated proxy/handler", "go.go renderGoRPCServiceProxies"), ("generated client", "go.go renderGoRPCServiceClients")],
 observe=["arguments the service receives", "results of the client", "stats records"])

prop("C18", "Configuration files mean what they say",
 "Loading a configuration file yields exactly the targets, services with their endpoints, output paths, rpc lists, flags and mappings written in it, with each mapping knowing its package. "
 "A relative module path is resolved against the directory of the configuration file - never the working directory - an absolute one is taken as is, and the go.mod found there is loaded; an unreadable or malformed file, or a malformed go.mod, is reported as an error and never panics.",
 ["inputs", "configurations"],
 "For every well-formed configuration document (any YAML spelling of it), every location of the file and of the working directory, every form of module path, and arbitrary bytes as file content.",
 "Tests load two fixed documents from one directory.",
 ["config/config.go"],
 [("yaml mapping", "config/config.go loadConfig"), ("path and go.mod handling", "config/config.go LoadConfigFile")],
 observe=["returned configuration or error"])

prop("C19", "Generated Go code always compiles and offers the declared API",
 "For every supported program the generated proxies and clients are gofmt-clean Go code that compiles together with the package under generation, whatever packages, aliases, base-name clashes, parameter names and result names it uses. "
 "Proxies accept the service and serve HTTP, clients offer one method per service method with a context, the same parameters in order, and the same results plus a client error, and they satisfy the generated client interface.",
 ["programs", "configurations"],
 "For every supported program and target configuration. " + DOMAIN,
 "The build covers the checked-in generated code of six examples only.",
 ["go.go", "servicereader.go", "typereader.go", "build.go"],
 [("import aliases", "go.go extractImport, renderImports"), ("Go type rendering", "go.go Value.goType"), ("signatures", "go.go newMethodSignature"), ("formatting", "build.go formatAndWrite")],
 observe=["go build / go vet of the generated module", "reflected signatures compared with the declared service"])

prop("C20", "Prometheus instrumentation counts every call and its numbers",
 "Wrapping any number of services with the Prometheus instrumentation leaves its responses unchanged and, for every call answered with its results, adds exactly one observation per phase (request and response size; unmarshalling, execution and marshalling time) under the labels of the package, service and method called, the sizes being those of the bodies actually transferred. "
 "The GoRPC instrumentation adds exactly one execution-time observation per request, and unknown methods add none.",
 ["histories", "inputs"],
 "For every sequence of calls (methods, body sizes, failing and unknown ones) on instrumented services.",
 "No test imports the prometheus package.",
 ["prometheus/prometheus.go", "instrumentation.go", "stats.go"],
 [("summary vectors and labels", "prometheus/prometheus.go"), ("stats capture", "instrumentation.go InstrumentedService")],
 observe=["metrics gathered from the default registry", "responses of the wrapped handler"])

prop("C21", "The exported encoders and extension hooks agree with the wire",
 "The exported msgpack encoder and decoder are inverse to each other for every supported value and speak the same format as the HTTP transport, decoding untyped maps with string keys. "
 "A type registered with the JSON or msgpack extension hooks is converted by its extension wherever it occurs in later calls in that encoding - and only in that encoding - and all other types are unaffected.",
 ["inputs", "histories"],
 "For every value of supported types, every decode target (typed or untyped), arbitrary and mutated input bytes, and every order of extension registration before use.",
 "No test touches the exported encoders or extensions.",
 ["transport.go", "unionext.go"],
 [("exported coder constructors", "transport.go NewMSGPackEncoderBytes / NewMSGPackDecoderBytes"), ("extension hooks", "transport.go SetJSONExt / SetMSGPackExt")],
 observe=["round-trip results", "bytes compared with HTTP bodies"])

prop("C22", "Concurrent calls do not influence each other",
 "Any number of goroutines may call through shared generated clients, proxies and instrumented handlers at once: every call receives exactly the results belonging to its own arguments, every stats record describes one call, and there is no data race, deadlock or panic. "
 "Configured default headers and registered extensions stay unchanged under concurrent use.",
 ["schedules", "inputs"],
 "For every interleaving of concurrent calls over shared clients and proxies, both encodings mixed.",
 "No test makes concurrent calls.",
 ["client.go", "gotsrpc.go", "transport.go", "instrumentation.go", "go.go"],
 [("per-call buffers and cloned headers", "client.go Call"), ("stats per request context", "gotsrpc.go"), ("shared codec handles configured once at init", "transport.go init")],
 observe=["results of every call", "race detector reports", "recorded headers and stats"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
