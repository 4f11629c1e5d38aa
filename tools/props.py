import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

H="packages/io-ts-http/src/"; S="packages/superagent-wrapper/src/"; R="packages/typed-express-router/src/"; X="packages/express-wrapper/src/"; G="packages/openapi-generator/src/"; RS="packages/response/src/"

p("C01","Request codecs round-trip and put every property in its declared section",
"Encoding a valid flat request value puts each declared property, encoded by its own codec, in exactly the section (path params, query, headers, body) that declares it, emits the query and params sections always and headers/body exactly when declared, and nothing undeclared or undefined. Decoding that result, also after JSON transport, gives back the original value. A value is recognised as a request exactly when the codec of every declared property recognises its property. Encoding neither throws on nor modifies any valid value.",
["inputs","programs"],"for every request shape built from per-section property codecs that round-trip individually, with property names distinct across sections, and every valid value of it",
"The tests check a handful of fixed shapes with literal values; they never vary shapes, codecs that transform, falsy, absent, explicitly undefined or frozen values together.",
[H+"combinators.ts",H+"httpRequest.ts"],[("flattened (encode)",H+"combinators.ts"),("httpRequest",H+"httpRequest.ts")],["return value of the request codec's encode and decode"])

p("C02","A request is accepted exactly when every declared property decodes",
"Decoding an incoming request succeeds if and only if every declared section is an object and every property declared in it is accepted by its own codec (a property that may be undefined may be missing); otherwise it is rejected with errors naming each offending property. On success the result has exactly the declared properties, each with the value its own codec decodes from its own section: undeclared keys, and same-named keys in other sections, never leak in. Decoding never throws and never modifies the incoming request.",
["inputs","programs"],"for every request shape and every incoming params/query/headers/body object, hostile ones included",
"Tests decode a few well-formed and two or three malformed requests; leaks of undeclared or foreign keys and hostile sections need arbitrary inputs.",
[H+"combinators.ts",H+"httpRequest.ts"],[("flattened (validate)",H+"combinators.ts"),("httpRequest",H+"httpRequest.ts")],["return value of the request codec's decode"])

p("C03","Optional properties: optional iff undefined is allowed, never left as undefined",
"In an object codec built from a mix of required and possibly-undefined properties, a property may be missing exactly when its own codec accepts undefined, and every present value is decoded, recognised and encoded by that property's codec. Decoded and encoded objects carry no possibly-undefined property with the value undefined, and keep null, false, 0 and the empty string. Neither direction throws on an object or modifies it, even when it is frozen or nested.",
["inputs","programs"],"for every set of property codecs (transforming, nullable, defaulting, nested ones included) and every object",
"Tests use four fixed shapes of identity codecs; mixing transforming and optional properties, frozen inputs and nesting is never exercised.",
[H+"combinators.ts"],[("optionalized",H+"combinators.ts"),("optional",H+"combinators.ts")],["decode, encode and is of the object codec; the input object afterwards"])

p("C04","HTTP status names and numbers agree everywhere",
"The status-name and status-number tables are inverse to each other and give every standard status its standard code; the response constructors of every package that offers them produce exactly that number (or that name, for keyed responses) with the payload untouched. A server told to send a status by name or by number, through either server package, puts the same code on the wire.",
["inputs","configurations"],"for every status known to the library, every constructor and both server packages",
"The tests touch five of the sixty statuses; a swapped or stale entry in one of the duplicated tables is invisible to them.",
[H+"statusCode.ts",H+"httpResponse.ts",RS+"response.ts",RS+"keyed-response.ts",R+"index.ts",X+"response.ts"],
[("HttpToKeyStatus / KeyToHttpStatus",H+"statusCode.ts"),("Response",RS+"response.ts"),("KeyedResponse",RS+"keyed-response.ts"),("sendEncoded",R+"index.ts"),("defaultResponseEncoder",X+"response.ts")],
["table contents","constructor results","status line on the wire"])

p("C05","The request a client sends is the request the server decodes",
"Calling a generated client operation with a valid value sends exactly one HTTP request with the operation's method and path (below the configured base path), from which a server using the same specification decodes the same value again. The client exposes exactly the operations and methods of the specification, for both supported request libraries. No property value can change the route, the other properties or the structure of the URL.",
["inputs","programs","configurations"],"for every specification, base URL and valid request value whose path parameters are non-empty, not '.' or '..', headers visible ASCII and query lists 2..20 long (the wire format cannot tell a list of one from a plain value)",
"Tests send a few alphanumeric values; reserved characters, template-looking values, falsy bodies and many shapes are never sent.",
[S+"request.ts",S+"routes.ts",H+"combinators.ts"],
[("substitutePathParams",S+"request.ts"),("superagentRequestFactory / supertestRequestFactory",S+"request.ts"),("requestForRoute",S+"request.ts"),("buildApiClient",S+"routes.ts")],
["raw request received by a loopback server","decoded request on that server","keys of the client object"])

p("C06","Client responses are decoded by the codec of their actual status, or flagged",
"Whatever well-formed JSON response arrives, decoding it resolves with the actual status and the decoded body if the specification has a codec for that status that accepts the body, and with an explicit decode-error result carrying the raw body and the original response otherwise. Decoding with an expected status resolves exactly when that status arrived and its body decoded, and otherwise rejects with an error carrying that same result. A broken or malformed response is never turned into a result, and one call sends one request however often it is awaited.",
["inputs","programs","fault_sequences"],"for every response specification, status, body and transport fault",
"Tests cover five canned responses; falsy bodies, statuses on the object prototype, repeated awaits and truncated or reset responses are not covered.",
[S+"request.ts"],[("patchRequest: decode / decodeExpecting",S+"request.ts"),("hasCodecForStatus",S+"request.ts")],["settled value of decode()/decodeExpecting()","number of requests seen by the server"])

p("C07","Checked routes never run a handler on an invalid request",
"On a checked route, if the request does not decode, no route handler runs and the client gets exactly one response with the configured decode-error status and formatted errors; if it decodes, the handlers run in order, each once, and see exactly the decoded value. Requests are judged individually, whatever was sent before or concurrently.",
["inputs","histories","schedules"],"for every specification, router configuration and sequence or interleaving of valid and invalid requests",
"Tests send one valid and one invalid request per feature; they do not vary shapes, orders, interleavings or handler chains.",
[R+"index.ts",R+"errors.ts"],[("makeAddRoute / validateMiddleware",R+"index.ts"),("wrapReqAndRes",R+"index.ts")],["handler invocations","req.decoded","responses on the wire"])

p("C08","Unchecked routes and router middleware see the decode result and stay in control",
"On an unchecked route the handlers always run, seeing the success value or the errors of decoding, and no response is sent on their behalf. Router-level middleware runs once per request, in registration order, after decoding and before validation and handlers, seeing that same result; when one responds or fails instead of continuing, nothing after it runs.",
["inputs","histories","schedules"],"for every specification, chain of middleware and handlers, and request",
"Tests have one middleware and two unchecked routes; order, short-circuiting and error paths over random chains are not exercised.",
[R+"index.ts"],[("makeAddUncheckedRoute",R+"index.ts"),("routerMiddleware / use",R+"index.ts")],["middleware and handler invocations","req.decoded","responses on the wire"])

p("C09","A typed response is sent only if it matches its codec, and then exactly encoded",
"Sending a typed response puts on the wire exactly the JSON encoding of the payload by the codec declared for that status, with that status (given by number or by name), if and only if such a codec exists, the status is known and the codec recognises and can encode the payload; otherwise the client gets the configured encode-error status and body and nothing of the payload. The after-response hook runs exactly once, after the response is complete, on success, and never on failure.",
["inputs","programs"],"for every response specification, status, payload and non-throwing hook",
"Tests try one good payload, one bad payload and one unknown status; codecs that transform, named statuses and hostile payloads are not varied.",
[R+"index.ts",R+"errors.ts"],[("sendEncoded",R+"index.ts"),("defaultEncodeErrorFormatter / defaultGetEncodeErrorStatusCode",R+"errors.ts")],["responses on the wire","hook invocations"])

p("C10","Route hooks override router hooks, which override the defaults",
"For each of the five hooks (decode-error formatter and status, encode-error formatter and status, after-response) the one given for the route is used if there is one, else the one given for the router, else the default, independently of the other hooks and of other routes. Hooks receive the failing request's own errors and request.",
["configurations","inputs"],"for every combination of hooks at route and router level, both ways of making a router, checked and unchecked routes and several routes per router",
"Tests set a few combinations; 2^10 combinations per route and cross-route interference are not covered.",
[R+"index.ts",R+"errors.ts"],[("options?.hook ?? hook",R+"index.ts"),("createRouter / wrapRouter defaults",R+"index.ts")],["which hook ran, with which arguments","responses on the wire"])

p("C11","Every operation is reachable at exactly its own paths",
"A request is handled by the first registered operation whose method matches and whose path template (each {name} matching one non-empty segment) or one of whose aliases matches; path parameters arrive decoded under their template names, and the handler sees the operation's own name and route. A request matching none falls through to the surrounding application untouched.",
["programs","inputs","configurations"],"for every set of operations with simple path templates, aliases, mount points and request paths",
"Tests have at most two routes and one parameter; overlapping templates, several parameters, aliases and mounts are not combined.",
[R+"path.ts",R+"index.ts"],[("apiTsPathToExpress",R+"path.ts"),("router[method](path|alias, chain)",R+"index.ts")],["which handler ran, with which parameters","fall-through handler"])

p("C12","Tracing: one finished span per decode and per typed response, none mixed up",
"With tracing available, every request matching a route yields exactly one decode span and every typed response exactly one encode span, each ended exactly once and carrying that request's operation, method and path, with the status and error recorded exactly when that decode or encode failed (or the status alone on success of an encode). Concurrent requests never share or mix spans. Without tracing, or with it, the responses are the same.",
["schedules","histories","inputs"],"for every interleaving of requests with delayed handlers, valid or not, and typed responses that succeed or fail",
"Tests look at one request at a time; leaked, doubly ended or cross-attributed spans need concurrency.",
[R+"telemetry.ts",R+"index.ts"],[("createDecodeSpan / createSendEncodedSpan / endSpan",R+"telemetry.ts"),("endDecodeSpanMiddleware",R+"index.ts")],["span processor: start and end of every span"],None,
[("decodeSpan","span of the decode in progress, held in a per-route closure",R+"index.ts")])

p("C13","Route middleware runs in order, feeds the handler, and stops it on failure",
"The middleware of a route run strictly one after another in order, each once per request and each seeing the decoded request as it was decoded, and the handler runs once after the last. The handler's input is the decoded request overlaid by what each value-producing middleware returned, later ones winning (or the decoded request alone when the handler was not declared to take middleware values). When a middleware throws, rejects or passes on an error, no later middleware and no handler runs.",
["programs","schedules","fault_sequences"],"for every chain of up to seven synchronous or asynchronous middleware, with values, faults and delays at any position, and concurrent requests",
"Tests run fixed chains of two or three middleware that succeed, or one failing at the end.",
[X+"middleware.ts",X+"request.ts"],[("runMiddlewareChain",X+"middleware.ts"),("runMiddlewareChainIgnoringResults",X+"middleware.ts"),("handleRequest",X+"request.ts")],["middleware and handler invocations and inputs"])

p("C14","The server wrapper answers each request once, as the handler or failure dictates",
"Every request to a served operation gets exactly one response: the handler's payload encoded by the codec of its status with that status, given as number or name; a client-error status with the decoding errors if the request does not decode, the handler not having run; and an error status (500 unless already chosen) if the handler or a middleware fails or the result cannot be encoded. A failed request never yields a success status, never runs another route's handler and never affects other requests.",
["inputs","programs","fault_sequences","schedules"],"for every specification, request, handler result and handler or middleware failure, with concurrent requests",
"Tests cover happy paths and one decode failure; failing handlers, unknown statuses and unencodable results are not tested at all.",
[X+"index.ts",X+"request.ts",X+"response.ts"],[("handleRequest",X+"request.ts"),("defaultResponseEncoder",X+"response.ts"),("routerForApiSpec / createServer",X+"index.ts")],["responses on the wire","handler invocations","unhandled rejections"])

p("C15","Concurrent requests never see each other's data, end to end",
"When many clients call many operations of one server at once and handlers and middleware finish in any order, each call resolves with the response computed from its own request, by exactly one run of its own operation's handler. No request is lost, duplicated or answered with another's data.",
["schedules","histories"],"for every interleaving of concurrent calls, with arbitrary delays in middleware, handlers and responses",
"The tests never have two requests in flight.",
[R+"index.ts",X+"request.ts",X+"middleware.ts",S+"request.ts"],[("per-request closures in wrapReqAndRes",R+"index.ts"),("runMiddlewareChain accumulator",X+"middleware.ts"),("patchRequest",S+"request.ts")],["history of calls, handler runs and results with unique tokens"])

p("C16","Generated schemas accept exactly the JSON the codecs accept",
"For every codec built from the supported codec constructors, the generated schema accepts a JSON value if and only if the real codec decodes it, wherever in the specification the codec is used and however it is named, imported or shared between files.",
["programs","inputs"],"for every composition of supported codecs (depth bounded in runs) and every JSON value, up to formats the schema language leaves open",
"Tests compare fixed sources with golden output; nobody compares the schema with what the codec really does.",
[G+"codec.ts",G+"openapi.ts",G+"optimize.ts",G+"knownImports.ts",G+"resolveInit.ts"],[("parseCodecInitializer",G+"codec.ts"),("schemaToOpenAPI",G+"openapi.ts"),("optimize",G+"optimize.ts"),("KNOWN_IMPORTS",G+"knownImports.ts")],["schemas in the generated document","decode of the real codec"])

p("C17","Every operation is documented as it is served",
"The generated document has exactly one operation for each declared route, at its path and method, with exactly its path, query and header parameters, body and response statuses. A parameter or body property is marked required exactly when the server rejects a request lacking it (path parameters always), and everything has the schema of its own codec.",
["programs"],"for every specification assembled from supported constructs, in every supported way of spreading it over declarations and files",
"Tests compare about forty fixed sources with golden output.",
[G+"route.ts",G+"openapi.ts",G+"apiSpec.ts"],[("parseRoute",G+"route.ts"),("routeToOpenAPI",G+"openapi.ts"),("parseApiSpec",G+"apiSpec.ts")],["paths, parameters, bodies and responses in the generated document"])

p("C18","The generated document is complete, closed and well formed",
"Every reference in a generated document resolves to a component in it, every component is the schema of the declaration it was referred to as (two different declarations of the same name are never conflated), and each is emitted once. The document is structurally valid: unique operations and parameters, declared path parameters exactly those of the path template, and no internal bookkeeping left in it.",
["programs"],"for every project of several files with shared, re-exported, renamed and same-named declarations",
"Tests use single-file projects or one import; name collisions and reference chains across files are barely covered.",
[G+"cli.ts",G+"openapi.ts",G+"ref.ts",G+"symbol.ts",G+"resolveInit.ts",G+"codec.ts"],[("component collection loop",G+"cli.ts"),("getRefs",G+"ref.ts"),("convertRoutesToOpenAPI",G+"openapi.ts"),("findSymbolInitializer",G+"resolveInit.ts")],["the document printed by the command-line tool"])

p("C19","Generation depends only on what the specification says",
"The same specification always yields the byte-identical document, whatever directory it lies in, whatever was parsed before it and however often it is generated. Reordering declarations that do not depend on order, splitting them over files or renaming unexported helpers changes nothing but the names of the components concerned.",
["programs","histories","configurations"],"for every project and every behaviour-preserving rearrangement of its sources, and every history of earlier parsing in the same process",
"Tests generate each document once from one arrangement.",
[G+"project.ts",G+"sourceFile.ts",G+"symbol.ts",G+"openapi.ts",G+"cli.ts"],[("Project cache",G+"project.ts"),("comment offsets shared by the parser",G+"sourceFile.ts"),("sorting in convertRoutesToOpenAPI",G+"openapi.ts")],["documents generated from rearranged sources"],None,
[("parser offset","the parser numbers bytes across all files it has parsed so far",G+"sourceFile.ts")])

p("C20","Documentation comments and constraints reach the right place unchanged",
"Every comment on a route, parameter, property, response or named codec appears, with its text, on that item in the document and on no other; each supported tag yields its keyword with the value as written (numbers as numbers, whatever their value), and constraints are never swapped or dropped. Text in front of the comment, in any script or encoding width, makes no difference, and private and internal markings are honoured.",
["programs","inputs"],"for every placement and combination of supported tags and values, with arbitrary Unicode text around them",
"Tests check each tag once, with ASCII text and non-zero values.",
[G+"comments.ts",G+"jsdoc.ts",G+"openapi.ts",G+"sourceFile.ts"],[("leadingComment / withComment",G+"comments.ts"),("buildDefaultOpenAPIObject",G+"openapi.ts"),("parseCommentBlock",G+"jsdoc.ts")],["schemas, parameters and operations in the generated document"])

p("C21","Schema simplification preserves meaning and is pure",
"Simplifying an intermediate schema yields a schema that accepts exactly the same values and keeps the documentation of what remains; simplifying the result again changes nothing about what is accepted. The schema given is not modified, so one shared by several routes is simplified and documented alike in each, in whatever order they come.",
["inputs","programs"],"for every intermediate schema tree over unions, intersections, objects, arrays, records, constants and references, with comments attached",
"Tests simplify about fifteen fixed trees and never compare meanings.",
[G+"optimize.ts"],[("optimize / simplifyUnion / foldIntersection / filterUndefinedUnion",G+"optimize.ts")],["result of simplification","the argument afterwards"])

p("C22","The generator command prints a whole document or fails",
"On any input the command terminates; it exits successfully only after printing one complete JSON document covering every route of the entry specification, and otherwise exits with an error on the error stream and no partial document. Problems that make a route or schema unresolvable are never silently dropped.",
["inputs","fault_sequences"],"for every project, including missing files, syntax errors, unresolvable names, cycles and unsupported constructs",
"Tests call internal functions on valid sources; the command itself is never run.",
[G+"cli.ts",G+"error.ts",G+"project.ts",G+"codec.ts"],[("app handler",G+"cli.ts"),("errorLeft / logError",G+"error.ts")],["exit status, output and error streams of the command"])

p("C23","Options, package settings and given codec schemas mean what they say",
"The document's title, version and description are exactly those given as options, else those of the package.json closest above the entry file, else the defaults, and its servers are exactly the URLs named in comments of the entry's specifications, in order; its operations are those of the entry's calls of io-ts-http's apiSpec. The schema of a codec that a codec file defines is the one defined for its package and name: the codec file given as option counts before the one the package.json names, that before the one of the codec's own package, that before its source; a definition never affects other codecs. None of it depends on the directory the command is started from, and options change nothing else.",
["programs","configurations"],"for every combination of options in every form, package.json files at any level, specification comments, installed packages and codec files",
"Tests call internal functions with the settings already read; no test runs the command with options, package.json files or codec files.",
[G+"cli.ts",G+"packageInfo.ts",G+"project.ts",G+"apiSpec.ts"],[("options and codec file of the command",G+"cli.ts"),("getPackageJsonPath",G+"packageInfo.ts"),("getCustomCodecs / resolveEntryPoint",G+"project.ts"),("parseApiSpecComment",G+"apiSpec.ts")],["info, servers and schemas of the document the command prints"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import re
for x in P:
    n=len(re.findall(r'[.](?:\s|$)',x['statement']))
    if n>3: print(x['id'],n)
