import json
PC="progenitor-client/src/progenitor_client.rs"
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
p("C01","A path parameter stays inside its own URL path segment",
 "For every string a caller passes as a path parameter, the encoded text is one URL path segment that percent-decodes back to exactly that string: no value can introduce a path separator, a query, a fragment or an ambiguous percent sign, or drop, alter or truncate characters. Characters that never need escaping in a path segment (letters, digits, '-', '_', '.', '~') are left alone.",
 ["inputs"],"all UTF-8 strings used as a path parameter value",
 "The test encodes a single UUID and one short list of sample strings; the guarantee is over all strings.",
 [PC],[("encode_path and its escape set",PC)],["progenitor_client::encode_path"])
p("C02","A scalar query value becomes exactly one name=value pair",
 "For every scalar value (boolean, integer of 8 to 64 bits, float, character, string, or a type that serialises through its display text such as a UUID or a date) used as a query parameter, the request carries exactly one pair whose name is the parameter's name and whose value is that value's own text, unchanged. Types with distinct human-readable and binary encodings use the human-readable one.",
 ["inputs"],"all parameter names, all scalar kinds of the serialisation data model and all their values",
 "Tests sample a handful of names and values for some kinds; every kind has its own code path and the value range is infinite.",
 [PC],[("QueryParam / QuerySerializer scalar methods",PC)],["progenitor_client::QueryParam::serialize"])
p("C03","A sequence query value becomes one pair per element, in order",
 "For every list-like query parameter value, the request carries exactly one pair per element, in the element order, each under the parameter's own name with that element as the value, and an empty list adds nothing.",
 ["inputs"],"all sequence lengths, element types and element values",
 "Tests use one fixed vector; lengths, orders and element types are unbounded.",
 [PC],[("QuerySeq",PC)],["progenitor_client::QueryParam::serialize"])
p("C04","Absent query values add nothing and wrappers are transparent",
 "An absent optional value or a unit value adds no pair to the query string, a present optional value is sent exactly as the value itself would be under the same parameter name.",
 ["inputs"],"all optional/unit values, nested to any depth, over every inner kind",
 "Tests cover Some/None for one or two inner kinds.",
 [PC],[("serialize_none/some/unit",PC)],["progenitor_client::QueryParam::serialize"])
p("C05","Enum-typed query values are sent by variant name",
 "A fieldless enum value used as a query parameter is sent as one pair of the parameter's name and the variant's name; an enum value carrying one payload is sent as one pair of the variant's name and the payload. No other pair is emitted, and the enum's type name or variant index never appears.",
 ["inputs"],"all enum types, variants and payloads",
 "Tests use a few enums with particular representations.",
 [PC],[("serialize_unit_variant / serialize_newtype_variant",PC)],["progenitor_client::QueryParam::serialize"])
p("C06","Object and map query values keep their own keys and values",
 "A struct or map used as a query parameter contributes exactly its own key/value entries, in their order and unmodified, independent of the parameter's name. Tuple-like and byte-string values are handed to the query encoder unchanged as well.",
 ["inputs"],"all structs, maps, tuples and byte strings",
 "Tests check one struct and one map; entry counts, key names and value kinds are unbounded.",
 [PC],[("serialize_map / serialize_struct / tuple / bytes delegations",PC)],["progenitor_client::QueryParam::serialize"])
p("C07","Query serialisation failures are never swallowed",
 "Whenever the value's own serialisation or the underlying query encoder reports an error at any step, serialising the query parameter reports that failure; a query parameter is never silently dropped or partially sent with a success result.",
 ["inputs","fault_sequences"],"every point at which the underlying encoder can fail, for every kind of value",
 "No test makes the underlying encoder fail at each step.",
 [PC],[("error propagation in QuerySerializer/QuerySeq",PC)],["progenitor_client::QueryParam::serialize"])
p("C08","A decoded response is the whole body, or the matching error",
 "For an expected response, the typed value is decoded as JSON from the complete body of that response. A failure to read the body, and a body that does not decode, are reported as two distinct errors, the latter carrying the complete raw body bytes and the decoder's error; no other outcome is possible.",
 ["inputs","fault_sequences"],"all responses, bodies and transport faults while reading",
 "No test of the runtime performs a response at all.",
 [PC],[("ResponseValue::from_response",PC)],["progenitor_client::ResponseValue::from_response"])
p("C09","Response wrappers report the response's own status, headers and value",
 "Every response wrapper (decoded, streaming, empty, upgraded, built directly, or mapped to another type) reports through its accessors exactly the status and headers of the response it came from and gives access to exactly the value it was built with; mapping changes only the value, by exactly the supplied function.",
 ["inputs"],"all responses, all constructors and all accessors, including mutable access",
 "No test constructs or inspects a response wrapper.",
 [PC],[("ResponseValue constructors and accessors",PC)],["progenitor_client::ResponseValue"])
p("C10","A connection upgrade is only accepted on 101 Switching Protocols",
 "An upgraded connection is handed out only when the response status is exactly 101; a response with any other status is returned whole as an unexpected-response error, and a failed upgrade is reported as an invalid-upgrade error carrying its cause.",
 ["inputs","fault_sequences"],"all status codes and upgrade failures",
 "No test exercises upgrades.",
 [PC],[("ResponseValue::upgrade",PC)],["progenitor_client::ResponseValue::upgrade"])
p("C11","A streamed body is passed through untouched",
 "A streaming response exposes exactly the byte stream of that response: every way of obtaining the inner stream yields that same stream, with no chunk added, dropped, buffered or reordered.",
 ["inputs","schedules"],"all bodies, chunkings and polling orders",
 "No test streams a body.",
 [PC],[("ByteStream and ResponseValue<ByteStream>",PC)],["progenitor_client::ByteStream"])
p("C12","Content length is the parsed header or nothing",
 "The reported content length is the value of the response's Content-Length header when it is present, readable as text and a valid unsigned 64-bit decimal number, and is absent in every other case.",
 ["inputs"],"all header maps and header values",
 "No test calls it.",
 [PC],[("ResponseValue::content_length",PC)],["progenitor_client::ResponseValue::content_length"])
p("C13","An error reports a status exactly when it holds one",
 "For every error, the reported status code is that of the response it carries (documented error or unexpected response), or the one recorded by the underlying transport error, and no status is reported for errors that carry neither.",
 ["inputs"],"all error kinds and payloads",
 "No test inspects an error.",
 [PC],[("Error::status",PC)],["progenitor_client::Error::status"])
p("C14","Dropping an error's typed body keeps everything else",
 "Converting an error to its untyped form keeps the kind of error and all of its data, and for a documented error response keeps status and headers, discarding only the typed body.",
 ["inputs"],"all error kinds and payloads",
 "No test converts an error.",
 [PC],[("Error::into_untyped",PC)],["progenitor_client::Error::into_untyped"])
p("C15","An error's text shows its kind and everything it carries",
 "The displayed text of every error identifies its kind, distinctly from the other kinds, and includes the text of every piece of data it carries (message, cause, raw payload, response, or status, headers and value of a documented error response); formatting failures are propagated, a streaming body is never consumed by formatting, and the debug text equals the display text.",
 ["inputs"],"all error kinds, payloads and formatting flags",
 "No test formats an error.",
 [PC],[("Display/Debug for Error, ErrorFormat",PC)],["Display for progenitor_client::Error","Debug for progenitor_client::Error"])
p("C16","The cause chain of an error is complete and shown once",
 "The source of an error is exactly the underlying error it wraps, if any. The alternate display form appends, after the normal text, each further cause below that one, once each and in order, until the chain ends.",
 ["inputs"],"all error kinds and cause chains of any length",
 "No test walks a cause chain; chain length is unbounded.",
 [PC],[("Error::source and alternate Display",PC)],["std::error::Error for progenitor_client::Error"])
p("C17","Transport and header failures convert to the right kind of error",
 "A transport error converts to a communication error carrying it unchanged, and an invalid header value converts to an invalid-request error carrying that error's text.",
 ["inputs"],"all such errors",
 "No test converts one.",
 [PC],[("From impls for Error",PC)],["From<reqwest::Error> for Error","From<InvalidHeaderValue> for Error"])
p("C18","A form body is URL-encoded, labelled, and never sent when invalid",
 "A form-encoded request carries the complete URL-encoded serialisation of the value as its body together with the form content type, leaving the rest of the request as it was; a value that cannot be serialised yields an invalid-request error and no request.",
 ["inputs"],"all request builders and body values",
 "No test sends a form body.",
 [PC],[("RequestBuilderExt::form_urlencoded",PC)],["progenitor_client::RequestBuilderExt::form_urlencoded"])
p("C19","The client runtime never panics",
 "No function of the client runtime panics or overflows for any argument, response, or failure of a collaborator; every failure is a returned error.",
 ["inputs","fault_sequences"],"all inputs and all collaborator failures",
 "Absence of panics over all inputs cannot be sampled.",
 [PC],[("no panicking construct reachable from the runtime's functions",PC)],["all public items of progenitor_client"])
p("C20","Client values can cross threads and tasks",
 "Errors, response wrappers, streams and query parameters are Send and Sync whenever their type parameters are, the error type is a 'static standard error usable in dynamic error containers, and the futures returned by the runtime can be spawned on a multi-threaded executor.",
 ["programs","schedules"],"every program that moves or shares these values between threads",
 "A test shows one program compiles; the guarantee is over all instantiations.",
 [PC],[("auto traits of ByteStream, ResponseValue, Error and the async functions",PC)],["progenitor_client"])
p("C21","A stand-alone crate embeds the very runtime that was built",
 "The runtime source embedded in generated stand-alone crates is byte for byte the runtime that is compiled and shipped, and it compiles on its own as a module of a crate that has only the dependencies a generated crate declares.",
 ["configurations","programs"],"every generated stand-alone crate",
 "No test builds the embedded text on its own.",
 ["progenitor-client/src/lib.rs",PC,"cargo-progenitor/src/main.rs"],[("code() and include_str!","progenitor-client/src/lib.rs"),("dependency list","cargo-progenitor/src/main.rs")],["progenitor_client::code"])
L="progenitor-impl/src/lib.rs";M="progenitor-impl/src/method.rs";T="progenitor-impl/src/template.rs";S="progenitor-impl/src/to_schema.rs";CL="progenitor-impl/src/cli.rs";H="progenitor-impl/src/httpmock.rs";U="progenitor-impl/src/util.rs";MA="progenitor-macro/src/lib.rs";CP="cargo-progenitor/src/main.rs"
def g(*a): p(*a)
g("G01","No code is generated from an invalid document",
 "Client, command-line and mock-server generation all first check the document, and refuse one whose version is not 3.0.x, in which a path is a reference, or in which an operation has no identifier or repeats another's; on refusal nothing is generated.",
 ["inputs","programs"],"all OpenAPI documents and all generation entry points",
 "Golden tests use valid documents only.",[L],[("validate_openapi",L)],["Generator::generate_tokens","Generator::cli","Generator::httpmock"])
g("G02","The HTTP verb of an operation is preserved everywhere",
 "An operation is sent with exactly the HTTP method it is declared under, the mock server expects that same method, distinct verbs are never merged, and an unknown verb is refused.",
 ["inputs"],"all eight OpenAPI verbs",
 "Golden specs use a subset of the verbs.",[M,H,L],[("HttpMethod and its uses",M)],["generated client","generated mock"])
g("G03","A path template is parsed exactly or rejected",
 "Parsing a path template yields its literal text and parameter names in order, such that reassembling them gives the template back (runs of slashes collapsed to one); text with unbalanced or nested braces, an unterminated or nameless parameter, a slash in a parameter name, or no leading slash is rejected, and nothing else is.",
 ["inputs"],"all strings used as a path template",
 "Unit tests check a few templates.",[T],[("template::parse",T)],["progenitor_impl::template"])
g("G04","The request URL is the base URL plus the filled-in template",
 "The URL of a generated request is the client's base URL followed by the template's literal text with every parameter replaced, in place, by the percent-encoded text of the argument of that name, for every template.",
 ["inputs","programs"],"all path templates and argument values",
 "Golden tests cover the templates of the sample documents.",[T,M],[("PathTemplate::compile and its use",T)],["generated client"])
g("G05","Every declared parameter is sent in its declared place under its own name",
 "Every path, query and header parameter and every request body of an operation becomes an argument of the generated method and is sent in its declared location under the name used in the document, whatever identifier it has in Rust; nothing declared is left out and nothing undeclared is sent except the default accept and API-version headers.",
 ["inputs","programs"],"all operations and parameter sets",
 "Golden tests cover the parameter shapes of the sample documents.",[M],[("method_sig_body",M)],["generated client"])
g("G06","Configured hooks run exactly once around every request",
 "When the user configures an inner state and pre/post hooks (plain or asynchronous), every generated operation, in whichever interface style, runs each configured hook exactly once, in order, around the sending of the request and passes it the client's inner state when one is configured; hooks that are not configured do not appear.",
 ["configurations","programs"],"all combinations of settings, all operations",
 "Golden tests configure one or two combinations.",[M,L],[("method_sig_body hooks",M),("positional and builder interfaces",M)],["generated client"])
g("G07","A request body is sent with the encoding its content type declares",
 "A body is sent as JSON, form data, raw bytes or text exactly when its declared content type says so, with that content type as the request's label; other content types are refused at generation time.",
 ["inputs"],"all declared request body content types",
 "Golden documents use a few content types.",[M],[("BodyContentType",M)],["generated client"])
g("G08","Responses are classified exactly as the document says",
 "Each declared 2xx response (101 for a websocket operation) is returned as success and each declared 4xx or 5xx response as a documented error, decoded as its declared content requires; a default response covers every other 2xx status as success and every remaining status as a documented error; any status no declared response covers yields an unexpected-response error carrying the response.",
 ["inputs","programs"],"all response tables and status codes",
 "Golden tests only compare text for the sample documents.",[M],[("process_operation responses",M),("extract_responses / response dispatch",M)],["generated client"])
g("G11","Every operation of the document is generated exactly once",
 "Every operation the document declares, under any path and verb, becomes exactly one method of the generated client in the chosen interface style, and likewise one command of the generated command line and one mock expectation; none is left out, merged or repeated.",
 ["inputs","configurations"],"all documents, interface and tag styles",
 "Golden tests cover the sample documents.",[L,CL,H],[("generate_tokens and the generate_tokens_* styles",L),("Generator::cli",CL),("Generator::httpmock",H)],["generated client","generated CLI","generated mock"])
g("G16","A generated client holds and reports exactly what it was made from",
 "The generated client keeps exactly the base URL, HTTP client and (if configured) inner value it was constructed with and reports those, and reports the API version written in the document.",
 ["inputs","configurations"],"all documents; with and without an inner type",
 "Golden tests compare text for the sample documents.",[L],[("Generator::generate_tokens (client type)",L)],["generated client"])
g("G12","Unsupported constructs are refused, not ignored",
 "A parameter in a cookie, in a style the generator does not produce, described by a content map, or in the path but not required; an unsupported body; an unknown verb; an unparsable path template; an unresolvable reference; conflicting websocket and pagination extensions; and positional methods separated by tag make generation fail with an error; they never vanish from, or silently change, the generated client.",
 ["inputs"],"all documents",
 "Golden documents contain only supported constructs.",[M],[("process_parameter and friends",M)],["Generator::generate_tokens"])
g("G13","Schema conversion keeps every constraint",
 "Converting an OpenAPI schema keeps its type, format, numeric and length bounds, pattern, enumeration, nullability, default, required properties and composition; a constraint is never dropped, moved to a different bound, or attached to a different type. Sizes that do not fit the target's 32 bits become the largest one. Nullable adds null to the stated type; of a combination it makes one-of null and the combination; of an untyped schema it adds null to the types its own constraints imply, and is ignored when they imply none.",
 ["inputs"],"all OpenAPI 3.0 schemas",
 "Golden documents use a fraction of schema combinations.",[S],[("to_schema conversions",S)],["generated types"])
g("G15","Generated method arguments have one well-defined order",
 "The order of positional arguments depends only on the operation: path parameters in template order, then query parameters by name, then header parameters by name, and the body last; the comparison behind it says the same whichever way round two parameters are compared.",
 ["inputs"],"all parameter sets",
 "Sorting with an inconsistent comparison only misbehaves on particular inputs and sizes.",[M],[("sort_params",M)],["generated client"])
g("G10","Generated streams visit every item of every page once",
 "A stream method is generated exactly for the operations marked as paginated that have the paginated form (page_token and limit as optional query parameters, every query parameter optional, no raw body, one success type with exactly the fields items, a list, and next_page, an optional string). It asks for the first page with the arguments given and no page token, for each later page with the previous page's token, the same limit and the same arguments that are not query parameters, and no other query parameter; it yields every page's items in order and ends when a page has no next token.",
 ["inputs","histories"],"all operations and page sequences",
 "Golden documents have one or two paginated operations; no test runs a generated stream.",[M],[("dropshot_pagination_data",M),("positional_method / builder_struct (stream_impl)",M)],["generated client"])
g("G09","Mocks match and answer exactly as the document describes the operation",
 "Every operation has one method of the generated mock server extension, with a request type and a response type of its own. The request type matches only the operation's method and a path that has the template's text literally and any text without a slash in place of each parameter; each parameter's matcher requires exactly that parameter to have the value given as the generated client sends it, or an optional one to be absent. The response type has one method per documented response, which answers with that status (or one the documented class allows, or any for the default) and with a JSON body of the documented type exactly if there is one; documents of any status generate.",
 ["inputs"],"all documents",
 "Golden documents use few verbs, paths without special characters, and well-known statuses; no test runs a mock.",[H,T],[("httpmock_method",H),("as_wildcard / as_wildcard_param",T)],["generated httpmock extension"])
g("G17","The generated command line passes on what it is given and reports what it gets",
 "Each operation's command has one option per path, query and header parameter (but the page token of a paginated operation), under the parameter's own name, required exactly if the parameter is or the first page needs it, read as the parameter's type (an enumeration of plain values lists them), whose value goes to that parameter of the request; each property of the body that can be written as text has one that goes to that property, required unless it is optional or a body file is given; a body with a type has an option for a file, required exactly if the properties' options cannot make up the body, whose content is the body. The caller's hook sees the request before it is sent, once. A success or error is reported as such, the items of a paginated operation each once and in order up to the limit, and the command fails exactly on an error.",
 ["inputs"],"all documents",
 "Golden documents use few kinds of parameters and bodies; no test runs a generated command line.",[CL],[("cli_method_args / cli_method_body_arg / clap_arg",CL),("cli_method",CL)],["generated CLI"])
g("G14","Generated names are valid and never capture a parameter",
 "Every name in a document is turned into a valid Rust identifier that is no keyword, and a name the generator itself introduces (a local variable, closure argument or method of a generated operation) never captures, hides or collides with one of the operation's parameters, whatever these are called.",
 ["inputs"],"all names and parameter sets",
 "Golden documents have no parameter called page, state, header_map, ...; a collision shows only for the one name concerned.",[U,M],[("sanitize / unique_ident_from",U),("method_sig_body / positional_method / builder_struct",M)],["generated code"])
g("G18","A generated crate declares every dependency its code uses",
 "The manifest written for a stand-alone crate has the name, version, licence and registry the command line gave and lists every crate that code generated by progenitor refers to, and those that the type generator reports its types to need, for every combination of options and schema features; once generated code needs a crate, the generator never forgets that. The crate's source file holds exactly the generated code, and the embedded runtime is written where the source includes it.",
 ["configurations","inputs"],"all option and schema feature combinations",
 "No test compiles generated crates in all configurations.",[CP],[("dependencies()",CP)],["cargo progenitor"])
g("G19","Every generation option given by the user takes effect",
 "Each named argument of the macro, and the interface and tag options of the command line, reaches the generation setting of its name with the value the user gave (absent ones leave the default; a path alone means the defaults), every setting that concerns types is handed to the type generator with its value, setters accumulate lists and change nothing else, and the client is generated from the document at the path given, relative to the crate, read as JSON or else as YAML, and is generated again when that file changes.",
 ["configurations"],"all option combinations",
 "Tests set few options.",[MA,CP,L],[("do_generate_api",MA),("GenerationSettings",L)],["generate_api!","cargo progenitor"])
g("G20","A reference stands for exactly the component it names",
 "Wherever a document refers to a parameter, request body, response or schema instead of writing it in place, the generator uses exactly the component of that kind registered under exactly that name, following references to references to the end; what is written in place is used as it is; a reference that names no component of its kind in the document makes generation fail. Every generator (client, command line, mocks) hands every named schema of the document to the type generator, converted, under its own name, and fails if that refuses them.",
 ["inputs"],"all documents, chains of references of any length",
 "Sample documents only contain resolvable direct references.",[U,L,CL,H],[("ReferenceOrExt::item",U),("Generator::generate_tokens",L),("Generator::cli",CL),("Generator::httpmock",H)],["Generator"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
