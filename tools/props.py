TB = "Every path within the stated bounds is explored symbolically and every assertion on it decided by the solver; trusts the SSA interpreter and its standard-library models, which are cross-checked by running sampled paths natively. "

prop("C01", "UUID text and JSON: only well-formed UUIDs, kept unchanged",
 "A text, a JSON string or a value under validation is accepted as a UUID exactly when it has the 8-4-4-4-12 hexadecimal shape. An accepted UUID is kept and encoded as exactly the text it was given, and a rejected document is reported and leaves the target untouched.",
 ["inputs"], "every byte string as text and as JSON document", "tests parse a couple of literals; the accept set is a language over all strings",
 ["uuid.go", "model.go"], [("ParseUUID and UnmarshalJSON check the shape", "uuid.go"), ("ValidateUUID", "model.go")], TB)

prop("C02", "Timestamps: printing, parsing, JSON and validation agree",
 "Every instant in years 1 to 9999, whatever its zone, prints in UTC in the fixed layout yyyy-mm-ddThh:mm:ss.sssZ, and parsing a printed timestamp, as text or JSON, gives the same instant to the millisecond. A text is accepted exactly when it is a well formed UTC date and time with every field in range, and a string validates as a timestamp exactly when it parses.",
 ["inputs"], "every instant, zone offset and text", "tests use one or two instants, all in UTC with ordinary years",
 ["timestamp.go", "model.go"], [("ParseTimestamp, String, MarshalJSON, UnmarshalJSON", "timestamp.go"), ("ValidateTimestamp", "model.go")], TB)

prop("C03", "Decimals keep every digit through text, JSON and conversions",
 "A decimal number written as text or as a JSON number (up to about 70 significant digits) prints and encodes back digit for digit, and converts to and from integers and floats without changing its value when it fits. Anything that is not a (finite) number is rejected and leaves the target as it was. A default value is used only when no number is given, and keeps its value whatever its numeric kind.",
 ["inputs"], "every decimal text within the bounds, every integer and default value", "tests sample a handful of numbers; precision loss shows only for particular digits",
 ["decimal.go"], [("ParseDecimal, String, MarshalJSON, UnmarshalJSON", "decimal.go"), ("DecimalValue, NewDecimal, AsInt64, AsFloat64", "decimal.go")], TB)

prop("C04", "Unit values keep amount and unit through text and JSON",
 "A unit value made of an amount and a unit prints, parses, encodes to JSON and decodes with the same amount and the same unit, whatever characters the unit has. A text or JSON string is accepted exactly when it is a number, one space and a non-empty unit; anything else is an error that leaves the target as it was.",
 ["inputs"], "every amount, unit and text within the bounds", "tests use two or three literal values",
 ["unitvalue.go"], [("ParseUnitValue, String, MarshalJSON, UnmarshalJSON", "unitvalue.go")], TB)

prop("C05", "Numeric validation enforces exactly the declared and intrinsic limits",
 "A value is valid for a numeric type exactly when it is a number, lies within the declared minimum and maximum (inclusive), within the range the integer type can hold, and has no fraction if the type is an integer. The same holds however the type is reached: directly, through a named type or alias, as a struct field, array item or map value.",
 ["inputs", "programs"], "every number, every pair of limits, every route to the type", "tests validate a few values against a few limits",
 ["model.go", "decimal.go"], [("ValidateNumber/ValidateInt and the intrinsic limits", "model.go"), ("DecimalValue", "decimal.go")], TB)

prop("C06", "String validation enforces exactly size, pattern and allowed values",
 "A value is valid for a string type exactly when it is a string (or string pointer) whose size is within the declared limits, which matches the declared pattern and is one of the declared values, each only if declared. The same holds however the type is reached: directly, through an alias, as a struct field, array item, map value or map key; a pattern that cannot be compiled makes nothing valid.",
 ["inputs", "programs"], "every string, every combination of constraints and every route to the type", "tests validate a few strings against one pattern",
 ["model.go"], [("ValidateString", "model.go")], TB)

prop("C07", "Composite validation accepts exactly the conforming values",
 "A value is valid for a struct, array, map, enum, union or unit-value type exactly when all required parts are present, nothing undeclared is present, sizes are within limits, and every part is itself valid for its declared type, at any nesting depth. Validation always terminates with a verdict: it never panics, and a value of an undefined type or of the wrong kind is an error.",
 ["inputs", "programs"], "every value and every type definition within the bounds", "tests validate a few fixed values against fixed types; the space of nested values is unbounded",
 ["model.go"], [("ValidateAgainstTypeSpec and the per-type validators", "model.go")], TB + "The oracle is a reference validator written independently. ")

prop("C09", "A model indexes every definition exactly once, and rejects duplicates",
 "Building a model from a schema succeeds exactly when no type or action name is used twice and no base type is redefined. In the model every type, base type and action is found by its name, and a name that is not defined is not found.",
 ["inputs", "programs"], "every schema within the bounds and every name looked up", "tests build a few fixed schemas",
 ["model.go", "schema.go"], [("NewModel, FindType, FindHttp", "model.go")], TB)

prop("C10", "Type equivalence is an equivalence that respects what types accept",
 "Two types are reported equivalent exactly when they have the same kind, the same constraints and the same parts (order does not matter for enum symbols, allowed values and union variants; items and keys are compared by what their names stand for). The relation is reflexive and symmetric, equivalent types accept the same values, and the comparison terminates for recursive types.",
 ["inputs", "programs"], "every pair of type definitions within the bounds", "no test compares types; the relation ranges over pairs of definitions",
 ["model.go"], [("EquivalentTypes, EquivalentTypesByName", "model.go")], TB)

prop("C11", "Lifting inline enums keeps the meaning of a model",
 "After inline enums of struct fields are lifted, no inline enum remains, each lifted field refers to a defined enum with exactly its symbols, named after its struct and its field (the field alone if that starts with the name of the struct), no name is defined twice, every other type and field is unchanged, and the same values are valid. A name that is taken by a different type is reported as an error; an equivalent type is reused.",
 ["inputs", "programs"], "every model within the bounds", "tests (which need the parser) use one example",
 ["model.go"], [("ConvertInlineEnums", "model.go")], TB)

prop("C12", "Configuration lookups find exactly what the path names",
 "Looking up a path of keys in a configuration gives the value at that path, or nothing when any key on the way is missing or is not an object. Typed lookups give the value or the zero of their type, and an option with a default takes the default exactly when it is absent.",
 ["inputs", "configurations"], "every configuration and every path within the bounds", "no test reads configurations",
 ["data.go", "struct_helpers.go", "generator.go"], [("Data.Get and the typed getters", "data.go"), ("GetConfigString, GetConfigBool, GetConfigInt", "generator.go")], TB)

prop("C13", "Example targets resolve to the declared type or are an error",
 "The dotted target of an example resolves, field by field from a type or from an action's request or response, through named types too, to exactly the type declared there. A target with a part that is not defined is an error, never a crash or a different type.",
 ["inputs", "programs"], "every target and model within the bounds", "tests that use examples need the parser and have a few fixed targets",
 ["model.go"], [("FindExampleType", "model.go")], TB)

prop("C25", "Generated files: never overwritten unasked, complete, failures reported",
 "A generator or export never overwrites a file that exists unless overwriting was asked for; every other file it produces has exactly the generated content. A missing directory, a directory in the way, a full device or a broken template is reported as an error.",
 ["configurations", "fault_sequences", "inputs"], "every prior state of the output directory, every overwrite setting, every fault within the bounds", "no test writes files",
 ["generator.go", "golang/export_golang.go", "java/export_java.go", "java/java_pom.go"], [("WriteFile checks for the file and the force-overwrite option", "generator.go")], TB + "Files are modelled by a virtual file system; sampled paths run on the real one in a scratch directory. ")

prop("C26", "Formatted comments keep every word and never leak out of the comment",
 "For every comment, indent and width, each non-empty line of the formatted comment starts with the indent and the comment marker, and all words of the comment are there in order. Lines are wrapped to the width asked for unless a single word is longer.",
 ["inputs"], "every comment, indent and width within the bounds", "no test formats comments",
 ["misc.go", "generator.go"], [("FormatComment", "misc.go")], TB)

prop("C27", "Names: identifier rules and case changes",
 "A text is an identifier exactly when it is an ASCII letter followed by ASCII letters, digits and underscores. Capitalizing or uncapitalizing a name changes at most the case of its first letter, and doing it twice changes nothing more; the base name of a file drops its directory and its last extension.",
 ["inputs"], "every byte string within the bounds", "no test checks names",
 ["misc.go", "model.go", "generator.go"], [("IsSymbol, Capitalize, Uncapitalize, BaseFileName", "misc.go, model.go")], TB)

prop("C17", "OpenAPI export describes every type and action and has no dangling reference",
 "The exported document has a schema for every type, with its kind, format, limits, sizes, pattern, values, required fields, items and variants, and every reference leads to the schema of the type it stands for. Every action is at its path and method with its name, each input as the path, query, header parameter or body it is, the expected and exceptional responses under their statuses, and each example where it belongs; two actions at one path and method are an error. No model makes the export crash.",
 ["inputs", "programs"], "every model within the bounds", "the export tests need the parser, cannot be built here, and only print the document",
 ["openapi/export_openapi.go", "openapi/model.go"], [("ExportToOAS3, exportTypeDef, oasSchema", "openapi/export_openapi.go")], TB)

prop("C18", "OpenAPI round trip: what is exported comes back when imported",
 "Importing an exported OpenAPI document, in memory or from a file, gives back every type with its name, kind, limits, sizes, pattern, values, items, variants and required fields, and every action with its name, method, path, resource, tags, comment, inputs, expected response and exceptions, and the name, version, comment, server and licence of the service. Only what OpenAPI cannot say is lost: Int8 and Int16 come back as Int32, an inline UUID or UnitValue as String, String values that are all symbols as an Enum, and the names of a union's variants.",
 ["inputs", "programs"], "every model within the bounds", "no test imports a document",
 ["openapi/export_openapi.go", "openapi/import_openapi.go", "openapi/model.go"], [("ExportToOAS3", "openapi/export_openapi.go"), ("ToSadl, convertOasType, convertOasPath, Load", "openapi/import_openapi.go")], TB)

prop("C19", "OpenAPI import: a faithful model or an error, the same every time",
 "Importing an OpenAPI document never crashes: it gives a model or an error, and what is missing or not supported (an undefined or circular reference, an unknown type, a cookie parameter, a wildcard exception) is an error. Each schema becomes the type its type and format mean, each parameter the input of its place and name, the first successful response the expected one, a reference to a parameter, body, response or header what it refers to, and each example is for something that exists. The same document always gives the same model in the same order.",
 ["inputs", "programs", "schedules"], "every document within the bounds and every map iteration order", "no test imports a document, and a test sees one map order at a time",
 ["openapi/import_openapi.go", "openapi/model.go"], [("ToSadl, convertOasType, convertOasPath, Load, Validate", "openapi/import_openapi.go")], TB)

prop("C20", "Swagger 2 import keeps what the document says",
 "A Swagger 2.0 document is loaded with every definition, keeping type, format, limits, sizes, pattern, values, items, properties, required properties, map values and references (renamed to their new place), and every operation at its path and method with its parameters, body, responses and headers (also when they are references), each for the media types the operation or else the document gives, or JSON when none is given, and its title, version, description, licence, contact, external documentation and servers. Anything that is not Swagger 2.0 is an error, and no document makes it crash.",
 ["inputs", "programs"], "every document within the bounds", "no test imports a Swagger document",
 ["openapi/import_swagger.go"], [("LoadSwagger, toV3", "openapi/import_swagger.go")], TB)

prop("C21", "GraphQL export says what the model says, in valid GraphQL",
 "The exported GraphQL document has exactly one definition for every struct, enum and union of the model, with all fields, symbols and variants in order. Each field has the GraphQL type its SADL type means (aliases and named arrays are replaced by what they stand for, array items are non-null, configured custom scalars are used and declared) and is non-null exactly when it is required. Comments never leak into the document, a type that GraphQL does not have is an error, like a union of anything but structs, nothing makes the export crash, and the same model always gives the same text.",
 ["inputs", "programs", "configurations", "schedules"], "every model, configuration and map iteration order within the bounds", "no test exports GraphQL",
 ["graphql/export_graphql.go"], [("FromSadl, typeRef, scalarType", "graphql/export_graphql.go")], TB)

prop("C30", "GraphQL import: every definition becomes the type it means, or an error",
 "Importing a GraphQL document gives a struct for every object type except the operation types named by the schema definition (wherever it stands), an enum for every enum and a union for every union, with all fields, values and members in order, each field with the SADL type of its GraphQL type, its list items, and required exactly when non-null. Descriptions become one-line comments. A document that is broken, defines a name twice, or has a definition that is not supported is an error, never a crash; and what the GraphQL export writes can be imported again.",
 ["inputs", "programs"], "every document within the bounds", "no test imports GraphQL",
 ["graphql/import_graphql.go", "graphql/export_graphql.go"], [("Import, gqlSchema, gqlStruct, gqlEnum, gqlUnion", "graphql/import_graphql.go")], TB + "The graphql-go lexer and parser are executed symbolically as they are. ")

prop("C22", "HTTP traces show each example as the exchange it is an example of",
 "The HTTP trace shows every named request example of every action once, in order, with the action's method and its path with each parameter replaced by the example's value (and only that), encoded as URLs need it, exactly the query parameters, headers and body the example has, followed by the response of the same name: the expected status or the status of the exception it is an example of, its headers, its body, and the body's length. A request or response example that is not an object is an error; nothing makes the export crash, and the trace is the same every time.",
 ["inputs", "programs", "schedules"], "every model with examples, and every map iteration order within the bounds", "no test makes traces",
 ["httptrace/export_http_examples.go"], [("Export, generateHttpTrace", "httptrace/export_http_examples.go")], TB)

TG = "The Go code is generated by the working tree's generator on every run and executed symbolically itself, with stand-ins for net/http and gorilla/mux; code that cannot be generated or does not compile is a violation. "

prop("C23", "Generated Go model: every type as its Go equivalent, in a file that compiles",
 "The Go file generated for a model has the package of the configuration, the namespace or else main, is written where that package says, and imports exactly the packages it uses. Every type is declared once: named base types, arrays and maps as the corresponding Go type; structs with their fields in order, each with its Go type, its JSON name, and omitempty exactly when optional; unions with a tag and a field per variant in order; enums with their symbols in order and the value of each. The service interface has one method per action, whose request and response structs have its inputs and outputs in order, and exactly the exception types are Go errors. A type that is not supported is an error, and nothing makes the generator crash.",
 ["inputs", "programs", "configurations"], "every model and configuration within the bounds", "no test generates code",
 ["golang/export_golang.go", "golang/golang_model.go", "generator.go"], [("CreateModel, EmitType, EmitStructType, EmitUnionType, EmitEnumType, nativeTypeName", "golang/golang_model.go, golang/export_golang.go")], TB)

prop("C31", "Generated Go client and server: a call arrives and comes back as it was made",
 "A call through the generated Go client reaches the generated server's handler for that action and no other, with every path, query, header and body input as it was given, whatever characters it has, or the declared default when it was not set. The expected response comes back with its entity, its headers and the declared status, a declared exception comes back as the error of that type with its content under its declared status, and any other error is a 500 and an error at the client. A path or method that is not declared is not found, and a body that cannot be read is a bad request; in both cases no action is called.",
 ["inputs", "histories"], "every request, response and exception within the bounds, for the fixture services", "no test generates code, let alone runs it",
 ["golang/golang_server.go", "golang/golang_client.go", "golang/golang_model.go"], [("EmitServerAdaptor, paramAccessor, serverTemplate", "golang/golang_server.go"), ("EmitClient, clientTemplate", "golang/golang_client.go")], TB + TG)

prop("C32", "Generated Go types read and write JSON without loss",
 "What the generated Go types write as JSON they read back as the same value: structs with required fields always there and optional ones exactly when set, unions as their one variant, enums as the value of the symbol (any other text is an error), decimals as strings with all their digits, and timestamps as the UTC instant to the millisecond in the RFC 3339 layout, whatever zone they are in. Timestamp and decimal texts are accepted exactly when they are well formed, and a number read from text that does not fit or is no number is 0.",
 ["inputs"], "every value within the bounds, for the fixture types", "no test generates code, let alone runs it",
 ["golang/golang_model.go"], [("timestamp, decimalType, enumTemplate, EmitStructType", "golang/golang_model.go")], TB + TG)

prop("C24", "Generated Java model: every type as its Java class, with all it says",
 "The Java files generated for a model are where the configured source directory and package (or else the domain or namespace) say, with the header asked for. Every struct, enum, union and unit value has its class and no other type has one: a struct with each field in order, its Java type (primitive exactly when a required number or Bool), @NotNull exactly when required and not primitive, its pattern, sizes and limits, its constructor, getters and builder (or public fields and setters when not immutable) under its JSON name; an enum with each symbol and its value; a union with each variant and a factory for it; a unit value that reads and writes its text. The service interface has a method per action, with request and response classes of its inputs and outputs, exactly the types thrown are exceptions, and everything a class uses is imported. With Lombok, structs have just their fields and its annotations, inline structs too. The helper classes Util and Timestamp are there, with what other classes take from them. Whatever comments, patterns and values say, they stay comments and strings. An existing pom.xml is kept unless forced.",
 ["inputs", "programs", "configurations"], "every model and configuration within the bounds", "no test generates code",
 ["java/export_java.go", "java/java_model.go", "java/java_server.go", "java/java_pom.go", "java/java_util.go", "generator.go"], [("CreatePojo, CreateStructPojo, CreateEnumPojo, CreateUnionPojo, CreateUnitValuePojo, TypeName, EmitBuilder", "java/export_java.go"), ("CreateInterface", "java/java_model.go")], TB + "The generated text is compared token by token with an independent statement of what it has to be; javac is not run. ")

prop("C33", "Generated Java server and client: each action with all its parameters",
 "The generated Java server is a resource class at the base path with one method per action, at its HTTP method and its path without the query, which takes every input from the query, header, path or body it is declared in, under its declared name and with its declared default, calls the service with all of them, and answers with the declared status, every header output and the entity, each declared exception with its status, and 500 for anything else. The generated client has one method per action that sends every input where it is declared, reads the entity and each header output with its type, throws the declared exception for its status, and any other status is an error. Both are in the packages asked for; an example implementation of every action and a Main class that serves it are there exactly when asked for. Everything a class uses is imported, and nothing makes the generator crash.",
 ["inputs", "programs", "configurations"], "every service and configuration within the bounds", "no test generates code",
 ["java/java_server.go", "java/java_client.go"], [("CreateServerDataAndFuncMap, resourcesTemplate", "java/java_server.go"), ("CreateClientDataAndFuncMap, clientTemplate", "java/java_client.go")], TB + "The generated text is compared token by token with an independent statement of what it has to be; javac is not run. ")

TP = "The scanner library the parser needs is not available offline; a stand-in written from the parser's use of it takes its place. "

prop("C14", "SADL parser: every source gives a model or an error",
 "Parsing a SADL source, whatever tokens it is made of and wherever it ends, stops and gives either a model or an error with a message; it never crashes and never does both.",
 ["inputs"], "every token sequence within the bounds, from every construct of the language", "the parser's tests cannot be built here and parse a few complete sources",
 ["parser.go"], [("ParseNoValidate and the parse functions it calls", "parser.go"), ("Validate", "parser.go")], TB + TP)

prop("C15", "SADL parser: the model says exactly what the source says",
 "A source's name, namespace, version, base, annotations, types, operations and examples are in the model, in order, each with exactly what is written: kind, items, keys, unit, limits, sizes, pattern, values, reference, fields with required and default, enum symbols, union variants, comments and annotations, however it is laid out (order and case of options, separators, semicolons, comments before or behind, block comments, end of file). Files included are part of the model. A directive that does not exist, a reference to an undefined type, contradictory or invalid options, a default or example that does not conform, and a circular include are errors.",
 ["inputs", "programs"], "every source within the bounds", "the parser's tests cannot be built here, and mostly look at whether a source is accepted",
 ["parser.go"], [("ParseNoValidate, parseTypeDirective, ParseTypeSpecElements, ParseOptions, parseStructFieldDef, parseLiteral", "parser.go"), ("Validate", "parser.go")], TB + TP)

prop("C16", "SADL parser: actions with every parameter in its place",
 "A path template is accepted exactly when its braces pair up within one path element, and kept as written. An input is the header it names, else the path parameter, the query parameter or the body its name makes it, and is required when it says so or is in the path or the body. An action is named as it says, else by its method and resource. At most one body is accepted, only for POST, PUT and PATCH, and at most one entity, not for 204 and 304. Expected response and exceptions keep status, outputs, comments and annotations, no exception type is there twice, and request and response examples conform.",
 ["inputs", "programs"], "every action within the bounds", "the parser's tests cannot be built here, and try five path templates",
 ["parser.go"], [("parseHttpDirective, parseHttpSpec, parameterSource, ensureActionName, validateHttp, validateHttpPathTemplate", "parser.go")], TB + TP)

prop("C29", "A model written as SADL reads back as the same model",
 "The SADL source written for a model parses to the same model: its name, namespace, version, base, comment and annotations, and every type, operation, action and example in order with all its parts, options, defaults, comments and annotations. The same model is always written as the same text.",
 ["inputs", "programs", "schedules"], "every model within the bounds and every map iteration order", "no test writes SADL",
 ["unparser.go", "parser.go", "misc.go"], [("Generate, sadlTypeSpec, sadlHttpSpec, sadlOperationSpec, sadlParamSpec", "unparser.go"), ("the parser", "parser.go")], TB + TP)

prop("C36", "SADL parser: extensions are given their directives, and have a say",
 "Every directive whose name is that of an extension given to the parser is handed to that extension, in order, with the comment before it, also in included files and whichever other extensions there are; what it does not take is parsed as if it were not there. An error of it is an error of the parser and ends the parsing. Every extension validates once, when the model is complete, and an error of any is an error of the parser. The model has the result of each under its name, as it is at the end. Two extensions of one name, and a directive of no extension, are errors.",
 ["inputs", "programs", "schedules"], "every source within the bounds and every map iteration order", "no test uses an extension",
 ["parser.go"], [("ParseNoValidate, registerExtension, extensionList, parseIncludeDirective, Validate", "parser.go")], TB + TP)

TS = "The Smithy library is not available offline; a stand-in for its syntax tree and its JSON form takes its place. "

prop("C28", "Smithy export: every type and action says in Smithy what it says in SADL",
 "The Smithy model made from a SADL model has a shape for every type (an alias has the shape of what it stands for), of the matching kind, with its comment, tags, deprecation, limits, sizes, pattern, values, members in order, required members and comments of members. Every action and operation is an operation with its method, path without the query, status, pagination, input and output structures with each member in its place, and errors with their status; all are listed by one service with the version. Examples are kept in order. A service or namespace without a name gets the one configured. Every reference leads to a shape that is there, names that would collide and what Smithy cannot express are errors, never crashes, and the same model always gives the same result.",
 ["inputs", "programs", "schedules"], "every model within the bounds and every map iteration order", "the smithy package has no tests, and cannot be built here without its library",
 ["smithy/export_smithy.go"], [("FromSADL, defineShapeFromTypeSpec, memberTarget and the shapeFrom functions", "smithy/export_smithy.go"), ("examplesFromSADL", "smithy/export_smithy.go")], TB + TS)

prop("C34", "Smithy import: every shape becomes the type or action it means, or an error",
 "A Smithy model in JSON imports as a SADL model with a type for every shape, of the matching kind with its documentation, range, length, pattern, values, members in order and required members, and an action or operation for every operation, with its method, path and query, status, each input and output in its place (members bound nowhere are the body), errors with their status, and examples. A model exported from SADL and imported again says the same (inline types have become types of their own, and a reference to a document is an open Struct). Shapes that are not there, incomplete or not supported, more than one service, and files that are missing or not Smithy are errors.",
 ["inputs", "programs"], "every Smithy model and every exported SADL model within the bounds", "the smithy package has no tests, and cannot be built here without its library",
 ["smithy/import_smithy.go", "smithy/export_smithy.go"], [("ToSadl and the import functions of each shape", "smithy/import_smithy.go"), ("importOperationShape, bodyParam", "smithy/import_smithy.go"), ("Import, AssembleModel, expandPaths", "smithy/import_smithy.go")], TB + TS)

prop("C37", "swagger-ui: the document of the model is served, whatever else is going on",
 "The swagger-ui generator serves on port 8080: any path that ends in .json gives the OpenAPI document that the openapi generator writes; / and /index.html give the index of the distribution with every default URL replaced by the name of the model's document; another path gives the file of that path below the distribution's dist directory, byte for byte, and anything else is not found. A file that cannot be read is a server error. Requests that are served at the same time each get, whole, what they get alone, and so do all later ones. The distribution of the release asked for is downloaded when it is not in the download directory, kept there, and not downloaded again; a failed download, an error page among them, ends the command with an error and is not kept.",
 ["inputs", "schedules", "faults"], "every path, every answer of the network and every point at which another request comes in, within the bounds", "the server has no tests and needs a network",
 ["cmd/sadl/serve.go", "cmd/sadl/export.go"], [("serveSwaggerUi", "cmd/sadl/serve.go"), ("cacheSwaggerDist", "cmd/sadl/serve.go")], TB + TP + TS + "net/http, archive/zip, os/exec and log are replaced by stand-ins in the copy of the command. ")

prop("C35", "The sadl command: files are read as what they are, options do what they say",
 "The command takes the format of each input file from its extension and, for JSON, its content (SADL, Smithy, OpenAPI or Swagger), also for the files below a directory, and reads what the importer of that format reads; -t leaves out files of other formats. A file that is missing or of no known format, files of different formats, and several files of a format that cannot be merged are errors. -n, -ns and -b override name, namespace and base of the source, -s chooses the service. Each generator runs with the entry of its name in the config file (the shorthands with that of the generator they stand for), which -x options override, and leaves files that are there alone unless -f is given. The JSON and the SADL source it writes for any input can be read back. The exit status is zero exactly when all of that succeeded.",
 ["inputs", "programs", "configurations"], "every command line, config file and set of input files within the bounds", "the command has no tests, and cannot be built here without its libraries",
 ["cmd/sadl/main.go", "cmd/sadl/import.go", "cmd/sadl/export.go", "generator.go"], [("main", "cmd/sadl/main.go"), ("ImportFiles, expandPaths, ValidImportFileType", "cmd/sadl/import.go"), ("ExportFiles", "cmd/sadl/export.go"), ("WriteFile", "generator.go")], TB + TP + TS)
