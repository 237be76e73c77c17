fixed("C01","b741427","a UUID with letters that are not hexadecimal digits was accepted","zzzzzzzz-1dd2-11b2-bc26-003ee1be85f9")
fixed("C02","c924295","a timestamp in another zone printed its local time with a Z, and years below 1000 printed with fewer digits","2021-01-01T00:00:00+02:00")
fixed("C05","ebd9462","the intrinsic limits of integer types were not enforced (an untyped int default gave no limit)","Int8 300")
fixed("C05","d640430","a number with a fraction was a valid integer","Int32 1.5")
fixed("C07","b3accda","a unit value with a one-digit amount, or given as a plain string, was not valid","5 kg")
fixed("C02","b137b49","a timestamp given as a plain string or as a value was never valid","\"2021-01-01T00:00:00.000Z\"")
fixed("C07","8a911ee","validating a union value recursed forever","{\"a\": 1}")
fixed("C10","dec9138","constraints were compared by pointer, so equal types were not equivalent, and fields of structs were not compared","two String types with maxsize=5")
fixed("C11","43ef5e8","lifting inline enums defined a type twice","two structs whose fields lift to the same name")
fixed("C12","978d6a3","a missing key in the middle of a configuration path was skipped, finding an unrelated value","get a.x.b")
fixed("C04","ede34be","a unit with a quote or backslash was encoded as invalid JSON","1 \"")
fixed("C25","8af62af","an error while flushing a generated file was not reported","full device")
fixed("C07","5dc20c8","the keys of a map were not validated","Map<Enum,String>")
fixed("C06","4c6bf7f","a declared pattern was ignored for a string with declared values","values=[\"zz\"] pattern=^a")
fixed("C10","4974abb","comparing two recursive types recursed forever","type A Struct { Array<A> kids }, type B Struct { Array<B> kids }")
fixed("C10","1ba30f5","unions that differ in the names of their variants were equivalent, and the comparison was not symmetric","Union<a String, b String> and Union<c String, d Int8>")
fixed("C13","9cefa59","an example of an output of an action without expected response crashed","GetFooResponse.body")
fixed("C17","65303ee","exporting an Array of Float64 items panicked","type A Array<Float64>")
fixed("C17","908b370","an example was attached only for the first method of a path, and otherwise the export panicked","GET and PUT on one path, example for the response of PUT")
fixed("C17","d27488a","PATCH, HEAD and OPTIONS actions were dropped silently","http PATCH /x")
fixed("C17","8e99284","examples of inputs whose name differs from the query or header name were lost, response members went to request parameters, and a body not named body panicked","query q={limit}, example {limit: 5}")
fixed("C17","3d31356","an action with no expected response crashed the export","http DELETE /x {}")
fixed("C17","83a1745","references to schemas that do not exist: Map<String,Enum>, inline enums, Any, Array<Union>, union variants of base types","type M Map<String,E>")
fixed("C17","3285156","the values of an inline String were dropped","field String (values=[\"a\"])")
fixed("C17","b33d75f","required fields of an inline Struct were dropped","field Struct { x Int8 (required) }")
fixed("C17","a114fe9","sizes of arrays and maps were dropped","Array<Int8> (maxsize=3)")
fixed("C17","3a49784","the comment of a numeric type was dropped","type N Int8 // comment")
fixed("C17","7746821","an Array or Map that contains itself made the export recurse forever","type A Array<A>")
fixed("C19","a142241","the same document gave a different model each time: map order decided the expected status and the order of types, fields and actions","responses 200 and 302")
fixed("C19","6f5fdd7","a document without components, or with a reference to a missing schema, crashed the import","components: none")
fixed("C19","d28e307","unsupported types, wildcard codes and inline exception types panicked; an error in a field was lost","type: null")
fixed("C19","be8a019","digits of parameter names were dropped, and path parameters like {id2} or {pet-id} panicked","/x/{id2}")
fixed("C18","0996881","PATCH and OPTIONS operations were dropped","patch: ...")
fixed("C18","8598342","the formats float, double and byte were ignored","type: number, format: double")
fixed("C18","500a40c","size limits of arrays were dropped","minItems: 1")
fixed("C18","ad51a8b","64 bit integer parameters became Int32, formats and limits of parameters were dropped, a parameter with no type panicked","in: query, type: integer, format: int64")
fixed("C19","47e6860","examples were made for targets that do not exist","an example of an array item or a response")
fixed("C18","8b6aebd","a request body whose schema is not a reference was dropped","requestBody of type array")
fixed("C18","2840fbc","maps and unions became empty structs","additionalProperties: {type: boolean}")
fixed("C18","98fcd45","an empty schema, which allows any value, became an empty struct","items: {}")
fixed("C20","77d1640","limits of numbers were ignored","minimum: 0")
fixed("C20","0a0fc78","format, limits, values, items and description of parameters and headers were dropped","in: query, type: integer, format: int64")
fixed("C20","0066930","a schema with no type, an unknown type or an array with no items panicked; array sizes were dropped","type: array")
fixed("C20","deeb6ef","maps became empty structs","additionalProperties: {type: boolean}")
fixed("C20","c6d0525","a document that does not say what it consumes or produces lost every body","no produces")
fixed("C20","d25298a","OPTIONS operations were dropped","options: ...")
fixed("C19","9f2222c","a parameter in an unknown place (formData) was taken for the body","in: formData")
fixed("C19","032f458","parameters given for a whole path were dropped","paths: /x/{id}: parameters")
fixed("C21","1cd16cd","Export panicked instead of returning its error","any model that cannot be exported")
fixed("C21","7c9dea8","a UUID or Timestamp type definition made the export panic","type Id UUID")
fixed("C21","c746a92","a type definition without a GraphQL equivalent made the export panic","type M Map<String,String>")
fixed("C21","0afa924","the custom scalars were declared in map order","two custom scalars in use")
fixed("C21","7b143ef","the second line of a field comment was outside the comment","comment a\\n}")
fixed("C21","819228d","array items kept their SADL names","Array<Int32> became [Int32!]")
fixed("C21","434285d","fields of Bytes, Map, Any ... referred to types that are not defined","field Bytes")
fixed("C30","6182896","operation types were ignored only when the schema definition came first","type Query {...} schema {query: Query}")
fixed("C30","127f688","a list of lists made the import panic","x: [[Int]]")
fixed("C30","5cec87e","a field without a type was accepted, and a list without one made the import panic","x: []")
fixed("C22","36e058e","an example that is not an object made the export crash, and an error ended the program","example GetRequest \"x\"")
fixed("C22","5ae0ef6","an action without an expected response made the export crash","example with an exception, no expect")
fixed("C22","9d0fa5d","examples were shown in map order","two examples of one action")
fixed("C22","b98d551","parameter values other than *string and *Decimal were lost","a Bool query parameter")
fixed("C22","d5b2cd0","a query parameter whose value ends with = was dropped","q = a=")
fixed("C22","fb76acb","a parameter was substituted inside the value of another","a = {b}")
fixed("C22","66a38ad","empty headers and a null body were shown for what the example does not have","optional header not in the example")
fixed("C23","21cd2e7","files with enums did not import the packages their code uses","type E Enum {A}")
fixed("C23","47ff6e7","number types had a FromString function that did not compile","type N Int64")
fixed("C23","28f861a","UUID, Bytes and Any were left as names that Go does not have","field Bytes")
fixed("C23","2e5de17","a type that is not supported made the generator crash, or left an undefined name","field of inline Struct")
fixed("C23","248283f","Bool, Bytes, Timestamp and Any type definitions crashed or did not compile","type B Bytes")
fixed("C23","b5e8551","an action with no expected response made the generator crash","an action with exceptions only")
fixed("C23","5e614b4","a union used as an exception was no Go error","except 400 Fault (a Union)")
fixed("C23","24c90af","an x_enumValue with a quote or a backslash in it made code that does not compile","x_enumValue=\"a\\\"b\"")
fixed("C31","855cad0","the server needs the Timestamp type, which was there only if the model uses it","a model without Timestamps")
fixed("C31","bf6cf5a","the handler declared err twice","an action with a query parameter and a body")
fixed("C31","aa44e4c","the handler of an action without outputs had an unused result","expect 204")
fixed("C31","ab40bb4","a default was written as its address","a String query parameter with a default")
fixed("C31","dccf425","the default of a Timestamp parameter did not compile","a Timestamp query parameter with a default")
fixed("C31","9b9a7b3","integer defaults that come from JSON were taken for 0","Int32 query parameter, default 3")
fixed("C31","fdb935b","the client of every service was named CrudlClient","any service")
fixed("C31","8f7aad9","the client sent the path template, not the parameters","GET /items/{id}")
fixed("C31","a265c6e","query parameters were sent under the wrong name and without escaping","?lim={limit}, a value with &")
fixed("C31","1e71d3e","the client did not compile for UUID, Decimal and Enum query parameters","a UUID query parameter")
fixed("C31","b258601","the client never sent header parameters","header X-Trace")
fixed("C31","f4334eb","the client imported packages it does not use","an action without a body")
fixed("C31","2dee24d","the client used a function that only the server file has","client without server")
fixed("C31","6575376","the client failed for an inline Array or Map response","expect 200 Array<Item>")
fixed("C31","cdc5701","the client did not compile for response headers other than String","header output Int32")
fixed("C31","f9ad711","the client did not compile when two exceptions have the same status","except 400 E1, 400 E2")
fixed("C31","6beb2b1","the server crashed when a Last-Modified, Date or Expires output is not set","Last-Modified output nil")
fixed("C32","9ce78f3","generated timestamps were printed in local time labelled Z, with a year of less than four digits","Timestamp{time in +01:00}")
fixed("C24","edeeadd","the domain option of the Java generator was ignored","domain=example.com")
fixed("C24","5ce7468","generated exceptions ignored their own message field in JSON","except 404 Err, type Err Struct { message String; code Int32 }")
fixed("C24","83c2153","generated Java did not compile for Bytes, and for named Bool, Bytes and Any types","type Flag Bool, a field of type Flag")
fixed("C24","c5d2355","the generator crashed on an Array or Map with plain Array or Map items","type L Array<Array>")
fixed("C24","7c9bf10","the Timestamp class was not in the package that uses it","instants=false, a Timestamp field")
fixed("C24","d65b4b8","UnitValue classes did not compile","type U UnitValue<Decimal,String>")
fixed("C24","2eaf4fd","generated Java did not compile for numbers with a minimum or maximum","Int32 (min=1)")
fixed("C24","96032d1","enums did not compile when an x_enumValue has a quote or a backslash in it","x_enumValue=a\"b")
fixed("C24","dcbf036","a field with an inline Struct type did not compile, and the order of nested classes was random","a Struct { x Int32 }")
fixed("C33","1f927a9","the client generator crashed on an action without a name","http GET \"/x\" without operation name")
fixed("C33","06c47d0","server and client did not use the configured name of the service","name=other")
fixed("C33","ce53cf0","the server generator failed on a String default","query parameter String (default=\"x\")")
fixed("C33","f8ba9cc","servers and clients did not compile for Decimal and UUID parameters and typed response headers","a Decimal query parameter, an Int32 header output")
fixed("C33","a3348e5","the client generator failed on PATCH, HEAD and OPTIONS, and its code did not compile for a PUT or POST without a body","http PATCH")
fixed("C33","cb8aea8","clients did not compile for a response entity that is a list or a map","expect 200 Items, type Items Array<Item>")
fixed("C24","b35f5ab","a required field with a named Array or Map type was not marked as not null","a Texts (required), type Texts Array<String>")
fixed("C24","49598ea","generated Java could not read JSON with named Timestamp fields, or any when not immutable","type When Timestamp, a field of type When")
fixed("C24","2678a12","generated Java wrote and read the JSON of fields such as eTag or URL under another name","a field eTag")
fixed("C14","961575e","an operation cut short made the parser crash","operation o { inputs {")
fixed("C14","a898496","an example response of an action that expects none made the parser crash","http GET \"/\" (operation=a) { }, example AResponse {}")
fixed("C15","d44affe","a file that includes itself made the parser crash","include \"a.sadl\" in a.sadl")
fixed("C15","696151f","a struct, enum or union that ended the source without a newline was an error","type T Enum { a } at the end of the file")
fixed("C15","46357fe","the comment before a struct field was doubled, and only its last line kept","// one, // two, f Bool")
fixed("C16","1a1ffcd","optional headers were required, and the required option of a parameter was lost","h String (header=\"H\")")
fixed("C15","aa56570","the options, comment and annotations of a union variant were lost","Union { a Array<Str> (minsize=1) }")
fixed("C15","5e3b734","undefined map key and exception types went unnoticed","type X Map<Nope,Any>")
fixed("C15","e48ec5b","undefined types of union variants and operations went unnoticed","type X Union<Str,Nope>")
fixed("C16","3af51e7","examples of requests and responses were not checked against inline types","l Array<Int32>, example OpRequest {\"l\": [\"x\"]}")
fixed("C29","517b5c0","the SADL written for a model had its annotations in a different order every time","two annotations")
fixed("C29","253b7b7","options, defaults and annotations of types were lost when a model was written as SADL","type X Bytes (maxsize=4), f Int32 (default=3), type X Bool (x_a)")
fixed("C29","43e14f8","the outputs of an operation were written with the options of its last input","operation with a required input and an output")
fixed("C29","17e02ae","an example with no name was written as SADL that cannot be read","example T 1")
fixed("C29","f06fd18","the resource, missing expected response and annotations of an HTTP action were lost when written as SADL","http GET \"/a\" (resource=b) {}")
fixed("C29","290a997","a model with no name that was not read from a file was named \".\"","type T Bool")
fixed("C16","9e7a837","an action whose path has a query or ends in a slash was left without a name","http GET \"/items?limit={limit}\"")
fixed("C15","58c149d","a comment in the inputs, outputs or exceptions of an operation was a syntax error","operation o { inputs { // c")
fixed("C29","94900d2","a required struct field with no fields of its own was written as SADL that cannot be read","f Struct (required)")
fixed("C16","3e17a54","an output named like a path or query parameter was taken for that parameter","http GET \"/x/{out}\" { expect 200 { out Str } }")
fixed("C28","2ad4c2b","smithy export crashed on an action with no expected response","http with no expect")
fixed("C28","b522e31","smithy export panicked on Bool, Bytes, Timestamp and Any types, and those it does not support","type X Bool")
fixed("C28","0a513e7","smithy export panicked on a type that stands for another type","type X Y")
fixed("C28","498c32e","smithy export of fields with an inline Array, Map, Enum or Struct referred to shapes that do not exist","Struct { a Array<Str> }")
fixed("C28","0b1d5d8","smithy export of union variants of base types referred to shapes that do not exist","Union<String>")
fixed("C28","cd6861c","smithy export of Any, and of arrays of plain Array or Map, referred to shapes that do not exist","Array<Any>")
fixed("C28","c44321d","smithy export lost the comments of struct fields and enum elements","field with a comment")
fixed("C28","6196617","smithy export lost the size limits of maps","Map<String,Str> (maxsize=2)")
fixed("C28","bdeb3f4","smithy export lost the limits, sizes, pattern and values of fields","a String (minsize=1) in a Struct")
fixed("C28","90cb7ac","smithy export of inputs and outputs with an inline type referred to shapes that do not exist","input Array<Str>")
fixed("C28","6532723","smithy export lost which inputs and outputs are required, and their comments","q String (required)")
fixed("C28","b9a7883","smithy export lost the exceptions of operations","operation with except Point")
fixed("C28","e5fa16d","smithy export replaced a type by an action, a request or a service of the same name","type Test, name test")
fixed("C28","e88f7fa","smithy export listed examples in random order, crashed on those that are no objects, and misnamed errors","two examples")
fixed("C34","153997d","smithy import of a boolean shape made a type that does not exist","{\"type\":\"boolean\"}")
fixed("C34","8a7384e","smithy import lost the sizes of lists and maps, and sizes that are 0","smithy.api#length on a list")
fixed("C34","71b3c72","smithy import lost the range of numbers, which JSON gives as float64","smithy.api#range {\"min\": 1}")
fixed("C34","9107080","smithy import lost the names of query parameters that differ from those of the members","httpQuery \"k\" of member q")
fixed("C34","9be80b2","smithy import kept the version that stands for none","version 0.0")
fixed("C34","fce3c1e","smithy import gave examples targets that do not exist, and lost those of errors","smithy.api#examples")
fixed("C34","b8e9d43","smithy import panicked on shapes that are missing, incomplete or not supported, and did not notice undefined members","list without a member; reference to a shape that is not there")
fixed("C34","adebbcc","smithy import left the primitive shapes of Smithy 1 and Unit as names that SADL does not have","smithy.api#PrimitiveLong")
fixed("C34","e4cd569","smithy import lost inputs and outputs that are bodies or headers, and the comments of parameters","input member with no binding")
fixed("C34","a5e13df","smithy import did not define inputs and outputs that are used as types, too","list of an input structure")
fixed("C28","57ad2a7","smithy export gave the traits of a type in a different order every time","x_tags and x_sensitive")
fixed("C34","fb72407","smithy import lost the comments of the service and of the inputs and outputs of operations","documentation of the service")
fixed("C34","c6eb9b6","smithy import lost the tags of strings, bytes, lists and maps","tags of a string shape")
fixed("C34","f41b24a","smithy import ignored files of a type it does not know, and directories that cannot be read","Import([]string{\"read.me\"})")
fixed("C35","bde07d7","-n, -ns and -b did not override what is in the source","-n N b.sadl with name nm")
fixed("C35","bb5f93a","-t was ignored","-t smithy a.sadl")
fixed("C35","bf67cd9","files that cannot be read or are of no known type were ignored when there was another","a.sadl x.txt")
fixed("C35","0dc0480","a config file that cannot be read did not stop the command","-c none.yaml")
fixed("C35","da5fb75","go, java-client and smithy-ast ignored the options of the config file","go-server with an entry go")
fixed("C35","8fa24aa","the value of an option was cut at a second =","-x header=a=b")
fixed("C35","4139bd7","models made from OpenAPI and GraphQL lacked the SADL version, their JSON could not be read","-g json x.graphql")
fixed("C35","ba7cbcb","the go generator ignored its option header","-g go -x header=//x")
fixed("C20","525cd1a","a map whose schema has no type became an empty schema","additionalProperties without type")
fixed("C15","12c77eb","anything but a symbol was ignored in an operation input's options","a Str (required = 1)")
fixed("C21","6ffa8ce","GraphQL unions of types other than structs were exported","type U Union<String,Int32>")
fixed("C36","55cf772","directives that do not exist were ignored","typ X String")
fixed("C15","e4b9b0e","the examples of included files were lost","include of a file with an example")
fixed("C28","82b2da1","smithy export lost the deprecations that the import made, and those without a message","x_deprecated with x_deprecated_message")
fixed("C28","31838f0","smithy export crashed on x_paginated without an =","x_paginated=\"items\"")
fixed("C34","272d2e6","smithy export lost the big integers and timestamp formats that the import keeps as annotations","bigInteger imported and exported")
fixed("C10","37ffb6b","equivalence of types with a repeated symbol, value or variant depended on the order of the two types","enum {A B} and enum {A A}")
fixed("C27","d9e42b3","capitalizing a name damaged a first letter that is not ASCII, and an empty name crashed the generators","Capitalize(\"\xc3\xa9\"), Generator.Capitalize(\"\")")
fixed("C24","fa55027","Java comments and strings with a backslash u, a carriage return or a control character did not compile","a field with the comment: see C:\\\\users; an enum symbol with a comment with a carriage return; a pattern with a control character")
fixed("C21","94963be","a carriage return in the comment of a field got the rest of it out of the comment in the GraphQL export","a field with the comment \"a\\r}\"")
fixed("C24","4ce4ec9","with lombok, an inline struct had no class, a union with its final fields did not compile and Jackson did not find the setters of the builder","lombok: true; a struct with an inline struct field; a union")
fixed("C37","38d797a","requests for the document that were served at the same time shared one reader and got parts of it","GET /api.json while another GET /api.json reads the document")
fixed("C37","9f5ebfa","a file of the distribution that cannot be opened crashed the handler, and one that cannot be read was served in part as if it were whole","GET of a damaged file of the archive")
fixed("C37","3e89145","an error page was kept as the distribution, and every later run failed","the download answers with status 503")
fixed("C20","4ccca0e","the schemes of a Swagger document were ignored, and its base path was lost when it has no host","a document with schemes [http] and a host")
fixed("C03","8fce7cc","an infinity was accepted as a decimal number, and encoded as JSON that cannot be read","Inf, 1e1000000000")
fixed("C22","77be4a4","the values of path and query parameters were not encoded","an id with a slash, a query value with a space or an ampersand")
fixed("C05","e242571","a declared limit beyond the range of the integer type made values valid that the type cannot hold","-150 for Int8 with min=-200")
fixed("C28","e090d04","the option name was not used, the option namespace replaced that of the model, and useInputOutput stayed on for later exports","-x name=shop for a source without a name")
fixed("C32","c9cd136","the decimal type of generated Go code accepted an infinity, and encoded it as JSON it cannot read","Inf, -infinity")
fixed("C20","d8213da","the sizes of maps were lost","an object with additionalProperties and maxProperties 7")
fixed("C19","e51cf8b","references to responses, bodies and headers were taken for empty ones, and references to parameters refused","a response that is a reference to a component")
fixed("C20","e51cf8b","references to responses were taken for empty ones, and references to parameters refused","a response that is a reference to one of the document's responses")
fixed("C13","b32e08a","an example target could not go through a field of a named struct","a target T.s.x where s has the type U, a struct")
fixed("C19","1cecb80","a title that is no identifier, without a description, became a comment that ends in a dash","title \"My API\" and no description")
