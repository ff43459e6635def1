# The table of properties: one entry per property, claimed or not.
# (id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, technique, level note | not-applicable reason)
P = []

def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))

GO_T = "abstract interpretation of the generator's source and of the Go code it emits, against a reference semantics"
GO_N = ("Exhaustive over a finite abstraction: every shape of rule in the family with symbolic bounds, and every order, presence and predicate position of the value. "
        "Trusts the modelled text/template, protoc-gen-star naming and standard library; schema shapes beyond the family (deeper nesting, more than a few elements) are not enumerated.")
GO_WHY = ("The conformance suite samples a fixed list of schemas with concrete bounds and a handful of values each; the statement quantifies over every bound, "
          "operator combination, field context and value, and most combinations of context and operator never occur in the suite.")

prop("G01", "Go: numeric ranges mean what the schema says",
     "For every numeric field kind and every combination of lt/lte/gt/gte bounds, including reversed bounds that describe an exclusive outside interval, the generated Go validator accepts a value exactly when the documented constraint holds. "
     "This holds wherever the rule can be written: plain fields, oneof members, wrapper messages, repeated items, map keys and map values.",
     ["inputs", "programs"], "every range rule on every numeric kind in every context, and every value of the field", GO_WHY,
     ["templates/goshared/num.go", "templates/goshared/const.go", "templates/goshared/register.go", "templates/shared/context.go"],
     [("numeric template choosing the comparison from the rules", "templates/goshared/num.go"), ("accessor and literal rendering", "templates/goshared/register.go")], GO_T, GO_N)

prop("G02", "Go: const, in and not_in decide membership exactly",
     "For every scalar, bytes, enum, duration, timestamp and Any field, the generated Go validator accepts a value exactly when it equals the const, is listed in `in`, and is absent from `not_in`. "
     "Enum defined_only accepts exactly the declared numbers, and bool const compares both values.",
     ["inputs", "programs"], "every list or constant on every kind in every supported context, and every value", GO_WHY,
     ["templates/goshared/in.go", "templates/goshared/const.go", "templates/goshared/register.go", "templates/goshared/enum.go", "templates/go/file.go"],
     [("in/not_in templates and their lookup tables", "templates/goshared/in.go"), ("const template", "templates/goshared/const.go"), ("typed literals", "templates/goshared/register.go")], GO_T,
     GO_N)

prop("G03", "Go: length rules count characters and bytes exactly",
     "String min_len, max_len and len count Unicode characters, string min_bytes, max_bytes and len_bytes count encoded bytes, and bytes min_len, max_len and len count bytes. "
     "The generated Go validator accepts a value exactly when its measured size satisfies every stated limit, in every context the rule can be written.",
     ["inputs", "programs"], "every combination of length limits in every context, and every size of the value", GO_WHY,
     ["templates/goshared/str.go", "templates/goshared/bytes.go"], [("string length template", "templates/goshared/str.go"), ("bytes length template", "templates/goshared/bytes.go")], GO_T, GO_N)

prop("G04", "Go: affix, pattern and format rules are all enforced",
     "The prefix, suffix, contains, not_contains, pattern, email, hostname, ip, ipv4, ipv6, uri, uri_ref, address, uuid and HTTP-header rules of string and bytes fields each reject exactly the values that fail the named predicate. "
     "Rules written together are enforced together, in every context the rule can be written.",
     ["inputs", "programs"], "every such rule, alone and combined with others, in every supported context, and every truth assignment of the predicates over the value", GO_WHY,
     ["templates/goshared/str.go", "templates/goshared/bytes.go", "templates/goshared/known.go", "templates/shared/functions.go"],
     [("string template", "templates/goshared/str.go"), ("bytes template", "templates/goshared/bytes.go"), ("header patterns", "module/checker.go")], GO_T,
     GO_N + " Which texts the predicates accept is the subject of G14; the check decides the helpers on its shapes too.")

prop("G05", "Go: duration and timestamp rules compare instants exactly",
     "Duration and timestamp const, range, lt_now, gt_now and within rules accept a value exactly when the documented comparison holds, whatever the present instant, and required rejects an absent value. "
     "A value that does not denote a valid duration or timestamp is rejected rather than compared.",
     ["inputs", "programs"], "every rule combination, every value and every present instant", GO_WHY,
     ["templates/goshared/duration.go", "templates/goshared/timestamp.go", "templates/goshared/register.go"],
     [("duration template", "templates/goshared/duration.go"), ("timestamp template", "templates/goshared/timestamp.go")], GO_T, GO_N)

prop("G06", "Go: collection rules reach every element and count exactly",
     "Repeated min_items and max_items and map min_pairs and max_pairs compare the number of elements exactly, unique rejects exactly the lists containing two equal elements, and no_sparse rejects exactly the maps holding an unset message. "
     "Item, key and value rules are applied to each element, and each violation names the index or key of its element.",
     ["inputs", "programs"], "every combination of collection rules and element rules, and every collection up to the enumerated size", GO_WHY,
     ["templates/goshared/repeated.go", "templates/goshared/map.go", "templates/shared/context.go"],
     [("repeated template", "templates/goshared/repeated.go"), ("map template", "templates/goshared/map.go"), ("element contexts", "templates/shared/context.go")], GO_T, GO_N)

prop("G07", "Go: embedded messages are validated unless told otherwise",
     "A set message-typed field, list element, map value or oneof member is validated recursively and a failure inside it is reported on the enclosing field, unless the field's rules say skip, or the type has no validator. "
     "A field marked required is rejected when unset, and an unset field not marked required is accepted.",
     ["inputs", "programs"], "every combination of required, skip and element contexts, every kind of embedded type, every presence and validity of the embedded value", GO_WHY,
     ["templates/goshared/msg.go", "templates/goshared/required.go", "templates/goshared/repeated.go", "templates/goshared/map.go"],
     [("message template", "templates/goshared/msg.go"), ("required template", "templates/goshared/required.go")], GO_T, GO_N)

prop("G08", "Go: oneof rules apply to the set member only",
     "Rules on a member of a oneof are applied exactly when that member is the one set, and a oneof marked required is rejected exactly when no member is set. "
     "Rules on other members never affect the verdict.",
     ["inputs", "programs"], "every oneof shape with rules on its members, and every choice and value of the set member", GO_WHY,
     ["templates/goshared/msg.go", "templates/go/message.go", "module/checker.go"], [("oneof switch in the message template", "templates/goshared/msg.go")], GO_T, GO_N)

prop("G09", "Go: ignore_empty skips empty values and nothing else",
     "A rule set with ignore_empty accepts the field's empty value whatever the other rules say, and treats every other value exactly as it would without ignore_empty. "
     "Emptiness is the zero value of a scalar, a zero-length string, bytes, list or map, or an unset wrapper.",
     ["inputs", "programs"], "every kind of rule that has ignore_empty combined with every other rule of that kind, and every value", GO_WHY,
     ["templates/goshared/num.go", "templates/goshared/str.go", "templates/goshared/bytes.go", "templates/goshared/repeated.go", "templates/goshared/map.go"],
     [("ignore_empty guards in each template", "templates/goshared/num.go")], GO_T, GO_N)

prop("G10", "Go: switched-off messages get no rules, ignored ones no code",
     "A message with (validate.disabled) accepts every value, whatever rules its fields and oneofs carry, and still has both validation methods. "
     "A message with (validate.ignored) gets no validation code at all, and in both cases nested, sibling and enclosing messages are validated as if the option were absent. "
     "A message that sets neither option, or sets them to false, is validated in full.",
     ["inputs", "programs"], "every assignment of the two options to a message and a message nested in it, and every value", GO_WHY,
     ["module/validate.go", "module/checker.go", "templates/go/message.go", "templates/go/file.go", "templates/shared/disabled.go", "templates/goshared/msg.go"],
     [("reading of the options", "templates/shared/disabled.go"), ("checker's early return", "module/checker.go")], GO_T, GO_N)

prop("G11", "Go: Validate and ValidateAll agree on every message",
     "Validate and ValidateAll accept exactly the same values, including the nil message; Validate returns the first violation of the list ValidateAll returns, and ValidateAll returns every violation, one entry each, in a list whose text contains the text of each entry. "
     "Each violation is a value of the message's own error type.",
     ["inputs", "programs"], "every mixture of differently ruled fields and oneofs in one message, and every combination of satisfied and violated fields", GO_WHY,
     ["templates/go/message.go", "templates/goshared/msg.go", "templates/goshared/register.go"],
     [("validation methods and error types", "templates/go/message.go"), ("violation constructors", "templates/goshared/register.go")], GO_T,
     GO_N + " Messages mix four fields or oneofs drawn from the single-rule families; wider messages are not enumerated.")

prop("G12", "Go: each violation names its field, its bound and its cause",
     "Every violation reported by the generated Go code carries the violated field's name, with the index or key of the element, a reason that states the bound, the message's own error name, and whether it concerns a map key. "
     "The error raised by an embedded message is attached as the cause, and the error's text contains message, field, reason and cause.",
     ["inputs", "programs"], "every rule of every family in every context, and every value violating it", GO_WHY,
     ["templates/go/message.go", "templates/goshared/register.go", "templates/shared/context.go", "templates/goshared/num.go", "templates/goshared/str.go"],
     [("violation constructors", "templates/goshared/register.go"), ("error type", "templates/go/message.go")], GO_T, GO_N)

REJ_T = "abstract interpretation of the plugin's entry point over schemas, reachability of a failing diagnostic"
REJ_N = ("Exhaustive over the enumerated subsets of rules, orders of their bounds and field contexts; bounds are symbolic where only order or equality matters. "
         "Rule combinations across more than the enumerated contexts and messages are not explored.")
REJ_WHY = ("The suite generates code only for well-formed schemas; no test submits a contradictory one, and the space of combinations of rules, orders and positions is far beyond a sample.")

prop("G13", "Go: every accepted schema yields code that compiles",
     "For every well-formed schema the generator accepts, the Go it writes is a valid program next to the code of protoc-gen-go: it parses, every name it uses is declared and imported exactly once, every expression has the type its place needs and nothing is declared twice. "
     "This holds for every rule of every kind in every context, any mixture of rules in one message, and any legal naming of files, packages, messages, fields and foreign types; the exceptions are the recorded findings.",
     ["programs"], "every accepted schema: rules, contexts, value shapes and names", "The suite compiles one fixed set of schemas; whether a template emits valid Go depends on the combination of rule, kind, context, literal and name, of which the suite contains a small sample (bytes patterns in lists, in-lists of map keys or foreign enums in maps occur nowhere in it).",
     ["templates/go/file.go", "templates/goshared/register.go", "templates/goshared/msg.go", "templates/goshared/in.go", "templates/goshared/known.go", "module/validate.go"],
     [("file template: imports and the uuid pattern", "templates/go/file.go"), ("declaration of tables, patterns and error types", "templates/goshared/msg.go"), ("literals, names, imports of foreign enums", "templates/goshared/register.go")],
     "abstract interpretation of the generator's source, then type-checking of the emitted program with typed symbolic constants for the holes",
     "Exhaustive over the catalogue of rules, kinds and contexts (proto2 and proto3), mixtures of rules, and naming shapes of programs of one or two files; names and literals outside the enumerated shapes are not covered. Eleven recorded findings describe legal schemas whose code does not compile.")

prop("G14", "Go: host name, UUID, e-mail and address tests accept exactly the form",
     "The hostname, uuid, email and address tests of the generated Go code accept exactly the documented forms: host names of dot-separated labels of 1 to 63 letters, digits and inner hyphens, at most 253 characters, with a last label that is not only digits where documented; the 8-4-4-4-12 hexadecimal UUID; the bare e-mail address with a valid local part and host. "
     "An address is a host name or an IP address, and nothing outside ASCII passes for a letter.",
     ["inputs"], "every text of the enumerated shapes: each class of character at each place of a label, label and total lengths at and around each limit, each count and place of separators",
     "The suite tries a handful of good and bad names; the interesting texts sit at limits of lengths, at positions of hyphens and in characters that change class when lower-cased.",
     ["templates/goshared/known.go", "templates/goshared/str.go"], [("generated format tests", "templates/goshared/known.go")],
     "abstract interpretation of the generator's source, then evaluation of the emitted helper functions' typed syntax trees on representative texts of each shape",
     "Texts are enumerated per character class and length limit, so two characters of one class are assumed to be treated alike; net.ParseIP, net/mail and the regular expression engine are trusted.")

prop("G15", "Go: validating changes nothing and shares nothing",
     "Calling Validate or ValidateAll on a message leaves the message, and everything reachable from it, exactly as it was, and writes no state that another call could see: not a package-level variable, not an element, entry or spare capacity of a list, map or byte string of the message. "
     "So one message may be validated by several goroutines at once, and different messages of a type likewise, without a data race. The same holds of the methods of the errors returned; what happens once at package initialisation, or under a lock, is not meant.",
     ["inputs", "schedules"], "every message and every interleaving of calls, for every rule of every kind in every context and random mixtures of rules",
     "The suite validates each message once, in one goroutine, and never looks at the message afterwards; a race needs two calls at the same instant.",
     ["templates/goshared/msg.go", "templates/goshared/repeated.go", "templates/goshared/map.go", "templates/goshared/known.go", "templates/goshared/in.go", "templates/go/file.go"], [("generated methods", "templates/goshared/msg.go"), ("scratch tables of the unique rule", "templates/goshared/repeated.go"), ("package-level tables and patterns", "templates/goshared/in.go")],
     "abstract interpretation of the generator's source, then an interprocedural points-to and effect analysis of the SSA form of the emitted Go code",
     "The analysis is flow-insensitive and field-insensitive; library functions outside a list of known writers (sort, slices, maps, proto, reflection setters, Write methods) are taken not to write into their arguments.")

prop("J10", "Java: validating keeps no state that another call can see",
     "Validators, validator indexes and gRPC interceptors are shared by all threads and calls of a program: validating a message, looking up a validator and intercepting a call write nothing that existed before, neither a static field after class initialisation nor a field, element or entry of a shared object. "
     "The exceptions are objects made for several threads, such as the concurrent maps of the indexes, and code that holds a lock. "
     "So verdicts do not depend on what other threads validate, and one gRPC call never affects another.",
     ["inputs", "schedules", "histories"], "every interleaving of validations, lookups and calls, for rules of every kind and values of every shape",
     "The suite validates in one thread and makes a fresh interceptor for every call; a shared scratch object gives the same verdicts there.",
     ["java/pgv-java-stub/src/main/java/io/envoyproxy/pgv", "java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc", "templates/java"], [("concurrent caches", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java"), ("state of one call", "java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java"), ("stateless helpers", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/RepeatedValidation.java")],
     "abstract interpretation of the generator's source, then abstract evaluation of the javac syntax trees of the emitted validators and the runtime library, recording every write to an object or class that existed before the call",
     "Effects are recorded on the abstract values evaluated, so a write on a path that none of them takes is not seen; library objects with hidden state (formatters, matchers) are modelled as stateless.")

prop("P01", "Generator: contradictory rules are refused, consistent ones accepted",
     "A schema in which the rules of a field contradict each other is refused with a diagnostic when code is generated, wherever the field or element carrying them stands, and a consistent schema is never refused. "
     "Contradictory are: const with a range or list; in with not_in, a range or a pattern; both the strict and the inclusive form of a bound; a lower bound equal to an upper one; a minimum size above the maximum, a fixed size with a minimum or maximum, max_len above max_bytes; an affix longer than the maximum size; a pattern that is not a regular expression or is given next to well_known_regex; listed undefined values with defined_only; an invalid duration or timestamp, a non-positive within, a now-rule with the other now-rule or an absolute bound; unique on messages, no_sparse on non-messages, skip with rules on a wrapper.",
     ["inputs", "programs"], "every combination of rules of a kind, every order of their bounds, and every position of the field", REJ_WHY,
     ["module/checker.go", "module/validate.go"], [("rule checker", "module/checker.go"), ("entry point running it over every message", "module/validate.go")], REJ_T, REJ_N)

prop("P02", "Generator: rules are refused on fields of another type",
     "Rules of a kind are accepted exactly on fields, elements and keys of that type or of its wrapper message, repeated and map rules exactly on lists and maps, and message rules exactly on singular embedded messages other than Any, Duration and Timestamp. "
     "Any other placement is refused with a diagnostic.",
     ["inputs", "programs"], "every kind of rule on every type of field in every position", REJ_WHY,
     ["module/checker.go"], [("type assertions of the rule checker", "module/checker.go")], REJ_T, REJ_N)

prop("P03", "Generator: each requested file yields exactly its own output files",
     "For every requested file and language the generator produces exactly the files the conventions name: one Go file at the Go import path or next to the source, a C++ header and source next to the source, and for files importing validate.proto one Java class named after protoc's outer class, or one per top-level message with java_multiple_files. "
     "The module parameter is stripped only as a leading directory, a missing or unknown lang is refused, and the text generated for a file does not depend on which other files are requested or in which order.",
     ["inputs", "programs"], "every set of requested files and every parameter set, over the naming shapes of files, packages and messages",
     "The suite always generates the same files with one parameter set per language and compiles only part of what it generates.",
     ["module/validate.go", "templates/pkg.go", "templates/java/register.go", "templates/cc/register.go"],
     [("artifact placement", "module/validate.go"), ("file naming", "templates/pkg.go"), ("Java class naming", "templates/java/register.go")],
     "abstract interpretation of the plugin's entry point over invocations",
     "Naming shapes of files, packages and messages are enumerated by class of character, not exhaustively; file contents are compared as symbolic texts.")

prop("P04", "Generator: the same request always yields the same text",
     "What the generator writes is a function of the request alone: generating again from the same files and parameters yields the same set of output files, each with the same text byte for byte, whatever order the maps inside the generator happen to be visited in. "
     "Nothing outside the request, such as the clock, the environment, random numbers or addresses, reaches a generated file.",
     ["inputs", "programs", "schedules"], "every request and every order in which the generator's maps may be visited",
     "Go visits maps in an order that changes from run to run; the suite generates once and compiles the result, so output that merely changes between runs passes.",
     ["module/validate.go", "templates/goshared/register.go", "templates/go/file.go", "templates/java/register.go", "templates/cc/register.go"],
     [("loop over the requested files", "module/validate.go"), ("imports of enums of other packages", "templates/goshared/register.go")],
     "abstract interpretation of the plugin's entry point and templates under several orders of map iteration",
     "Three orders per map (as inserted, reversed, rotated) stand for all; reads of ambient state are not modelled and therefore reported. The order of the files within the response is not part of the property; formatting of Go output is trusted.")

JAVA_WHY = ("No Java code is compiled or run by the tests of this tree; whether the emitted validator and the runtime library decide a rule correctly depends on the rule, the kind, the context, the bound and the value.")
JAVA_T = "abstract interpretation of the generator's source, then abstract evaluation of the javac-attributed syntax trees of the emitted Java and the runtime library against a reference semantics"
JAVA_N = ("Exhaustive over the same finite abstraction as for Go. Trusts javac's attribution, the modelled JDK, protobuf-java, re2j and commons-validator, and message classes derived from protoc's rules. "
          "Left out: null elements, malformed times, equality with a within limit, no_sparse (documented as not offered).")
RT = "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/"
prop("J01", "Java: numeric ranges mean what the schema says",
     "For every numeric field with any combination of lt, lte, gt and gte (including exclusive ranges, where the lower bound exceeds the upper), the Java validator throws a validation exception naming the field exactly when the value violates the range. "
     "Unsigned kinds are compared as unsigned numbers, in every context in which the rule can be written.",
     ["inputs", "programs"], "every numeric kind, context, operator combination, order of the bounds and order position of the value", JAVA_WHY,
     ["templates/java/num.go", "templates/java/register.go", RT + "ComparativeValidation.java"], [("number template", "templates/java/num.go"), ("comparisons", RT + "ComparativeValidation.java")], JAVA_T, JAVA_N)
prop("J02", "Java: const, in and not_in decide membership exactly",
     "For every field with const, in or not_in rules (numbers, strings, bytes, enums, booleans, durations, timestamps and Any type URLs) and for defined_only, the Java validator accepts a value exactly when the membership the rules state holds. "
     "This includes zero and empty values, values in lists, maps and wrappers, and lists mixed with other rules; enum numbers the enum does not declare are the recorded exception.",
     ["inputs", "programs"], "every kind, context, membership rule and value position", JAVA_WHY,
     ["templates/java/enum.go", "templates/java/string.go", "templates/java/bytes.go", "templates/java/any.go", RT + "CollectiveValidation.java", RT + "ConstantValidation.java", RT + "EnumValidation.java"], [("membership", RT + "CollectiveValidation.java"), ("equality", RT + "ConstantValidation.java"), ("enums", RT + "EnumValidation.java")], JAVA_T, JAVA_N + " Twelve recorded findings: enum rules naming undeclared numbers.")
prop("J03", "Java: string and bytes rules are enforced exactly",
     "Length rules of strings count code points and, for the bytes variants, UTF-8 bytes; the affix, containment, pattern and format rules (email, hostname, address, ip, uri, uuid and so on) of strings and bytes each reject exactly the values failing them. "
     "Rules written together are all enforced, whatever characters their arguments contain.",
     ["inputs", "programs"], "every rule alone and combined, every context, every position of lengths and every truth assignment of the predicates; host names and UUIDs by shape", JAVA_WHY,
     ["templates/java/string.go", "templates/java/bytes.go", RT + "StringValidation.java", RT + "BytesValidation.java"], [("string template", "templates/java/string.go"), ("string tests", RT + "StringValidation.java"), ("bytes tests", RT + "BytesValidation.java")], JAVA_T, JAVA_N + " Patterns are uninterpreted predicates, so full match against search is not distinguished.")
prop("J04", "Java: duration and timestamp rules compare instants exactly",
     "Duration and timestamp const, range, lt_now, gt_now and within rules of the Java validators accept a well-formed value exactly when the documented comparison holds, whatever the present instant. "
     "A required time that is absent is refused.",
     ["inputs", "programs"], "every rule combination, context, order of the bounds, value and present instant", JAVA_WHY,
     ["templates/java/duration.go", "templates/java/timestamp.go", "templates/java/required.go", RT + "TimestampValidation.java"], [("duration template", "templates/java/duration.go"), ("timestamp tests", RT + "TimestampValidation.java")], JAVA_T, JAVA_N)
prop("J05", "Java: collection rules reach every element and count exactly",
     "min_items, max_items, unique, min_pairs and max_pairs count and compare exactly in the Java validators, and the rules of items, keys and values are applied to every element. "
     "A collection is refused exactly when its own rules or those of some element are violated; lists of enums with several undeclared numbers are the recorded exception.",
     ["inputs", "programs"], "every collection rule and bound, every element kind, collections of up to three elements with every equality and violation pattern", JAVA_WHY,
     ["templates/java/repeated.go", "templates/java/map.go", RT + "RepeatedValidation.java", RT + "MapValidation.java"], [("list tests", RT + "RepeatedValidation.java"), ("map tests", RT + "MapValidation.java")], JAVA_T, JAVA_N + " Two recorded findings: unique on enums with undeclared numbers.")
prop("J06", "Java: embedded messages and oneofs are validated as written",
     "The Java validator passes every embedded message (singular, listed, mapped, in a oneof) to the index's validator of its class unless skip is set, and enforces required on messages and wrappers. "
     "Oneof rules apply to the member that is set only, and a required oneof refuses a message without one.",
     ["inputs", "programs"], "every way to embed a message, every presence and validity of the embedded values, every oneof member", JAVA_WHY,
     ["templates/java/message.go", "templates/java/required.go", "templates/java/oneof.go", "templates/java/wrapper.go", RT + "RequiredValidation.java"], [("message template", "templates/java/message.go"), ("oneof template", "templates/java/oneof.go")], JAVA_T, JAVA_N)
prop("J07", "Java: ignore_empty skips empty values and nothing else",
     "A field with ignore_empty is accepted by the Java validator if its value is the empty one of its kind; every other value is decided by the remaining rules exactly as without it. "
     "This holds for numbers, strings, bytes, lists and maps, and for elements and wrapped values.",
     ["inputs", "programs"], "every kind and context that offers ignore_empty, with every family of other rules, at every value position", JAVA_WHY,
     ["templates/java/num.go", "templates/java/string.go", "templates/java/bytes.go", "templates/java/repeated.go", "templates/java/map.go"], [("number template", "templates/java/num.go"), ("string template", "templates/java/string.go")], JAVA_T, JAVA_N)
prop("J08", "Java: indexes find the right validator, gRPC calls carry valid messages only",
     "A validator index applies to a message exactly the rules of the generated validator of its class, recursively through the same index, and its fallback where there is none, however often and in whatever order lookups and registrations are made. "
     "The gRPC interceptors pass on every valid message unchanged and no invalid one, fail the call with INVALID_ARGUMENT and a BadRequest naming field and reason, and do not report half-close to a handler whose call was refused.",
     ["inputs", "histories", "programs"], "every class of message (top-level, nested, ignored, disabled, foreign), every order position of its values, lookups repeated and late, and all sequences of up to three (thorough: five) valid and invalid messages", JAVA_WHY,
     [RT + "ReflectiveValidatorIndex.java", RT + "ExplicitValidatorIndex.java", "java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java", "java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingClientInterceptor.java", "templates/java/file.go"],
     [("reflective lookup", RT + "ReflectiveValidatorIndex.java"), ("server interceptor", "java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java")],
     "abstract evaluation of javac-attributed syntax trees of the emitted Java and the runtime library over uses of the library", "Trusts javac's attribution and the modelled JDK, protobuf-java and grpc-java declarations. Class loaders other than the message's own, concurrent lookups and what gRPC delivers after a call was closed are not modelled.")
prop("J09", "Java: every accepted schema yields code that compiles",
     "For every well-formed schema the generator accepts and protoc can express in Java, the Java it writes is a valid program next to protoc's message classes and the runtime library. "
     "This holds for every rule Java offers in every context, any mixture of rules in one message, and any legal naming of files, packages, messages, nested messages, fields and enums, in one class or multiple files.",
     ["programs"], "every accepted schema: rules, contexts, literals and names", "No test compiles generated Java; whether a template emits valid Java depends on the combination of rule, kind, context, literal and name.",
     ["templates/java/register.go", "templates/java/file.go", "templates/java/msg.go", "templates/java/num.go", "templates/java/string.go"], [("names and literals", "templates/java/register.go"), ("file template", "templates/java/file.go")],
     "abstract interpretation of the generator's source, then javac attribution of the emitted classes with typed symbolic constants for the holes",
     "Exhaustive over the catalogue of rules, kinds and contexts, mixtures, and naming shapes of programs; names and literals outside the shapes are not covered.")

CC_WHY = ("The suite runs one fixed set of schemas and messages through the emitted C++; whether it decides a rule correctly depends on the rule, the kind, the context, the bound and the value.")
CC_T = "abstract interpretation of the generator's source, then abstract evaluation of clang's typed syntax trees of the emitted C++ and validate.h against a reference semantics"
CC_N = ("Exhaustive over the same finite abstraction as for Go. Trusts clang's semantic analysis and the modelled libstdc++, RE2, inet_pton and protobuf. "
        "Left out: null messages, no_sparse, proto3 optional; rules C++ documents as unimplemented are only required never to be skipped silently.")
prop("C01", "C++: numeric ranges mean what the schema says",
     "For every numeric field with any combination of lt, lte, gt and gte (including exclusive ranges, where the lower bound exceeds the upper), the C++ Validate returns false with a message naming the field exactly when the value violates the range. "
     "It returns true and writes no message otherwise, in every context in which the rule can be written.",
     ["inputs", "programs"], "every numeric kind, context, operator combination, order of the bounds and order position of the value", CC_WHY,
     ["templates/cc/num.go", "templates/cc/ltgt.go", "templates/cc/register.go"], [("ranges", "templates/cc/ltgt.go"), ("number template", "templates/cc/num.go")], CC_T, CC_N)
prop("C02", "C++: const, in and not_in decide membership exactly",
     "For every field with const, in or not_in rules (numbers, strings, bytes, enums, booleans, durations and Any type URLs) and for defined_only, the C++ Validate accepts a value exactly when the membership the rules state holds. "
     "This includes zero and empty values, values in lists, maps and wrappers, and lists mixed with other rules.",
     ["inputs", "programs"], "every kind, context, membership rule and value position", CC_WHY,
     ["templates/cc/in.go", "templates/cc/const.go", "templates/cc/enum.go", "templates/cc/any.go", "templates/cc/register.go"], [("membership", "templates/cc/in.go"), ("equality", "templates/cc/const.go"), ("enums", "templates/cc/enum.go")], CC_T, CC_N)
prop("C03", "C++: string and bytes rules are enforced exactly",
     "Length rules of strings count code points and, for the bytes variants, bytes; the affix, containment, pattern and format rules (hostname, address, ip, ipv4, ipv6, uuid) of strings and bytes each make the C++ Validate reject exactly the values failing them. "
     "Rules written together are all enforced, whatever characters arguments and values contain; the formats documented as unimplemented throw instead of accepting.",
     ["inputs", "programs"], "every rule alone and combined, every context, every position of lengths and every truth assignment of the predicates; host names, addresses and UUIDs by shape", CC_WHY,
     ["templates/cc/string.go", "templates/cc/bytes.go", "validate/validate.h"], [("string template", "templates/cc/string.go"), ("bytes template", "templates/cc/bytes.go"), ("text helpers", "validate/validate.h")], CC_T, CC_N + " Patterns are uninterpreted predicates, so full match against search is not distinguished.")
prop("C04", "C++: duration rules compare exactly, timestamp rules are not skipped",
     "Duration const, range, in and not_in rules of the C++ Validate accept a well-formed value exactly when the documented comparison holds, whatever the signs of seconds and nanoseconds, and refuse a malformed one. "
     "A required duration or timestamp that is absent is refused, and a timestamp comparison, which C++ does not implement, throws instead of accepting.",
     ["inputs", "programs"], "every rule combination, context, order of the bounds and value, with seconds and nanoseconds at the limits of the form", CC_WHY,
     ["templates/cc/duration.go", "templates/cc/timestamp.go", "templates/cc/message.go"], [("duration template", "templates/cc/duration.go"), ("required", "templates/cc/message.go")], CC_T, CC_N)
prop("C05", "C++: collection rules reach every element and count exactly",
     "min_items, max_items, unique, min_pairs and max_pairs count and compare exactly in the C++ Validate, and the rules of items, keys and values are applied to every element. "
     "A collection is refused exactly when its own rules or those of some element are violated.",
     ["inputs", "programs"], "every collection rule and bound, every element kind, collections of up to three elements with every equality and violation pattern", CC_WHY,
     ["templates/cc/repeated.go", "templates/cc/map.go"], [("list template", "templates/cc/repeated.go"), ("map template", "templates/cc/map.go")], CC_T, CC_N)
prop("C06", "C++: embedded messages and oneofs are validated as written",
     "The C++ Validate passes every embedded message (singular, listed, mapped, in a oneof, of this file or another) to the registered validator of its class unless skip is set, refuses the outer message if it fails, and enforces required on messages and wrappers. "
     "Oneof rules apply to the member that is set only, and a required oneof refuses a message without one.",
     ["inputs", "programs"], "every way to embed a message, every presence and validity of the embedded values, every oneof member", CC_WHY,
     ["templates/cc/message.go", "templates/cc/msg.go", "templates/cc/wrapper.go", "templates/cc/file.go", "validate/validate.h"], [("message template", "templates/cc/message.go"), ("oneofs", "templates/cc/msg.go"), ("registry", "validate/validate.h")], CC_T, CC_N)
prop("C07", "C++: ignore_empty skips empty values and nothing else",
     "A field with ignore_empty is accepted by the C++ Validate if its value is the empty one of its kind; every other value is decided by the remaining rules exactly as without it. "
     "This holds for numbers, strings, bytes, lists and maps, and for elements and wrapped values.",
     ["inputs", "programs"], "every kind and context that offers ignore_empty, with every family of other rules, at every value position", CC_WHY,
     ["templates/cc/num.go", "templates/cc/string.go", "templates/cc/bytes.go", "templates/cc/repeated.go", "templates/cc/map.go"], [("number template", "templates/cc/num.go"), ("string template", "templates/cc/string.go")], CC_T, CC_N)
prop("C08", "C++: every accepted schema yields code that compiles",
     "For every well-formed schema the generator accepts and protoc can express in C++ (no message named string, pgv or re2), the C++ it writes is a valid program next to protoc's message classes and validate.h. "
     "This holds for every rule in every context, any mixture of rules in one message, any literal, and any legal naming of files, packages, messages, nested messages, fields and enums.",
     ["programs"], "every accepted schema: rules, contexts, literals and names", "The suite compiles one fixed set of schemas; whether a template emits valid C++ depends on the combination of rule, kind, context, literal and name.",
     ["templates/cc/register.go", "templates/cc/file.go", "templates/cc/msg.go", "templates/cc/num.go", "templates/cc/string.go", "validate/validate.h"], [("names and literals", "templates/cc/register.go"), ("file template", "templates/cc/file.go")],
     "abstract interpretation of the generator's source, then clang's type checking of the emitted code with typed symbolic constants for the holes",
     "Exhaustive over the catalogue of rules, kinds and contexts, mixtures, and naming shapes of programs; names and literals outside the shapes are not covered.")

prop("C09", "C++: validating writes nothing that another thread can see",
     "Generated C++ validators are free functions that any number of threads may call at once: after static initialisation, validating a message writes no variable of static storage and nothing reachable from one, such as the registry of validators, lookup tables or patterns; only locals and the caller's error text are written. "
     "This includes messages of types without a validator of their own. So concurrent validations do not race and no verdict depends on earlier ones.",
     ["inputs", "schedules", "histories"], "every interleaving of validations, for rules of every kind and values of every shape",
     "The suite validates in one thread; a hidden write gives the same verdicts there and becomes a data race in a server.",
     ["validate/validate.h", "templates/cc/file.go", "templates/cc/msg.go", "templates/cc/message.go", "templates/cc/in.go", "templates/cc/repeated.go"], [("registry of validators", "validate/validate.h"), ("emitted functions", "templates/cc/msg.go")],
     "abstract interpretation of the generator's source, then abstract evaluation of clang's syntax trees of the emitted functions and validate.h, recording every write to static storage and what it reaches",
     "Writes under a lock, to thread_local variables and by initialisers are exempt. Effects are recorded on the abstract values evaluated; library objects with hidden state (patterns, streams) are modelled.")

PY_T = "abstract interpretation of the Python runtime's syntax tree, its templates and the code they yield, against a reference semantics"
PY_N = ("Exhaustive over a finite abstraction: every shape of rule in the family with symbolic bounds, and every order, presence and predicate position of the value. "
        "Trusts the modelled jinja2, protobuf message and standard library behaviour; shapes beyond the family (deeper nesting, more than a few elements) are not enumerated.")
PY_WHY = ("No stable test runs the Python runtime, and the conformance suite samples concrete bounds and values; the statement quantifies over every bound, operator combination, field context and value.")
PY_F = ["python/protoc_gen_validate/validator.py", "validate/validate.proto"]
PY = "python/protoc_gen_validate/validator.py:"

prop("Y01", "Python: numeric ranges mean what the schema says",
     "For every numeric kind and every combination of lt/lte/gt/gte bounds, reversed, zero, negative and infinite ones included, validate() of the Python runtime returns for a value exactly when the documented constraint holds and raises ValidationFailed otherwise. "
     "This holds in plain fields, oneof members, wrapper messages, repeated items, map keys and map values.",
     ["inputs"], "all bounds, all values, all contexts a numeric rule can appear in", PY_WHY,
     PY_F, [("number rules", PY+"num_template"), ("dispatch", PY+"rule_type"), ("elements", PY+"switcher_template")], PY_T, PY_N)
prop("Y02", "Python: const, in, not_in and defined_only decide membership exactly",
     "For every field kind that accepts const, in, not_in or defined_only, the Python runtime accepts a value exactly when it equals the constant, is in the list, is outside the excluded list, or is a declared number of the enum. "
     "Empty and zero constants are enforced like any other.",
     ["inputs"], "all kinds, constants, lists, contexts and values", PY_WHY,
     PY_F, [("constants", PY+"const_template"), ("lists", PY+"in_template"), ("enums", PY+"enum_template")], PY_T, PY_N)
prop("Y03", "Python: text rules count, compare and recognise formats as documented",
     "For every combination of len/min_len/max_len, len_bytes/min_bytes/max_bytes, prefix, suffix, contains, not_contains, pattern and well-known format rules on strings and bytes, the Python runtime accepts a text exactly when all of them hold. "
     "Characters are counted as code points and bytes as UTF-8, rule texts may hold any character, and host names, mail addresses, IP addresses, URIs and UUIDs are recognised as documented.",
     ["inputs"], "all text rules, their texts, contexts and values; URIs by given texts", PY_WHY,
     PY_F, [("string rules", PY+"string_template"), ("bytes rules", PY+"bytes_template"), ("host names", PY+"_validateHostName"), ("mail addresses", PY+"_validateEmail")], PY_T,
     PY_N + " URIs are decided on given texts; patterns are given by their text and read as RE2 does (syntax that RE2 alone has is a finding); the validity of the display name of a mail address is not decided.")
prop("Y04", "Python: duration and timestamp rules compare exact instants",
     "For every duration and timestamp rule (required, const, in, not_in, bounds in any order, lt_now, gt_now, within), the Python runtime compares seconds and nanoseconds exactly. "
     "It accepts a well-formed value precisely when the constraint holds, in every context.",
     ["inputs"], "all bounds, all well-formed instants, the clock at every position", PY_WHY,
     PY_F, [("durations", PY+"duration_template"), ("timestamps", PY+"timestamp_template")], PY_T,
     PY_N + " Malformed instants, and a value exactly at the within limit, are not decided.")
prop("Y05", "Python: collection rules reach every element and count exactly",
     "Item rules, key rules and value rules in the Python runtime are enforced on every element of a repeated or map field, whatever its position. "
     "min/max counts, zero included, compare the number of elements exactly, and unique fails exactly when two elements are equal.",
     ["inputs"], "all element rules, counts, positions and equality patterns", PY_WHY,
     PY_F, [("lists", PY+"repeated_template"), ("maps", PY+"map_template"), ("elements", PY+"switcher_template")], PY_T, PY_N)
prop("Y06", "Python: embedded messages and oneofs are validated as written",
     "validate() fails for a message that holds, directly, in a list or in a map, an embedded message that fails, unless skip is set or the type is disabled or ignored. "
     "required fails exactly when a message, wrapper or Any is unset, a required oneof exactly when no member is set, and the rules of a member apply exactly when it is set.",
     ["inputs"], "all embedded types, rules, contexts, presences and inner verdicts", PY_WHY,
     PY_F, [("messages", PY+"message_template"), ("oneofs and switches", PY+"file_template"), ("wrappers", PY+"wrapper_template"), ("required", PY+"required_template")], PY_T, PY_N)
prop("Y07", "Python: ignore_empty skips empty values and nothing else",
     "With ignore_empty set, the Python runtime accepts the empty value of the field, item, key, value or collection whatever its other rules say. "
     "Every non-empty value is held to all of them, and a rule set with ignore_empty false or alone means what it means without it.",
     ["inputs"], "all rules next to ignore_empty, all contexts, empty and other values", PY_WHY,
     PY_F, [("numbers", PY+"num_template"), ("strings", PY+"string_template"), ("collections", PY+"repeated_template")], PY_T, PY_N)
prop("Y08", "Python: other fields, names and earlier validations change no verdict",
     "In the Python runtime a message of several fields is accepted exactly when every field is, whatever mixture of rules the fields carry and however they are named, Python keywords included. "
     "The verdict on a message depends on its type and contents only, not on what was validated before in the process, also for types that share a simple name.",
     ["inputs", "histories"], "messages of several fields, field names, and sequences of up to three validations", "The validators are texts assembled from every field's rules and cached per type; interference between fields or types shows only in particular combinations.",
     PY_F, [("assembly", PY+"file_template"), ("cache", PY+"_validate_inner"), ("cache key", PY+"ValidatingMessage"), ("field access", PY+"field_ref")], PY_T,
     "Messages of four fields drawn from all families, two dozen field names, and all sequences of up to two (thorough: three) validations over 29 values of nine types. Trusts the modelled jinja2, protobuf and standard library behaviour; threads are not considered.")
