import json
A="src/ast.rs"; AV="src/avro.rs"; BQ="src/bigquery.rs"; JS="src/jsonschema.rs"; L="src/lib.rs"; M="src/main.rs"; CA="src/casing.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=("jst::convert_avro","jst::convert_bigquery")):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))
IN=["inputs","configurations"]
p("C01","Avro schemas can store every document the JSON Schema describes",
 "When a JSON Schema is converted to Avro, every document that the JSON Schema describes can be stored under the emitted Avro schema: each value fits the type it lands on, nothing that may be absent or null lands on a required or non-null type, and tuple items keep their positions. Values under a cast (string) type are stored as text, and parts removed by the drop method are left out.",
 IN,"all JSON Schemas of the supported dialect, all documents they describe, cast and drop, all other options",
 "The tests compare the output of some 70 hand-written schemas with a fixed text; no test looks at documents, and the schemas are not combined with one another.",
 [A,AV,JS],[("merging of alternatives",A+" Union::collapse"),("nullability from required",A+" Tag::infer_nullability"),("Avro emission",AV+" impl TranslateFrom<ast::Tag>")],["jst::convert_avro"])
p("C02","BigQuery schemas can store every document the JSON Schema describes",
 "When a JSON Schema is converted to BigQuery, every document that the JSON Schema describes can be stored as a row of the emitted table: each value fits the type and mode of its column, and nothing that may be absent or null lands on a REQUIRED column. Maps are stored as repeated key and value pairs, inner lists in a record around them, tuples as records with one numbered column per item, and values under a cast column as text.",
 IN,"all JSON Schemas of the supported dialect, all documents they describe, cast and drop, all other options",
 "The tests compare outputs with fixed texts for a few dozen schemas; storing a document is never tried.",
 [A,BQ,JS],[("merging of alternatives",A+" Union::collapse"),("modes and records",BQ+" impl TranslateFrom<ast::Tag> for Tag")],["jst::convert_bigquery"])
p("C03","Emitted Avro is well-formed and its record names follow the path",
 "Every emitted Avro schema is legal Avro: field names are unique and legal, no record is empty, no fully qualified record name is used twice, a union is null followed by one non-null type, and a default of null stands exactly on the fields that admit null. The root record is named root, and every record inside carries the name of its field (or list, value, or its tuple position) with the names on the path to it as its namespace.",
 IN,"all JSON Schemas, all options",
 "Uniqueness of names over arbitrary nesting and reuse of property names cannot be sampled by the fixed outputs of the tests.",
 [A,AV],[("names and namespaces",A+" infer_name, recurse_infer_name"),("emission of records, fields and defaults",AV)],["jst::convert_avro"])
p("C04","Emitted BigQuery schemas are well-formed",
 "Every emitted BigQuery schema is a legal table schema: column names in a record are unique, legal and sorted, every RECORD has at least one column and nothing else has any, types and modes are from BigQuery's vocabulary, and no description is longer than 1024 characters.",
 IN,"all JSON Schemas, all options",
 "The tests check fixed outputs only; none quantifies over names, nesting and description lengths.",
 [A,BQ],[("emission of columns",BQ+" impl TranslateFrom<ast::Tag> for Tag"),("descriptions",BQ+" TranslateFrom (title and description)")],["jst::convert_bigquery"])
p("C05","Avro and BigQuery conversions of one schema describe the same data",
 "For one JSON Schema and the same options (no JSON path, no maps without value), either both targets convert it or both refuse it; when they convert it, both have the same fields under the same names at every level, corresponding types, and agree on which values may be null and which repeat. Only a bare null type differs (Avro keeps it, BigQuery treats it as under-specified).",
 IN,"all JSON Schemas, all options other than JSON paths and maps without value",
 "Tests hold the two expected outputs side by side for a few schemas, and nothing compares them.",
 [A,AV,BQ],[("shared tree",A),("two emitters",AV+", "+BQ)])
p("C06","The conversion is a pure function of schema and options",
 "The same schema, target and options always give the same outcome: in every process and thread, whatever else is converted before or at the same time, after conversions that were refused, however the keys of the JSON objects are ordered in the text, and with logging on or off.",
 ["histories","schedules","inputs"],"all histories of calls by any number of threads and processes, all schemas and options",
 "Every test makes one call in a fresh tree; none repeats a call, orders calls or runs them concurrently, and a hash map's order is sampled once.",
 [L,A,AV,BQ,JS],[("no shared state",L),("ordered collections of properties and columns",A+", "+JS)])
p("C07","Cast mode converts every supported schema; unsupported ones are refused",
 "With the cast method, every schema of the supported dialect is converted without failing, to any depth and size, for both targets. A schema outside of it (a type that does not exist, an array without items, tuples of unbounded or inconsistent length when tuples are structs, keywords of the wrong JSON type) is refused by every method and both targets.",
 IN,"all JSON values as input, all options",
 "Tests call it on a few dozen good schemas; totality is about all the others.",
 [JS,A,AV,BQ],[("reading of schemas",JS+" serde definitions"),("construction of the tree",JS+" type_into_ast, atom_into_ast"),("handling of ambiguity",AV+" and "+BQ+" handle_error")])
p("C08","Panic mode refuses exactly the ambiguous schemas",
 "With the panic method a supported schema is refused exactly when some part of it is under-specified or has incompatible alternatives for the target, wherever that part is nested, unless a JSON path covers it. A schema that is not refused is converted exactly as the cast method converts it.",
 IN,"all JSON Schemas, both targets, all other options",
 "Tests for panic mode are #[should_panic] on single tiny schemas; exactness quantifies over all schemas and nestings.",
 [L,AV,BQ,A],[("resolution of ambiguity",AV+" / "+BQ+" match on context.resolve_method")])
p("C09","Drop mode removes exactly the ambiguous parts",
 "With the drop method, a part of the schema that is under-specified or has incompatible alternatives is removed together with every list, map or tuple built on it and every record left without fields, and nothing else is removed. What is left is converted exactly as the cast method converts it, and the conversion is refused exactly when nothing is left.",
 IN,"all JSON Schemas, both targets, all other options",
 "The tests have a handful of outputs for drop mode; propagation through nested containers is barely sampled.",
 [AV,BQ,A],[("propagation of errors out of containers",AV+" and "+BQ+" TranslateFrom")])
p("C10","Null is admitted exactly where the schema lets values be absent or null",
 "In the output, a field or column is nullable exactly if the property is not listed as required by its object (or, for merged alternatives, by each alternative that is an object), or its schema admits null through a type list or an alternative, or it is an optional item of a tuple. Repeated columns have no null, and items of lists and values of maps are nullable exactly if their own schema admits null.",
 IN,"all JSON Schemas, both targets, all options",
 "Nullability emerges from required lists, null types and merging at any depth; the tests fix a few combinations.",
 [A,JS,AV,BQ],[("nullability",A+" infer_nullability, is_null"),("merging of required",A+" Union::collapse")])
p("C11","Force-nullable makes everything nullable and changes nothing else",
 "With force-nullable, no column is REQUIRED and every Avro type admits null, except for the record put around an inner list. Apart from nullability (and the defaults that go with it) the output is the same as without the option, and so is whether the schema is refused.",
 IN,"all JSON Schemas, pairs of runs with and without the option",
 "A relation between two runs on arbitrary schemas; the tests look at a few single runs.",
 [A,AV,BQ],[("force nullable",A+" infer_nullability")])
p("C12","Property names become legal column names in a fixed way",
 "A property name of letters, digits, underscores, dots and dashes becomes a column with dots and dashes turned into underscores and an underscore put in front of a leading digit; a property with an empty name becomes the column _, and one with any other character in its name has no column. When several properties of an object become the same column, exactly one of them decides it, always the same one, and columns are sorted by name.",
 IN,"all sets of property names at all levels, both targets, all options",
 "Names are arbitrary texts and collisions need particular pairs; the tests sample about ten names.",
 [A,CA],[("renaming and rejection of names",A+" normalize_name_bigquery, normalize_properties"),("case",CA)])
p("C13","Normalizing the case renames columns to snake_case and changes nothing else",
 "With normalize-case, every column, Avro field, record name and namespace is the snake_case form of the name it has without the option, at every level. If no two names fall together, the output is otherwise identical to the one without the option, including which fields are required.",
 IN,"all JSON Schemas, pairs of runs with and without the option",
 "A relation between two runs over arbitrary names and nestings; the tests check single names and one schema.",
 [A,CA],[("renaming of properties and required names",A+" normalize_name_bigquery, normalize_properties")])
p("C14","snake_case follows the documented word boundaries in both implementations",
 "For every text of ASCII characters the snake_case function gives its letters and digits in lower case, in words separated by single underscores; words begin where other characters stand, where an upper-case letter follows a lower-case word, and where the last capital of a run starts a lower-case word, digits taking the case of the letter before. The two implementations (default and oniguruma) give the same results, and the result is a fixed point.",
 ["inputs","configurations"],"all ASCII texts, both implementations",
 "The tests compare samples from a CSV file; boundaries depend on unbounded digit runs and neighbouring cases.",
 [CA],[("default implementation",CA+" to_snake_case (heck)"),("regular expression implementation",CA+" to_snake_case (oniguruma)")],["jst::casing::to_snake_case"])
p("C15","Merging alternatives is independent of order and of nesting",
 "The conversion of alternatives (oneOf, type lists, pattern properties) does not depend on their order, on duplicates, on nesting of one set of alternatives in another, or on where null stands among them; adding null only makes the result nullable. Alternatives of one type give that type, integer and number give a floating point number, objects give an object with the merged properties of all, lists and maps merge their items and values, and everything else (tuples with one another too) is incompatible.",
 IN,"all multisets of alternatives at any depth, both targets, all options",
 "Order independence and nesting quantify over permutations of alternatives; the tests fix single orders.",
 [A,JS],[("collapse of unions",A+" Union::collapse"),("type lists and oneOf",JS)])
p("C16","Leaf types map to fixed types of each target",
 "boolean, integer, number, string, date-time and bytes become BOOL, INT64, FLOAT64, STRING, TIMESTAMP and BYTES in BigQuery, and boolean, long, double, string, string and bytes in Avro, wherever they stand and whatever the options are. The formats date-time and bytes only matter when the type is just string, and any other format is ignored.",
 IN,"all leaf types in all positions and merged with each other, all options",
 "The tests convert each leaf at one or two positions and few of their merges.",
 [JS,AV,BQ,A],[("types of atoms",JS+" Atom / format handling"),("target types",AV+" and "+BQ)])
p("C17","Tuples become records with one numbered field per item when asked",
 "With the tuple option, a list with an array of items and a bounded length becomes a record with the fields f0_, f1_, ... in the order of the items up to the maximal length, additional items having the type given for them; items beyond the minimal length and additional items are nullable and the others are as nullable as their schemas. Without the option a tuple is treated as under-specified, a tuple without a consistent bound is refused, and the option changes nothing in schemas without tuples.",
 IN,"all tuples (lengths, bounds, item types, positions), both targets",
 "The tests have a dozen tuples of two or three items; bounds and nesting are a product space.",
 [JS,A,AV,BQ],[("tuples",JS+" tuple construction"),("emission",AV+", "+BQ)])
p("C18","Maps keep one value type, merged from all that may occur",
 "An object with additional or pattern properties and no named properties becomes a map (in BigQuery a REPEATED RECORD of a REQUIRED string key and a value) whose value type is the merger of the schemas of its additional and pattern properties. If the value is ambiguous the map is treated by the resolution method; with maps-without-value and the drop method, BigQuery keeps the map with its key only, and that option changes nothing anywhere else.",
 IN,"all maps in all positions, both targets, all options",
 "The tests convert a few maps of atoms; pattern merging and ambiguous values in nested positions are not sampled.",
 [JS,A,AV,BQ],[("maps",JS+" map construction"),("emission, maps without value",BQ)])
p("C19","JSON columns appear exactly at ambiguous paths the path expression selects",
 "In BigQuery, a part of the schema becomes a JSON column exactly if it is under-specified or incompatible and the path expression, given as an option or by the metadata at the root of the schema (which wins), matches from the beginning of its path of column names; this takes precedence over cast, drop and panic. Without an expression there are no JSON columns, and Avro output never depends on the option.",
 IN,"all JSON Schemas, all path expressions, all methods",
 "The tests have two or three expressions; selection quantifies over paths and expressions.",
 [L,BQ,A],[("path expression",L+" Context::is_json_object_path"),("paths",A+" fully_qualified_name"),("JSON columns",BQ)],["jst::convert_bigquery"])
p("C20","Descriptions are carried to their column and change nothing else",
 "In BigQuery each column carries the title and description of its own schema (as \"title - description\" if it has both, cut to its first 1024 characters), and no column carries another text. Adding, changing or removing titles and descriptions changes nothing but these texts, and nothing at all in Avro.",
 IN,"all JSON Schemas with titles and descriptions of any length at any position, both targets",
 "One test checks one description; lengths around the limit, positions and merging are not covered.",
 [JS,BQ,A],[("title and description",BQ+" TranslateFrom (title and description)"),("passing on",A)])
p("C21","Keywords without meaning for a schema have no effect",
 "Keywords that the dialect does not know (any value), validation keywords, anyOf, allOf, and keywords that belong to other types than the schema's own never change the outcome. In the same way, additional or pattern properties and oneOf have no effect beside named properties.",
 IN,"all JSON Schemas littered with unknown or irrelevant keywords at any position, both targets, all options",
 "The tests do not add junk to schemas systematically.",
 [JS,A],[("keywords read",JS+" serde definitions and their order of precedence")])
p("C22","The command line converts as the library does, and fails cleanly",
 "The command reads the schema from the file named by its argument, or from standard input if there is none or it is \"-\", and applies every option in each of its documented spellings, with Avro and cast as defaults. It prints exactly the indented JSON of the conversion and a newline to standard output and exits with 0, whatever the logging; on bad arguments, unreadable or malformed input, or a refused schema it exits with another code and prints nothing there.",
 ["inputs","configurations"],"all sequences of arguments, all input texts and files, logging settings",
 "No test runs the command.",
 [M,L],[("arguments",M+" struct Args"),("reading, converting, printing",M+" main")],["exit code and standard output of the command"])
p("C23","A subschema converts the same wherever it stands",
 "The type that a subschema is converted to does not depend on its surroundings: as a property of any object, nested to any depth, beside any other properties, or as the item of a list or tuple or the value of a map, it gives the same type with the same fields. Only names of Avro records, descriptions, and its own nullability may depend on the place.",
 IN,"all subschemas in all contexts, both targets, all options",
 "A relation between conversions of one part in different contexts, which no test states.",
 [A,AV,BQ],[("recursive translation",JS+", "+AV+", "+BQ)])
p("C24","Nested lists are kept, with a record around inner lists where needed",
 "A list of T becomes an Avro array of T's type and a REPEATED column of T's type in BigQuery; a list directly inside a list is wrapped in a record with the single field list, at every level of nesting. Items of lists that may be null make the item type nullable in Avro.",
 IN,"lists nested to any depth over all item types, both targets, all options",
 "The tests have one level of nesting.",
 [AV,BQ,A],[("lists in lists",AV+" and "+BQ+" array emission")])
p("C25","Adding a property to an object only adds its column",
 "If a property of a supported type with a new column name is added to an object, the output gains exactly the column of that property and every other part of the output stays as it was, in the same relative order.",
 IN,"all objects and added properties, both targets, all options",
 "Schema evolution is a relation between two runs; tests convert single schemas.",
 [A,AV,BQ],[("independent translation of properties",A+" Object; "+AV+", "+BQ)])
p("C26","Every kind of root converts to a usable table or Avro schema",
 "A root object with properties becomes the columns of the table (the fields of an Avro record named root), and so does a root tuple with items; any other root (leaf, list, map, or ambiguous) becomes a single column named root in BigQuery and the bare type in Avro, with the nullability of its schema. A root with nothing to convert is refused with drop, and a table without columns is never emitted.",
 IN,"all JSON Schemas at the root, both targets, all options",
 "The tests have a few roots other than objects, and no merged ones.",
 [BQ,AV,A],[("root of the table",BQ+" impl TranslateFrom for Schema"),("root name",AV)])
p("C27","Options given as data mean what the same options mean in a call",
 "A Context read from data (serde) has exactly the options that the data names and the defaults for all others: cast, every flag off, no JSON path. Unknown entries are ignored, entries of the wrong type, unknown methods and options given twice are refused, and the conversion under options that were read is the conversion those options stand for.",
 IN,"all sets and orders of entries, names and values of options, in named and in positional form",
 "No test reads options from data; the defaults are only used implicitly.",
 [L],[("options and their defaults",L+" struct Context, enum ResolveMethod")],["jst::Context, jst::ResolveMethod (Deserialize, Default)","jst::convert_avro","jst::convert_bigquery"])
p("C28","Lists of required properties affect nullability and nothing else",
 "Changing the lists of required properties anywhere in a schema, to any subset of names, changes only which fields, columns and items may be null: names, types, order, records, descriptions and the outcome (converted or refused) stay. Requiring a name that is no property changes nothing at all.",
 IN,"all JSON Schemas, all changes of required lists at any position, both targets, all options",
 "A relation between two runs; the tests check single schemas, in which required is mostly complete or missing.",
 [A,JS],[("nullability from required",A+" Tag::infer_nullability, "+JS+" Object"),("required of merged objects",A+" Union::collapse")])
p("C29","Renaming a property renames its column and changes nothing else",
 "If a property is renamed (in properties and required alike) to another name with a column of its own, its column gets the new name and its place in the order; its type, mode and description, everything inside it, all other columns and the outcome stay as they were.",
 IN,"all objects at any position, all legal names including ones that look like keywords or generated names, both targets, all options but JSON paths",
 "A relation between two runs over arbitrary names: a name that is special somewhere in the code shows only if that very name is tried.",
 [A,AV,BQ],[("names",A+" infer_name, normalize_properties"),("special fields",AV+", "+BQ)])
p("C30","Equivalent spellings of a schema convert to the same output",
 "Two schemas that differ only in how the same thing is said convert to the same output and are refused alike: a type named alone, in a list of one, or implied by its keywords; a type list or the union of its types; a format or the type of that name; a schema or the union with it as the only alternative; a union inside a union or all alternatives in one; the values of a map given by additional properties, by patterns, or as a union; a tuple closed by its number of items or by additionalItems; required names listed twice; a keyword that is null or left out.",
 IN,"all JSON Schemas, respelt at any position, both targets, all options",
 "A relation between two runs over all schemas and all ways to write them; tests convert one spelling.",
 [JS,A],[("reading of spellings",JS+" serde definitions, get_type, type_into_ast"),("unions",A+" Union::collapse")])
p("C31","A panic names a part that could not be converted",
 "When the panic method refuses a supported schema, its message names the full path of a part that is under-specified or incompatible for the target (of one that really is, not of any part of it that could be converted).",
 IN,"all JSON Schemas with an ambiguous part below the root, both targets, all options",
 "The panicking tests do not look at the message; the path in it comes from the inference of names at any depth.",
 [AV,BQ,A],[("message of the panic",AV+" and "+BQ+" fmt_reason, handle_error"),("path",A+" fully_qualified_name")])
p("C32","Adding an alternative only widens the output",
 "If an alternative is added (with oneOf) to any part of a schema, then with the cast method and no JSON path whatever could be stored before can still be stored in the same place: every field and column stays, under its name and in its relative order, new ones may be null (unless every alternative lists them as required), nothing nullable becomes required, and a type stays as it is or becomes wider (integer to floating point, anything to string). Only a part that was a bare null or an object without properties can become anything.",
 IN,"all JSON Schemas, all supported alternatives added at any position, both targets, all other options",
 "Schema evolution is a relation between two runs over arbitrary alternatives; tests convert single schemas.",
 [A,JS,AV,BQ],[("merging of alternatives",A+" Union::collapse"),("nullability of merged properties",A+" Union::collapse, infer_nullability")])
json_lines=[json.dumps(x) for x in P]
import os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(V+"/properties.jsonl","w").write("\n".join(json_lines)+"\n")
NOTE={}
checks=[]
for x in P:
    i=x["id"]
    tech={"C06":"TLA+ session model (TLC); recorded concurrent histories of the real program checked as traces of it",
          "C14":"TLA+ word-splitting automaton explored with TLC; recorded results of both implementations judged by it",
          "C27":"TLA+ model of reading options from data, entry by entry; enumerated and random data read by the real library and judged by TLC",
          "C22":"TLA+ model of the command line; enumerated and random runs of the real command judged by TLC"}.get(i,
          "TLA+ model of the conversion explored with TLC; enumerated and random behaviours replayed into the real program and judged by TLC")
    note={"C06":"Exhaustive on a small service model; on the program, every recorded call of several processes, threads and command runs must be a step of the session model. Sampled schedules.",
          "C14":"Exhaustive over words up to a length for the automaton and for both implementations, random longer ASCII words beyond.",
          "C27":"Exhaustive over single entries, pairs of entries and the option grid in two orders and two forms; random data beyond. Trusts serde_json and the harness's recording.",
          "C22":"Exhaustive over argument sequences from a vocabulary up to a length and over the option grid in five spellings; random runs beyond. Trusts the harness's recording."}.get(i,
          "Exhaustive over the bounded universe of the property (spec/Universe.tla) on the model and on the program, random schemas beyond it; trusts TLC and the harness's JSON encoding. Not a proof for unbounded schemas.")
    checks.append(dict(property=i,quick_cmd="python3 check.py %s"%i,thorough_cmd="VERIF_TIER=thorough python3 check.py %s"%i,
       evidence_file="evidence/%s.json"%i,technique=tech,level="model_checking",level_note=note))
json.dump(dict(version=1,setup_cmd="python3 check.py --setup",checks=checks,not_applicable=[],
  notes="No hooks in the repository: only its public functions and its command are observed. Known and fixed defects: known-findings.txt."),open(V+"/MANIFEST.json","w"),indent=1)
