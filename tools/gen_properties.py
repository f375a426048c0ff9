"""Writes /verif/properties.jsonl (kept so that the text is reviewable in one place)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })


p("C01", "Reported issues are never lost, invented, duplicated or moved",
  "For every history of adding, merging (optionally under a location prefix), extracting and removing issues, a registry reports at every location exactly the issues that were put there: merging carries over each issue once, at prefix plus its original location, and leaves the merged registry unchanged; extracting returns exactly the issues at or below a location, re-based to it; removing a code at a location removes and returns exactly the issues with that code at exactly that location. Whether anything is reported at or below a location, and the rendered report, agree with that content.",
  ["histories", "inputs"], "all sequences of registry operations, all locations (any depth, strings and integers) and all issue codes",
  "Tests exercise registries only through a few validators with one or two issues at fixed locations; they never compare the content before and after merges, prefixes and removals in combination.",
  ["src/error.py"], [("ValidationIssues.add/merge/get/pop/has_issues/to_dict", "src/error.py")],
  ["ValidationIssues.to_dict", "ValidationIssues.has_issues"])
p("C02", "A blocking issue stops exactly its own location and everything below it",
  "Processing may proceed at a set of locations if and only if no blocking issue is registered at any of them or at any ancestor of any of them; non-blocking issues, issues at sibling locations and issues at deeper locations never stop it. This holds after every history of adding, merging under prefixes, extracting and removing issues: an issue keeps its blocking character wherever it is carried, and removing the last issue with a code at a location lifts the block it caused.",
  ["histories", "inputs"], "all sequences of registry operations and all queried location tuples",
  "Tests only see the consequence of blocking in a handful of validator flows; the inheritance along arbitrary location paths and its preservation by merging need all locations and histories.",
  ["src/error.py"], [("ValidationIssues.can_proceed, blocking set kept by add/merge/get/pop", "src/error.py")],
  ["ValidationIssues.can_proceed"])
p("C03", "Attribute data is a case-insensitive store with read-your-writes",
  "Data held for a resource behaves as a map keyed by case-insensitive attribute name (and extension URN): reading an attribute or sub-attribute returns the value last written under any spelling of its name, writing or deleting one attribute leaves all others unchanged, deleting makes it absent, and exporting yields each attribute once with its current value. Extension attributes live only under their extension's entry, sub-attributes of a multi-valued attribute are read and written item by item, and reading something that is not there yields 'missing' and never an error.",
  ["histories", "inputs"], "all sequences of set/get/delete/export over all attribute names, spellings, extensions, sub-attributes and JSON-like values",
  "Tests use single operations with a few fixed names; interactions of spelling, extension, sub-attribute and deletion over histories are unbounded.",
  ["src/data/container.py"], [("SCIMDataContainer.__setitem__/__getitem__/__delitem__/to_dict/__eq__", "src/data/container.py")],
  ["SCIMDataContainer[...]", "SCIMDataContainer.to_dict"])
p("C04", "Attribute notation parses and compares as SCIM prescribes",
  "Attribute notation text is split into schema URN, attribute and sub-attribute exactly at the last colon and the following dot, anything that is not of that form is rejected, and printing a parsed notation gives the text back. Two notations are equal exactly when attribute and sub-attribute names agree ignoring case and the schema URNs agree ignoring case or one of them is absent; looking an attribute up in a collection returns the first declared attribute whose notation is equal, or nothing.",
  ["inputs"], "all strings as notation, all pairs of notations, all attribute collections",
  "Tests sample a few literal names; equality and lookup must be right for every spelling and every combination of schema, attribute and sub-attribute.",
  ["src/data/container.py", "src/data/attributes.py"], [("AttrRep", "src/data/container.py"), ("Attributes.get, Attributes.get_by_path, attribute-style access", "src/data/attributes.py")],
  ["AttrRep.parse", "AttrRep.__eq__", "Attributes.get"])
p("C05", "Scalar types accept exactly their SCIM values and never raise",
  "For every Python/JSON value and every scalar type, parsing and dumping return either a value of that type denoting the same value as the input and no issue, or the invalid marker together with a blocking issue, and never raise. Booleans are not numbers, integral floats are integers, binary must be canonical base64, external references must be absolute URLs, and date-times that are accepted survive a parse/dump round trip.",
  ["inputs"], "all values (null, booleans, integers of any size, floats including NaN and infinities, all strings, lists, objects) for all scalar types in both directions",
  "Tests list a few good and bad literals per type; the claim is about every value, including those (NaN, huge integers, non-ASCII text) no test contains.",
  ["src/data/type.py"], [("AttributeType.parse/dump and overrides", "src/data/type.py")],
  ["<Type>.parse", "<Type>.dump"])
p("C06", "Attribute values are processed item by item and never pass unchecked",
  "Parsing or dumping an attribute yields null for null, rejects a non-list for a multi-valued attribute, and otherwise applies the type's rule to the value, or to every item at its own index, reporting each item's issues at that index and keeping the number and order of items. When canonical values are enforced, a value (or item) that is none of them, compared ignoring case unless the attribute is case-exact, becomes invalid with an issue at its place, and custom processors run in order, only if nothing was reported before.",
  ["inputs", "configurations"], "all attribute definitions (type, multiplicity, case sensitivity, canonical values, processors) and all values and list lengths",
  "Tests use one or two definitions and lists of at most three items; index placement, canonical handling and processor order must hold for all.",
  ["src/data/attributes.py"], [("Attribute._process, Attribute._is_canonical", "src/data/attributes.py")],
  ["Attribute.parse", "Attribute.dump"])
p("C07", "Complex attributes keep exactly their declared, validated sub-attributes",
  "Parsing or dumping a complex value yields, for each item, exactly the declared sub-attributes that were provided, each processed by its own rule, with its issues reported under the item index and the sub-attribute name; undeclared content is dropped and absent sub-attributes stay absent. A multi-valued complex attribute with more than one item marked primary is reported, with at most one it is not; items keep their number and order.",
  ["inputs", "configurations"], "all sets of sub-attribute definitions and all complex values, single and multi-valued, of any length",
  "Tests use two or three fixed complex attributes with small data.",
  ["src/data/attributes.py"], [("ComplexAttribute._process_complex, validate_single_primary_value", "src/data/attributes.py")],
  ["ComplexAttribute.parse", "ComplexAttribute.dump"])
p("C08", "Schema processing yields only declared attributes and checks schema URNs",
  "Processing data against a schema rejects data that is absent or not an object, and otherwise yields exactly the declared attributes that were provided, each processed by its own rule with its issues located under its name (and its extension URN). The list of schema URNs is reported if it contains an unknown URN, lacks the main schema, or lacks the URN of an extension whose data is present, all compared ignoring case, and a dumped resource whose stated resource type differs from the schema's is reported.",
  ["inputs", "configurations"], "all schemas (attribute sets, extensions) and all JSON-like data in both directions",
  "Tests process a few complete User/Group documents.",
  ["src/data/schemas.py"], [("BaseSchema._process/_process_data, validate_schemas_field, ResourceSchema.dump, validate_resource_type_consistency", "src/data/schemas.py")],
  ["BaseSchema.parse", "BaseSchema.dump"])
p("C09", "Required, forbidden and unrequested attributes are reported exactly",
  "For every schema and body, a required attribute with no value is reported missing (unless exempted, or only other attributes were asked for), per item for sub-attributes of multi-valued attributes. In responses, and only there, a value that must never be returned, was excluded, or was not asked for is reported, except that always-returned attributes are never reported, and asking for an attribute covers its sub-attributes and asking for a sub-attribute covers its parent; nothing else is reported.",
  ["inputs", "configurations"], "all attribute sets with all combinations of required/returned characteristics, all inclusion and exclusion lists, both directions, all bodies and item counts",
  "Tests check about a dozen combinations on the User schema; the decision table has to be right for every combination and every item.",
  ["src/attributes_presence.py"], [("AttributePresenceChecker.__call__, _check_presence, _sub_attr_or_top_attr_in_attr_reps, parse", "src/attributes_presence.py")],
  ["AttributePresenceChecker.__call__"])
p("C10", "Filters combine conditions by sound boolean logic",
  "'and' matches exactly when every operand matches (missing data in one operand does not hide a failure of another), 'or' exactly when at least one does, and 'not' never matches something its operand matches. A condition on an attribute the schema does not know never matches, neither does its direct negation nor an 'and' containing it; a bracketed condition on a complex attribute matches when at least one item satisfies all of it at once; under lenient evaluation data that is missing is given the benefit of the doubt and under strict evaluation it is not.",
  ["inputs", "programs"], "all operator trees of any arity and nesting, all resources, strict and lenient evaluation",
  "Tests evaluate fixed small trees; the result must be compositional for every tree and number of operands/items.",
  ["src/data/operator.py", "src/filter.py"], [("And/Or/Not/ComplexAttributeOperator.match, MatchResult", "src/data/operator.py"), ("Filter.__call__", "src/filter.py")],
  ["Filter.__call__", "<Operator>.match"])
p("C11", "Comparison operators follow the attribute's type and case sensitivity",
  "A comparison matches exactly when the operator's relation holds between the attribute's value (or, for multi-valued attributes, at least one item; for multi-valued complex attributes, at least one item's 'value') and the given value: strings ignoring case unless the attribute is case-exact, date-times as instants. It never matches for attribute types the operator does not support, for unknown attributes or for invalid values, absent values count as missing data (strict) or match (lenient), and evaluating never raises.",
  ["inputs"], "all nine operators and presence, all attribute definitions, all attribute values (including wrongly typed ones) and all comparison values",
  "Tests sample a few value pairs per operator.",
  ["src/data/operator.py"], [("BinaryAttributeOperator.match/_get_values_for_comparison, Present.match", "src/data/operator.py")],
  ["<Operator>.match"])
p("C12", "Filter and path text is parsed into the expression it denotes",
  "A filter text is accepted exactly when it is a well-formed SCIM filter over the supported operators, and then denotes the expression given by the usual precedence (not, then and, then or), with parentheses, bracketed complex conditions and quoted strings (taken literally up to the closing quote, whatever characters they contain) respected and comparison values typed as written. Otherwise at least one blocking issue and no filter is returned; it never raises, and a patch path is split into attribute, bracketed filter and sub-attribute the same way.",
  ["inputs"], "all filter and path texts: any nesting of logical operators and groups, any number of complex conditions, any quoted string content",
  "Tests parse a fixed list of texts; positions of quotes, groups and brackets interact in unboundedly many ways.",
  ["src/filter.py", "src/utils.py", "src/data/path.py"], [("Filter.parse and helpers", "src/filter.py"), ("parse_comparison_value, placeholders", "src/utils.py"), ("PatchPath.parse", "src/data/path.py")],
  ["Filter.parse", "Filter.to_dict", "PatchPath.parse"])
p("C13", "Sorting orders resources by the requested attribute, missing values last",
  "Sorting returns the same resources, reordered so that the values of the requested attribute (for multi-valued attributes the first item, for multi-valued complex attributes the primary item's 'value') are non-decreasing for ascending and non-increasing for descending order, strings compared ignoring case unless the attribute is case-exact. Resources without a value come last in ascending and first in descending order, zero and false are values, and resources with equal values keep their relative order.",
  ["inputs", "configurations"], "all lists of resources, all sortable attribute definitions, mixed schemas, both directions",
  "Tests sort a few three-element lists.",
  ["src/sorter.py"], [("Sorter.__call__, _attr_key, StringKey, AlwaysLastKey", "src/sorter.py")],
  ["Sorter.__call__"])
p("C14", "PATCH can not change what must not change",
  "An operation of a patch request is reported if it targets an unknown attribute, if it adds or replaces a read-only attribute or sub-attribute (directly, inside a complex value, or through a read-only parent), or if it removes a read-only attribute or a required non-complex attribute or required filtered sub-attribute; the same holds for any spelling of the operation type. An operation that touches only existing, modifiable attributes with valid values is not reported, and new items of a multi-valued complex attribute must carry their required sub-attributes.",
  ["inputs", "configurations"], "all schemas with all mutability/required combinations, all paths and filters, all operation types, values and numbers of operations",
  "Tests apply about twenty operations to the User schema.",
  ["src/assets/schemas/patch_op.py", "src/request_validators.py"], [("PatchOp.parse and helpers, validate_operations, validate_operation_path", "src/assets/schemas/patch_op.py"), ("ResourceObjectPATCH.parse_request", "src/request_validators.py")],
  ["PatchOp.parse", "ResourceObjectPATCH.parse_request"])
p("C15", "A payload with any issue is never handed on, a clean one always is",
  "For every request body and every response body passed to any endpoint validator, the returned body is absent if at least one issue is reported, and is the validated body if none is (a response without required content excepted). Malformed payloads of any shape are reported as issues and never raise.",
  ["inputs", "configurations"], "all endpoint validators, all JSON-like bodies, headers, status codes and option combinations",
  "Tests check the returned body for a few good and bad documents per endpoint.",
  ["src/request_validators.py"], [("parse_request/dump_response of all validators, _parse_body, _dump_resource_output_body, _dump_resources_get_response", "src/request_validators.py")],
  ["RequestData.body", "ResponseData.body"])
p("C16", "Replacing or creating a resource never takes over server-owned attributes",
  "The body accepted for replacing a resource contains no read-only attribute or sub-attribute, at any depth and in any extension, while every other provided declared attribute keeps its parsed value. Creating a resource does not demand required attributes that the server issues, but demands all other required attributes.",
  ["inputs", "configurations"], "all schemas with all mutability/issuer/required combinations and all bodies",
  "Tests replace and create one User document.",
  ["src/request_validators.py"], [("ResourceObjectPUT.parse_request, ResourcesPOST.parse_request, _parse_body", "src/request_validators.py")],
  ["RequestData.body"])
p("C17", "List responses must agree with the query they answer",
  "A list response is reported unless: it has at most the requested number of resources (all of them if no number was requested, never more than the stated total), the stated page size equals the number of resources, the stated start is not beyond the requested one, a partial page states start and page size, and its status is 200. Every resource must be of a known schema, valid for it, match the filter (leniently), respect the requested attributes, and all must be in the requested order; the position of an offending resource is reported, and nothing is reported for a response that satisfies all this.",
  ["inputs", "configurations"], "all list bodies, numbers of resources, query options, filters, orders and schema sets",
  "Tests use one or two resources and each rule in isolation.",
  ["src/request_validators.py", "src/assets/schemas/list_response.py"], [("_dump_resources_get_response, validate_number_of_resources, validate_pagination_info, validate_start_index_consistency, validate_resources_filtered/sorted/attributes_presence", "src/request_validators.py"), ("ListResponse.dump", "src/assets/schemas/list_response.py")],
  ["ServerRootResourceGET.dump_response", "SearchRequestPOST.dump_response"])
p("C18", "Response status, Location and error documents are consistent",
  "A resource response is reported exactly when its status is not the one the operation prescribes, when a required Location header is missing, when the Location header differs from the resource's own location, or when its body is invalid or violates presence rules. An error response is reported exactly when its body is not a valid error document, when the status in the body differs from the HTTP status, or when the status is outside 300..599.",
  ["inputs"], "all status codes, headers, bodies and requested-attribute options for GET, PUT, POST, PATCH, DELETE and error responses",
  "Tests check single mismatches for fixed documents.",
  ["src/request_validators.py", "src/assets/schemas/error.py"], [("_dump_resource_output_body, validate_resource_location_in_header/_consistency, validate_status_code, Error.dump_response", "src/request_validators.py")],
  ["dump_response"])
p("C19", "Every bulk operation is held to the rules of its individual endpoint",
  "Each operation of a bulk request must name a known method (in any case) and a path of the form its method requires, address a known resource, and carry data that the corresponding endpoint accepts; each operation of a bulk response must carry method, status, and where applicable location and a response that the corresponding endpoint (or the error document rules for status 300 and above) accepts and that agrees with the stated location and version. Violations are reported at the index of the operation, an operation that is acceptable on its own is never reported because of another, and exceeding the maximum number of operations or the agreed number of errors is reported, exactly then.",
  ["inputs", "configurations"], "all bulk requests and responses with any number and mix of operations, all limits",
  "Tests use two bulk documents with four operations.",
  ["src/request_validators.py", "src/assets/schemas/bulk_ops.py"], [("BulkOperations.parse_request/dump_response", "src/request_validators.py"), ("validate_request_operations, validate_response_operations", "src/assets/schemas/bulk_ops.py")],
  ["BulkOperations.parse_request", "BulkOperations.dump_response"])
p("C20", "Query and search options take effect as given or are rejected",
  "Options given in a query string or search body are either reported with a blocking issue at their name or take effect exactly as given: requested or excluded attributes (never both) become a presence rule over exactly those names, sort attribute and order become a sorter (ascending unless stated otherwise), the filter text becomes that filter, and count and start index become the integers they denote. Absent options have no effect and no issue, and filtering is refused for service provider configuration endpoints.",
  ["inputs"], "all combinations and values of query-string options and search bodies",
  "Tests give one or two option combinations.",
  ["src/request_validators.py", "src/assets/schemas/search_request.py", "src/attributes_presence.py", "src/sorter.py"], [("_parse_resources_get_request, parse_request_sorting, parse_request_filtering, parse_requested_attributes", "src/request_validators.py"), ("SearchRequest.parse", "src/assets/schemas/search_request.py"), ("AttributePresenceChecker.parse", "src/attributes_presence.py"), ("Sorter.parse", "src/sorter.py")],
  ["parse_request"])
p("C21", "Declaring attributes in a schema or extension preserves their definition",
  "Every attribute and sub-attribute declared for a schema or an extension is available in the schema under its schema-qualified name with exactly the characteristics it was declared with (type, multiplicity, required, case sensitivity, canonical values and their enforcement, mutability, returned, uniqueness, issuer, reference types, processors), and the published schema representation states the same. Adding an extension changes no existing attribute and cannot be done twice for the same URN.",
  ["configurations", "histories"], "all attribute definitions, all schemas and all sequences of added extensions",
  "Tests look at a handful of attributes of the built-in schemas.",
  ["src/data/schemas.py", "src/data/attributes.py"], [("BaseSchema.__init__/_bound_attr_to_schema, ResourceSchema.with_extension, get_schema_rep", "src/data/schemas.py"), ("Attribute.to_dict", "src/data/attributes.py")],
  ["ResourceSchema.attrs", "get_schema_rep"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
