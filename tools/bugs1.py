BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug("B01", "C02", [("src/error.py", "            for i in range(len(location) + 1):\n                if location[:i] in self._stop",
 "            for i in range(max(len(location) - 2, 0), len(location) + 1):\n                if location[:i] in self._stop")], """
from src.error import ValidationError, ValidationIssues
i = ValidationIssues()
i.add(ValidationError.missing(), False, ("body",))
assert not i.can_proceed(("body", "a", 0))
assert not i.can_proceed(("body", "a", 0, "b")), "blocked ancestor three levels up ignored"
""", "a blocking issue more than two levels above the queried location", "can_proceed ignores distant ancestors")

bug("B02", "C01", [("src/error.py", "            self._issues[new_location].extend(location_issues)\n",
 "            present = {issue.code for issue in self._issues[new_location]}\n            self._issues[new_location].extend(\n                issue for issue in location_issues if issue.code not in present\n            )\n")], """
from src.error import ValidationError, ValidationIssues
a, b = ValidationIssues(), ValidationIssues()
a.add(ValidationError.bad_type("a", "b"), True, ("x",))
b.add(ValidationError.bad_type("c", "d"), True, ())
a.merge(b, location=("x",))
assert len(a.to_dict()["x"]["_errors"]) == 2, a.to_dict()
""", "merging a registry with a code that is already present at the resulting location", "an issue is lost by merging")

bug("B03", "C09", [("src/attributes_presence.py", "                        if item_value is Invalid:\n                            continue\n",
 "                        if item_value is Invalid:\n                            break\n")], """
from src.attributes_presence import AttributePresenceChecker
from src.data import type as at
from src.data.attributes import Attribute, Attributes, ComplexAttribute
from src.data.container import AttrRep, Invalid, SCIMDataContainer
from src.data.schemas import BaseSchema
class T(BaseSchema): pass
s = T("urn:t", [ComplexAttribute([Attribute("v", at.String, required=True)], "m", multi_valued=True)])
d = SCIMDataContainer()
bad = SCIMDataContainer(); bad["v"] = Invalid
d["m"] = [bad, SCIMDataContainer({"w": 1})]
d["schemas"] = ["urn:t"]
i = AttributePresenceChecker()(d, s.attrs, "REQUEST")
assert i.has_issues(("m", 1, "v")), i.to_dict()
""", "an item with an invalid sub-attribute before an item that lacks it", "missing required sub-attribute of a later item is not reported")

bug("B04", "C10", [("src/data/operator.py", "            if match.status == MatchStatus.MISSING_DATA:\n                missing_data = True\n\n        if missing_data and not strict:",
 "            missing_data = match.status == MatchStatus.MISSING_DATA\n\n        if missing_data and not strict:")], """
from src.data import operator as op, type as at
from src.data.attributes import Attribute, ComplexAttribute
from src.data.container import AttrRep, SCIMDataContainer
from src.data.schemas import BaseSchema
from src.filter import Filter
class T(BaseSchema): pass
s = T("urn:t", [ComplexAttribute([Attribute("a", at.String), Attribute("b", at.String)], "m", multi_valued=True)])
f = op.ComplexAttributeOperator(AttrRep(attr="m"), op.And(op.Present(AttrRep(attr="a")), op.Not(op.And(op.Equal(AttrRep(attr="b"), "x")))))
class Fake(op.LogicalOperator):
    def match(self, value, attrs, strict=True):
        return op.MatchResult.missing_data() if value["a"] == "1" else op.MatchResult.failed()
f = op.ComplexAttributeOperator(AttrRep(attr="m"), Fake())
d = SCIMDataContainer({"m": [{"a": "1"}, {"a": "2"}]})
assert f.match(d["m"], s.attrs, strict=False).status == op.MatchStatus.PASSED
""", "a multi-valued complex attribute whose last item is not the one with missing data", "lenient evaluation forgets missing data of earlier items")

bug("B05", "C11", [("src/data/operator.py", "return [(item.lower(), op_value) for item in value if isinstance(item, str)]",
 "return [(item.casefold(), op_value) for item in value if isinstance(item, str)]")], """
from src.data import operator as op, type as at
from src.data.attributes import Attribute, Attributes
from src.data.container import AttrRep
attrs = Attributes([Attribute("a", at.String)])
assert op.Equal(AttrRep(attr="a"), "Stra\\u00dfe").match("stra\\u00dfe", attrs)
""", "text for which casefold and lower differ", "case-insensitive comparison of equal strings fails")

bug("B06", "C13", [("src/sorter.py", "        return sorted(data, key=key, reverse=not self._asc)\n",
 "        ordered = sorted(data, key=key)\n        return ordered if self._asc else ordered[::-1]\n")], """
from src.sorter import Sorter
from src.data import type as at
from src.data.attributes import Attribute
from src.data.container import AttrRep, SCIMDataContainer
from src.data.schemas import ResourceSchema
class T(ResourceSchema): pass
s = T("urn:t", [Attribute("a", at.Integer)])
d = [SCIMDataContainer({"a": 1, "id": "x"}), SCIMDataContainer({"a": 1, "id": "y"})]
assert [x["id"] for x in Sorter(AttrRep(attr="a"), asc=False)(d, s)] == ["x", "y"]
""", "equal values sorted in descending order", "resources with equal values change their relative order")

bug("B07", "C07", [("src/data/attributes.py", "            primary_entries.add(i)\n", "            primary_entries.add(str(item[\"value\"]))\n")], """
from src.data import type as at
from src.data.attributes import Attribute, ComplexAttribute
a = ComplexAttribute([Attribute("value", at.String), Attribute("primary", at.Boolean)], "m", multi_valued=True)
from src.data.container import SCIMDataContainer as C
_, i = a.parse([C({"value": "x", "primary": True}), C({"value": "x", "primary": True})])
assert i.has_issues(), "two primary items"
""", "two primary items with the same value", "more than one primary item is accepted")

bug("B08", "C06", [("src/data/attributes.py", "            for i, item in enumerate(value):\n                item, issues_ = method(item)\n",
 "            for item in value:\n                i = value.index(item)\n                item, issues_ = method(item)\n")], """
from src.data import type as at
from src.data.attributes import Attribute
a = Attribute("a", at.String, multi_valued=True)
_, i = a.parse([1, "x", 1])
assert i.has_issues((2,)), i.to_dict()
""", "a list with repeated bad items", "issues of a repeated item are reported at the index of its first occurrence")

bug("B09", "C08", [("src/data/schemas.py", "        elif schema not in known_schemas and not mismatch:",
 "        elif not main_schema_included and schema not in known_schemas and not mismatch:")], """
from src.data import type as at
from src.data.attributes import Attribute
from src.data.schemas import ResourceSchema
class T(ResourceSchema): pass
s = T("urn:t", [Attribute("a", at.Integer)])
_, i = s.parse({"schemas": ["urn:t", "urn:unknown"], "a": 1})
assert i.has_issues(("schemas",)), i.to_dict()
""", "an unknown URN listed after the main one", "unknown schema URN is accepted")

bug("B11", "C16", [("src/request_validators.py", "            for attr in self._schema.attrs:\n                if attr.mutability == AttributeMutability.READ_ONLY:\n                    del body",
 "            for attr in self._schema.attrs.top_level:\n                if attr.mutability == AttributeMutability.READ_ONLY:\n                    del body")], """
from src.assets.config import create_service_provider_config
from src.data import type as at
from src.data.attributes import Attribute, AttributeMutability, ComplexAttribute
from src.data.schemas import ResourceSchema
from src.request_validators import ResourceObjectPUT
class T(ResourceSchema): pass
s = T("urn:t", [ComplexAttribute([Attribute("x", at.String, mutability=AttributeMutability.READ_ONLY), Attribute("y", at.String)], "c")])
d, i = ResourceObjectPUT(create_service_provider_config(), resource_schema=s).parse_request(
    body={"schemas": ["urn:t"], "id": "1", "c": {"x": "server", "y": "z"}})
assert d.body.to_dict()["c"] == {"y": "z"}, d.body.to_dict()
""", "a read-only sub-attribute of a writable complex attribute", "a replaced resource takes over a read-only sub-attribute")

bug("B12", "C17", [("src/request_validators.py", "    if count is not None and count < n_resources:", "    if count and count < n_resources:")], """
from src.request_validators import validate_number_of_resources
assert validate_number_of_resources(0, 1, [{}]).has_issues()
""", "count=0 with a resource in the response", "more resources than requested are accepted")

bug("B13", "C18", [("src/request_validators.py", "    if meta_location != headers_location:",
 "    if str(meta_location).rstrip(\"/\") != str(headers_location).rstrip(\"/\"):")], """
from src.request_validators import validate_resource_location_consistency
assert validate_resource_location_consistency("https://h/Users/1", "https://h/Users/1/").has_issues()
""", "locations that differ by a trailing slash", "inconsistent Location header is accepted")

bug("B14", "C19", [("src/request_validators.py", "        if fail_on_errors is not None and n_errors > fail_on_errors:",
 "        if fail_on_errors and n_errors > fail_on_errors:")], """
from src.assets.config import create_service_provider_config
from src.assets.schemas.user import User
from src.request_validators import BulkOperations
v = BulkOperations(create_service_provider_config(), resource_schemas=[User()])
_, i = v.dump_response(status_code=200, fail_on_errors=0, body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:BulkResponse"],
  "Operations": [{"method": "PUT", "location": "https://h/Users/1", "status": "400", "response": {"schemas": ["urn:ietf:params:scim:api:messages:2.0:Error"], "status": "400"}}]})
assert i.has_issues(("body", "Operations")), i.to_dict()
""", "an agreed number of errors of zero", "exceeding the agreed number of errors is not reported")

bug("B15", "C20", [("src/request_validators.py", "            query_string[\"count\"] = int(count)", "            query_string[\"count\"] = int(float(count))")], """
from src.request_validators import _parse_resources_get_request
from src.assets.config import create_service_provider_config
from src.assets.schemas.user import User
from src.request_validators import ResourcesGET
v = ResourcesGET(create_service_provider_config(), resource_schema=User())
d, i = v.parse_request(query_string={"count": "1.5"})
assert i.has_issues(("query_string", "count")), d.query_string
""", "a fractional count", "a count that is no integer is accepted")

bug("B16", "C03", [("src/data/container.py", "        self._data.pop(attr)\n        self._lower_case_to_original.pop(attr_rep.attr.lower())\n",
 "        self._data.pop(attr)\n        self._lower_case_to_original.pop(attr.lower() if attr == attr_rep.attr else attr_rep.attr, None)\n")], """
from src.data.container import SCIMDataContainer, Missing
c = SCIMDataContainer({"userName": 1})
del c["USERNAME"]
assert c["userName"] is Missing
""", "deleting under a spelling other than the stored one", "reading a deleted attribute raises")

bug("B17", "C04", [("src/data/container.py", "            return self.attr_with_schema.lower() == other.attr_with_schema.lower()\n",
 "            return self.schema == other.schema and self.attr.lower() == other.attr.lower()\n")], """
from src.data.container import AttrRep
assert AttrRep("urn:A", "b").top_level_equals(AttrRep("URN:a", "B", "c"))
""", "schema URNs that differ in case", "notations of the same attribute are not equal")

bug("B18", "C05", [("src/data/type.py", "        return value.isoformat(), issues\n", "        return value.isoformat(timespec=\"milliseconds\") if value.microsecond else value.isoformat(), issues\n")], """
from datetime import datetime
from src.data.type import DateTime
v = datetime(2024, 1, 1, 0, 0, 0, 123456)
assert DateTime.parse(DateTime.dump(v)[0])[0] == v
""", "a date-time with microseconds", "an accepted date-time does not survive dumping and parsing")

bug("B20", "C21", [("src/data/schemas.py", "                returned=attr.returned,\n                uniqueness=attr.uniqueness,\n                parsers=attr.parsers,\n                dumpers=attr.dumpers,\n                complex_parsers",
 "                returned=attr.returned,\n                uniqueness=attr.uniqueness,\n                parsers=attr.parsers,\n                dumpers=attr.parsers,\n                complex_parsers")], """
from src.data import type as at
from src.data.attributes import Attribute, ComplexAttribute
from src.data.schemas import BaseSchema
class T(BaseSchema): pass
def p(v): return v, None
s = T("urn:t", [ComplexAttribute([Attribute("a", at.String)], "c", dumpers=[p])])
assert s.attrs.c.dumpers == [p]
""", "a complex attribute with a custom dumper", "binding replaces the dumpers of a complex attribute")

bug("B21", "C15", [("src/request_validators.py", "        if issues_.has_issues():\n            body = None\n        return RequestData(headers=headers, query_string=query_string, body=body), issues\n",
 "        if not issues_.can_proceed():\n            body = None\n        return RequestData(headers=headers, query_string=query_string, body=body), issues\n")], """
from src.assets.config import create_service_provider_config
from src.assets.schemas.user import User
from src.request_validators import SearchRequestPOST
v = SearchRequestPOST(create_service_provider_config(), resource_schemas=[User()])
d, i = v.parse_request(body={"schemas": ["urn:unknown"], "filter": "a eq"})
assert i.has_issues() and d.body is None
""", "issues that do not block the root", "a payload with issues is handed on")
