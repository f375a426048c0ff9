BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

SCHEMA = """
from src.data import operator as op, type as at
from src.data.attributes import *
from src.data.container import AttrRep, Invalid, Missing, SCIMDataContainer
from src.data.schemas import *
from src.error import ValidationError, ValidationIssues
"""

bug("B22", "C01", [("src/error.py", "            self._issues[new_location].extend(location_issues)\n",
 "            if new_location in self._issues:\n                self._issues[new_location].extend(location_issues)\n            else:\n                self._issues[new_location] = location_issues\n")], """
from src.error import ValidationError, ValidationIssues
a, b = ValidationIssues(), ValidationIssues()
b.add(ValidationError.missing(), True, ("x",))
a.merge(b, location=("y",))
a.add(ValidationError.bad_type("c", "d"), True, ("y", "x"))
assert [e["code"] for e in b.to_dict()["x"]["_errors"]] == [15], b.to_dict()
""", "a registry that is used again after it was merged into another one, which then got an issue at the same location",
"issues reported in one registry appear in another")

bug("B23", "C08", [("src/data/schemas.py", "        if schema == main_schema:\n", "        if schema.startswith(main_schema):\n")], SCHEMA + """
class R(ResourceSchema): pass
class X(SchemaExtension): pass
r = R("urn:ex:Thing", [Attribute("a", at.String)], name="Thing")
r.with_extension(X("urn:ex:Thing:more", [Attribute("b", at.String)], name="More"))
d, i = r.parse({"schemas": ["urn:ex:Thing:more"], "urn:ex:Thing:more": {"b": "x"}})
assert i.has_issues(("schemas",)), "missing main schema not reported"
""", "an extension whose URN continues the URN of the main schema", "a payload that lacks the main schema is accepted")

bug("B24", "C10", [("src/data/operator.py", "                return MatchResult.passed()\n            if match.status == MatchStatus.MISSING_DATA:\n                missing_data = True\n        if missing_data:",
"                return MatchResult.passed()\n            missing_data = match.status == MatchStatus.MISSING_DATA\n        if missing_data:")], SCHEMA + """
class T(BaseSchema): pass
s = T("urn:t", [Attribute("a", at.String), Attribute("b", at.String)])
f = op.Not(op.Or(op.Equal(AttrRep(attr="a"), "x"), op.Equal(AttrRep(attr="b"), "y")))
r = f.match(SCIMDataContainer({"b": "z"}), s.attrs, strict=True)
assert r.status == op.MatchStatus.FAILED, r.status
""", "a negated 'or' whose operand with missing data is not the last one", "a resource for which the condition is undecidable matches")

bug("B25", "C12", [("src/data/path.py", "            sub_attr_rep = AttrRep(\n                schema=attr_rep.schema,\n                attr=attr_rep.attr,", "            sub_attr_rep = AttrRep(\n                attr=attr_rep.attr,")], SCHEMA + """
from src.data.path import PatchPath
p, i = PatchPath.parse('urn:x:y:emails[type eq "a"].value')
assert not i.has_issues()
assert p.complex_filter_attr_rep.schema == "urn:x:y", repr(p.complex_filter_attr_rep)
""", "a filtered path with a schema URN and a sub-attribute", "the sub-attribute is looked up in any schema")

bug("B26", "C14", [("src/assets/schemas/patch_op.py", "            if (\n                attr.mutability == AttributeMutability.READ_ONLY\n                or sub_attr.mutability == AttributeMutability.READ_ONLY\n            ):", "            if sub_attr.mutability == AttributeMutability.READ_ONLY:")], SCHEMA + """
from src.assets.schemas.patch_op import PatchOp
class R(ResourceSchema): pass
r = R("urn:ex:Thing", [ComplexAttribute([Attribute("v", at.String), Attribute("t", at.String)], "m", multi_valued=True, mutability=AttributeMutability.READ_ONLY)], name="Thing")
d, i = PatchOp(r).parse({"schemas": ["urn:ietf:params:scim:api:messages:2.0:PatchOp"], "Operations": [{"op": "remove", "path": 'm[t eq "1"].v'}]})
assert i.has_issues(), "read-only attribute can be cleared through its sub-attribute"
""", "remove of a writable sub-attribute of a filtered read-only attribute", "PATCH changes a read-only attribute")

bug("B27", "C14", [("src/assets/schemas/patch_op.py", "            for attr in self._resource_schema.attrs:\n", "            for attr in self._resource_schema.attrs.top_level:\n")], SCHEMA + """
from src.assets.schemas.patch_op import PatchOp
class R(ResourceSchema): pass
r = R("urn:ex:Thing", [ComplexAttribute([Attribute("v", at.String, mutability=AttributeMutability.READ_ONLY), Attribute("t", at.String)], "m")], name="Thing")
d, i = PatchOp(r).parse({"schemas": ["urn:ietf:params:scim:api:messages:2.0:PatchOp"], "Operations": [{"op": "add", "value": {"m": {"v": "1"}}}]})
assert i.has_issues(), "read-only sub-attribute set"
""", "an operation without path whose value holds a read-only sub-attribute of a writable attribute", "PATCH changes a read-only sub-attribute")

bug("B28", "C12", [("src/data/path.py", "            string_values[start] = string_value\n            path = path.replace(string_value, get_placeholder(start), 1)", "            string_values[start] = string_value\n            path = path.replace(string_value, get_placeholder(start))")], SCHEMA + """
from src.data.path import PatchPath
p, i = PatchPath.parse('a[b eq "x" or c eq "x" or d eq "y"].v')
assert not i.has_issues(), i.to_dict()
q = p.complex_filter.operator.sub_operator
assert [o.value for o in q.sub_operators] == ["x", "x", "y"]
""", "the same quoted value twice in a path filter", "the path's filter is changed")

bug("B29", "C08", [("src/data/schemas.py", "        elif schema not in known_schemas and not mismatch:", "        elif not mismatch and main_schema_included and schema not in known_schemas:")], SCHEMA + """
class R(ResourceSchema): pass
r = R("urn:ex:Thing", [Attribute("a", at.String)], name="Thing")
d, i = r.parse({"schemas": ["urn:unknown", "urn:ex:Thing"]})
assert i.has_issues(("schemas",)), "unknown schema not reported"
""", "an unknown URN listed before the main schema's", "unknown schema URNs are accepted")
