"""Schemas and bodies shared by the checks. Only public names of the library are used."""
from copy import deepcopy
from datetime import datetime

from src.assets.config import create_service_provider_config
from src.assets.schemas.group import Group
from src.assets.schemas.resource_type import ResourceType
from src.assets.schemas.schema import Schema
from src.assets.schemas.service_provider_config import (
    ServiceProviderConfig as ServiceProviderConfigSchema,
)
from src.assets.schemas.user import User
from src.data import type as at
from src.data.attributes import (
    Attribute,
    AttributeIssuer,
    AttributeMutability,
    AttributeReturn,
    ComplexAttribute,
)
from src.data.schemas import ResourceSchema, SchemaExtension

USER = "urn:ietf:params:scim:schemas:core:2.0:User"
GROUP = "urn:ietf:params:scim:schemas:core:2.0:Group"
ENT = "urn:ietf:params:scim:schemas:extension:enterprise:2.0:User"
LIST = "urn:ietf:params:scim:api:messages:2.0:ListResponse"
SEARCH = "urn:ietf:params:scim:api:messages:2.0:SearchRequest"
PATCH = "urn:ietf:params:scim:api:messages:2.0:PatchOp"
BULK_REQ = "urn:ietf:params:scim:api:messages:2.0:BulkRequest"
BULK_RES = "urn:ietf:params:scim:api:messages:2.0:BulkResponse"
ERROR = "urn:ietf:params:scim:api:messages:2.0:Error"
THING = "urn:example:params:2.0:Thing"
THING_EXT = "urn:example:params:ext:2.0:Thing"

CONFIG = create_service_provider_config(
    patch={"supported": True},
    bulk={"supported": True, "max_operations": 4, "max_payload_size": 4242},
    filter_={"supported": True, "max_results": 100},
)


def config(max_operations):
    return create_service_provider_config(
        patch={"supported": True},
        bulk={"supported": True, "max_operations": max_operations, "max_payload_size": 4242},
        filter_={"supported": True, "max_results": 100},
    )


class Thing(ResourceSchema):
    """One attribute of every type, arity, mutability and returnability, plus an extension."""

    def __init__(self):
        super().__init__(
            schema=THING,
            attrs=thing_attrs(),
            name="Thing",
            plural_name="Things",
        )
        self.with_extension(
            SchemaExtension(schema=THING_EXT, attrs=thing_ext_attrs(), name="Thing extension")
        )


def thing_attrs():
    return [
        Attribute(name="int", type_=at.Integer),
        Attribute(name="str", type_=at.String),
        Attribute(name="str_cs", type_=at.String, case_exact=True),
        Attribute(name="str_mv", type_=at.String, multi_valued=True),
        Attribute(name="str_cs_mv", type_=at.String, case_exact=True, multi_valued=True),
        Attribute(name="int_mv", type_=at.Integer, multi_valued=True),
        Attribute(name="bool", type_=at.Boolean),
        Attribute(name="datetime", type_=at.DateTime),
        Attribute(name="datetime_mv", type_=at.DateTime, multi_valued=True),
        Attribute(name="decimal", type_=at.Decimal),
        Attribute(name="binary", type_=at.Binary),
        Attribute(name="external_ref", type_=at.ExternalReference),
        Attribute(name="uri_ref", type_=at.URIReference),
        Attribute(name="scim_ref", type_=at.SCIMReference, reference_types=["User"]),
        Attribute(
            name="color", type_=at.String, canonical_values=["Red", "green"],
            validate_canonical_values=True,
        ),
        Attribute(
            name="shade_mv", type_=at.String, canonical_values=["Dark", "light"], case_exact=True,
            multi_valued=True, validate_canonical_values=True,
        ),
        Attribute(name="level", type_=at.Integer, canonical_values=[1, 2]),
        ComplexAttribute(name="c", sub_attributes=[Attribute(name="value", type_=at.String)]),
        ComplexAttribute(
            name="c_mv",
            sub_attributes=[
                Attribute(name="value", type_=at.String),
                Attribute(name="type", type_=at.String, canonical_values=["work", "home"]),
                Attribute(name="primary", type_=at.Boolean),
                Attribute(name="$ref", type_=at.URIReference),
            ],
            multi_valued=True,
        ),
        ComplexAttribute(
            name="c2",
            sub_attributes=[
                Attribute(name="str", type_=at.String),
                Attribute(name="int", type_=at.Integer),
                Attribute(name="bool", type_=at.Boolean),
                Attribute(name="str_mv", type_=at.String, multi_valued=True),
                Attribute(
                    name="ro", type_=at.String, mutability=AttributeMutability.READ_ONLY,
                    issuer=AttributeIssuer.SERVER,
                ),
            ],
        ),
        ComplexAttribute(
            name="c2_mv",
            sub_attributes=[
                Attribute(name="str", type_=at.String, case_exact=True),
                Attribute(name="int", type_=at.Integer),
                Attribute(name="bool", type_=at.Boolean, required=True),
                Attribute(name="when", type_=at.DateTime),
                Attribute(
                    name="sid", type_=at.String, required=True, issuer=AttributeIssuer.SERVER
                ),
            ],
            multi_valued=True,
        ),
        Attribute(name="secret", type_=at.String, returned=AttributeReturn.NEVER,
                  mutability=AttributeMutability.WRITE_ONLY),
        Attribute(name="onreq", type_=at.String, returned=AttributeReturn.REQUEST),
        Attribute(name="always", type_=at.String, returned=AttributeReturn.ALWAYS),
        Attribute(name="ro", type_=at.String, mutability=AttributeMutability.READ_ONLY),
        Attribute(name="imm", type_=at.String, mutability=AttributeMutability.IMMUTABLE),
        ComplexAttribute(
            name="ro_c",
            sub_attributes=[Attribute(name="value", type_=at.String)],
            mutability=AttributeMutability.READ_ONLY,
        ),
        ComplexAttribute(
            name="ro_mv",
            sub_attributes=[Attribute(name="value", type_=at.String)],
            multi_valued=True,
            mutability=AttributeMutability.READ_ONLY,
        ),
    ]


def thing_ext_attrs():
    return [
        Attribute(name="xstr", type_=at.String),
        Attribute(name="int", type_=at.Integer),  # same name as a core attribute
        Attribute(name="xro", type_=at.String, mutability=AttributeMutability.READ_ONLY),
        Attribute(name="xsecret", type_=at.String, returned=AttributeReturn.NEVER),
        ComplexAttribute(
            name="xc",
            sub_attributes=[
                Attribute(name="value", type_=at.String),
                Attribute(name="num", type_=at.Integer),
            ],
        ),
        ComplexAttribute(
            name="xc_mv",
            sub_attributes=[
                Attribute(name="value", type_=at.String),
                Attribute(name="primary", type_=at.Boolean),
            ],
            multi_valued=True,
        ),
    ]


def dt(text="2010-01-23T04:56:22+00:00"):
    return datetime.fromisoformat(text)


_USER_BODY = {
    "schemas": [USER, ENT],
    "externalId": "1",
    "userName": "bjensen@example.com",
    "name": {
        "formatted": "Ms. Barbara J Jensen, III",
        "familyName": "Jensen",
        "givenName": "Barbara",
        "middleName": "Jane",
        "honorificPrefix": "Ms.",
        "honorificSuffix": "III",
    },
    "displayName": "Babs Jensen",
    "nickName": "Babs",
    "profileUrl": "https://login.example.com/bjensen",
    "emails": [
        {"value": "bjensen@example.com", "type": "work", "primary": True},
        {"value": "babs@jensen.org", "type": "home"},
    ],
    "addresses": [
        {
            "streetAddress": "100 Universal City Plaza",
            "locality": "Hollywood",
            "region": "CA",
            "postalCode": "91608",
            "country": "USA",
            "formatted": "100 Universal City Plaza\nHollywood, CA 91608 USA",
            "type": "work",
        },
        {"streetAddress": "456 Hollywood Blvd", "country": "USA", "type": "home"},
    ],
    "phoneNumbers": [
        {"value": "555-555-5555", "type": "work"},
        {"value": "555-555-4444", "type": "mobile"},
    ],
    "ims": [{"value": "someaimhandle", "type": "aim"}],
    "photos": [{"value": "https://photos.example.com/profilephoto/F", "type": "photo"}],
    "userType": "Employee",
    "title": "Tour Guide",
    "preferredLanguage": "en-US",
    "locale": "en-US",
    "timezone": "America/Los_Angeles",
    "active": True,
    "password": "t1meMa$heen",
    "entitlements": [{"value": "e1", "display": "ent", "type": "t"}],
    "roles": [{"value": "r1", "primary": True}],
    "x509Certificates": [{"value": "AQIDBA=="}],
    ENT: {
        "employeeNumber": "1",
        "costCenter": "4130",
        "organization": "Universal Studios",
        "division": "Theme Park",
        "department": "Tour Operations",
        "manager": {
            "value": "26118915",
            "$ref": "../Users/26118915",
            "displayName": "John Smith",
        },
    },
}


def user_request():
    return deepcopy(_USER_BODY)


def user_response(i=1):
    body = deepcopy(_USER_BODY)
    del body["password"]
    body["id"] = f"user-{i}"
    body["groups"] = [
        {"value": "e9e30dba", "$ref": "../Groups/e9e30dba", "display": "Tour Guides"},
    ]
    body["meta"] = {
        "resourceType": "User",
        "created": dt(),
        "lastModified": dt("2011-05-13T04:42:34+00:00"),
        "version": f'W/"v{i}"',
        "location": f"https://example.com/v2/Users/user-{i}",
    }
    return body


def small_user_response(i=1, **kw):
    body = {
        "schemas": [USER],
        "id": f"user-{i}",
        "userName": f"name{i}",
        "meta": {
            "resourceType": "User",
            "location": f"https://example.com/v2/Users/user-{i}",
            "version": f'W/"v{i}"',
        },
    }
    body.update(kw)
    return body


def group_request():
    return {
        "schemas": [GROUP],
        "displayName": "Tour Guides",
        "members": [
            {"value": "u1", "$ref": "../Users/u1", "display": "Babs"},
            {"value": "u2"},
        ],
    }


def group_response(i=1):
    body = group_request()
    body["id"] = f"group-{i}"
    body["meta"] = {
        "resourceType": "Group",
        "location": f"https://example.com/v2/Groups/group-{i}",
    }
    return body


def thing_request():
    return {
        "schemas": [THING, THING_EXT],
        "int": 1,
        "str": "Abc",
        "str_cs": "Abc",
        "str_mv": ["x", "Y"],
        "str_cs_mv": ["x", "Y"],
        "int_mv": [1, 2],
        "bool": False,
        "datetime": "2010-01-23T04:56:22+00:00",
        "datetime_mv": ["2010-01-23T04:56:22+00:00"],
        "decimal": 1.5,
        "binary": "AQIDBA==",
        "external_ref": "https://example.com/a",
        "uri_ref": "../a",
        "scim_ref": "../Users/1",
        "color": "RED",
        "shade_mv": ["Dark", "light"],
        "level": 1,
        "c": {"value": "v"},
        "c_mv": [
            {"value": "v1", "type": "work", "primary": True, "$ref": "../1"},
            {"value": "v2", "type": "home", "primary": False},
        ],
        "c2": {"str": "a", "int": 0, "bool": True, "str_mv": ["q"]},
        "c2_mv": [{"str": "a", "int": 1, "bool": True, "sid": "s"},
                  {"bool": False, "sid": "t"}],
        "secret": "s3",
        "onreq": "r",
        "always": "a",
        "imm": "i",
        THING_EXT: {
            "xstr": "x",
            "int": 7,
            "xc": {"value": "v", "num": 1},
            "xc_mv": [{"value": "q", "primary": True}],
        },
    }


def thing_response(i=1):
    body = thing_request()
    del body["secret"]
    body["id"] = f"thing-{i}"
    body["datetime"] = dt()
    body["datetime_mv"] = [dt()]
    body["ro"] = "ro"
    body["ro_c"] = {"value": "x"}
    body["ro_mv"] = [{"value": "x"}]
    body["meta"] = {
        "resourceType": "Thing",
        "location": f"https://example.com/v2/Things/thing-{i}",
    }
    return body


def iter_paths(node, prefix=()):
    """Every position of a JSON-like tree, parents before children."""
    yield prefix
    if isinstance(node, dict):
        for key in node:
            yield from iter_paths(node[key], prefix + (key,))
    elif isinstance(node, list):
        for i in range(len(node)):
            yield from iter_paths(node[i], prefix + (i,))


def replaced(tree, path, value):
    """Copy of the tree with the node at path replaced."""
    if not path:
        return deepcopy(value)
    tree = deepcopy(tree)
    node = tree
    for key in path[:-1]:
        node = node[key]
    node[path[-1]] = deepcopy(value)
    return tree


def removed(tree, path):
    tree = deepcopy(tree)
    node = tree
    for key in path[:-1]:
        node = node[key]
    del node[path[-1]]
    return tree


def at_path(tree, path):
    for key in path:
        tree = tree[key]
    return tree
