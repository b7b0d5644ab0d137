"""Checks that what the property checks need is there."""
import sys

import attr, cryptography, marshmallow, serial, structlog  # noqa

assert sys.version_info >= (3, 12), "sys.monitoring is used for coverage guidance"
print("ready")
