"""What was encoded decodes to the same value."""
from .lib import *
from . import c03, c05, c07

RULE = ('the encoders write exactly the canonical form of the value (as under C05), and the decoders return exactly the value that a complete input denotes (as under C03 and C07); '
        'the canonical form of a value denotes that value, and is one complete input')
RULES = c05.RULES + c03.RULES + c07.RULES
