"""What every proof rests on without being proved here."""
TRUSTED = [
    "dv/: the symbolic interpreter, its rope (byte string) theory and the lockstep loop rule",
    "dv/models.py: models of the Python built-ins and library functions the code calls",
    "z3 as decision procedure",
    "the contracts in contracts/ say what the properties mean",
]
ASSUMPTIONS = [
    "CPython executes the source text of /repo that the verifier reads, with the documented semantics",
    "attrs, dataclass and enum classes behave as documented (the __init__, __eq__ and __repr__ methods attrs generates are interpreted from attrs' own generated source; enum lookups are modelled)",
    "AES-CBC of the cryptography package is modelled as an invertible length-preserving function of key, iv and data for whole 16-byte blocks, and raises ValueError for other key lengths and partial blocks",
    "marshmallow field semantics are an assumed contract of the dependency (dv/schema_model.py)",
    "random, sockets, serial ports and clocks return arbitrary values of their documented types",
    "no memory exhaustion, no signals, no other thread touching the same objects",
    "logging calls have no effect",
]
