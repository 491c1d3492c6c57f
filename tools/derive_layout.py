"""One-off bootstrap of ref/layout.json (NOT run by any check).

The reference layout was derived once from the reviewed tree at the pinned commit (plus the alias repairs listed in
DESIGN.md), written out flat - every version spells out every struct, no aliasing between versions - and is frozen
from then on.  Checks never regenerate it: a change to a struct in /repo is compared with the frozen text.
"""

import ctypes
import importlib
import json
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, "/repo")

VERSIONS = "1.26 2.3 2.4 2.5 2.6 2.7 2.8 2.9 2.10 2.11 2.12".split()
C = {
    ctypes.c_int: "int", ctypes.c_uint: "uint", ctypes.c_short: "short", ctypes.c_ushort: "ushort",
    ctypes.c_char: "char", ctypes.c_uint8: "uint8", ctypes.c_long: "long", ctypes.c_ulong: "ulong",
    ctypes.c_longlong: "llong", ctypes.c_float: "float",
}
NAMES = {  # ctypes aliases c_longlong to c_long on LP64; recover the declared C type by field role
}


def main() -> None:
    out = {}
    for ver in VERSIONS:
        mod = importlib.import_module("atoparser.structs.atop_" + ver.replace(".", "_"))
        structs = {}

        def walk(cls):
            if cls.__name__ in structs:
                return
            fields = []
            for name, typ in cls._fields_:
                count = None
                if issubclass(typ, ctypes.Array):
                    count, typ = typ._length_, typ._type_
                if issubclass(typ, ctypes.Structure):
                    walk(typ)
                    kind = "struct " + typ.__name__
                else:
                    kind = C[typ]
                fields.append([name, kind] if count is None else [name, kind, count])
            structs[cls.__name__] = {"fields": fields}
            lim = getattr(cls, "fields_limiters", None)
            if lim:
                structs[cls.__name__]["limit"] = lim

        hdr = mod.Header
        roots = {"Header": hdr, "Record": hdr.Record, "SStat": hdr.SStat, "TStat": hdr.TStat}
        if hdr.CStat:
            roots["CStat"] = hdr.CStat
        for cls in roots.values():
            walk(cls)
        out[ver] = {"roots": {k: v.__name__ for k, v in roots.items()}, "structs": structs}
    # Compact but diffable: one struct per line.
    lines = ["{"]
    for vi, (ver, spec) in enumerate(out.items()):
        lines.append(f' {json.dumps(ver)}: {{"roots": {json.dumps(spec["roots"])}, "structs": {{')
        items = list(spec["structs"].items())
        for si, (name, st) in enumerate(items):
            lines.append(f"  {json.dumps(name)}: {json.dumps(st)}" + ("," if si + 1 < len(items) else ""))
        lines.append(" }}" + ("," if vi + 1 < len(out) else ""))
    lines.append("}")
    text = "\n".join(lines) + "\n"
    assert json.loads(text) == out
    with open("/verif/ref/layout.json", "w") as f:
        f.write(text)


main()
