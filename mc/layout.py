"""Reference layouts: frozen field tables (ref/layout.json) placed by the System V x86-64 ABI rules.

Nothing here looks at /repo.  Offsets are computed in plain Python and, by check P01, proved equal to what gcc computes
for the same C declarations.
"""

from __future__ import annotations

import json
import os
import struct

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

VERSIONS = ["1.26", "2.3", "2.4", "2.5", "2.6", "2.7", "2.8", "2.9", "2.10", "2.11", "2.12"]
CG_VERSIONS = ["2.11", "2.12"]
SCALARS = {  # kind: (struct code, size)
    "int": ("i", 4), "uint": ("I", 4), "short": ("h", 2), "ushort": ("H", 2), "char": ("c", 1), "uint8": ("B", 1),
    "llong": ("q", 8), "ulong": ("Q", 8), "long": ("q", 8), "float": ("f", 4),
}
C_TYPES = {
    "int": "int", "uint": "unsigned int", "short": "short", "ushort": "unsigned short", "char": "char",
    "uint8": "unsigned char", "llong": "long long", "ulong": "unsigned long", "long": "long", "float": "float",
}

with open(os.path.join(ROOT, "ref", "layout.json")) as _f:
    SPEC = json.load(_f)


class Field:
    """One member of a structure: placed, typed, and optionally an array (count) and/or a nested struct (sub)."""

    __slots__ = ("name", "kind", "count", "offset", "elem", "size", "sub")

    def __init__(self, name, kind, count, offset, elem, size, sub):
        self.name, self.kind, self.count = name, kind, count
        self.offset, self.elem, self.size, self.sub = offset, elem, size, sub


class Struct:
    """A placed structure."""

    __slots__ = ("name", "fields", "size", "align", "limit", "by_name")

    def __init__(self, name):
        self.name, self.fields, self.size, self.align, self.limit, self.by_name = name, [], 0, 1, {}, {}


class Layout:
    """All structures of one version."""

    def __init__(self, version: str):
        self.version = version
        self.spec = SPEC[version]
        self.structs: dict[str, Struct] = {}
        for name in self.spec["structs"]:
            self._place(name)
        self.roots = {role: self.structs[name] for role, name in self.spec["roots"].items()}

    def _place(self, name: str) -> Struct:
        if name in self.structs:
            return self.structs[name]
        decl = self.spec["structs"][name]
        out = Struct(name)
        out.limit = decl.get("limit", {})
        off = 0
        for entry in decl["fields"]:
            fname, kind = entry[0], entry[1]
            count = entry[2] if len(entry) > 2 else None
            if kind.startswith("struct "):
                sub = self._place(kind[7:])
                esize, align = sub.size, sub.align
            else:
                sub = None
                esize = align = SCALARS[kind][1]
            off = (off + align - 1) // align * align
            size = esize * (1 if count is None else count)
            fld = Field(fname, kind, count, off, esize, size, sub)
            out.fields.append(fld)
            out.by_name[fname] = fld
            off += size
            out.align = max(out.align, align)
        out.size = (off + out.align - 1) // out.align * out.align
        self.structs[name] = out
        return out

    def size(self, role: str) -> int:
        return self.roots[role].size

    # ---- addressing -------------------------------------------------------------------------------------------
    def locate(self, role: str, path) -> tuple[int, Field]:
        """Byte offset and field of a path like ("cpu", "cpu", 3, "stime")."""
        st, base, fld, steps = self.roots[role], 0, None, list(path)
        while steps:
            key = steps.pop(0)
            if isinstance(key, int):
                base += key * fld.elem
                st = fld.sub
            else:
                fld = st.by_name[key]
                base += fld.offset
                st = fld.sub
        return base, fld

    def put(self, buf: bytearray, role: str, path, value) -> None:
        """Store a value (int, float or bytes) at a path."""
        off, fld = self.locate(role, path)
        if isinstance(value, (bytes, bytearray)):
            width = fld.size if not isinstance(path[-1], int) else fld.elem
            assert len(value) <= width, (path, value)
            buf[off : off + len(value)] = value
        else:
            struct.pack_into("<" + SCALARS[fld.kind][0], buf, off, value)

    def get(self, buf, role: str, path):
        off, fld = self.locate(role, path)
        if fld.kind == "char" and not isinstance(path[-1], int) and fld.count is not None:
            return cstr(bytes(buf[off : off + fld.size]))
        return struct.unpack_from("<" + SCALARS[fld.kind][0], buf, off)[0]

    # ---- reference conversion ---------------------------------------------------------------------------------
    def to_dict(self, st: Struct, buf, base: int = 0) -> dict:
        """The documented dictionary view of a structure (see property P12)."""
        out = {}
        for fld in st.fields:
            off = base + fld.offset
            if fld.sub is not None and fld.count is None:
                out[fld.name] = self.to_dict(fld.sub, buf, off)
            elif "future" in fld.name:
                continue
            elif fld.count is not None and fld.kind != "char":
                n = fld.count
                if fld.name in st.limit:
                    n = min(n, self._limit(st, fld, buf, base))
                if fld.sub is not None:
                    out[fld.name] = [self.to_dict(fld.sub, buf, off + i * fld.elem) for i in range(n)]
                else:
                    out[fld.name] = list(struct.unpack_from(f"<{n}{SCALARS[fld.kind][0]}", buf, off))
            elif fld.kind == "char":
                raw = bytes(buf[off : off + fld.size])
                out[fld.name] = text(cstr(raw) if fld.count is not None else raw)
            else:
                out[fld.name] = struct.unpack_from("<" + SCALARS[fld.kind][0], buf, off)[0]
        return out

    @staticmethod
    def _limit(st: Struct, fld: Field, buf, base: int) -> int:
        cnt = st.by_name[st.limit[fld.name]]
        return struct.unpack_from("<" + SCALARS[cnt.kind][0], buf, base + cnt.offset)[0]

    def leaves(self, role: str, max_elems: int | None = None, future: bool = False):
        """Yield (path, offset, field) of every scalar/text leaf; arrays cut to first/last elements if asked."""
        yield from self._leaves(self.roots[role], (), 0, max_elems, future)

    def _leaves(self, st, path, base, max_elems, future):
        for fld in st.fields:
            if "future" in fld.name and not future:
                continue
            off = base + fld.offset
            here = path + (fld.name,)
            if fld.kind == "char" or (fld.count is None and fld.sub is None):
                yield here, off, fld
                continue
            if fld.count is None:
                yield from self._leaves(fld.sub, here, off, max_elems, future)
                continue
            idx = range(fld.count)
            if max_elems is not None and fld.count > max_elems:
                idx = list(range(max_elems - 1)) + [fld.count - 1]
            for i in idx:
                if fld.sub is None:
                    yield here + (i,), off + i * fld.elem, fld
                else:
                    yield from self._leaves(fld.sub, here + (i,), off + i * fld.elem, max_elems, future)

    # ---- C source, for the gcc cross-check --------------------------------------------------------------------
    def c_source(self) -> str:
        tag = self.version.replace(".", "_")
        out = []
        for name, st in self.structs.items():
            out.append(f"struct v{tag}_{name} {{")
            for fld in st.fields:
                ctype = f"struct v{tag}_{fld.sub.name}" if fld.sub else C_TYPES[fld.kind]
                out.append(f"  {ctype} {fld.name}" + ("" if fld.count is None else f"[{fld.count}]") + ";")
            out.append("};")
        return "\n".join(out)

    def c_dump(self) -> str:
        tag = self.version.replace(".", "_")
        out = []
        for name, st in self.structs.items():
            out.append(f'  printf("{self.version} {name} %zu\\n", sizeof(struct v{tag}_{name}));')
            for fld in st.fields:
                out.append(
                    f'  printf("{self.version} {name}.{fld.name} %zu\\n", offsetof(struct v{tag}_{name}, {fld.name}));'
                )
        return "\n".join(out)

    def offsets(self) -> list[str]:
        out = []
        for name, st in self.structs.items():
            out.append(f"{self.version} {name} {st.size}")
            out.extend(f"{self.version} {name}.{f.name} {f.offset}" for f in st.fields)
        return out


def cstr(raw: bytes) -> bytes:
    """A C string: up to the first NUL or the field's width."""
    end = raw.find(b"\0")
    return raw if end < 0 else raw[:end]


def text(raw: bytes) -> str:
    """Text with undecodable bytes dropped."""
    return raw.decode("utf-8", errors="ignore")


_cache: dict[str, Layout] = {}


def layout(version: str) -> Layout:
    if version not in _cache:
        _cache[version] = Layout(version)
    return _cache[version]
