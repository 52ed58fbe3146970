"""Minimal protobuf runtime: schema-driven messages with presence, repeated fields, oneofs, wire format."""
import struct, copy

class Repeated(list):
    def __init__(self, cls=None, it=()): self._cls = cls; list.__init__(self, it)
    def add(self, **kw):
        m = self._cls(**kw); self.append(m); return m
    def extend(self, it):
        for v in it: self.append(copy.deepcopy(v) if isinstance(v, Message) else v)
    def CopyFrom(self, o): del self[:]; self.extend(o)
    def MergeFrom(self, o): self.extend(o)
    def __deepcopy__(self, memo): return Repeated(self._cls, [copy.deepcopy(v, memo) for v in self])

DEFAULTS = {"int64": 0, "int32": 0, "uint64": 0, "enum": 0, "float": 0.0, "double": 0.0, "string": "", "bytes": b""}

class Message(object):
    FIELDS = {}      # name -> (number, type or Message class, repeated, packed)
    ONEOF = {}       # group -> names
    def __init__(self, **kw):
        object.__setattr__(self, "_v", {})
        for k, v in kw.items():
            num, t, rep = self.FIELDS[k][:3]
            if rep: getattr(self, k).extend(v)
            elif isinstance(t, type): getattr(self, k).CopyFrom(v)
            else: setattr(self, k, v)
    def __getattr__(self, n):
        if n not in type(self).FIELDS: raise AttributeError(n)
        if n in self._v: return self._v[n]
        num, t, rep = self.FIELDS[n][:3]
        if rep: self._v[n] = Repeated(t if isinstance(t, type) else None); return self._v[n]
        if isinstance(t, type):
            m = t(); self._v[n] = m; return m
        return DEFAULTS[t]
    def __setattr__(self, n, v):
        if n not in type(self).FIELDS: raise AttributeError("Assignment not allowed (no field %r)" % n)
        num, t, rep = self.FIELDS[n][:3]
        if rep or isinstance(t, type): raise AttributeError("Assignment not allowed to repeated or message field %r" % n)
        if t == "float": v = struct.unpack("f", struct.pack("f", v))[0]
        elif t in ("int64", "int32", "enum", "uint64"): v = int(v)
        elif t == "string" and isinstance(v, bytes): v = v.decode()
        elif t == "bytes" and isinstance(v, str): v = v.encode()
        for g, names in self.ONEOF.items():
            if n in names:
                for o in names: self._v.pop(o, None)
        self._v[n] = v
    def _present(self, n):
        if n not in self._v: return False
        v = self._v[n]
        if isinstance(v, Repeated): return len(v) > 0
        if isinstance(v, Message): return any(v._present(k) for k in v._v) or v.__dict__.get("_set", False)
        return True
    def HasField(self, n):
        if n not in self.FIELDS or self.FIELDS[n][2]: raise ValueError("no singular field %r" % n)
        return self._present(n)
    def ClearField(self, n): self._v.pop(n, None)
    def Clear(self): self._v.clear()
    def WhichOneof(self, g):
        for n in self.ONEOF[g]:
            if self._present(n): return n
        return None
    def ListFields(self): return [(k, self._v[k]) for k in self.FIELDS if self._present(k)]
    def CopyFrom(self, o):
        self._v.clear()
        for k, v in o._v.items(): self._v[k] = copy.deepcopy(v)
        self.__dict__["_set"] = True
    def MergeFrom(self, o): self.ParseFromString(o.SerializeToString(), merge=True)
    def IsInitialized(self): return True
    def __deepcopy__(self, memo):
        m = type(self)()
        for k, v in self._v.items(): m._v[k] = copy.deepcopy(v, memo)
        if self.__dict__.get("_set"): m.__dict__["_set"] = True
        return m
    def __eq__(self, o): return type(self) == type(o) and self.SerializeToString() == o.SerializeToString()
    def __ne__(self, o): return not self == o
    __hash__ = object.__hash__
    def __repr__(self): return "%s(%s)" % (type(self).__name__, ", ".join("%s=%r" % kv for kv in self.ListFields()))
    # ---- wire format
    def SerializeToString(self):
        out = []
        for n, f in sorted(self.FIELDS.items(), key=lambda kv: kv[1][0]):
            if not self._present(n): continue
            num, t, rep = f[:3]; packed = len(f) > 3 and f[3]
            vals = self._v[n] if rep else [self._v[n]]
            if rep and packed:
                b = b"".join(_scalar(t, v) for v in vals)
                out.append(_varint(num << 3 | 2) + _varint(len(b)) + b); continue
            for v in vals:
                if isinstance(t, type): b = v.SerializeToString(); out.append(_varint(num << 3 | 2) + _varint(len(b)) + b)
                elif t in ("string", "bytes"):
                    b = v.encode() if isinstance(v, str) else bytes(v); out.append(_varint(num << 3 | 2) + _varint(len(b)) + b)
                else: out.append(_varint(num << 3 | {"float": 5, "double": 1}.get(t, 0)) + _scalar(t, v))
        return b"".join(out)
    def ParseFromString(self, data, merge=False):
        if not merge: self._v.clear()
        by = {f[0]: (n,) + tuple(f) for n, f in self.FIELDS.items()}
        i, data = 0, memoryview(data)
        while i < len(data):
            key, i = _rd(data, i); num, wt = key >> 3, key & 7
            if wt == 0: raw, i = _rd(data, i)
            elif wt == 1: raw = bytes(data[i:i + 8]); i += 8
            elif wt == 5: raw = bytes(data[i:i + 4]); i += 4
            elif wt == 2:
                ln, i = _rd(data, i)
                if i + ln > len(data): raise ValueError("truncated message")
                raw = data[i:i + ln]; i += ln
            else: raise ValueError("bad wire type %d" % wt)
            if num not in by: continue
            n, _, t, rep = by[num][:4]
            if isinstance(t, type):
                m = t(); m.ParseFromString(raw); m.__dict__["_set"] = True
                if rep: getattr(self, n).append(m)
                else: self._v[n] = m
            elif t in ("string", "bytes"):
                v = bytes(raw); v = v.decode() if t == "string" else v
                if rep: getattr(self, n).append(v)
                else: setattr(self, n, v)
            else:
                if wt == 2:
                    if t in ("float", "double"):
                        c, s = ("f", 4) if t == "float" else ("d", 8)
                        vals = struct.unpack("<%d%s" % (len(raw) // s, c), raw)
                    else:
                        vals, j = [], 0
                        while j < len(raw): v, j = _rd(raw, j); vals.append(_sign(v))
                elif wt == 0: vals = [_sign(raw)]
                else: vals = [struct.unpack("<f" if wt == 5 else "<d", raw)[0]]
                if rep: list.extend(getattr(self, n), vals)
                else: setattr(self, n, vals[-1])
        return len(data)
    @classmethod
    def FromString(cls, b): m = cls(); m.ParseFromString(b); return m

def _varint(v):
    v &= (1 << 64) - 1; out = bytearray()
    while v > 127: out.append(v & 127 | 128); v >>= 7
    out.append(v); return bytes(out)
def _rd(d, i):
    v = s = 0
    while True:
        if i >= len(d): raise ValueError("truncated varint")
        b = d[i]; i += 1; v |= (b & 127) << s; s += 7
        if b < 128: return v, i
def _sign(v): return v - (1 << 64) if v >= 1 << 63 else v
def _scalar(t, v): return struct.pack("<f", v) if t == "float" else struct.pack("<d", v) if t == "double" else _varint(v)
