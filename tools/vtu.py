"""Reads the fields of a (collection of) vtu files written by deal.II."""
import re, zlib, base64, struct

def decode(text):
    text = text.strip()
    first = base64.b64decode(text[:8])
    nblocks = struct.unpack('<I', base64.b64decode(text[:8])[:4])[0] if len(first) >= 4 else 0
    if not nblocks:
        return b''
    hlen = 4 * (3 + nblocks)
    henc = (hlen + 2) // 3 * 4
    head = struct.unpack('<%dI' % (3 + nblocks), base64.b64decode(text[:henc])[:hlen])
    data = base64.b64decode(text[henc:])
    out, pos = b'', 0
    for size in head[3:]:
        out += zlib.decompress(data[pos:pos + size])
        pos += size
    return out

def read(path):
    """{field: list of values} with the points under 'points'"""
    text = open(path, 'rb').read().decode('latin1')
    res = {}
    for m in re.finditer(r'<DataArray type="(\w+)"([^>]*)>(.*?)</DataArray>', text, re.S):
        kind, attr, body = m.groups()
        name = re.search(r'Name="([^"]*)"', attr)
        name = name.group(1) if name else 'points'
        if 'ascii' in attr:
            continue
        raw = decode(body)
        if kind == 'Float32':
            vals = struct.unpack('<%df' % (len(raw) // 4), raw)
        elif kind == 'Float64':
            vals = struct.unpack('<%dd' % (len(raw) // 8), raw)
        else:
            continue
        res.setdefault(name, []).extend(vals)
    return res


def time_of(path):
    """simulation time of an output file"""
    text = open(path, 'rb').read().decode('latin1')
    m = re.search(r'Name="TIME"[^>]*>([^<]*)<', text)
    return float(m.group(1)) if m else None
