"""Templates: encoding of texts with symbolic holes for the harness (see harness/common/rt.rs)."""
ASCII = bytes(range(128))
PRINT = bytes([9, 10, 13] + list(range(32, 127)))
IDENT = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-'
LOWER = b'abcdefghijklmnopqrstuvwxyz'
ALPHA = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
WS = b' \t\n\r'
def hole(c): return b'\x0e' + c.encode()      # class letter
def pick(g): return b'\x11' + g.encode()      # group letter
def T(s, **kw):
    """'⟦A⟧' a symbolic byte of class A, '⟪G⟫' a piece of group G"""
    if isinstance(s, bytes): return s
    b = s.encode()
    for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz':
        b = b.replace(f'⟦{c}⟧'.encode(), hole(c)).replace(f'⟪{c}⟫'.encode(), pick(c))
    return b
def cfg(templates, opts=(), classes=(), groups=()):
    """hex configuration; classes: byte strings for A, B, ..; groups: lists of templates for A, B, .."""
    b = bytes([len(opts)]) + bytes(opts) + bytes([len(classes)])
    for c in classes: b += bytes([len(c)]) + bytes(c)
    b += bytes([len(groups)])
    for g in groups:
        assert len(g) < 256
        b += bytes([len(g)])
        for p in g:
            p = T(p); assert len(p) < 256
            b += bytes([len(p)]) + p
    for t in templates: b += T(t) + b'\x0f'
    return b.hex()
def one_hole(text, cls='A', where=None, insert_only=False):
    """every substitution of one character and every insertion at one position by a hole"""
    b = text.encode()
    out = []
    for i in range(len(b) + 1):
        if i < len(b) and b[i] & 0xC0 == 0x80: continue
        if where and not where(b, i): continue
        out.append(b[:i] + hole(cls) + b[i:])
        if not insert_only and i < len(b) and b[i] < 0x80: out.append(b[:i] + hole(cls) + b[i + 1:])
    return out
