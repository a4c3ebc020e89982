"""Candidate texts for witnessing a difference between two parsers: well-formed texts of a grammar
and texts near them.  They only ever serve to exhibit an input on which two summaries differ."""
HEX = b'0123456789abcdef'

def hexes(r, n): return bytes(HEX[r(16)] for _ in range(n))
def near(r, b, sep=b':', e=None):
    """a text at a small distance of b"""
    b = bytearray(b)
    k = r(42)
    p = r(len(b)) if b else 0
    if k < 5: pass
    elif k == 5: del b[:1]
    elif k == 6: del b[-1:]
    elif k == 7: b += hexes(r, 1)
    elif k == 8: b[:0] = hexes(r, 1)
    elif k == 9: b += hexes(r, 2)
    elif k == 10: b[:0] = hexes(r, 2)
    elif k == 11: del b[-2:]
    elif k == 12: b = bytearray(bytes(b).upper())
    elif k == 13: b = bytearray(bytes(x - 32 if 97 <= x <= 122 and r(2) else x for x in b))
    elif k == 14 and b: b[p] = b'gGzZ/:@`-+ .\x00OoIl_,'[r(19)]
    elif k == 15: b[:0] = [b' ', b'0x', b'\t', b'+', b'-', b'00', b'"', b'_', b'h:'][r(9)]
    elif k == 16: b += [b' ', b'\n', b'00', b'0', b'\x00', b':', b'"', b'_', b'\r\n'][r(9)]
    elif k == 17: b[p:p] = sep
    elif k == 18: b[:0] = [b'h:', b'bid:', b'a:b:', b':', b'::', b'ed25519:', b'addr:', b'scoid:'][r(8)]
    elif k == 19 and len(b) > 2: 
        q = 'é²٣\u00a0\u2003ßA１'[r(8)].encode()
        q2 = min(p, len(b) - 2)
        b[q2:q2 + [len(q), 0, 1][r(3)]] = q
    elif k == 20 and b: b[p] = HEX[r(16)]
    elif k == 21 and len(b) > 1:
        q = r(len(b)); b[p], b[q] = b[q], b[p]
    elif k == 22: b = b[:p]
    elif k == 23: b = b[p:]
    elif k == 24: b = bytearray() if r(3) == 0 else b + b
    elif k == 25 and len(b) > 4:
        del b[p:p + 1]; b += b' '
    elif k == 26 and e is not None and e.smallpool:
        # a length the program tells apart
        n = e.smallpool[r(len(e.smallpool))]
        b = (b + hexes(r, max(n - len(b), 0)))[:n]
    elif k == 27 and e is not None and e.smallpool and r(2):
        # a character across a length the program tells apart
        n = e.smallpool[r(len(e.smallpool))]
        if 0 < n: b = (b + hexes(r, max(n + 4 - len(b), 0)))[:n - 1] + 'é²٣  ßA１'[r(8)].encode() + b[n + 1:]
    elif k in (38, 39):
        # one character throughout, of a length the program tells apart
        n = e.smallpool[r(len(e.smallpool))] if e is not None and e.smallpool and k == 38 else len(b)
        i = b.rfind(b':') + 1 if r(2) else 0
        b[i:] = b'00fF -aO'[r(8):][:1] * max(n - i, 0)
    elif k == 41:
        # a character that looks like another
        q = [i for i, x in enumerate(b) if x in b'01']
        if q:
            i = q[r(len(q))]; b[i] = (b'OoQ' if b[i] == 48 else b'lI|')[r(3)]
    elif k == 40 and b: b[p:p + 1] = b'OoIl_,;'[r(7):][:1]
    elif k >= 27 and e is not None and e.lits:
        # a text the program tells apart
        q = e.lits[r(len(e.lits))]
        q = q[:64]
        if k == 27: b[:0] = q
        elif k == 28: b += q
        else:
            p = [p, 0, len(q)][r(3)]
            b[p:p] = q
    return b

def text(*forms):
    """hint: one of the forms (functions of the random source), or a text near it"""
    def h(e, r):
        b = forms[r(len(forms))](e, r)
        b = near(r, b, e=e)
        if r(8) == 0: b = near(r, bytes(b), e=e)
        try: bytes(b).decode('utf-8')
        except UnicodeDecodeError: return None
        return list(b)
    return h
