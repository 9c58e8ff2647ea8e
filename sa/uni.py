"""Grapheme clusters of literal text, for the characters the checks use: combining marks, joiners, emoji sequences,
regional indicators and Hangul syllables; extended clusters also keep spacing marks."""
import unicodedata

def _kind(c):
    o = ord(c)
    if 0x1f1e6 <= o <= 0x1f1ff: return 'ri'
    if o == 0x200d: return 'zwj'
    if 0x1f3fb <= o <= 0x1f3ff or o == 0x200c or 0xe0020 <= o <= 0xe007f: return 'ext'
    if 0x1100 <= o <= 0x115f: return 'L'
    if 0x1160 <= o <= 0x11a7: return 'V'
    if 0x11a8 <= o <= 0x11ff: return 'T'
    if 0xac00 <= o <= 0xd7a3: return 'LV' if (o - 0xac00) % 28 == 0 else 'LVT'
    k = unicodedata.category(c)
    if k in ('Mn', 'Me'): return 'ext'
    if k == 'Mc': return 'sm'
    if k in ('Cc', 'Zl', 'Zp') or o == 0x200b or o == 0xfeff: return 'ctl'
    if o >= 0x1f000 or 0x2190 <= o <= 0x2bff: return 'pic'
    return 'other'

HANGUL = {('L', 'L'), ('L', 'V'), ('L', 'LV'), ('L', 'LVT'), ('LV', 'V'), ('LV', 'T'), ('V', 'V'), ('V', 'T'), ('LVT', 'T'), ('T', 'T')}
def clusters(s, extended=True):
    out = []; prev = None; ris = 0; pic = False
    for c in s:
        k = _kind(c)
        if prev is None: join = False
        elif out[-1] == '\r' and c == '\n': join = True
        elif prev == 'ctl' or k == 'ctl': join = False
        elif k in ('ext', 'zwj'): join = True
        elif k == 'sm': join = extended
        elif prev == 'zwj' and pic and k == 'pic': join = True
        elif prev == 'ri' and k == 'ri': join = ris % 2 == 1
        else: join = (prev, k) in HANGUL
        if join: out[-1] += c
        else: out.append(c); pic = False
        ris = ris + 1 if k == 'ri' else 0
        pic = k == 'pic' or pic and k in ('ext', 'zwj')
        prev = k
    return out
