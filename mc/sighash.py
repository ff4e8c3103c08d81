"""Reference signature hash, written from Bitcoin's definition on plain tuples (see mc.btc)"""
from mc import btc, script as S
from mc.ref import dsha

ONE = b'\1' + bytes(31)


def strip(code):
    """The code without code separators """
    return S.find_and_delete(code, b'\xab')


def sighash(code, tx, idx, hashtype):
    """(hash, whether input and output exist)"""
    version, vin, vout, lock = tx
    base, anyone = hashtype & 0x1f, bool(hashtype & 0x80)
    if idx >= len(vin) or (base == 3 and idx >= len(vout)):
        return ONE, False
    ins = []
    for k, (point, _, seq) in enumerate(vin):
        if k == idx:
            ins.append((point, strip(code), seq))
        elif not anyone:
            ins.append((point, b'', 0 if base in (2, 3) else seq))
    outs = list(vout)
    if base == 2:
        outs = []
    elif base == 3:
        outs = [(-1, b'')] * idx + [vout[idx]]
    return dsha(btc.tx((version, tuple(ins), tuple(outs), lock)) + btc.u32(hashtype)), True
