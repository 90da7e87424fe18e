"""Access to the code under test.  Everything the drivers need to build and read
frames is written here independently of it."""
import os
import signal
import struct
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


def plain():
    """import modbus_tk as it is"""
    import logging
    logging.disable(logging.CRITICAL)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import modbus_tk
    assert os.path.realpath(modbus_tk.__file__).startswith(os.path.realpath(REPO) + os.sep), modbus_tk.__file__
    return modbus_tk


def virtual():
    """import modbus_tk over the stand-ins of vsched and vnet"""
    import vsched
    import vnet
    vsched.install(REPO)
    vnet.install()
    return plain()


def crc(data):
    reg = 0xffff
    for byte in bytes(data):
        reg ^= byte
        for _ in range(8):
            reg = (reg >> 1) ^ 0xa001 if reg & 1 else reg >> 1
    return struct.pack("<H", reg)


def rtu_frame(addr, pdu):
    data = struct.pack(">B", addr) + bytes(pdu)
    return data + crc(data)


def tcp_frame(tid, unit, pdu, proto=0, length=None):
    return struct.pack(">HHHB", tid, proto, len(pdu) + 1 if length is None else length, unit) + bytes(pdu)


def word(val):
    return struct.pack(">H", val & 0xffff)


def as_bytes(obj):
    """bytes sent by the code under test: None when it is nothing (None or empty)"""
    if obj is None:
        return None
    if isinstance(obj, str):
        obj = obj.encode("latin-1")
    obj = bytes(obj)
    return obj or None


class Hang(BaseException):
    """an operation did not end"""


def _alarm(signum, frame):
    raise Hang()


class Limit(object):
    """interrupts the main thread of an unmanaged worker after some seconds"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *args):
        signal.setitimer(signal.ITIMER_REAL, 0)


def ints(values):
    """observed values as a JSON list of small integers, or None when they are something else"""
    try:
        res = []
        for val in values:
            if isinstance(val, bool):
                val = int(val)
            if not isinstance(val, int) or abs(val) > 2000000000:
                return None
            res.append(val)
        return res
    except TypeError:
        return None
