"""The GPU side: forcepho's CUDA kernel compiled as C++ and run by a controlled scheduler
(emul.cc), and a stand-in for pycuda whose device memory is checked on every use."""
import ctypes
import hashlib
import os
import re
import subprocess
import sys
import types

import numpy as np

from .. import env

HERE = os.path.dirname(os.path.abspath(__file__))


class KernelError(Exception):
    """the kernel misbehaved on the device"""


class Out(ctypes.Structure):
    _fields_ = [("p", ctypes.c_void_p), ("type", ctypes.c_int), ("n", ctypes.c_int), ("ref", ctypes.c_void_p), ("tol", ctypes.c_void_p)]


class Stats(ctypes.Structure):
    _fields_ = [(n, ctypes.c_long) for n in ("runs", "choices", "access", "atomics", "barriers", "warps", "widest", "cut")] + [("msg", ctypes.c_char * 512)]


_LIBS = {}


def translate(text):
    """CUDA spelling that has no C++ equivalent"""
    return re.sub(r"extern\s+__shared__\s+([^;\[]*?)(\w+)\s*\[\s*\]\s*;", r"\1 * const \2 = (\1 *)emu_shared;", text)


def build(source, include_dirs):
    """compile kernel text; returns the library"""
    h = hashlib.sha256(source.encode())
    for d in include_dirs:
        if os.path.basename(d.rstrip("/")) != "src":
            continue
        for f in sorted(os.listdir(d)):
            if not f.endswith(".so") and os.path.isfile(os.path.join(d, f)):
                h.update(f.encode() + open(os.path.join(d, f), "rb").read())
    for f in ("emul.cc", "cuda_emul.hh"):
        h.update(open(os.path.join(HERE, f), "rb").read())
    key = h.hexdigest()[:16]
    if key in _LIBS:
        return _LIBS[key]
    out = os.path.join(env.BUILD, "gpu-" + key)
    so = os.path.join(out, "gpu.so")
    if not os.path.exists(so):
        os.makedirs(out, exist_ok=True)
        t = f".{os.getpid()}"
        src = os.path.join(out, f"kernel{t}.cc")
        with open(src, "w") as f:
            f.write('#include "cuda_emul.hh"\n' + translate(source))
        obj = src + ".o"
        inc = ["-I" + HERE] + ["-I" + d for d in include_dirs]
        cmds = [["g++", "-O1", "-std=c++14", "-fPIC", "-w", "-fno-exceptions", "-fno-weak", "-fsanitize=thread", *inc, "-c", src, "-o", obj],
                ["g++", "-O2", "-std=c++14", "-fPIC", "-w", "-c", os.path.join(HERE, "emul.cc"), "-o", obj + "2"],
                ["g++", "-shared", "-Wl,-Bsymbolic", obj, obj + "2", "-o", so + t, "-ldl", "-lm"]]
        for c in cmds:
            r = subprocess.run(c, capture_output=True, text=True)
            if r.returncode:
                sys.stderr.write(r.stderr[-4000:])
                raise RuntimeError("the GPU kernel does not compile")
        os.replace(so + t, so)
        for f in (src, obj, obj + "2"):
            os.remove(f)
    lib = ctypes.CDLL(so)
    _LIBS[key] = lib
    return lib


def explore(lib, name, args, grid, block, shared, regions, outs, delays=-1, maxruns=10**6, order=0, focus=-1):
    """args: addresses; regions: (address, bytes, writable); outs: (array, reference, tolerance)"""
    keep = []
    O = (Out * max(len(outs), 1))()
    for k, (a, ref, tol) in enumerate(outs):
        r = np.ascontiguousarray(np.broadcast_to(ref, a.shape), dtype=float)
        t = np.ascontiguousarray(np.broadcast_to(tol, a.shape), dtype=float)
        keep += [r, t]
        assert a.dtype in (np.float32, np.float64) and a.flags.c_contiguous
        O[k] = Out(a.ctypes.data, int(a.dtype == np.float64), a.size, r.ctypes.data, t.ctypes.data)
    R = (ctypes.c_size_t * (3 * len(regions)))(*[int(v) for r in regions for v in r])
    A = (ctypes.c_void_p * 8)(*([int(a) for a in args] + [0] * (8 - len(args))))
    st = Stats()
    rc = lib.emu_explore(name.encode(), A, int(grid), int(block), int(shared), R, len(regions), O, len(outs), int(delays), ctypes.c_long(maxruns), int(order), int(focus), ctypes.byref(st))
    if rc == 2:
        raise RuntimeError(st.msg.decode())
    return rc, st


# ---- a stand-in for pycuda -----------------------------------------------------------------

class LogicError(Exception):
    """what pycuda raises"""


class Memory:
    """device memory: live allocations by address; freed memory is poisoned and never handed out again"""
    live = {}
    held = []
    total = 0


class DeviceAllocation:
    def __init__(self, n):
        if n <= 0:
            raise LogicError("cuMemAlloc failed: invalid argument")
        self._buf = np.full(n + 64, 0xA5, dtype=np.uint8)
        off = -self._buf.ctypes.data % 64
        self.mem = self._buf[off:off + n]
        self.address = self.mem.ctypes.data
        self.nbytes = n
        self.valid = True
        Memory.live[self.address] = self.mem
        Memory.held.append(self._buf)
        Memory.total += 1

    def free(self):
        if not self.valid:
            raise LogicError("device_allocation::free failed: invalid device pointer - trying to free twice")
        self.valid = False
        Memory.live.pop(self.address, None)
        self.mem[:] = 0xFF

    def __int__(self):
        if not self.valid:
            raise LogicError("cannot use a freed device allocation")
        return self.address

    __index__ = __int__

    def __del__(self):
        if getattr(self, "valid", False):
            self.free()


def _bytes(obj):
    a = np.asarray(obj)
    if not a.flags.c_contiguous:
        raise ValueError("ndarray is not C-contiguous")
    return np.frombuffer(a.tobytes(), dtype=np.uint8)


def _at(ptr, n):
    a = int(ptr)
    for s, m in Memory.live.items():
        if s <= a and a + n <= s + m.nbytes:
            return m[a - s:a - s + n]
    raise LogicError("memcpy failed: invalid argument (no such device memory)")


def mem_alloc(n):
    return DeviceAllocation(int(n))


def memcpy_htod(dest, src):
    b = _bytes(src)
    _at(dest, b.nbytes)[:] = b


def memcpy_dtoh(dest, src):
    dest.view(np.uint8).reshape(-1)[:] = _at(src, dest.nbytes)


def memcpy_dtod(dest, src, size):
    _at(dest, size)[:] = _at(src, size).copy()


def to_device(obj):
    b = _bytes(obj)
    d = DeviceAllocation(b.nbytes)
    d.mem[:] = b
    return d


def from_device(devptr, shape, dtype, order="C"):
    out = np.empty(shape, dtype=dtype, order=order)
    out.reshape(-1).view(np.uint8)[:] = _at(devptr, out.nbytes)
    return out


def from_device_like(devptr, other):
    return from_device(devptr, other.shape, other.dtype)


class _Arg:
    def __init__(self, array):
        self.array = array


class In(_Arg):
    get, put = True, False


class Out_(_Arg):
    get, put = False, True


class InOut(_Arg):
    get, put = True, True


class Device:
    """what the last launch was, and how launches are explored"""
    delays, order, only = 0, 0, None     # only: addresses the kernel may write to (None: any)
    focus = -1
    expect = None                        # outputs -> [(array, reference, tolerance)], judged after every schedule
    stats = None


class Function:
    def __init__(self, lib, name):
        self.lib, self.name = lib, name

    def __call__(self, *args, grid=(1, 1), block=(1, 1, 1), shared=0, **kw):
        addr, temp, back, plain = [], [], [], set()
        for a in args:
            if isinstance(a, _Arg):
                d = DeviceAllocation(a.array.nbytes)
                if a.get:
                    d.mem[:] = _bytes(a.array)
                temp.append(d)
                if a.put:
                    back.append((a.array, d))
                addr.append(d.address)
            else:
                addr.append(int(a))
                if len(addr) > 2:            # neither the patch nor the proposal
                    plain.add(int(a))
        if block[0] < 1 or block[0] * block[1] * block[2] > 1024:
            raise LogicError("cuLaunchKernel failed: invalid argument")
        if shared > 49152:
            raise LogicError("cuFuncSetBlockShape failed: too much shared memory")
        may = None if Device.only is None else set(Device.only()) | {d.address for _, d in back} | plain
        regions = [(a, m.nbytes, 1 if may is None or a in may else 0) for a, m in Memory.live.items()]
        outs = Device.expect([d for _, d in back]) if Device.expect else []
        rc, st = explore(self.lib, self.name, addr, grid[0], block[0], shared, regions, outs, delays=Device.delays, order=Device.order,
                         focus=Device.focus)
        Device.stats = st
        if rc:
            raise KernelError(st.msg.decode())
        for arr, d in back:
            arr.reshape(-1).view(np.uint8)[:] = d.mem


    def prepare(self, arg_types, **kw):
        return self

    def prepared_call(self, grid, block, *args, shared_size=0, **kw):
        return self(*args, grid=grid, block=block, shared=shared_size)

    def set_cache_config(self, *a):
        pass

    set_attribute = set_shared_config = set_cache_config


class Context:
    @staticmethod
    def synchronize():
        pass

    @staticmethod
    def set_cache_config(*a):
        pass


class Event:
    def __init__(self, *a):
        pass

    def record(self, *a):
        return self

    def synchronize(self):
        return self

    def time_since(self, other):
        return 1.0

    time_till = time_since


def memset_d8(dest, data, count):
    _at(dest, count)[:] = data


def memset_d32(dest, data, count):
    _at(dest, 4 * count)[:] = np.frombuffer(np.full(count, data, dtype=np.uint32).tobytes(), dtype=np.uint8)


def pagelocked_empty(shape, dtype, order="C", mem_flags=0):
    return np.empty(shape, dtype=dtype, order=order)


def pagelocked_zeros(shape, dtype, order="C", mem_flags=0):
    return np.zeros(shape, dtype=dtype, order=order)


class SourceModule:
    def __init__(self, source, nvcc="nvcc", options=None, keep=False, no_extern_c=False, arch=None, code=None, cache_dir=None,
                 include_dirs=[]):
        self.lib = build(source, list(include_dirs))

    def get_function(self, name):
        return Function(self.lib, name)


def install():
    """put the stand-in where forcepho looks for pycuda (before it is imported)"""
    if "forcepho" in sys.modules:
        raise RuntimeError("too late")
    p, d, c, ai = (types.ModuleType(n) for n in ("pycuda", "pycuda.driver", "pycuda.compiler", "pycuda.autoinit"))
    for n in ("mem_alloc", "to_device", "from_device", "from_device_like", "memcpy_htod", "memcpy_dtoh", "memcpy_dtod", "In", "InOut",
              "DeviceAllocation", "LogicError", "Context", "Event", "memset_d8", "memset_d32", "pagelocked_empty", "pagelocked_zeros"):
        setattr(d, n, globals()[n])
    d.Out, d.Error, d.init = Out_, LogicError, lambda: None
    c.SourceModule = SourceModule
    p.driver, p.compiler, p.autoinit, p.VERSION = d, c, ai, (2022, 1)
    for m in (p, d, c, ai):
        sys.modules[m.__name__] = m
