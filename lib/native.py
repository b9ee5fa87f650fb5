"""Native replay: runs the real compiled code (gcc shared objects) in a subprocess, with buffers on guarded pages.

Invoked as  python3 native.py  with a JSON job on stdin:
 {"so": path, "runs": [{"sym":..., "args":[{"k":"i","w":32,"v":5} | {"k":"b","bytes":hex,"align":16,"lo":0,"hi":n}]}]}
lo..hi: accessible byte range of the buffer; placement 'end' puts byte hi at the start of an inaccessible page,
'start' puts byte lo at the start of an accessible page preceded by an inaccessible page.
For each run prints one JSON line (flushed) so that a crash is attributable.
"""
import ctypes
import json
import mmap
import resource
import sys

PAGE = 4096


def setup():
    libc = ctypes.CDLL(None, use_errno=True)
    libc.mmap.restype = ctypes.c_void_p
    libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
    libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
    libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
    return libc


def main():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)
    except (ValueError, OSError):
        pass
    job = json.loads(sys.stdin.read())
    libc = setup()
    lib = ctypes.CDLL(job['so'])
    IT = {8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64, 1: ctypes.c_uint8}
    for run in job['runs']:
        print(json.dumps({'begin': run['id']}), flush=True)
        f = getattr(lib, run['sym'])
        f.restype = None
        cargs = []
        bufs = []
        maps = []
        for a in run['args']:
            if a['k'] == 'i':
                cargs.append(IT[a['w']](a['v']))
                continue
            if a['k'] == 's':
                # element cells at arbitrary byte offsets around one address; only their pages are accessible
                k = a['w'] // 8
                offs = [c[0] for c in a['cells']] or [0]
                lo = min(min(offs), 0) // PAGE * PAGE - PAGE
                hi = (max(max(offs), 0) + k + PAGE) // PAGE * PAGE + PAGE
                base = libc.mmap(None, hi - lo, 0, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000, -1, 0)
                if base in (None, 2 ** 64 - 1):
                    raise MemoryError('reservation of %d bytes failed' % (hi - lo))
                maps.append((base, hi - lo))
                p = base - lo
                for o, v in a['cells']:
                    pg = (p + o) // PAGE * PAGE
                    libc.mprotect(pg, PAGE, mmap.PROT_READ | mmap.PROT_WRITE)
                for o, v in a['cells']:
                    ctypes.memmove(p + o, v.to_bytes(k, 'little'), k)
                bufs.append((p, k, [c[0] for c in a['cells']], None))
                cargs.append(ctypes.c_void_p(p))
                continue
            data = bytes.fromhex(a['bytes'])
            lo, hi = a.get('lo', 0), a.get('hi', len(data))
            acc = max(hi - lo, 0)
            al = a.get('align', 1)
            npg = (acc + PAGE - 1) // PAGE + 1
            tot = (npg + 2) * PAGE
            base = libc.mmap(None, tot, 0, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS, -1, 0)
            maps.append((base, tot))
            rw = mmap.PROT_READ | mmap.PROT_WRITE
            if a.get('place', 'end') == 'end':
                endp = base + PAGE + npg * PAGE
                start = endp - acc          # address of byte lo
                p = start - lo
                # keep exact alignment
                while p % al:
                    p -= 1
                if al >= 1 and acc and p % (2 * al) == 0 and a.get('exact', True) and al > 1:
                    pass
            else:
                start = base + PAGE
                p = start - lo
                while p % al:
                    p += 1
            libc.mprotect(base + PAGE, npg * PAGE, rw)
            # write accessible bytes only
            if acc:
                ctypes.memmove(p + lo, data[lo:hi], acc)
            if a.get('ro'):
                libc.mprotect(base + PAGE, npg * PAGE, mmap.PROT_READ)
            bufs.append((p, lo, hi, data))
            cargs.append(ctypes.c_void_p(p))
        f(*cargs)
        outs = []
        for (p, lo, hi, data) in bufs:
            if data is None:
                outs.append([[o, int.from_bytes(ctypes.string_at(p + o, lo), 'little')] for o in hi])
                continue
            d = bytearray(data)
            if hi > lo:
                d[lo:hi] = ctypes.string_at(p + lo, hi - lo)
            outs.append(bytes(d).hex())
        print(json.dumps({'id': run['id'], 'outs': outs}), flush=True)
        for b, t in maps:
            libc.munmap(b, t)


if __name__ == '__main__':
    main()
