"""ctypes binding to liboclgrind-rt.so (the runtime under test)."""
import ctypes as C
import os

vp = C.c_void_p
i32 = C.c_int32
u32 = C.c_uint32
u64 = C.c_uint64
sz = C.c_size_t

_lib = None
_libc = C.CDLL(None)


class CLError(Exception):
    def __init__(self, fn, code):
        self.fn = fn
        self.code = code
        Exception.__init__(self, "%s -> %d" % (fn, code))


def load(path):
    global _lib
    if _lib is None:
        _lib = C.CDLL(path)
        _decl()
    return _lib


EVCB = C.CFUNCTYPE(None, vp, i32, vp)
MEMCB = C.CFUNCTYPE(None, vp, vp)
NATIVE = C.CFUNCTYPE(None, vp)
NOTIFY = C.CFUNCTYPE(None, C.c_char_p, vp, sz, vp)
PROGCB = C.CFUNCTYPE(None, vp, vp)

_SIG = {
    # name: (restype, argtypes)
    'clGetPlatformIDs': (i32, [u32, vp, vp]),
    'clGetPlatformInfo': (i32, [vp, u32, sz, vp, vp]),
    'clGetDeviceIDs': (i32, [vp, u64, u32, vp, vp]),
    'clGetDeviceInfo': (i32, [vp, u32, sz, vp, vp]),
    'clCreateContext': (vp, [vp, u32, vp, vp, vp, vp]),
    'clCreateContextFromType': (vp, [vp, u64, vp, vp, vp]),
    'clRetainContext': (i32, [vp]),
    'clReleaseContext': (i32, [vp]),
    'clGetContextInfo': (i32, [vp, u32, sz, vp, vp]),
    'clSetContextDestructorCallback': (i32, [vp, vp, vp]),
    'clCreateCommandQueue': (vp, [vp, vp, u64, vp]),
    'clCreateCommandQueueWithProperties': (vp, [vp, vp, vp, vp]),
    'clRetainCommandQueue': (i32, [vp]),
    'clReleaseCommandQueue': (i32, [vp]),
    'clGetCommandQueueInfo': (i32, [vp, u32, sz, vp, vp]),
    'clCreateBuffer': (vp, [vp, u64, sz, vp, vp]),
    'clCreateBufferWithProperties': (vp, [vp, vp, u64, sz, vp, vp]),
    'clCreateSubBuffer': (vp, [vp, u64, u32, vp, vp]),
    'clCreateImage': (vp, [vp, u64, vp, vp, vp, vp]),
    'clCreateImageWithProperties': (vp, [vp, vp, u64, vp, vp, vp, vp]),
    'clCreateImage2D': (vp, [vp, u64, vp, sz, sz, sz, vp, vp]),
    'clCreateImage3D': (vp, [vp, u64, vp, sz, sz, sz, sz, sz, vp, vp]),
    'clRetainMemObject': (i32, [vp]),
    'clReleaseMemObject': (i32, [vp]),
    'clGetSupportedImageFormats': (i32, [vp, u64, u32, u32, vp, vp]),
    'clGetMemObjectInfo': (i32, [vp, u32, sz, vp, vp]),
    'clGetImageInfo': (i32, [vp, u32, sz, vp, vp]),
    'clSetMemObjectDestructorCallback': (i32, [vp, vp, vp]),
    'clCreateSampler': (vp, [vp, u32, u32, u32, vp]),
    'clCreateSamplerWithProperties': (vp, [vp, vp, vp]),
    'clRetainSampler': (i32, [vp]),
    'clReleaseSampler': (i32, [vp]),
    'clGetSamplerInfo': (i32, [vp, u32, sz, vp, vp]),
    'clCreateProgramWithSource': (vp, [vp, u32, vp, vp, vp]),
    'clCreateProgramWithBinary': (vp, [vp, u32, vp, vp, vp, vp, vp]),
    'clRetainProgram': (i32, [vp]),
    'clReleaseProgram': (i32, [vp]),
    'clBuildProgram': (i32, [vp, u32, vp, C.c_char_p, vp, vp]),
    'clCompileProgram': (i32, [vp, u32, vp, C.c_char_p, u32, vp, vp, vp, vp]),
    'clLinkProgram': (vp, [vp, u32, vp, C.c_char_p, u32, vp, vp, vp, vp]),
    'clGetProgramInfo': (i32, [vp, u32, sz, vp, vp]),
    'clGetProgramBuildInfo': (i32, [vp, vp, u32, sz, vp, vp]),
    'clCreateKernel': (vp, [vp, C.c_char_p, vp]),
    'clCreateKernelsInProgram': (i32, [vp, u32, vp, vp]),
    'clCloneKernel': (vp, [vp, vp]),
    'clRetainKernel': (i32, [vp]),
    'clReleaseKernel': (i32, [vp]),
    'clSetKernelArg': (i32, [vp, u32, sz, vp]),
    'clGetKernelInfo': (i32, [vp, u32, sz, vp, vp]),
    'clGetKernelArgInfo': (i32, [vp, u32, u32, sz, vp, vp]),
    'clGetKernelWorkGroupInfo': (i32, [vp, vp, u32, sz, vp, vp]),
    'clWaitForEvents': (i32, [u32, vp]),
    'clGetEventInfo': (i32, [vp, u32, sz, vp, vp]),
    'clCreateUserEvent': (vp, [vp, vp]),
    'clRetainEvent': (i32, [vp]),
    'clReleaseEvent': (i32, [vp]),
    'clSetUserEventStatus': (i32, [vp, i32]),
    'clSetEventCallback': (i32, [vp, i32, vp, vp]),
    'clGetEventProfilingInfo': (i32, [vp, u32, sz, vp, vp]),
    'clFlush': (i32, [vp]),
    'clFinish': (i32, [vp]),
    'clEnqueueReadBuffer': (i32, [vp, vp, u32, sz, sz, vp, u32, vp, vp]),
    'clEnqueueWriteBuffer': (i32, [vp, vp, u32, sz, sz, vp, u32, vp, vp]),
    'clEnqueueReadBufferRect': (i32, [vp, vp, u32, vp, vp, vp, sz, sz, sz, sz, vp, u32, vp, vp]),
    'clEnqueueWriteBufferRect': (i32, [vp, vp, u32, vp, vp, vp, sz, sz, sz, sz, vp, u32, vp, vp]),
    'clEnqueueCopyBuffer': (i32, [vp, vp, vp, sz, sz, sz, u32, vp, vp]),
    'clEnqueueCopyBufferRect': (i32, [vp, vp, vp, vp, vp, vp, sz, sz, sz, sz, u32, vp, vp]),
    'clEnqueueFillBuffer': (i32, [vp, vp, vp, sz, sz, sz, u32, vp, vp]),
    'clEnqueueFillImage': (i32, [vp, vp, vp, vp, vp, u32, vp, vp]),
    'clEnqueueReadImage': (i32, [vp, vp, u32, vp, vp, sz, sz, vp, u32, vp, vp]),
    'clEnqueueWriteImage': (i32, [vp, vp, u32, vp, vp, sz, sz, vp, u32, vp, vp]),
    'clEnqueueCopyImage': (i32, [vp, vp, vp, vp, vp, vp, u32, vp, vp]),
    'clEnqueueCopyImageToBuffer': (i32, [vp, vp, vp, vp, vp, sz, u32, vp, vp]),
    'clEnqueueCopyBufferToImage': (i32, [vp, vp, vp, sz, vp, vp, u32, vp, vp]),
    'clEnqueueMapBuffer': (vp, [vp, vp, u32, u64, sz, sz, u32, vp, vp, vp]),
    'clEnqueueMapImage': (vp, [vp, vp, u32, u64, vp, vp, vp, vp, u32, vp, vp, vp]),
    'clEnqueueUnmapMemObject': (i32, [vp, vp, vp, u32, vp, vp]),
    'clEnqueueMigrateMemObjects': (i32, [vp, u32, vp, u64, u32, vp, vp]),
    'clEnqueueNDRangeKernel': (i32, [vp, vp, u32, vp, vp, vp, u32, vp, vp]),
    'clEnqueueTask': (i32, [vp, vp, u32, vp, vp]),
    'clEnqueueNativeKernel': (i32, [vp, vp, vp, sz, u32, vp, vp, u32, vp, vp]),
    'clEnqueueMarkerWithWaitList': (i32, [vp, u32, vp, vp]),
    'clEnqueueBarrierWithWaitList': (i32, [vp, u32, vp, vp]),
    'clEnqueueMarker': (i32, [vp, vp]),
    'clEnqueueBarrier': (i32, [vp]),
    'clEnqueueWaitForEvents': (i32, [vp, u32, vp]),
    'clSetCommandQueueProperty': (i32, [vp, u64, u32, vp]),
    'clCreateSubDevices': (i32, [vp, vp, u32, vp, vp]),
    'clRetainDevice': (i32, [vp]),
    'clReleaseDevice': (i32, [vp]),
    'clCreateProgramWithBuiltInKernels': (vp, [vp, u32, vp, C.c_char_p, vp]),
    'clCreateProgramWithIL': (vp, [vp, vp, sz, vp]),
    'clUnloadPlatformCompiler': (i32, [vp]),
    'clUnloadCompiler': (i32, []),
    'clGetKernelSubGroupInfo': (i32, [vp, vp, u32, sz, vp, sz, vp, vp]),
    'clGetDeviceAndHostTimer': (i32, [vp, vp, vp]),
    'clGetHostTimer': (i32, [vp, vp]),
    'clSetDefaultDeviceCommandQueue': (i32, [vp, vp, vp]),
    'clSetKernelArgSVMPointer': (i32, [vp, u32, vp]),
    'clSetKernelExecInfo': (i32, [vp, u32, sz, vp]),
    'clEnqueueSVMFree': (i32, [vp, u32, vp, vp, vp, u32, vp, vp]),
    'clEnqueueSVMMemcpy': (i32, [vp, u32, vp, vp, sz, u32, vp, vp]),
    'clEnqueueSVMMemFill': (i32, [vp, vp, vp, sz, sz, u32, vp, vp]),
    'clEnqueueSVMMap': (i32, [vp, u32, u64, vp, sz, u32, vp, vp]),
    'clEnqueueSVMUnmap': (i32, [vp, vp, u32, vp, vp]),
    'clEnqueueSVMMigrateMem': (i32, [vp, u32, vp, vp, u64, u32, vp, vp]),
    'clCreatePipe': (vp, [vp, u64, u32, u32, vp, vp]),
    'clGetPipeInfo': (i32, [vp, u32, sz, vp, vp]),
    'clSetProgramSpecializationConstant': (i32, [vp, u32, sz, vp]),
    'clSetProgramReleaseCallback': (i32, [vp, vp, vp]),
}


def _decl():
    for n, (r, a) in _SIG.items():
        f = getattr(_lib, n)
        f.restype = r
        f.argtypes = a


def raw(name):
    return getattr(_lib, name)


def call(name, *a):
    """Call a cl_int-returning function, raising CLError on failure."""
    r = getattr(_lib, name)(*a)
    if r != 0:
        raise CLError(name, r)


def create(name, *a):
    """Call a constructor whose last argument is errcode_ret."""
    err = i32(-12345)
    r = getattr(_lib, name)(*a, C.byref(err))
    if err.value != 0 or not r:
        raise CLError(name, err.value)
    return r


def szarr(v):
    return (sz * len(v))(*v)


def parr(v):
    return (vp * len(v))(*v) if v else None


def device():
    p = vp()
    call('clGetPlatformIDs', 1, C.byref(p), None)
    d = vp()
    call('clGetDeviceIDs', p, 0xFFFFFFFF, 1, C.byref(d), None)
    return p.value, d.value


# ------------------------------------------------------------------ capture
class Capture:
    """Redirect fds 1 and 2 to anonymous files; C stdio is flushed around it."""

    def __enter__(self):
        _libc.fflush(None)
        self.f = [os.memfd_create('o'), os.memfd_create('e')]
        self.save = [os.dup(1), os.dup(2)]
        os.dup2(self.f[0], 1)
        os.dup2(self.f[1], 2)
        self.out = self.err = b''
        return self

    def peek(self):
        _libc.fflush(None)
        r = []
        for f in self.f:
            n = os.fstat(f).st_size
            r.append(os.pread(f, n, 0))
        return r

    def __exit__(self, *a):
        _libc.fflush(None)
        self.out, self.err = self.peek()
        for k, fd in ((0, 1), (1, 2)):
            os.dup2(self.save[k], fd)
            os.close(self.save[k])
            os.close(self.f[k])
        self.stdout = self.out.decode('latin1')
        self.stderr = self.err.decode('latin1')
        if a[1] is not None:
            a[1].captured = (self.stdout + self.stderr)[-3000:]
        return False


ENV_KEYS = ['OCLGRIND_INST_COUNTS', 'OCLGRIND_DATA_RACES',
            'OCLGRIND_UNIFORM_WRITES', 'OCLGRIND_UNINITIALIZED',
            'OCLGRIND_INTERACTIVE', 'OCLGRIND_PLUGINS', 'OCLGRIND_LOG',
            'OCLGRIND_MAX_ERRORS', 'OCLGRIND_CHECK_API',
            'OCLGRIND_BUILD_OPTIONS', 'OCLGRIND_NUM_THREADS',
            'OCLGRIND_QUICK', 'OCLGRIND_DUMP_SPIR',
            'OCLGRIND_DISABLE_PCH', 'OCLGRIND_COMPUTE_UNITS',
            'OCLGRIND_STOP_ERRORS', 'OCLGRIND_ARCH']


def setenv(**kw):
    """Set exactly the given OCLGRIND_* options, clearing all the others."""
    for k in ENV_KEYS:
        os.environ.pop(k, None)
    # the limit counts the messages of the whole process, many cases here
    kw.setdefault('MAX_ERRORS', 1000000000)
    for k, v in kw.items():
        if v is not None and v is not False:
            os.environ['OCLGRIND_' + k] = '1' if v is True else str(v)


# ------------------------------------------------------------------ helpers
class BuildError(Exception):
    pass


class Ctx:
    """A context + in-order queue with convenience wrappers."""

    def __init__(self, notify=None, props=0):
        self.plat, self.dev = device()
        d = (vp * 1)(self.dev)
        self.ctx = create('clCreateContext', None, 1, d, notify, None)
        self.q = create('clCreateCommandQueue', self.ctx, self.dev, props)
        self.objs = []

    def queue(self, props=0):
        return create('clCreateCommandQueue', self.ctx, self.dev, props)

    def close(self):
        for rel, o in reversed(self.objs):
            raw(rel)(o)
        self.objs = []
        raw('clReleaseCommandQueue')(self.q)
        raw('clReleaseContext')(self.ctx)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def buffer(self, size, data=None, flags=1):
        p = None
        if data is not None:
            data = bytes(data)
            assert len(data) == size
            p = C.cast(C.c_char_p(data), vp)
            flags |= 32
        b = create('clCreateBuffer', self.ctx, flags, size, p)
        self.objs.append(('clReleaseMemObject', b))
        return b

    def read(self, buf, size, offset=0):
        out = C.create_string_buffer(size)
        call('clEnqueueReadBuffer', self.q, buf, 1, offset, size, out, 0, None, None)
        return out.raw

    def write(self, buf, data, offset=0):
        data = bytes(data)
        call('clEnqueueWriteBuffer', self.q, buf, 1, offset, len(data),
             C.cast(C.c_char_p(data), vp), 0, None, None)

    def program(self, src, options=''):
        if isinstance(src, str):
            src = src.encode()
        s = (C.c_char_p * 1)(src)
        p = create('clCreateProgramWithSource', self.ctx, 1, s, None)
        self.objs.append(('clReleaseProgram', p))
        r = raw('clBuildProgram')(p, 0, None, options.encode(), None, None)
        if r != 0:
            raise BuildError('build failed (%d): %s' % (r, self.buildlog(p)))
        return p

    def buildlog(self, p):
        n = sz()
        raw('clGetProgramBuildInfo')(p, self.dev, 0x1183, 0, None, C.byref(n))
        b = C.create_string_buffer(n.value + 1)
        raw('clGetProgramBuildInfo')(p, self.dev, 0x1183, n.value, b, None)
        return b.value.decode('latin1')

    def kernel(self, prog, name):
        k = create('clCreateKernel', prog, name.encode())
        self.objs.append(('clReleaseKernel', k))
        return k

    def setargs(self, k, args):
        """args: ('m', mem) | ('b', bytes) | ('l', size) | ('s', sampler)"""
        for i, (t, v) in enumerate(args):
            if t in 'ms':
                h = vp(v)
                call('clSetKernelArg', k, i, 8, C.byref(h))
            elif t == 'l':
                call('clSetKernelArg', k, i, v, None)
            else:
                call('clSetKernelArg', k, i, len(v), C.cast(C.c_char_p(bytes(v)), vp))

    def ndrange(self, k, gsize, lsize=None, offset=None, finish=True):
        call('clEnqueueNDRangeKernel', self.q, k, len(gsize),
             szarr(offset) if offset else None, szarr(gsize),
             szarr(lsize) if lsize else None, 0, None, None)
        if finish:
            call('clFinish', self.q)
