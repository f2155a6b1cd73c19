ID='c15-write-default-slice-pitch'
PROP='C15'
EDITS=[('src/runtime/runtime.cpp','    input_slice_pitch = pixel_region[1] * input_row_pitch;\n','    input_slice_pitch = pixel_region[1] * pixel_region[0];\n')]
NEEDS='a write of several slices with a row pitch larger than the row and no slice pitch'
BREAKS='slices after the first are taken from the wrong place in host memory'
DEMO=r'''
with rt.Ctx() as c:
    L = rt.load() if False else None
    fmt = struct.pack('<II', 0x10B5, 0x10DA)      # CL_RGBA, CL_UNSIGNED_INT8
    desc = struct.pack('<IIQQQQQQIIQ', 0x10F2, 0, 2, 3, 2, 0, 0, 0, 0, 0, 0)   # CL_MEM_OBJECT_IMAGE3D
    img = rt.create('clCreateImage', c.ctx, C.c_uint64(1), fmt, desc, None)
    rp = 13
    host = bytes(i % 251 for i in range(rp * 3 * 2))
    rt.call('clEnqueueWriteImage', c.q, img, C.c_uint(1), rt.szarr([0, 0, 0]), rt.szarr([2, 3, 2]),
            C.c_size_t(rp), C.c_size_t(0), host, C.c_uint(0), None, None)
    out = C.create_string_buffer(48)
    rt.call('clEnqueueReadImage', c.q, img, C.c_uint(1), rt.szarr([0, 0, 0]), rt.szarr([2, 3, 2]),
            C.c_size_t(0), C.c_size_t(0), out, C.c_uint(0), None, None)
    want = b''.join(host[(z * 3 + y) * rp:(z * 3 + y) * rp + 8] for z in range(2) for y in range(3))
assert out.raw == want, (out.raw, want)
'''
