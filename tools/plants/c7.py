ID='c14-rect-host-slice-pitch'
PROP='C14'
EDITS=[('src/runtime/runtime.cpp','clEnqueueReadBufferRect(','host_slice_pitch = region[1] * host_row_pitch;','host_slice_pitch = region[1] * buffer_row_pitch;')]
NEEDS='clEnqueueReadBufferRect of several slices with a host row pitch that differs from that of the buffer and a host slice pitch of 0'
BREAKS='slices after the first are written to the wrong place in host memory'
DEMO=r'''
with rt.Ctx() as c:
    data = bytes(range(64))
    b = c.buffer(64, data)
    out = C.create_string_buffer(128)
    z = rt.szarr([0, 0, 0])
    # region 2x2x2; buffer rows of 4 bytes, host rows of 7 bytes
    rt.call('clEnqueueReadBufferRect', c.q, b, 1, z, z, rt.szarr([2, 2, 2]), 4, 16, 7, 0, out, 0, None, None)
    want = bytearray(128)
    for zz in range(2):
        for y in range(2):
            for x in range(2):
                want[zz * 14 + y * 7 + x] = data[zz * 16 + y * 4 + x]
    assert out.raw == bytes(want), out.raw[:40].hex()
'''
