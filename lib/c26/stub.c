/* An OpenCL library with no platforms. */
int clGetPlatformIDs() { return -1001; }
int clGetDeviceIDs() { return -1001; }
int clGetDeviceInfo() { return -1001; }
int clCreateContext() { return -1001; }
int clReleaseContext() { return -1001; }
int clCreateCommandQueue() { return -1001; }
int clReleaseCommandQueue() { return -1001; }
int clCreateBuffer() { return -1001; }
int clReleaseMemObject() { return -1001; }
int clCreateProgramWithSource() { return -1001; }
int clReleaseProgram() { return -1001; }
int clBuildProgram() { return -1001; }
int clGetProgramBuildInfo() { return -1001; }
int clCreateKernel() { return -1001; }
int clReleaseKernel() { return -1001; }
int clSetKernelArg() { return -1001; }
int clEnqueueNDRangeKernel() { return -1001; }
int clEnqueueReadBuffer() { return -1001; }
int clEnqueueWriteBuffer() { return -1001; }
int clFinish() { return -1001; }
