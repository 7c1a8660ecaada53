/* Small harness over the OpenCL API of liboclgrind-rt (used by a demonstration). */
#include <CL/cl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define EXPECT(x) do if (!(x)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #x); exit(1); } while (0)
static cl_platform_id platform; static cl_device_id device; static cl_context context; static cl_command_queue queue;
static void setup(void)
{
  cl_int e;
  EXPECT(clGetPlatformIDs(1, &platform, NULL) == CL_SUCCESS);
  EXPECT(clGetDeviceIDs(platform, CL_DEVICE_TYPE_ALL, 1, &device, NULL) == CL_SUCCESS);
  context = clCreateContext(NULL, 1, &device, NULL, NULL, &e);
  EXPECT(e == CL_SUCCESS && context);
  queue = clCreateCommandQueue(context, device, CL_QUEUE_PROFILING_ENABLE, &e);
  EXPECT(e == CL_SUCCESS && queue);
}
static cl_program build(const char *src)
{
  cl_int e; cl_program p = clCreateProgramWithSource(context, 1, &src, NULL, &e);
  EXPECT(e == CL_SUCCESS && p);
  EXPECT(clBuildProgram(p, 1, &device, "", NULL, NULL) == CL_SUCCESS);
  return p;
}
