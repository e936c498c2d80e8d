// Writes the OpenCL source and the build options the library passes to the OpenCL compiler, per configuration.
#include "clio.h"
#include <lib842/cl.h>
#include "clconfigs.h"
#include <string>
static std::string gSource, gOptions;
extern "C" cl_program CL_API_CALL clCreateProgramWithSource(cl_context c, cl_uint n, const char **s, const size_t *l, cl_int *e)
{
	static auto f = (decltype(&clCreateProgramWithSource))dlsym(RTLD_NEXT, "clCreateProgramWithSource");
	gSource.clear();
	for (cl_uint i = 0; i < n; i++) gSource += l && l[i] ? std::string(s[i], l[i]) : std::string(s[i]);
	return f(c, n, s, l, e);
}
extern "C" cl_int CL_API_CALL clBuildProgram(cl_program, cl_uint, const cl_device_id *, const char *o, void (CL_CALLBACK *)(cl_program, void *), void *)
{
	gOptions = o ? o : "";
	return CL_OUT_OF_RESOURCES; // seen what we wanted
}
int main(int argc, char **argv)
{
	if (argc < 2) return 2;
	snprintf(clio::dir, sizeof clio::dir, "%s", argv[1]);
	clio::mode = clio::BOTH_FAIL;
	for (unsigned i = 0; i < NUM_CFG; i++) {
		gSource.clear(); gOptions.clear();
		try { lib842::CLHostDecompressor d(cfgs[i].chunk, cfgs[i].stride, CL_FORMAT(cfgs[i]), false, false); } catch (const std::exception &) {}
		if (gSource.empty() || gOptions.empty()) { fprintf(stderr, "no program seen\n"); return 3; }
		std::string b = std::string(argv[1]) + "/k" + std::to_string(i);
		FILE *f = fopen((b + ".src").c_str(), "w"); if (!f) return 4;
		fwrite(gSource.data(), 1, gSource.size(), f); fclose(f);
		f = fopen((b + ".opt").c_str(), "w"); if (!f) return 4;
		fwrite(gOptions.data(), 1, gOptions.size(), f); fclose(f);
	}
	return 0;
}
