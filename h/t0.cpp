#include "lib.h"
extern "C" void harness() {
  uint64_t sb = sym_concretize(sym_u64("start", 0, 7));
  S d = "VERSION \"1.2\"\n\nBO_ 100 M1: 8 N1\n";
  for (int l = 1; l <= NSIG; l++) if (sb + l <= 64) d += " SG_ S" + num(l) + " : " + num(sb) + "|" + num(l) + "@1+ (1,0) [0|0] \"u\" N2\n";
  d += "\n";
  put("in.dbc", d);
  std::filesystem::create_directory("out");
  gen(d);
  ccdriver("drv");
  S shim = "#include \"lib/drv.c\"\n" + size_shim("M1"); 
  for (int l = 1; l <= NSIG; l++) if (sb + l <= 64) shim += field_shim("M1", "S" + num(l), num(l));
  ccadd("shim.c", shim);
  uint64_t h = sym_cc_compile("shim.c", CCINC);
  sym_assert(h != 0, "compiles");
  auto sz = sym_as<int (*)()>(h, "sizeof_M1");
  void* m = malloc(sz());
  unsigned char* p = (unsigned char*)malloc(8); sym_bytes(p, 8, "d", 0, 255);
  sym_as<uint32_t (*)(void*, const uint8_t*, uint8_t)>(h, "Unpack_M1_drv")(m, p, 8);
  for (int l = 1; l <= NSIG; l++) if (sb + l <= 64) {
    uint64_t v = 0; for (int i = 0; i < l; i++) { int b = sb + i; v |= (uint64_t)((p[b / 8] >> (b % 8)) & 1) << i; }
    sym_assert(sym_as<uint64_t (*)(void*)>(h, ("get_" + num(l)).c_str())(m) == v, ("unpack " + num(l)).c_str());
  }
}
